package readability

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		n := 0
		hide := 4 + g.Intn(12)
		every := func(m *mnode) {
			if genVoid[m.tag] {
				return
			}
			if g.one(5) {
				m.set("class", g.pick("content", "fallback-image", "comment", "main"))
			}
			if g.one(10) {
				// not hidden
				m.set(g.pick("aria-hidden", "style", "role", "aria-modal"), g.pick("false", "display:block", "x", ""))
			}
			if !g.one(hide) {
				return
			}
			switch g.Intn(7) {
			case 0:
				m.set("style", g.pick("display:none", " display : none ;", "color:red;display:none", "display:none;color:red", "visibility:visible; display: none"))
			case 1:
				m.set("style", g.pick("visibility:hidden", "display:block;visibility: hidden ", "color:x;visibility:hidden;"))
			case 2:
				m.set("hidden", g.pick("", "hidden", "false"))
			case 3:
				m.set("aria-hidden", "true")
				m.set("class", g.pick("", "image", "fallback"))
			case 4:
				m.set("aria-modal", "true")
				m.set("role", "dialog")
			case 5:
				m.set("aria-hidden", "true")
				m.set("style", "display:none")
				m.set("class", "fallback-image")
			case 6:
				m.set("hidden", "")
				m.set("class", "fallback-image")
			}
			n++
			if g.one(6) {
				// looks like the name of the author
				m.kids = nil
				switch g.Intn(3) {
				case 0:
					if c, _ := m.attr("class"); !strings.Contains(c, "fallback-image") {
						m.set("class", g.pick("byline", "article-author", "p-author"))
					} else {
						m.set("class", c+" byline")
					}
				case 1:
					m.set("rel", "author")
				case 2:
					m.set("itemprop", "author name")
				}
				m.add(mt(fmt.Sprintf("By HIDDENTEXT%d", n)))
				return
			}
			m.add(mt(fmt.Sprintf(" HIDDENTEXT%d ", n)))
			if g.one(2) {
				m.add(me("p", mt("HIDDENTEXT "+g.longText())))
			}
		}
		root, _, _ := g.article(every)
		if g.one(6) {
			// content behind, or in front of the body
			for i := 1 + g.Intn(3); i > 0; i-- {
				g.block(root, 0, every)
			}
			if g.one(3) {
				root.kids[1], root.kids[len(root.kids)-1] = root.kids[len(root.kids)-1], root.kids[1]
			}
		}
		if g.one(3) {
			// visible text marked too: it must not be hidden from the oracle by accident
			root.kids[1].add(me("p", mt(g.longText())))
		}
		if n == 0 {
			return
		}
		src := root.html()
		opts, d := g.looseOpts()
		in := "opts=" + d + " html=" + src
		vSample(in)
		vGuard2(func() {
			res, _, err := vParse(src, "http://example.com/", opts...)
			if err != nil {
				return
			}
			vNontrivial++
			for what, s := range map[string]string{"HTMLContent": res.HTMLContent, "TextContent": res.TextContent, "Excerpt": res.Excerpt, "Byline": res.Byline} {
				if i := strings.Index(s, "HIDDENTEXT"); i >= 0 {
					vFail(t, what+" has the text of a hidden element: "+s[i:min(len(s), i+60)], in)
				}
			}
		})
	})
}
