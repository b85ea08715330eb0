package readability

import (
	"fmt"
	"regexp"
	"slices"
	"testing"
)

var c12Never = []string{"script", "noscript", "style", "link", "aside", "footer", "input", "textarea", "select", "button", "h1", "font"}
var c12Videos = regexp.MustCompile(`(?i)\/\/(www\.)?((dailymotion|youtube|youtube-nocookie|player\.vimeo|v\.qq)\.com|(archive|upload\.wikimedia)\.org|player\.twitch\.tv)`)

func TestVerifC12(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		var src string
		if g.one(2) {
			root, _, _ := g.article(func(m *mnode) {
				if genVoid[m.tag] {
					return
				}
				for g.one(8) {
					x := me(g.pick(append(c12Never, "iframe", "object", "embed", "iframe", "object", "embed")...))
					if !genVoid[x.tag] {
						switch g.Intn(7) {
						case 0, 1:
							x.add(me("p", mt(g.longText())))
						case 2:
							g.block(x, 3, nil)
						case 3:
							// a single element of any kind
							y := x.add(me(g.pick("video", "img", "iframe", "table", "ul", "figure", "div", "a", "audio", "svg", "picture", "form", "span", "nav", "section", "blockquote", "h2")))
							y.set("src", "https://www.youtube.com/embed/y")
							if !genVoid[y.tag] {
								y.add(mt(g.longText()))
							}
						case 4:
							// another one inside
							y := x.add(me(g.pick(c12Never...)))
							if !genVoid[y.tag] {
								y.add(mt(g.longText()))
							}
						case 5:
						default:
							x.add(mt(g.longText()))
						}
					}
					if g.one(4) {
						x.set(g.pick("class", "id", "role", "type", "name", "itemprop", "aria-label", "rel"), g.pick("content", "main", "article", "body", "hidden", "submit", "entry", "video", "stylesheet", "page", "text/x", "presentation"))
					}
					if g.one(2) {
						x.set(g.pick("src", "data", "data-src", "href"), g.pick("https://www.youtube.com/embed/x", "http://evil/x", "//player.vimeo.com/1", "http://v.example/clip", "https://archive.org/e", "http://V.Example/clip", "HTTPS://WWW.YOUTUBE.COM/x", "EVIL", "https://youtube.com.evil/x", "//notyoutube.com/x", "youtube.com/x", "https://vimeo.com/1"))
						if g.one(4) {
							x.set(g.pick("width", "name", "title", "data-u"), g.pick("evil", "100", "//www.youtube.com/z", "v.example"))
						}
					}
					if g.one(5) {
						x.set("title", "plain")
					}
					// in front of, or behind what is there
					x.up = m
					if i := g.Intn(len(m.kids) + 1); true {
						m.kids = slices.Insert(m.kids, i, x)
					}
				}
			})
			src = root.html()
		} else {
			src = g.doc()
		}
		opts, d := g.looseOpts()
		re := c12Videos
		switch g.Intn(5) {
		case 0:
			opts, d, re = append(opts, AllowedVideoRegex(nil)), d+"AllowedVideoRegex(nil)", nil
		case 1:
			// letter case counts
			re = regexp.MustCompile("v.example|evil")
			opts, d = append(opts, AllowedVideoRegex(re)), d+"AllowedVideoRegex(v.example|evil)"
		}
		in := "opts=" + d + " html=" + src
		vSample(in)
		vGuard2(func() {
			// not covered: a body inside an element that is taken out
			page := &Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
			page.SetInnerHTML(src)
			for _, body := range vByTag(page, "body") {
				for up := body.ParentNode; up != nil; up = up.ParentNode {
					if slices.Contains(c12Never, up.LocalName) {
						return
					}
				}
			}
			_, n, err := vParse(src, "http://example.com/", opts...)
			if err != nil {
				return
			}
			vNontrivial++
			vWalk(n, func(x *Node) {
				if x.NodeType != 1 {
					return
				}
				if slices.Contains(c12Never, x.LocalName) {
					vFail(t, "a "+x.LocalName+" element is in the extracted content", in)
				}
				if slices.Contains([]string{"iframe", "object", "embed"}, x.LocalName) {
					ok := false
					for _, a := range vAttrs(x) {
						ok = ok || re != nil && re.MatchString(a[1])
					}
					if !ok {
						vFail(t, fmt.Sprintf("a %s with attributes %q is in the extracted content", x.LocalName, vAttrs(x)), in)
					}
				}
			})
		})
	})
}
