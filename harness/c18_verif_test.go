package readability

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

var c18Word = regexp.MustCompile(`[^\s\x{a0}]+`)
var c18Tok = regexp.MustCompile(`\[(\d+)\]`)

func TestVerifC18(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		root, _, body := g.article(func(m *mnode) {
			switch g.Intn(12) {
			case 0:
				m.set("class", g.pick("comment", "sidebar", "share", "menu", "content", "byline", "promo", "hidden"))
			case 1:
				m.set("style", "display:none")
			case 2:
				if !genVoid[m.tag] {
					m.add(me("br"))
					m.add(me("br"))
					m.add(mt(g.longText()))
				}
			case 3:
				if !genVoid[m.tag] {
					a := m.add(me("a", mt(g.pick("", " ")+g.longText())))
					for g.one(3) {
						a.add(me(g.pick("b", "i", "span"), mt(g.longText())))
						a.add(mt(g.longText()))
					}
					a.set("href", g.pick("javascript:x()", "#x", "/y"))
				}
			}
		})
		// number every word
		var runs []string
		n := 0
		body.walk(func(m *mnode) {
			if m.tag != "" {
				return
			}
			m.text = c18Word.ReplaceAllStringFunc(m.text, func(w string) string {
				n++
				return fmt.Sprintf("%s[%d]", w, n-1)
			})
		})
		// adjacent texts are one text in the source
		body.walk(func(m *mnode) {
			s := ""
			for _, k := range append(m.kids[:len(m.kids):len(m.kids)], me("x")) {
				if k.tag == "" {
					s += k.text
				} else {
					runs = append(runs, s)
					s = ""
				}
			}
		})
		src := root.html()
		if g.one(3) {
			// the same characters, written as references
			for _, c := range []rune("ü\u00a0漢ïé字,") {
				if g.one(2) {
					src = strings.ReplaceAll(src, string(c), fmt.Sprintf(g.pick("&#%d;", "&#x%x;", "&#x%X;"), c))
				}
			}
		}
		opts, d := g.looseOpts()
		in := "opts=" + d + " html=" + src
		vSample(in)
		vGuard2(func() {
			res, root, err := vParse(src, "http://example.com/", opts...)
			if err != nil {
				return
			}
			vNontrivial++
			last := -1
			for _, m := range c18Tok.FindAllStringSubmatch(res.TextContent, -1) {
				i, _ := strconv.Atoi(m[1])
				if i <= last {
					vFail(t, fmt.Sprintf("word %d comes after word %d: text is duplicated or out of order", i, last), in)
				}
				last = i
			}
			known := map[string]bool{}
			for _, r := range runs {
				known[r] = true
			}
			vWalk(root, func(x *Node) {
				if x.NodeType == 3 {
					if s := x.GetTextContent(); strings.TrimSpace(s) != "" && !known[s] {
						vFail(t, fmt.Sprintf("text %q is not a text of the page", s), in)
					}
				}
			})
		})
	})
}
