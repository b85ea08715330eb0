package readability

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/net/html"
)

// vShape: the tree below n with adjacent texts joined, as a list of lines
func vShape(n *Node) (out []string) {
	text, any := "", false
	flush := func() {
		if any && text != "" {
			out = append(out, fmt.Sprintf("text %q", text))
		}
		text, any = "", false
	}
	for _, c := range n.ChildNodes {
		switch c.NodeType {
		case 3:
			text += c.GetTextContent()
			any = true
		case 1:
			flush()
			l := "<" + c.LocalName + " " + c.TagName
			for _, a := range vAttrs(c) {
				l += fmt.Sprintf(" %s=%q", a[0], a[1])
			}
			out = append(out, l)
			out = append(out, vShape(c)...)
			out = append(out, ">")
		}
	}
	flush()
	return
}

func vDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %s became %s", i, x, y)
		}
	}
	return ""
}

var c04Chars = []string{"<", ">", "&", "\"", "'", "a", " ", "&lt;", "&amp;", "&#60;", "&#x3c;", ";", "lt;", "<b>", "</p>", "<!--", "-->", "]]>", "<![CDATA[", "=", "/", "é", "漢", "#", "&quot;", "&apos;", "script", "\n"}

func (g *gen) nasty() string {
	var b strings.Builder
	for i := g.Intn(7); i > 0; i-- {
		b.WriteString(c04Chars[g.Intn(len(c04Chars))])
	}
	return b.String()
}

// random tree made with the DOM operations; texts and attribute values are arbitrary
func (g *gen) domTree(depth int) *Node {
	tag := g.pick("p", "div", "span", "b", "a", "br", "img", "section", "td", "h2", "input")
	n := &Node{NodeType: 1, LocalName: tag, TagName: strings.ToUpper(tag)}
	for i := g.Intn(3); i > 0; i-- {
		n.SetAttribute(g.pick("title", "href", "data-x", "alt", "class"), g.nasty())
	}
	if genVoid[tag] {
		return n
	}
	for i := g.Intn(4); i > 0 && depth < 4; i-- {
		if g.one(2) {
			h := &Node{NodeType: 1, LocalName: "i", TagName: "I"}
			h.SetTextContent(g.nasty())
			if c := h.FirstChild(); g.one(2) {
				n.AppendChild(c)
			} else {
				n.AppendChild(h)
			}
		} else {
			n.AppendChild(g.domTree(depth + 1))
		}
	}
	return n
}

// c04Open: an element that is closed in its start tag though HTML parsers take it to be open
func c04Open(src string) string {
	z := html.NewTokenizer(strings.NewReader(src))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return ""
		case html.SelfClosingTagToken:
			if n, _ := z.TagName(); !c04Void[string(n)] {
				return string(n)
			}
		}
	}
}

var c04Void = map[string]bool{"area": true, "base": true, "br": true, "col": true, "command": true, "embed": true, "hr": true, "img": true, "input": true, "keygen": true, "link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true, "basefont": true, "bgsound": true, "frame": true}

func TestVerifC04(t *testing.T) {
	again := func(n *Node) *Node {
		m := &Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
		m.SetInnerHTML(n.GetInnerHTML())
		return m
	}
	vRun(t, func(t *testing.T, g *gen) {
		if g.one(3) {
			// whole extractions
			root, _, body := g.article(func(m *mnode) {
				if g.one(3) {
					m.set(g.pick("title", "data-q", "alt", "id"), g.nasty())
				}
				if g.one(3) {
					m.add(mt(g.nasty()))
				}
			})
			src := root.html()
			if g.one(4) {
				// nor is a character reference split by a comment
				src = strings.ReplaceAll(g.doc(), "&<!-- -->", "")
			}
			_ = body
			opts, d := g.looseOpts()
			in := "opts=" + d + " html=" + src
			vGuard2(func() {
				res, n, err := vParse(src, "http://example.com/", opts...)
				if err != nil {
					return
				}
				// a whole second document inside the article is not covered
				if len(vByTag(n, "html"))*len(vByTag(n, "body")) > 0 {
					return
				}
				// nor are names that are no names
				odd := false
				vWalk(n, func(x *Node) { odd = odd || strings.ContainsAny(x.LocalName, "\"'=<>&") })
				if odd {
					return
				}
				vNontrivial++
				if s := c04Open(res.HTMLContent); s != "" {
					vFail(t, "a "+s+" element without content stays open in the extracted HTML", in)
				}
				if d := vDiff(vShape(n), vShape(again(n))); d != "" {
					vFail(t, "the extracted HTML does not parse back to the extracted tree: "+d+"\nhtml: "+res.HTMLContent, in)
				}
			})
			return
		}
		n := g.domTree(0)
		if genVoid[n.LocalName] {
			return
		}
		a := vShape(n)
		h := n.GetInnerHTML()
		vSample(h)
		if d := vDiff(a, vShape(again(n))); d != "" {
			vFail(t, "serialised HTML does not parse back to the same tree: "+d, fmt.Sprint(a)+" html: "+h)
		}
		vNontrivial++
		if s := c04Open(h); s != "" {
			vFail(t, "a "+s+" element without content stays open in the serialised HTML", h)
		}
		if n.GetInnerHTML() != h {
			vFail(t, "serialising twice gives different HTML", h)
		}
		if m := again(n); m.GetInnerHTML() != h && m.GetInnerHTML() != again(m).GetInnerHTML() {
			vFail(t, "serialising is not stable", h)
		}
	})
}
