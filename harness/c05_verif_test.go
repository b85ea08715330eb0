package readability

import (
	"fmt"
	"strings"
	"testing"
)

// vTexts: the texts of the text nodes below n, in document order
func vTexts(n *Node, out *[]string) {
	for _, c := range n.ChildNodes {
		if c.NodeType == 3 {
			*out = append(*out, c.GetTextContent())
		} else {
			vTexts(c, out)
		}
	}
}

func TestVerifC05(t *testing.T) {
	pieces := []string{"<", ">", "&", "\"", "'", "a", " ", "&lt;", "&amp;lt;", "&amp;", "&#60;", "&#x3c;", "&#X3C;", "&#0;", "&#123456;", "&nbsp;", ";", "lt;", "<b>", "</p>", "é", "漢", "&quot;", "&apos;", "\n", "amp;", "#38;", "x"}
	nasty := func(g *gen) string {
		var b strings.Builder
		for i := g.Intn(7); i > 0; i-- {
			b.WriteString(g.pick(pieces...))
		}
		return b.String()
	}
	enc := strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;")
	vRun(t, func(t *testing.T, g *gen) {
		s := nasty(g)
		fail := func(what string, in string) { vFail(t, what, in) }
		ch := make(chan string, 1)
		go func() {
			// element
			el := &Node{NodeType: 1, LocalName: "p", TagName: "P"}
			if g.one(2) {
				el.SetInnerHTML("<b>x</b>y")
			}
			el.SetTextContent(s)
			if got := el.GetTextContent(); got != s {
				ch <- fmt.Sprintf("element: text set to %q reads back as %q", s, got)
				return
			}
			if got := el.GetInnerHTML(); got != enc.Replace(s) {
				ch <- fmt.Sprintf("element: text %q has markup %q", s, got)
				return
			}
			if got := el.GetTextContent(); got != s {
				ch <- fmt.Sprintf("element: text %q reads as %q after reading the markup", s, got)
				return
			}
			el.SetInnerHTML(el.GetInnerHTML())
			if got := el.GetTextContent(); got != s {
				ch <- fmt.Sprintf("text %q reads as %q after its markup is set again", s, got)
				return
			}
			// text node: every history of sets and reads
			h := &Node{NodeType: 1, LocalName: "p", TagName: "P"}
			h.SetTextContent("q")
			tn := h.FirstChild()
			text, markup := "q", "" // markup "" = derived from text
			log := ""
			for i := 0; i < 2+g.Intn(8); i++ {
				v := nasty(g)
				switch g.Intn(5) {
				case 0:
					tn.SetTextContent(v)
					text, markup = v, ""
					log += fmt.Sprintf("SetTextContent(%q) ", v)
				case 1:
					if strings.Contains(v, "&#") || strings.Contains(v, "<") {
						continue
					}
					tn.SetInnerHTML(v)
					text, markup = c05Decode(v), v
					log += fmt.Sprintf("SetInnerHTML(%q) ", v)
				case 2, 3:
					log += "GetTextContent "
					if got := tn.GetTextContent(); got != text {
						ch <- fmt.Sprintf("text node: after %s: text is %q, should be %q", log, got, text)
						return
					}
				case 4:
					log += "GetInnerHTML "
					want := markup
					if want == "" {
						want = enc.Replace(text)
					}
					if got := tn.GetInnerHTML(); got != want {
						ch <- fmt.Sprintf("text node: after %s: markup is %q, should be %q", log, got, want)
						return
					}
				}
			}
			if got, want := h.GetTextContent(), text; got != want {
				ch <- fmt.Sprintf("element of text node: after %s: text is %q, should be %q", log, got, want)
				return
			}
			// concatenation in document order, on parsed markup
			g.size, g.depth = 100, 4
			var b strings.Builder
			for i := 0; i < 3; i++ {
				g.size = 100
				g.node(&b, 0)
			}
			d := &Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
			d.SetInnerHTML(b.String())
			var ts []string
			vTexts(d, &ts)
			if got := d.GetTextContent(); got != strings.Join(ts, "") {
				ch <- fmt.Sprintf("text of %q is %q, its text nodes are %q", b.String(), got, ts)
				return
			}
			// known texts
			m := me("div")
			var want string
			for i := 0; i < 1+g.Intn(4); i++ {
				x := nasty(g)
				if i%2 == 0 {
					m.add(mt(x))
				} else {
					m.add(me("b", mt(x)))
				}
				want += x
			}
			d.SetInnerHTML(m.html())
			if got := d.GetTextContent(); got != want {
				ch <- fmt.Sprintf("text of %q is %q, should be %q", m.html(), got, want)
				return
			}
			ch <- ""
		}()
		vWait(t, ch, func(what string) { fail(what, s) }, s)
		vSample(s)
		vNontrivial++
	})
}

// c05Decode: named references of XML only (numeric ones are left out of the inputs)
func c05Decode(s string) string {
	return strings.NewReplacer("&lt;", "<", "&gt;", ">", "&amp;", "&", "&quot;", `"`, "&apos;", "'").Replace(s)
}
