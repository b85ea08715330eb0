package readability

// needs: c10_verif_test.go

import (
	"fmt"
	"slices"
	"testing"
)

var c11Pres = []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}
var c11Sized = []string{"TABLE", "TH", "TD", "HR", "PRE"}
var c11Other = []string{"title", "data-q", "lang", "width", "height", "alt", "border-x", "xalign", "summary", "datetime", "cite", "name"}

func TestVerifC11(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		k := &marks{}
		root, _, body := g.article(func(m *mnode) {
			k.mark(m)
			var names []string
			for i := g.Intn(5); i > 0; i-- {
				names = append(names, c11Pres[g.Intn(len(c11Pres))])
			}
			if g.one(8) {
				names = append(names, c11Pres...)
			}
			for i := g.Intn(4); i > 0; i-- {
				names = append(names, c11Other[g.Intn(len(c11Other))])
			}
			if g.one(4) {
				names = append(names, "width", "height")
			}
			g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			for _, n := range names {
				v := g.pick("1", "left", "", "10%", "val <&>", "0", "100", "1px", "auto", "none", "true", "x", " 5 ")
				if n == "style" {
					v = g.pick("color:red", "", "width:1px;height:2px", "display:block", "display")
				}
				m.set(n, v)
			}
			if g.one(15) && !genVoid[m.tag] {
				m.add(me("hr")).set("width", "3")
			}
			if g.one(15) && !genVoid[m.tag] {
				s := m.add(me("svg", me("path")))
				s.set("style", "fill:red")
				s.kids[0].set("style", "fill:blue")
			}
		})
		_ = body
		src := root.html()
		opts, d := g.looseOpts()
		in := "opts=" + d + " html=" + src
		vSample(in)
		vGuard2(func() {
			_, n, err := vParse(src, "http://example.com/", opts...)
			if err != nil {
				return
			}
			vNontrivial++
			var walk func(x *Node)
			walk = func(x *Node) {
				if x.NodeType == 1 && x.LocalName == "svg" {
					return
				}
				if x.NodeType == 1 {
					for _, a := range vAttrs(x) {
						if slices.Contains(c11Pres, a[0]) {
							vFail(t, fmt.Sprintf("presentational attribute %s is left on a %s", a[0], x.LocalName), in)
						}
						if (a[0] == "width" || a[0] == "height") && slices.Contains(c11Sized, x.TagName) {
							vFail(t, fmt.Sprintf("%s is left on a %s", a[0], x.LocalName), in)
						}
					}
					if m := k.find(x); m != nil {
						for _, a := range m.attrs {
							if slices.Contains(c11Pres, a[0]) || slices.Contains([]string{"class", "href", "src", "id"}, a[0]) {
								continue
							}
							if (a[0] == "width" || a[0] == "height") && slices.Contains([]string{"table", "th", "td", "hr", "pre"}, m.tag) {
								continue
							}
							if !x.HasAttribute(a[0]) || x.GetAttribute(a[0]) != a[1] {
								vFail(t, fmt.Sprintf("attribute %s=%q of a %s is lost or changed (%q)", a[0], a[1], m.tag, x.GetAttribute(a[0])), in)
							}
						}
					}
				}
				for _, c := range x.ChildNodes {
					walk(c)
				}
			}
			walk(n)
		})
	})
}
