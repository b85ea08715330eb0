package readability

import (
	"fmt"
	"strings"
	"testing"
)

// vIntegrity: "" or what is wrong with the links of the tree below n
func vIntegrity(n *Node, seen map[*Node]bool) string {
	if seen[n] {
		return "a node occurs twice in the tree"
	}
	seen[n] = true
	var els []*Node
	for i, c := range n.ChildNodes {
		if c == nil {
			return "nil child"
		}
		if c.ParentNode != n {
			return fmt.Sprintf("child %d of <%s> has another parent", i, n.TagName)
		}
		var prev, next *Node
		if i > 0 {
			prev = n.ChildNodes[i-1]
		}
		if i+1 < len(n.ChildNodes) {
			next = n.ChildNodes[i+1]
		}
		if c.PreviousSibling != prev {
			return fmt.Sprintf("wrong PreviousSibling of child %d <%s> of <%s>", i, c.TagName, n.TagName)
		}
		if c.NextSibling != next {
			return fmt.Sprintf("wrong NextSibling of child %d <%s> of <%s>", i, c.TagName, n.TagName)
		}
		if c.NodeType == 1 {
			els = append(els, c)
		} else if c.NextElementSibling != nil || c.PreviousElementSibling != nil {
			return "a node that is no element has element siblings"
		}
	}
	if len(els) != len(n.Children) {
		return fmt.Sprintf("<%s> has %d element children, its element list has %d", n.TagName, len(els), len(n.Children))
	}
	for i, c := range els {
		if n.Children[i] != c {
			return fmt.Sprintf("element list of <%s> is out of order at %d", n.TagName, i)
		}
		var prev, next *Node
		if i > 0 {
			prev = els[i-1]
		}
		if i+1 < len(els) {
			next = els[i+1]
		}
		if c.PreviousElementSibling != prev || c.NextElementSibling != next {
			return fmt.Sprintf("wrong element siblings of <%s> in <%s>", c.TagName, n.TagName)
		}
	}
	if n.FirstChild() != nil && n.FirstChild() != n.ChildNodes[0] || n.FirstChild() == nil && len(n.ChildNodes) > 0 {
		return "wrong first child"
	}
	if len(n.ChildNodes) > 0 && n.LastChild() != n.ChildNodes[len(n.ChildNodes)-1] || len(n.ChildNodes) == 0 && n.LastChild() != nil {
		return "wrong last child"
	}
	if len(els) > 0 && n.FirstElementChild() != els[0] || len(els) == 0 && n.FirstElementChild() != nil {
		return "wrong first element child"
	}
	for _, c := range n.ChildNodes {
		if s := vIntegrity(c, seen); s != "" {
			return s
		}
	}
	return ""
}

func vIsAnc(a, n *Node) bool {
	for i := 0; n != nil && i < 10000; i++ {
		if n == a {
			return true
		}
		n = n.ParentNode
	}
	return false
}

func vTop(n *Node) *Node {
	for i := 0; n.ParentNode != nil && i < 10000; i++ {
		n = n.ParentNode
	}
	return n
}

func vNodes(top []*Node) (out []*Node) {
	for _, t := range top {
		vWalk(t, func(n *Node) { out = append(out, n) })
	}
	return
}

func TestVerifC02(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		// 1. whole extractions: the tree handed to the serializer
		if g.one(3) {
			src := g.doc()
			if g.one(2) {
				r, _, _ := g.article(func(m *mnode) {
					if g.one(6) {
						m.set("class", g.pick("comment", "share", "byline", "content"))
					}
				})
				src = r.html()
			}
			opts, d := g.opts()
			in := "opts=" + d + " html=" + src
			opts = append(opts, Serializer(func(n *Node) string {
				if s := vIntegrity(vTop(n), map[*Node]bool{}); s != "" {
					vFail(t, "tree of the extracted article: "+s, in)
				}
				vNontrivial++
				return ""
			}))
			vGuard2(func() {
				if r, err := New(src, "http://example.com/", opts...); err == nil {
					r.Parse()
				}
			})
			if t.Failed() {
				return
			}
		}
		// 2. sequences of edits on a parsed fragment
		el := func() *Node {
			n := &Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
			return n
		}
		root := el()
		var log strings.Builder
		frag := func() string {
			g.size, g.depth = 100, 3
			var b strings.Builder
			for i := g.Intn(4); i > 0; i-- {
				b.WriteString(g.pick("text", "<p>x</p>", "<b/>", "<p><i>a</i>b<i>c</i></p>", "<div>q<span>r</span><br/></div>", "<br/>", " ", "<img src='x'/>tail"))
			}
			return b.String()
		}
		f := frag() + frag()
		root.SetInnerHTML(f)
		fmt.Fprintf(&log, "SetInnerHTML(root, %q); ", f)
		tops := []*Node{root}
		fail := func(s string) { vFail(t, s, log.String()) }
		for step := 0; step < 3+g.Intn(12); step++ {
			all := vNodes(tops)
			var els []*Node
			for _, n := range all {
				if n.NodeType == 1 {
					els = append(els, n)
				}
			}
			id := func(n *Node) string {
				for i, m := range all {
					if m == n {
						return fmt.Sprintf("#%d<%s>", i, n.TagName)
					}
				}
				return "?"
			}
			p := els[g.Intn(len(els))]
			old := append([]*Node{}, p.ChildNodes...)
			switch g.Intn(8) {
			case 0, 1: // append
				c := all[g.Intn(len(all))]
				if vIsAnc(c, p) {
					continue
				}
				fmt.Fprintf(&log, "AppendChild(%s, %s); ", id(p), id(c))
				var exp []*Node
				for _, x := range old {
					if x != c {
						exp = append(exp, x)
					}
				}
				exp = append(exp, c)
				p.AppendChild(c)
				if !vSame(p.ChildNodes, exp) {
					fail("AppendChild did not append")
				}
			case 2, 3: // remove
				c := all[g.Intn(len(all))]
				if len(old) > 0 && g.one(2) {
					c = old[g.Intn(len(old))]
				}
				fmt.Fprintf(&log, "RemoveChild(%s, %s); ", id(p), id(c))
				was := c.ParentNode == p
				var exp []*Node
				for _, x := range old {
					if x != c {
						exp = append(exp, x)
					}
				}
				r, err := p.RemoveChild(c)
				if was != (err == nil) || was && (r != c || c.ParentNode != nil || c.NextSibling != nil || c.PreviousSibling != nil || c.NextElementSibling != nil || c.PreviousElementSibling != nil) {
					fail("RemoveChild reports the wrong outcome or leaves links on the removed node")
				}
				if !vSame(p.ChildNodes, exp) {
					fail("RemoveChild changed other children")
				}
				if was {
					tops = append(tops, c)
				}
			case 4, 5, 6: // replace
				if len(old) == 0 {
					continue
				}
				o := old[g.Intn(len(old))]
				c := all[g.Intn(len(all))]
				if g.one(4) {
					c = old[g.Intn(len(old))]
				}
				if vIsAnc(c, p) {
					continue
				}
				fmt.Fprintf(&log, "ReplaceChild(%s, new %s, old %s); ", id(p), id(c), id(o))
				var exp []*Node
				for _, x := range old {
					if x == o {
						exp = append(exp, c)
					} else if x != c {
						exp = append(exp, x)
					}
				}
				if vIsAnc(o, c) && o != c {
					// the new node is taken out of the old one
				}
				if r := p.ReplaceChild(c, o); r != o {
					fail("ReplaceChild does not return the old node")
				}
				if !vSame(p.ChildNodes, exp) {
					fail("ReplaceChild did not replace in place")
				}
				if o != c {
					if o.ParentNode != nil || o.NextSibling != nil || o.PreviousSibling != nil || o.NextElementSibling != nil || o.PreviousElementSibling != nil {
						fail("ReplaceChild leaves links on the old node")
					}
					tops = append(tops, o)
				}
			case 7:
				if g.one(2) {
					s := frag()
					fmt.Fprintf(&log, "SetInnerHTML(%s, %q); ", id(p), s)
					p.SetInnerHTML(s)
				} else {
					fmt.Fprintf(&log, "SetTextContent(%s); ", id(p))
					p.SetTextContent("txt")
					if len(p.ChildNodes) != 1 || len(p.Children) != 0 {
						fail("SetTextContent does not leave exactly one text child")
					}
				}
				for _, o := range old {
					if o.ParentNode != nil || o.NextSibling != nil || o.PreviousSibling != nil || o.NextElementSibling != nil || o.PreviousElementSibling != nil {
						fail("children dropped by SetInnerHTML/SetTextContent keep links")
					}
					tops = append(tops, o)
				}
			}
			if t.Failed() {
				return
			}
			var live []*Node
			seen := map[*Node]bool{}
			for _, x := range tops {
				if x.ParentNode == nil && !seen[x] {
					seen[x] = true
					live = append(live, x)
				}
			}
			tops = live
			all2 := map[*Node]bool{}
			for _, x := range tops {
				if s := vIntegrity(x, all2); s != "" {
					fail(s)
				}
				if x.NextSibling != nil || x.PreviousSibling != nil || x.NextElementSibling != nil || x.PreviousElementSibling != nil {
					fail("a node without parent has siblings")
				}
			}
			vNontrivial++
		}
		vSample(log.String())
	})
}

func vSame(a, b []*Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
