package readability

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		var log strings.Builder
		fail := func(s string) { vFail(t, s, log.String()) }
		names := []string{"a", "b", "class", "id", "src", "srcset", "A", "a ", "", "data-x", "style"}
		type nd struct {
			n    *Node
			keys []string
			val  map[string]string
		}
		var nodes []*nd
		root := &Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
		nodes = append(nodes, &nd{n: root, val: map[string]string{}})
		// parsed elements: first value of a repeated name is irrelevant here, names are unique
		k := g.Intn(4)
		ks := append([]string{}, "a", "b", "class", "id", "src", "data-x")
		g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		src := "<p"
		d := &nd{val: map[string]string{}}
		for _, x := range ks[:k] {
			v := g.pick("1", "", "x y", "<&>'", "é")
			src += fmt.Sprintf(` %s="%s"`, x, mEscA.Replace(v))
			d.keys = append(d.keys, x)
			d.val[x] = v
		}
		src += "></p>"
		fmt.Fprintf(&log, "parse %q; ", src)
		root.SetInnerHTML(src)
		d.n = root.FirstElementChild()
		nodes = append(nodes, d)
		for step := 0; step < 4+g.Intn(25); step++ {
			d := nodes[g.Intn(len(nodes))]
			nm := names[g.Intn(len(names))]
			if len(d.keys) > 0 && g.one(2) {
				nm = d.keys[g.Intn(len(d.keys))]
			}
			v := g.pick("", "v", "w", "a b", "\"'<>&", "null", fmt.Sprint(step))
			switch op := g.Intn(7); op {
			case 0, 1, 2:
				if nm == "class" && g.one(2) {
					d.n.SetClassName(v)
				} else if nm == "id" && g.one(2) {
					d.n.SetId(v)
				} else {
					d.n.SetAttribute(nm, v)
				}
				fmt.Fprintf(&log, "SetAttribute(<%s>, %q, %q); ", d.n.TagName, nm, v)
				if _, ok := d.val[nm]; !ok {
					d.keys = append(d.keys, nm)
				}
				d.val[nm] = v
			case 3, 4:
				d.n.RemoveAttribute(nm)
				fmt.Fprintf(&log, "RemoveAttribute(<%s>, %q); ", d.n.TagName, nm)
				if _, ok := d.val[nm]; ok {
					var ks []string
					for _, x := range d.keys {
						if x != nm {
							ks = append(ks, x)
						}
					}
					d.keys = ks
					delete2(d.val, nm)
				}
			}
			for _, d := range nodes {
				if d.n.GetAttributeLen() != len(d.keys) {
					fail(fmt.Sprintf("number of attributes is %d, should be %d", d.n.GetAttributeLen(), len(d.keys)))
					return
				}
				for _, nm := range names {
					v, ok := d.val[nm]
					if d.n.HasAttribute(nm) != ok {
						fail(fmt.Sprintf("HasAttribute(%q) is %v", nm, !ok))
						return
					}
					if d.n.GetAttribute(nm) != v {
						fail(fmt.Sprintf("GetAttribute(%q) is %q, should be %q", nm, d.n.GetAttribute(nm), v))
						return
					}
				}
				if d.n.GetClassName() != d.val["class"] || d.n.GetId() != d.val["id"] || d.n.GetSrc() != d.val["src"] || d.n.GetSrcset() != d.val["srcset"] {
					fail("class, id, src or srcset accessor disagrees")
					return
				}
				for i, kv := range vAttrs(d.n) {
					if kv[0] != d.keys[i] || kv[1] != d.val[kv[0]] {
						fail(fmt.Sprintf("attribute %d is %q, should be %q=%q", i, kv, d.keys[i], d.val[d.keys[i]]))
						return
					}
				}
			}
			vNontrivial++
		}
		vSample(log.String())
	})
}

func delete2(m map[string]string, k string) {
	n := map[string]string{}
	for a, b := range m {
		if a != k {
			n[a] = b
		}
	}
	for a := range m {
		if _, ok := n[a]; !ok {
			clearKey(m, a)
		}
	}
}

func clearKey(m map[string]string, k string) {
	type mm = map[string]string
	c := mm{}
	for a, b := range m {
		if a != k {
			c[a] = b
		}
	}
	clear(m)
	for a, b := range c {
		m[a] = b
	}
}
