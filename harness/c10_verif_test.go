package readability

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
)

// marks every element with a number, so that it can be found again in the output
type marks struct{ of []*mnode }

func (k *marks) mark(m *mnode) {
	m.set("data-k", strconv.Itoa(len(k.of)))
	k.of = append(k.of, m)
}

func (k *marks) find(n *Node) *mnode {
	i, err := strconv.Atoi(n.GetAttribute("data-k"))
	if err != nil || i < 0 || i >= len(k.of) {
		return nil
	}
	// containers can be merged with an only child, which takes over attributes
	if n.TagName == "DIV" || n.TagName == "SECTION" {
		return nil
	}
	return k.of[i]
}

func TestVerifC10(t *testing.T) {
	words := []string{"page", "keep", "k2", "main", "text", "x", "pagex", "xpage", "Page", "entry", "post-body", "keep-not", "ke"}
	vRun(t, func(t *testing.T, g *gen) {
		k := &marks{}
		root, _, _ := g.article(func(m *mnode) {
			k.mark(m)
			if g.one(2) {
				s := ""
				for i := g.Intn(4); i > 0; i-- {
					s += g.pick("", " ", "  ", "\n", "\t") + words[g.Intn(len(words))] + g.pick(" ", "  ", "\t ")
				}
				if g.one(2) {
					s = strings.TrimSpace(s)
				}
				m.set("class", s)
			}
		})
		src := root.html()
		var opts []Option
		allowed := map[string]bool{"page": true}
		for g.one(2) {
			cs := []string{words[g.Intn(len(words))]}
			if g.one(3) {
				cs = append(cs, words[g.Intn(len(words))])
			}
			for _, c := range cs {
				allowed[c] = true
			}
			opts = append(opts, ClassesToPreserve(cs...))
		}
		keep := g.one(4)
		if keep {
			opts = append(opts, KeepClasses(true))
		}
		thr, d := g.looseOpts()
		in := fmt.Sprintf("preserve=%v keep=%v %s html=%s", allowed, keep, d, src)
		vSample(in)
		vGuard2(func() {
			_, n, err := vParse(src, "http://example.com/", append(opts, thr...)...)
			if err != nil {
				return
			}
			vNontrivial++
			vWalk(n, func(x *Node) {
				if x.NodeType != 1 {
					return
				}
				has, cl := x.HasAttribute("class"), x.GetAttribute("class")
				if !keep {
					if has && strings.TrimSpace(cl) == "" {
						vFail(t, "an empty class attribute is left on a "+x.LocalName, in)
					}
					for _, c := range strings.Fields(cl) {
						if !allowed[c] {
							vFail(t, fmt.Sprintf("class %q survives on a %s", c, x.LocalName), in)
						}
					}
				}
				m := k.find(x)
				if m == nil {
					return
				}
				was, had := m.attr("class")
				want := was
				if !keep {
					var f []string
					for _, c := range strings.Fields(was) {
						if allowed[c] {
							f = append(f, c)
						}
					}
					want = strings.Join(f, " ")
					had = want != ""
				}
				if cl != want || has != had {
					vFail(t, fmt.Sprintf("class %q of a %s became %q (present: %v)", was, m.tag, cl, has), in)
				}
			})
		})
	})
}
