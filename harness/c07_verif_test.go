package readability

import (
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC07(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		root, head, _ := g.article(nil)
		for g.one(2) {
			m := head.add(me(g.pick("meta", "link", "style", "base", "script", "meta")))
			m.set("name", "x")
		}
		if g.one(6) {
			root.kids[1].kids = nil
		}
		n := root.elements()
		limit := []int{n, n - 1, n + 1, 0, -1, 1, n / 2, n + 2, 2*n + 5, 1 + g.Intn(2*n), -n, n - 2}[g.Intn(12)]
		src := root.html()
		in := fmt.Sprintf("elements=%d MaxElemsToParse(%d) html=%s", n, limit, src)
		vSample(in)
		vGuard2(func() {
			free, err := New(src, "http://example.com/")
			if err != nil {
				return
			}
			lim, err := New(src, "http://example.com/", MaxElemsToParse(limit))
			if err != nil {
				vFail(t, "New fails because of the limit: "+err.Error(), in)
			}
			vNontrivial++
			fr, fe := free.Parse()
			lr, le := lim.Parse()
			if limit > 0 && n > limit {
				if le == nil {
					vFail(t, "a document with more elements than the limit is parsed", in)
				}
				if lr != nil {
					vFail(t, "a refused document still gets a result", in)
				}
				if _, e2 := lim.Parse(); e2 == nil {
					vFail(t, "a refused document is parsed on the second call", in)
				}
				return
			}
			if (le == nil) != (fe == nil) {
				vFail(t, fmt.Sprintf("a document within the limit ends with %v instead of %v", le, fe), in)
			}
			if !reflect.DeepEqual(fr, lr) {
				vFail(t, "a document within the limit gets another result than without the limit", in)
			}
		})
	})
}
