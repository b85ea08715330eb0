package readability

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"
)

var c13Space = regexp.MustCompile(`\s{2,}`)

func TestVerifC13(t *testing.T) {
	const huge = 1 << 40
	vRun(t, func(t *testing.T, g *gen) {
		root, _, _ := g.article(func(m *mnode) {
			switch g.Intn(8) {
			case 0:
				m.set("class", g.pick("comment", "sidebar", "footer-x", "share", "menu", "banner", "content", "story", "promo", "related", "article-body"))
			case 1:
				m.set("id", g.pick("comment", "sponsor", "main", "masthead", "widget", "post"))
			}
		})
		src := root.html()
		type out struct {
			res *Result
			err error
			l   int
		}
		run := func(n int) (o out) {
			r, err := New(src, "http://example.com/", CharThreshold(n))
			if err != nil {
				return out{err: err}
			}
			o.res, o.err = r.Parse()
			if o.err == nil {
				o.l = len(c13Space.ReplaceAllString(strings.TrimSpace(o.res.TextContent), " "))
			}
			return
		}
		// a page whose second attempt takes all: the first one leaves out what looks like comments
		if g.one(12) {
			words := func(n int) string { return strings.Repeat("Plain words of a sentence, and some more. ", n) }
			main, rest := 3+g.Intn(8), 3+g.Intn(8)
			size := g.pickInt(1, 1, 1, 1, 3, 3, 3, 10, 10, 40)
			var b strings.Builder
			b.WriteString("<html><head><title>T</title></head><body><div>")
			for i := 0; i < main; i++ {
				b.WriteString("<p>" + words(5*size) + "</p>")
			}
			b.WriteString("<div class=\"comment\">")
			for i := 0; i < rest; i++ {
				b.WriteString("<p>" + words(5*size) + "</p>")
			}
			b.WriteString("</div></div></body></html>")
			src = b.String()
			vGuard2(func() {
				para := len(words(5*size)) - 1
				in := fmt.Sprintf("%d paragraphs of %d bytes, then %d in a div class=comment", main, para, rest)
				if o := run(0); o.err != nil || o.l < main*para || o.l >= main*para+para {
					vFail(t, fmt.Sprintf("the first attempt has %d bytes", o.l), in)
				}
				for _, th := range []int{(main + 1) * (para + 1), (main + rest) * para, huge} {
					if o := run(th); o.err != nil || o.l < (main+rest)*para {
						vFail(t, fmt.Sprintf("CharThreshold(%d) gives %d bytes though an attempt has more", th, o.l), in)
					}
				}
			})
			return
		}
		vGuard2(func() {
			zero, max := run(0), run(huge)
			L := max.l
			in0 := fmt.Sprintf("longest %d bytes, first attempt %d bytes html=%s", L, zero.l, src)
			vSample(in0)
			if zero.err != nil {
				vFail(t, "CharThreshold(0) does not accept the first attempt", in0)
			}
			if zero.l > L {
				vFail(t, "when no attempt is long enough, a shorter one than the longest is returned", in0)
			}
			if (max.err != nil) != (L == 0) {
				vFail(t, "Parse fails although an attempt has text", in0)
			}
			if L > zero.l {
				vNontrivial++
			}
			for _, th := range []int{L, L + 1, zero.l, zero.l + 1, 1 + g.Intn(L+20), g.pickThr(L), -1} {
				in := fmt.Sprintf("CharThreshold(%d) %s", th, in0)
				o := run(th)
				switch {
				case th <= zero.l:
					if !reflect.DeepEqual(o.res, zero.res) {
						vFail(t, "the first attempt reaches the threshold but another one is returned", in)
					}
				case th > L:
					if !reflect.DeepEqual(o.res, max.res) || (o.err == nil) != (max.err == nil) {
						vFail(t, "no attempt reaches the threshold, but not the longest is returned", in)
					}
				default:
					if o.err != nil {
						vFail(t, "an attempt reaches the threshold but Parse fails", in)
					}
					if o.l < th || o.l > L {
						vFail(t, fmt.Sprintf("a text of %d bytes is returned", o.l), in)
					}
				}
			}
		})
	})
}

func (g *gen) pickThr(l int) int { return l - g.Intn(l/4+1) }
