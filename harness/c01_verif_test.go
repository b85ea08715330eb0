package readability

import (
	"fmt"
	"runtime/debug"
	"strings"
	"testing"
	"time"
)

// vGuard runs f and reports a panic or a call that does not come back
func vGuard(t *testing.T, what, input string, f func()) {
	t.Helper()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 900 {
					st = st[:900]
				}
				done <- fmt.Sprintf("%s panics: %v\n%s", what, r, st)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			vFail(t, s, input)
		}
	case <-time.After(20 * time.Second):
		vFail(t, what+" did not return within 20 s", input)
	}
}

func TestVerifC01(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		src, uri := g.doc(), g.uri()
		opts, d := g.opts()
		in := "uri=" + uri + " opts=" + d + " html=" + src
		vSample(in)
		vGuard(t, "New/Parse", in, func() {
			r, err := New(src, uri, opts...)
			if err == nil {
				vNontrivial++
				r.Parse()
				if g.one(5) {
					r.Parse()
				}
			}
		})
		if g.one(4) {
			vGuard(t, "IsProbablyReaderable", in, func() { IsProbablyReaderable(src, opts...) })
		}
	})
}
