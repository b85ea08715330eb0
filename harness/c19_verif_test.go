package readability

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"testing"
)

func TestVerifC19(t *testing.T) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo, _ = os.Getwd()
	}
	dir := t.TempDir()
	bin := filepath.Join(dir, "cli")
	b := exec.Command("go", "build", "-o", bin, "./cmd/readability")
	b.Dir = repo
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatalf("the command does not build: %v %s", err, out)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	src := ""
	status := 200
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		w.Header().Set("Content-Type", "text/html")
		w.WriteHeader(status)
		w.Write([]byte(src))
	}))
	run := func(args ...string) (string, string, int) {
		c := exec.Command(bin, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "NO_PROXY=*", "http_proxy=", "HTTP_PROXY=")
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		err := c.Run()
		code := 0
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else if err != nil {
			t.Fatalf("cannot run the command: %v", err)
		}
		return so.String(), se.String(), code
	}
	vRun(t, func(t *testing.T, g *gen) {
		mu.Lock()
		switch g.Intn(8) {
		case 0:
			src = g.pick("", "plain text without markup", "<html><head></head></html>", "<html><body></body></html>", "<html><body> </body></html>")
		case 1, 2, 3:
			src = g.doc()
		default:
			root, _, _ := g.article(func(m *mnode) {
				if g.one(8) && !genVoid[m.tag] {
					m.add(mt(g.pick("100% %d %s", "é 漢", "a & b < c", "\\n")))
				}
			})
			src = root.html()
		}
		status = 200
		mine := src
		mu.Unlock()
		url := "http://" + l.Addr().String() + g.pick("/", "/a/b.html", "/x?y=z")
		var args []string
		want := "text"
		switch g.Intn(7) {
		case 0:
			args, want = []string{"-o", "html"}, "html"
		case 1:
			args, want = []string{"-output", "html"}, "html"
		case 2:
			args, want = []string{"--output=html", "-v"}, "html"
		case 3:
			args = []string{"-o", "text"}
		case 4:
			args = []string{"-verbose"}
		}
		if g.one(12) {
			// no url, or nobody there
			args = append(args, g.pick("", "http://127.0.0.1:1/x", "no-scheme"))
			out, _, code := run(args...)
			if code != 1 || out == "" {
				vFail(t, fmt.Sprintf("exit status %d and output %q without a page", code, out), fmt.Sprint(args))
			}
			return
		}
		args = append(args, url)
		in := fmt.Sprintf("args=%q html=%s", args, mine)
		vSample(in)
		var res *Result
		fails := ""
		vGuard2(func() {
			fails = "panic"
			r, err := New(mine, url)
			if err == nil {
				res, err = r.Parse()
			}
			fails = ""
			if err != nil {
				fails = err.Error()
			}
		})
		if fails == "panic" {
			return
		}
		vNontrivial++
		out, _, code := run(args...)
		if fails != "" {
			if code != 1 {
				vFail(t, fmt.Sprintf("exit status %d although the extraction fails (%s)", code, fails), in)
			}
			return
		}
		if code != 0 {
			vFail(t, fmt.Sprintf("exit status %d although the extraction succeeds; output %q", code, out), in)
		}
		exp := res.TextContent
		if want == "html" {
			exp = res.HTMLContent
		}
		if out != exp {
			vFail(t, fmt.Sprintf("the output is not the %s content: %q, expected %q", want, out, exp), in)
		}
	})
}
