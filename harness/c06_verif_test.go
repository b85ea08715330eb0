package readability

// build-flags: -race

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"
)

func c06Opts(g *gen) ([]Option, string) {
	o, d := g.opts()
	for g.one(2) {
		switch g.Intn(6) {
		case 0:
			cs := strings.Fields(g.pick("k1", "k2 k3", "k4 k5 k6", "keep other", "article"))
			o, d = append(o, ClassesToPreserve(cs...)), d+fmt.Sprintf(",ClassesToPreserve(%q)", cs)
		case 1:
			o, d = append(o, MaxElemsToParse(2)), d+",MaxElemsToParse(2)"
		case 2:
			o, d = append(o, Html2Text(func(s string) string { return "T" + s })), d+",Html2Text(T+)"
		case 3:
			o, d = append(o, Serializer(func(n *Node) string { return "S" + n.GetTextContent() })), d+",Serializer(S+)"
		case 4:
			o, d = append(o, AllowedVideoRegex(regexp.MustCompile("example"))), d+",AllowedVideoRegex(example)"
		case 5:
			o, d = append(o, DisableJSONLD(true), KeepClasses(g.one(2))), d+",DisableJSONLD,KeepClasses(?)"
		}
	}
	return o, d
}

type c06Out struct {
	r   *Result
	err string
	pan string
}

func (a c06Out) diff(b c06Out) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	return fmt.Sprintf("%+v %v %v\nand\n%+v %v %v", a.r, a.err, a.pan, b.r, b.err, b.pan)
}

func c06Parse(r *Readability) (o c06Out) {
	defer func() {
		if p := recover(); p != nil {
			o.pan = fmt.Sprint(p)
		}
	}()
	res, err := r.Parse()
	o.r = res
	if err != nil {
		o.err = err.Error()
	}
	return
}

type c06Case struct {
	src, uri, d string
	opts        []Option
	ready       bool
	read        bool
	out         c06Out
}

func (c *c06Case) String() string { return "uri=" + c.uri + " opts=" + c.d + " html=" + c.src }

func (g *gen) c06case() *c06Case {
	c := &c06Case{uri: g.uri()}
	c.opts, c.d = c06Opts(g)
	if g.one(2) {
		root, _, _ := g.article(func(m *mnode) {
			if g.one(3) {
				m.set("class", g.pick("k1", "k2 x", "k3 k4", "keep", "page", "other article", "k5 k6 k1"))
			}
			if g.one(12) {
				m.add(me("iframe")).set("src", g.pick("http://example.com/v", "https://www.youtube.com/embed/x"))
			}
		})
		c.src = root.html()
	} else {
		c.src = g.doc()
	}
	return c
}

func (c *c06Case) start() *Readability {
	r, _ := New(c.src, c.uri, c.opts...)
	return r
}

func TestVerifC06(t *testing.T) {
	// outcomes in the fresh process, default options first
	var ref []*c06Case
	g := newGen(vSeed() * 77)
	for i := 0; i < 24; i++ {
		c := g.c06case()
		if i < 12 {
			c.opts, c.d = nil, ""
		}
		if r := c.start(); r != nil {
			c.read = IsProbablyReaderable(c.src)
			c.out = c06Parse(r)
			ref = append(ref, c)
		}
	}
	vRun(t, func(t *testing.T, g *gen) {
		a, b := ref[g.Intn(len(ref))], g.c06case()
		if g.one(3) {
			b = ref[g.Intn(len(ref))]
		}
		vSample(b.String())
		ra, rb := a.start(), b.start()
		if g.one(2) {
			rb, ra = b.start(), a.start()
		}
		vNontrivial++
		in := "first: " + a.String() + "\nthen: " + b.String()
		var oa c06Out
		switch g.Intn(3) {
		case 0: // at the same time
			done := make(chan bool)
			go func() {
				if rb != nil {
					c06Parse(rb)
				}
				IsProbablyReaderable(b.src, b.opts...)
				close(done)
			}()
			oa = c06Parse(ra)
			<-done
		case 1:
			if rb != nil {
				c06Parse(rb)
			}
			oa = c06Parse(ra)
		case 2:
			IsProbablyReaderable(b.src, b.opts...)
			oa = c06Parse(ra)
		}
		if d := a.out.diff(oa); d != "" {
			vFail(t, "the same document and options give another outcome after other extractions: "+d, in)
		}
		if IsProbablyReaderable(a.src) != a.read {
			vFail(t, "the readerable check of the same document changed after other extractions", in)
		}
		// a fresh instance gives the same outcome as another fresh instance
		if r1, r2 := b.start(), b.start(); r1 != nil && g.one(2) {
			if d := c06Parse(r1).diff(c06Parse(r2)); d != "" {
				vFail(t, "two runs of the same document and options differ: "+d, b.String())
			}
		}
	})
}
