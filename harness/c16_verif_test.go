package readability

// needs: c10_verif_test.go

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"testing"
)

// what a user agent makes of a link before it looks at the scheme
func c16Scheme(h string) string {
	h = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(h)
	h = strings.TrimLeftFunc(h, func(c rune) bool { return c <= 0x20 })
	s, _, ok := strings.Cut(h, ":")
	if !ok {
		return ""
	}
	return strings.ToLower(s)
}

func c16Abs(base, ref string) string {
	b, err := url.Parse(base)
	if err != nil {
		return ref
	}
	r, err := url.Parse(ref)
	if err != nil {
		return ref
	}
	u := b.ResolveReference(r)
	if u.Path == "" && u.Opaque == "" {
		u.Path = "/"
	}
	if s := u.String(); !strings.HasSuffix(ref, "#") {
		return s
	}
	return u.String() + "#"
}

// the candidates of a srcset, as user agents read it
func c16Set(s string) (l [][2]string) {
	for {
		s = strings.TrimLeft(s, " \t\n\r\f,")
		if s == "" {
			return
		}
		i := strings.IndexAny(s, " \t\n\r\f")
		if i < 0 {
			i = len(s)
		}
		u := s[:i]
		s = s[i:]
		d := ""
		if v := strings.TrimRight(u, ","); v != u {
			u = v
		} else {
			d, s, _ = strings.Cut(s, ",")
		}
		l = append(l, [2]string{u, strings.TrimSpace(d)})
	}
}

func TestVerifC16(t *testing.T) {
	const docURI = "http://example.com/dir/page.html"
	vRun(t, func(t *testing.T, g *gen) {
		k := &marks{}
		js := 0
		// references put together from parts, hosts in lower case and paths of plain characters and escapes
		ref := func() string {
			if g.one(3) {
				return g.pick("/x", "rel.html", "../up/y", "http://other.org/y?z=1", "https://other.org/", "a/b?c=d", "//cdn.example.org/p.js", "?q=1", "./z", "http://other.org", "x/y/../z", "https://o.org/p?q=r&s=t", "img/p-1_2.png")
			}
			s := g.pick("", "", "", "/", "/", "//cdn.org/", "http://o.org/", "https://o.org:8443/", "http://user@o.org/", "ftp://f.org/", "http://example.com/", "//example.com/", "../", "./", "../../")
			for i := g.Intn(4); i > 0; i-- {
				s += g.pick("a", "b.html", "c-d_e~1", "%20", "x%2Fy", "%C3%A9", "..", ".", "p+q", "k=v", "a,b", "(z)", "A", "@at") + g.pick("/", "/", "/", "")
			}
			if g.one(3) {
				s += "?" + g.pick("q=1", "a=b&c=d", "u=http://x.org/", "w=%20+", "x?y", "A=B")
			}
			if s == "" || strings.HasPrefix(s, "@") {
				s = "z" + s
			}
			return s
		}
		set := func() string {
			s := ""
			for i, n := 0, 1+g.Intn(3); i < n; i++ {
				u := strings.Trim(ref(), ",")
				if strings.Contains(u, ",") {
					u = "p" + strconv.Itoa(i)
				}
				s += u + g.pick("", " 1x", " 2x", " 1.5x", " 300w", "  2x", "\n100w")
				if i+1 < n {
					s += g.pick(", ", ", ", ",\n  ", " , ", ",  ")
				}
			}
			return s
		}
		script := func() string {
			s := ""
			for g.one(2) {
				s += g.pick(" ", "\t", "\n", "\r", "\x01", "\x1f", "\f", "\x08")
			}
			for _, c := range "javascript:" {
				if g.one(8) {
					s += g.pick("\t", "\n", "\r")
				}
				if g.one(3) {
					s += strings.ToUpper(string(c))
				} else {
					s += string(c)
				}
			}
			return s + g.pick("void(0)", "", "x()", "//c", "alert('#')", "%20a", "x?y")
		}
		root, head, body := g.article(func(m *mnode) {
			k.mark(m)
			if m.tag == "img" {
				m.set("src", ref())
				if g.one(3) {
					m.set("srcset", set())
				}
			}
			if !genVoid[m.tag] && g.one(12) {
				v := m.add(me(g.pick("video", "audio")))
				k.mark(v)
				if g.one(2) {
					v.set("src", ref())
				} else {
					x := v.add(me("source"))
					k.mark(x)
					x.set("src", ref())
					if g.one(3) {
						x.set("srcset", set())
					}
				}
				if !g.one(3) {
					v.set("poster", ref())
				}
				v.add(mt("media text"))
			}
			if !genVoid[m.tag] && m.tag != "a" && g.one(6) {
				a := m.add(me("a"))
				k.mark(a)
				a.set("href", g.pick("#frag", "#", ref(), ref(), ref()+"#sec", ref()+"#a%20b", " "+ref()+"\n", "mailto:someone@example.com", "tel:+123", "data:text/plain,abc", "about:blank", "javascripts:x", "x-javascript:y", "/javascript:z", "not/javascript:"))
				a.add(mt(g.words(2)))
				m.add(mt(g.words(4)))
			}
			if !genVoid[m.tag] && m.tag != "a" && g.one(6) {
				a := m.add(me("a"))
				js++
				a.set("href", g.pick(script(), script(), "javascript:void(0)", "JavaScript:x()", " javascript:x()", "java\nscript:y", "\tjavascript:z", "javascript:", "javascript://comment", "JAVASCRIPT:alert('#')"))
				a.add(mt(g.words(2)))
				for g.one(2) {
					a.add(me(g.pick("b", "span", "em"), mt(g.words(2))))
					if g.one(2) {
						a.add(mt(g.words(1)))
					}
				}
				if g.one(6) {
					a.kids = nil
				}
			}
		})
		base := docURI
		if g.one(3) {
			h := g.pick("/b/", "http://base.org/x/", "sub/", "", "../", "page.html", "//base.org/y/z", "?q", "/a%20b/c", "https://base.org")
			if g.one(4) { // a base in the body serves as well
				bb := me("base")
				bb.set("href", h)
				body.kids = append([]*mnode{bb}, body.kids...)
			} else {
				head.add(me("base")).set("href", h)
			}
			if g.one(3) && body.kids[0].tag != "base" {
				head.add(me("base")).set("href", g.pick("/second/", "http://second.org/"))
			}
			if h != "" {
				base = c16Abs(docURI, h)
			}
		}
		src := root.html()
		opts, d := g.looseOpts()
		in := "opts=" + d + " uri=" + docURI + " html=" + src
		vSample(in)
		vGuard2(func() {
			res, n, err := vParse(src, docURI, opts...)
			if err != nil {
				return
			}
			vNontrivial++
			vWalk(n, func(x *Node) {
				if x.NodeType != 1 {
					return
				}
				if x.LocalName == "a" && c16Scheme(x.GetAttribute("href")) == "javascript" {
					vFail(t, fmt.Sprintf("a javascript link is kept: %q", x.GetAttribute("href")), in)
				}
				m := k.find(x)
				if m == nil {
					return
				}
				for _, name := range []string{"href", "src", "poster"} {
					was, ok := m.attr(name)
					if !ok {
						continue
					}
					was = strings.TrimSpace(was)
					want := c16Abs(base, was)
					if strings.HasPrefix(was, "#") && base == docURI {
						want = was
					}
					if x.GetAttribute(name) != want {
						vFail(t, fmt.Sprintf("%s %q with base %q became %q, not %q", name, was, base, x.GetAttribute(name), want), in)
					}
				}
				if was, ok := m.attr("srcset"); ok {
					want := c16Set(was)
					for i := range want {
						want[i][0] = c16Abs(base, want[i][0])
					}
					if got := c16Set(x.GetAttribute("srcset")); fmt.Sprint(got) != fmt.Sprint(want) {
						vFail(t, fmt.Sprintf("srcset %q with base %q became %q, not %q", was, base, x.GetAttribute("srcset"), want), in)
					}
				}
			})
			if js == 0 {
				return
			}
			// taking the script links out keeps their text: the same page with plain links has the same text
			root.walk(func(m *mnode) {
				if h, ok := m.attr("href"); ok && c16Scheme(h) == "javascript" {
					m.set("href", "/plain")
				}
			})
			res2, _, err := vParse(root.html(), docURI, opts...)
			if err != nil || res2.TextContent != res.TextContent {
				vFail(t, "the text of javascript links is lost: "+res.TextContent, in)
			}
		})
	})
}
