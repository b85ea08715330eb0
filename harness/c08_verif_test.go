package readability

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
)

var c08n int

func (g *gen) c08val() (raw, want string) {
	c08n++
	switch g.Intn(7) {
	case 5:
		v := fmt.Sprintf("%s value%d %s", g.pick("-", "«", "'", "|", "#", "0", "&", "$1", ":", "漢"), c08n, g.pick("-", "»", "'", ".", "!", "?", "&", ";", "%s"))
		return v, v
	case 6:
		v := fmt.Sprintf("%s%d%s", g.pick("-", "x", "(", "\u00a0y", "\"", "Ü"), c08n, g.pick("", ")", "\"", "-"))
		return v, strings.TrimSpace(v)
	case 0:
		return fmt.Sprintf("one &lt; two%d", c08n), fmt.Sprintf("one < two%d", c08n)
	case 1:
		return fmt.Sprintf("q%d &amp;amp; a", c08n), fmt.Sprintf("q%d &amp; a", c08n)
	case 2:
		return fmt.Sprintf("  trimmed%d\t", c08n), fmt.Sprintf("trimmed%d", c08n)
	case 3: // other shapes
		v := fmt.Sprintf(g.pick("@handle%d", "#tag%d", "http://example.com/%d", "%d", "By Some Writer%d", "a%d", "one | two - three » four%d", "„quoted“ 'text' %d", "http%d", "\u00a0%d\u00a0x", "[value%d]", "x, y, and z%d"), c08n)
		if g.one(4) {
			v += strings.Repeat(" and more of it", 20+g.Intn(30))
		}
		return v, strings.TrimSpace(v)
	}
	v := fmt.Sprintf("value%d of things", c08n)
	return v, v
}

func first(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func TestVerifC08(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		root, head, body := g.article(nil)
		title := "The plain and long enough title " + fmt.Sprint(c08n)
		head.kids = nil
		head.add(me("title", mt(title)))
		lang := ""
		if g.one(2) {
			lang = g.pick("en", "it-IT", "zh")
			root.set("lang", lang)
		}
		if g.one(4) {
			body.set("lang", g.pick("fr", "de"))
		}
		vals := map[string]string{}
		meta := func(attr, key, canon string) {
			raw, want := g.c08val()
			m := head.add(me("meta"))
			m.set(attr, key)
			m.set("content", raw)
			if canon != "" {
				vals[canon] = want
			}
			if g.one(8) { // a second name that says nothing
				m.set(map[string]string{"name": "property", "property": "name"}[attr], g.pick("og:image", "keywords", "", "fb:app_id", "article:section"))
			}
			if g.one(8) { // no content: not a value
				head.add(me("meta")).set(attr, key)
			}
		}
		both := []string{"dc:title", "dcterm:title", "og:title", "twitter:title", "dc:description", "dcterm:description", "og:description", "twitter:description", "dc:creator", "dcterm:creator", "og:site_name"}
		names := []string{"weibo:article:title", "weibo:webpage:title", "title", "weibo:article:description", "weibo:webpage:description", "description", "author"}
		density := 1 + g.Intn(5)
		for _, i := range g.Perm(len(both) + len(names) + 1) {
			if !g.one(density) {
				continue
			}
			switch {
			case i < len(both):
				k := both[i]
				w := k
				if g.one(4) {
					w = strings.ToUpper(k)
				}
				if g.one(5) {
					w = strings.Replace(w, ":", " : ", 1)
				}
				if g.one(2) {
					meta("property", w, k)
				} else {
					if g.one(4) {
						w = strings.Replace(w, ":", ".", 1)
					}
					meta("name", w, k)
				}
			case i < len(both)+len(names):
				k := names[i-len(both)]
				w := k
				if i := strings.LastIndex(w, ":"); i > 0 && g.one(4) {
					w = w[:i] + g.pick(".", " .", ". ") + w[i+1:]
				}
				if g.one(4) {
					w = strings.ToUpper(w)
				}
				if g.one(6) {
					w = g.pick(" ", "\t", "  ") + w + g.pick("", " ", "\n")
				}
				meta("name", w, k)
			default:
				meta("property", "article:published_time", "article:published_time")
			}
		}
		for g.one(3) {
			meta(g.pick("name", "property"), g.pick("viewport", "keywords", "og:image", "fb:app_id"), "")
		}
		// JSON-LD
		jl := map[string]string{}
		if g.one(2) {
			for k := 1 + g.Intn(2); k > 0; k-- {
				o := map[string]any{"@context": g.pick("https://schema.org", "http://schema.org", "http://schema.org/"), "@type": g.pick("NewsArticle", "Article", "BlogPosting")}
				good := true
				if g.one(5) {
					o["@context"], good = g.pick("http://other.org", "x", "https://schema.org/Article", "see https://schema.org"), false
					if g.one(3) {
						o["@context"] = 7
					} else if g.one(3) {
						o["@context"] = nil
					}
				} else if g.one(6) {
					o["@type"], good = g.pick("Person", "WebSite"), false
				}
				w := map[string]string{}
				str := func() string { c08n++; return fmt.Sprintf("json%d words", c08n) }
				if g.one(2) {
					w["title"] = str()
					o[g.pick("name", "headline")] = w["title"]
				} else if g.one(3) {
					n, h := str(), str()
					if g.one(2) {
						h = title
						w["title"] = h
					} else {
						w["title"] = n
					}
					o["name"], o["headline"] = n, h
				}
				if g.one(2) {
					a := str()
					w["byline"] = a
					if g.one(2) {
						o["author"] = map[string]any{"name": " " + a + " "}
					} else {
						var as []any
						as = append(as, map[string]any{"name": a})
						for k := 1 + g.Intn(3); k > 0; k-- {
							b := str()
							if g.one(4) {
								b = a
							}
							as = append(as, map[string]any{"name": b})
							w["byline"] += ", " + b
						}
						o["author"] = as
					}
				}
				if g.one(2) {
					w["excerpt"] = str()
					o["description"] = w["excerpt"]
				}
				if g.one(2) {
					w["site"] = str()
					o["publisher"] = map[string]any{"name": w["site"]}
				}
				if g.one(2) {
					w["date"] = str()
					o["datePublished"] = w["date"]
				}
				// values of another type, or blank, are no values
				for _, f := range [][2]string{{"excerpt", "description"}, {"date", "datePublished"}, {"site", "publisher"}, {"byline", "author"}} {
					if w[f[0]] == "" && g.one(4) {
						o[f[1]] = []any{1, nil, true, "  ", []any{}, map[string]any{"name": 7}, map[string]any{"name": " "}, []any{map[string]any{"name": nil}}}[g.Intn(8)]
					}
				}
				if good && g.one(4) {
					c := o["@context"]
					bare := map[string]any{}
					for k, v := range o {
						if k != "@context" {
							bare[k] = v
						}
					}
					graph := []any{map[string]any{"@type": "Person", "name": "no"}, bare}
					if g.one(3) {
						graph = append(graph, map[string]any{"@type": g.pick("Article", "WebPage", "NewsArticle"), "name": "not this one", "description": "nor this"})
					}
					if g.one(4) {
						graph = append([]any{g.pick("text", ""), 3, nil, map[string]any{"name": "untyped"}, map[string]any{"@type": []any{"Article"}}}, graph...)
					}
					o = map[string]any{"@context": c, "@graph": graph}
					if g.one(4) {
						o["@type"] = g.pick("Article", "WebPage")
						o["name"] = "nor that"
					}
				}
				js, _ := json.Marshal(o)
				txt := string(js)
				if g.one(4) {
					txt = "<![CDATA[" + txt + "]]>"
				}
				s := head.add(me("script", mt(txt)))
				s.set("type", "application/ld+json")
				if good && len(jl) == 0 {
					jl = w
					jl["ok"] = "1"
				}
			}
		}
		var opts []Option
		if g.one(6) {
			opts = append(opts, DisableJSONLD(true))
			jl = map[string]string{}
		}
		// a byline in the text
		inText := ""
		if g.one(3) {
			c08n++
			inText = fmt.Sprintf("By Writer%d", c08n)
			b := me(g.pick("p", "div", "span"), mt(inText))
			switch g.Intn(3) {
			case 0:
				b.set("class", g.pick("byline", "article-author", "dateline"))
			case 1:
				b.set("rel", "author")
			case 2:
				b.set("itemprop", "author")
			}
			m := body.kids[0]
			// a paragraph alone in a div takes its place and is not looked at
			if m.tag == "p" || !m.shows() {
				m = body
			}
			m.kids = append([]*mnode{b}, m.kids...)
		}
		// scripts hold raw text
		src := strings.Builder{}
		root.render(&src)
		html := src.String()
		html = c08raw(root, html)
		in := fmt.Sprintf("%d options, html=%s", len(opts), html)
		vSample(in)
		vGuard2(func() {
			res, n, err := vParse(html, "http://example.com/", append(opts, CharThreshold(g.pickInt(0, 100000)))...)
			if err != nil {
				return
			}
			vNontrivial++
			cmp := func(what, got, want string) {
				if got != want {
					vFail(t, fmt.Sprintf("%s is %q, its first source says %q", what, got, want), in)
				}
			}
			cmp("Title", res.Title, first(jl["title"], vals["dc:title"], vals["dcterm:title"], vals["og:title"], vals["weibo:article:title"], vals["weibo:webpage:title"], vals["title"], vals["twitter:title"], title))
			cmp("Byline", res.Byline, first(jl["byline"], vals["dc:creator"], vals["dcterm:creator"], vals["author"], inText))
			p := ""
			if ps := vByTag(n, "p"); len(ps) > 0 {
				p = strings.TrimSpace(ps[0].GetTextContent())
			}
			cmp("Excerpt", res.Excerpt, first(jl["excerpt"], vals["dc:description"], vals["dcterm:description"], vals["og:description"], vals["weibo:article:description"], vals["weibo:webpage:description"], vals["description"], vals["twitter:description"], p))
			cmp("SiteName", res.SiteName, first(jl["site"], vals["og:site_name"]))
			cmp("PublishedTime", res.PublishedTime, first(jl["date"], vals["article:published_time"]))
			cmp("Lang", res.Lang, lang)
		})
	})
}

// shows: it holds text that is not blank
func (m *mnode) shows() (yes bool) {
	m.walk(func(k *mnode) { yes = yes || strings.TrimSpace(k.text) != "" })
	return
}

// c08raw undoes the escaping inside script elements (raw text)
func c08raw(root *mnode, html string) string {
	root.walk(func(m *mnode) {
		if m.tag == "script" {
			for _, k := range m.kids {
				html = strings.Replace(html, mEsc.Replace(k.text), k.text, 1)
			}
		}
	})
	return html
}
