package readability

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"testing"

	"golang.org/x/net/html"
)

var (
	c15Unlikely = regexp.MustCompile(`(?i)-ad-|ai2html|banner|breadcrumbs|combx|comment|community|cover-wrap|disqus|extra|footer|gdpr|header|legends|menu|related|remark|replies|rss|shoutbox|sidebar|skyscraper|social|sponsor|supplemental|ad-break|agegate|pagination|pager|popup|yom-remote`)
	c15Maybe    = regexp.MustCompile(`(?i)and|article|body|column|content|main|shadow`)
)

// a word that matters, in some spelling, sometimes as part of another, sometimes cut
func (g *gen) c15word() string {
	re := c15Unlikely
	if g.one(3) {
		re = c15Maybe
	}
	w := g.pick(strings.Split(strings.TrimPrefix(re.String(), "(?i)"), "|")...)
	switch g.Intn(8) {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToUpper(w[:1]) + w[1:]
	case 2:
		w = "pre" + w
	case 3:
		w += g.pick("-x", "s", "_1")
	case 4:
		w = w[1:]
	case 5:
		w = w[:len(w)-1]
	}
	return w
}

// declarations of other properties among the two that matter
func (g *gen) c15style() string {
	var d []string
	for i := g.Intn(4); i >= 0; i-- {
		d = append(d, g.pick("visibility", "display", "content-visibility", "backface-visibility", "visible", "-x-display", "display-mode", "hidden", "opacity", "color")+g.pick(":", " : ", ": ")+g.pick("none", "hidden", "visible", "block", "0", "none-such", "hidden-x"))
	}
	return strings.Join(d, g.pick(";", "; ")) + g.pick("", ";")
}

func c15Attr(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

func c15Text(n *html.Node) (s string) {
	if n.Type == html.TextNode {
		return n.Data
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += c15Text(c)
	}
	return
}

func c15Visible(n *html.Node) bool {
	st, _ := c15Attr(n, "style")
	vals := map[string]string{}
	for _, d := range strings.Split(st, ";") {
		k, v, _ := strings.Cut(d, ":")
		vals[strings.TrimSpace(k)] = strings.TrimSpace(v)
	}
	_, hidden := c15Attr(n, "hidden")
	aria, _ := c15Attr(n, "aria-hidden")
	cl, _ := c15Attr(n, "class")
	return vals["display"] != "none" && vals["visibility"] != "hidden" && !hidden && (aria != "true" || strings.Contains(cl, "fallback-image"))
}

// the score of a document
func c15Score(src string, minLen int, visible func(*html.Node) bool) float64 {
	doc, err := html.Parse(strings.NewReader(src))
	if err != nil {
		return math.NaN()
	}
	sum := 0.0
	var walk func(n *html.Node, inLi bool)
	walk = func(n *html.Node, inLi bool) {
		if n.Type == html.ElementNode {
			scored := n.Data == "p" && !inLi || n.Data == "pre" || n.Data == "article"
			if n.Data == "div" {
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					scored = scored || c.Type == html.ElementNode && c.Data == "br"
				}
			}
			cl, _ := c15Attr(n, "class")
			id, _ := c15Attr(n, "id")
			m := cl + " " + id
			if scored && visible(n) && (!c15Unlikely.MatchString(m) || c15Maybe.MatchString(m)) {
				if l := len(strings.TrimSpace(c15Text(n))); l >= minLen {
					sum += math.Sqrt(float64(l - minLen))
				}
			}
			inLi = inLi || n.Data == "li"
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, inLi)
		}
	}
	walk(doc, false)
	return sum
}

func TestVerifC15(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		var src string
		if g.one(4) {
			src = g.doc()
		} else {
			root, _, _ := g.article(func(m *mnode) {
				if g.one(5) {
					m.set("class", g.pick("comment", "sidebar", "content comment", "main", "menu", "article banner", "fallback-image", "x", g.c15word(), g.c15word()+" "+g.c15word(), g.c15word()+" fallback-image"))
				}
				if g.one(10) {
					m.set("id", g.pick("comment", "footer", "body", "related", g.c15word()))
				}
				if g.one(20) {
					// a word across class and id is none
					w := g.c15word()
					i := g.Intn(len(w) + 1)
					m.set("class", w[:i])
					m.set("id", w[i:])
				}
				if g.one(8) {
					m.set(g.pick("hidden", "aria-hidden"), g.pick("", "true", "false"))
				}
				if g.one(8) {
					m.set("style", g.pick("display:none", "visibility:hidden", "color:red; display : none", "display:block", "display", "visibility:visible", g.c15style()))
				}
				if g.one(6) && !genVoid[m.tag] {
					m.add(me("br"))
				}
				if g.one(12) && !genVoid[m.tag] {
					// line breaks around another div with line breaks
					m.add(me("div", mt(g.longText()), me("br"), me("div", mt(g.longText()), me("br"), me("br"), mt(g.words(3))), me("br"), mt(g.words(9))))
				}
				if g.one(10) && !genVoid[m.tag] {
					m.add(me(g.pick("p", "pre", "div", "li", "article"), mt(g.longText())))
				}
			})
			src = root.html()
			if g.one(6) {
				// many small ones before what counts
				many := ""
				for i := 40 + g.Intn(100); i > 0; i-- {
					many += g.pick("<p>x</p>", "<p>"+g.words(6)+"</p>", "<pre>x</pre>", "<div>x<br></div>", "<div><br>x</div>")
				}
				src = g.pick(many+src, strings.Replace(src, "<body>", "<body>"+many, 1), src+many)
			}
		}
		var opts []Option
		d := ""
		minLen, minScore, vis := 140, 20.0, c15Visible
		if g.one(2) {
			minLen = []int{0, 1, 20, 139, 140, 141, 300, -1, 60}[g.Intn(9)]
			opts, d = append(opts, MinContentLength(minLen)), fmt.Sprintf("MinContentLength(%d)", minLen)
		}
		score := c15Score(src, minLen, vis)
		if g.one(4) {
			vis = func(n *html.Node) bool { return len(c15Text(n))%3 != 0 }
			opts, d = append(opts, VisibilityChecker(vis)), d+" VisibilityChecker(length not a multiple of 3)"
			score = c15Score(src, minLen, vis)
		}
		if !g.one(4) {
			// near the score of this very document, or a usual one
			minScore = []float64{score * 0.99, score * 1.01, score - 1, score + 1, 0, 10, 30, -1, score * g.Float64() * 2}[g.Intn(9)]
			opts, d = append(opts, MinScore(minScore)), d+fmt.Sprintf(" MinScore(%v)", minScore)
		}
		if g.one(8) {
			// texts whose score is a whole number, so that the sum is exact
			src = ""
			for i := 1 + g.Intn(4); i > 0; i-- {
				k := g.Intn(12)
				tag := g.pick("p", "pre", "article", "p")
				src += "<" + tag + ">" + strings.Repeat("x", max(minLen, 0)+k*k) + "</" + tag + ">"
			}
			score = c15Score(src, max(minLen, 0), vis)
			minScore = score + float64(g.Intn(3)-1)
			opts, d = append(opts, MinContentLength(max(minLen, 0)), MinScore(minScore)), d+fmt.Sprintf(" MinContentLength(%d) MinScore(%v)", max(minLen, 0), minScore)
			in := fmt.Sprintf("score=%v opts=%s html=%s", score, d, src)
			vSample(in)
			vNontrivial++
			if got := IsProbablyReaderable(src, opts...); minScore >= 0 && score == math.Trunc(score) && got != (score > minScore) {
				vFail(t, fmt.Sprintf("IsProbablyReaderable is %v", got), in)
			}
			return
		}
		if math.IsNaN(score) || math.Abs(score-minScore) < 1e-6 {
			return
		}
		if score > 0 {
			vNontrivial++
		}
		in := fmt.Sprintf("score=%v opts=%s html=%s", score, d, src)
		vSample(in)
		vGuard2(func() {
			// a document without anything to score is never readable
			want := score > minScore && (score > 0 || c15Any(src, minLen, vis))
			if got := IsProbablyReaderable(src, opts...); got != want {
				vFail(t, fmt.Sprintf("IsProbablyReaderable is %v", got), in)
			}
		})
	})
}

func c15Any(src string, minLen int, vis func(*html.Node) bool) bool {
	return c15Score(src, minLen-1, vis) > 0
}
