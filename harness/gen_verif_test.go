package readability

// Generator of documents and options shared by the bounded parts of the checks.

import (
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

func init() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)})))
}

func vSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

// time a harness may take
func vBudget() time.Duration {
	s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if err != nil {
		s = 10
	}
	return time.Duration(s * float64(time.Second))
}

var vTried, vNontrivial int
var vSamples []string

// vRun calls body with fresh generators until the budget is used; body reports a failing input with t.Fatalf
func vRun(t *testing.T, body func(t *testing.T, g *gen)) {
	end := time.Now().Add(vBudget())
	for i := int64(0); time.Now().Before(end); i++ {
		g := newGen(vSeed()*1000003 + i)
		body(t, g)
		vTried++
		if t.Failed() {
			break
		}
	}
	t.Logf("VERIF-COUNT tried=%d nontrivial=%d", vTried, vNontrivial)
	for _, s := range vSamples {
		t.Logf("VERIF-SAMPLE %q", s)
	}
}

func vSample(s string) {
	if len(vSamples) < 3 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		vSamples = append(vSamples, s)
	}
}

// vFail reports a failing input
func vFail(t *testing.T, what string, input string) {
	t.Helper()
	t.Fatalf("VERIF-FAIL %s\nVERIF-INPUT %q", what, input)
}

type gen struct {
	*rand.Rand
	size  int
	depth int
}

func newGen(seed int64) *gen { return &gen{Rand: rand.New(rand.NewSource(seed))} }

func (g *gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }
func (g *gen) one(n int) bool           { return g.Intn(n) == 0 }

var genWords = strings.Fields("lorem ipsum dolor sit amet, consectetur adipiscing elit. sed do eiusmod tempor, incididunt ut labore et dolore magna aliqua. ünïcödé 漢字 share comment article author")

func (g *gen) words(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(genWords[g.Intn(len(genWords))])
	}
	return b.String()
}

func (g *gen) text() string {
	switch g.Intn(14) {
	case 0:
		return ""
	case 1:
		return g.pick(" ", "\n", "\t \n", "\u00a0")
	case 2:
		return g.pick("&lt;b&gt;", "&amp;", "&amp;lt;", "&#x3C;", "&#60;script&#62;", "&quot;q&apos;", "&", "&#0;", "&#99999;", "a &lt; b", "&nbsp;")
	case 3:
		return g.pick("x", "1 < 2", "a > b", "\"quoted\"", "'single'", "<![CDATA[raw <b> ]]>")
	case 4, 5, 6:
		return g.words(1 + g.Intn(8))
	default:
		return g.words(10 + g.Intn(60))
	}
}

var genTags = []string{"div", "p", "span", "a", "section", "article", "h1", "h2", "h3", "ul", "ol", "li", "table", "tbody", "tr", "td", "th", "caption",
	"img", "br", "hr", "pre", "code", "blockquote", "font", "figure", "picture", "video", "iframe", "object", "embed", "form", "fieldset", "input", "button",
	"textarea", "select", "footer", "aside", "link", "header", "em", "b", "i", "svg", "style", "noscript", "source", "ins", "del", "address", "dl", "dd"}
var genTextTags = []string{"div", "p", "section", "article", "div", "p", "p", "td", "li", "span", "a", "b"}

var genVoid = map[string]bool{"br": true, "hr": true, "img": true, "input": true, "embed": true, "link": true, "source": true, "meta": true, "base": true}

func (g *gen) attrs(tag string) string {
	var b strings.Builder
	add := func(k, v string) {
		fmt.Fprintf(&b, ` %s="%s"`, k, strings.ReplaceAll(strings.ReplaceAll(v, "&", "&amp;"), `"`, "&quot;"))
	}
	for g.one(3) {
		switch g.Intn(14) {
		case 0, 1:
			add("class", g.pick("page", "content main", "comment", "sidebar", "byline", "share", "hidden", "a  b page", "article", "keep other", "", " ", "fallback-image", "footer", "keep", "xpage pagex"))
		case 2:
			add("id", g.pick("title", "main", "comment-1", "readability-page-1", "share", "content", "author", ""))
		case 3:
			add("style", g.pick("display:none", "display: none;", "color:red; display : none ", "visibility:hidden", "display", "display:", "color", "", ";", "display:block", "visibility:visible;display:none", ":", "DISPLAY:none"))
		case 4:
			b.WriteString(g.pick(` hidden`, ` hidden=""`, ` hidden="hidden"`))
		case 5:
			add("aria-hidden", g.pick("true", "false", ""))
		case 6:
			add("role", g.pick("dialog", "menu", "navigation", "alert", "presentation", "article"))
		case 7:
			add("aria-modal", g.pick("true", "false"))
		case 8:
			add(g.pick("align", "bgcolor", "border", "width", "height", "valign", "vspace", "hspace", "rules", "frame", "cellpadding", "cellspacing", "background"), g.pick("1", "", "left"))
		case 9:
			add("dir", g.pick("rtl", "ltr", "auto"))
		case 10:
			add(g.pick("rel", "itemprop"), g.pick("author", "next", "author name"))
		case 11:
			add(g.pick("data-src", "data-srcset", "data-x", "alt"), g.pick("a.jpg", "a.jpg 1x, b.png 2x", "http://x/y.png", "none", "'\"<>&", "x.jpg 2"))
		case 12:
			add(g.pick("title", "lang", "datatable", "summary", "rowspan", "colspan"), g.pick("0", "1", "-3", "x", "99999999999999999999", "a<b>&\"'", ""))
		case 13:
			b.WriteString(g.pick(` x`, ` a=b`, ` q='"'`, ` data-q='a"b'`))
		}
	}
	switch tag {
	case "a":
		if !g.one(5) {
			add("href", g.pick("#x", "#", "javascript:void(0)", "javascript:alert('x')", "/rel", "http://e.com/a?b=c#d", "", " ", "//h/p%20q", "a,%20b", "?", "x?y#z", "mailto:a@b", "%zz", "\n", "http://[::1", " javascript:x()", "JavaScript:x()", ",%20", "a,%20 ", "http://EXAMPLE.com", "/C|/x", "x#", "x?"))
		}
	case "img", "source", "video", "picture", "figure", "audio":
		if !g.one(4) {
			add("src", g.pick("a.jpg", "", " ", "data:image/gif;base64,AAAA", "data:image/gif;BASE64,AAAA", "data:image/svg+xml;base64,AAAA", "data: image/png ; base64 , AAAA", "/x.png", "http://h/x.webp", "#f", "data:;base64,"))
		}
		if g.one(3) {
			add("srcset", g.pick("a.jpg 1x, b.jpg 2x", "a.jpg", "", " ", "null", "a.jpg 1x,b.jpg 2x", ",", "a.jpg 100w, ,b"))
		}
		if g.one(5) {
			add("poster", g.pick("p.jpg", " ", ""))
		}
		if g.one(3) {
			add("class", g.pick("lazy", "lazyload", "fallback-image"))
		}
	case "iframe", "object", "embed":
		if !g.one(3) {
			add("src", g.pick("https://www.youtube.com/embed/x", "http://evil/x", "//player.vimeo.com/1", "", "https://v.qq.com/a"))
		}
	}
	return b.String()
}

func (g *gen) node(b *strings.Builder, depth int) {
	g.size++
	if g.size > 160 {
		return
	}
	switch {
	case g.one(4):
		b.WriteString(g.text())
		return
	case g.one(40):
		b.WriteString(g.pick("<!-- c -->", "<!---->", "<?x?>", "<<!-- -->script>", "<", "</p>", "</div>", "<>", "<br>", "<a:b>q</a:b>", "<x-y>z</x-y>", "x<<!-- -->img onerror=1>", "&<!-- -->lt;"))
		return
	}
	tag := genTags[g.Intn(len(genTags))]
	if g.one(2) {
		tag = genTextTags[g.Intn(len(genTextTags))]
	}
	if g.one(30) {
		tag = g.pick("SCRIPT", "script", "noscript", "title", "body", "html", "head", "meta", "base", "svg")
	}
	g.element(b, tag, depth)
}

func (g *gen) element(b *strings.Builder, tag string, depth int) {
	b.WriteString("<" + tag + g.attrs(strings.ToLower(tag)))
	if genVoid[tag] && !g.one(40) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	if tag == "noscript" && g.one(2) {
		b.WriteString(`<img src="n.jpg"/>`)
	} else {
		g.kids(b, depth+1)
	}
	b.WriteString("</" + tag + ">")
}

func (g *gen) kids(b *strings.Builder, depth int) {
	if depth > g.depth {
		b.WriteString(g.text())
		return
	}
	n := g.Intn(5)
	if g.one(6) {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.node(b, depth)
	}
}

func (g *gen) jsonValue(depth int) string {
	switch g.Intn(9) {
	case 0:
		return "null"
	case 1:
		return g.pick("1", "true", "-2.5", "[]", "{}", `[{"name":"Only One"}]`, `[{}]`)
	case 2:
		if depth > 2 {
			return `"s"`
		}
		return "[" + g.jsonValue(depth+1) + "," + g.jsonValue(depth+1) + "]"
	case 3:
		if depth > 2 {
			return `{}`
		}
		return `{"name":` + g.jsonValue(depth+1) + `}`
	case 4:
		return `{"name":"Jane Doe"}`
	case 5:
		return `[{"name":"A"},{"name":` + g.jsonValue(depth+1) + `}]`
	default:
		return strconv.Quote(g.pick("", " ", "Some Title Of Things", g.words(3), "NewsArticle", "x &amp; y"))
	}
}

func (g *gen) jsonld() string {
	var fs []string
	ctx := `"https://schema.org"`
	if g.one(6) {
		ctx = g.pick(`"http://schema.org/"`, `"x"`, `null`, `["https://schema.org"]`, `{"a":1}`, "3")
	}
	fs = append(fs, `"@context":`+ctx)
	ty := `"NewsArticle"`
	if g.one(4) {
		ty = g.pick(`"Article"`, `"X"`, `null`, `["NewsArticle"]`, `5`, `"BlogPosting"`)
	}
	if !g.one(6) {
		fs = append(fs, `"@type":`+ty)
	}
	if g.one(6) {
		fs = append(fs, `"@graph":[`+g.jsonValue(1)+`,{"@type":`+g.jsonValue(1)+`},{"@type":"Article","name":`+g.jsonValue(1)+`,"headline":`+g.jsonValue(1)+`}]`)
	}
	for _, k := range []string{"name", "headline", "author", "description", "publisher", "datePublished"} {
		if g.one(2) {
			fs = append(fs, strconv.Quote(k)+":"+g.jsonValue(0))
		}
	}
	s := "{" + strings.Join(fs, ",") + "}"
	if g.one(12) {
		s = g.pick("", "{", "[]", "null", "[1]", "\"x\"")
	}
	if g.one(5) {
		s = "<![CDATA[" + s + "]]>"
	}
	return `<script type="application/ld+json">` + s + `</script>`
}

func (g *gen) head() string {
	var b strings.Builder
	b.WriteString("<head" + g.attrs("head") + ">")
	if !g.one(4) {
		b.WriteString("<title>" + g.pick("A Title", "Site | Some Long Title Of An Article", "Foo: bar baz qux", "a: b: c", "x » y z w", "", "one two three four five six: seven", "a \\ b", ":", " - ", "t - ", g.words(4)) + "</title>")
	}
	for g.one(2) {
		k, v := g.pick("og:title", "dc:title", "dcterm:title", "twitter:title", "title", "weibo:article:title", "og:description", "description", "author", "dc:creator", "DC.Creator", "og:site_name", "article:published_time", " og : title ", "twitter:description", "article:author"), g.pick("", " ", "val1", "val &amp; two", "&amp;lt;b&amp;gt;", "&#x41;", g.words(3))
		fmt.Fprintf(&b, `<meta %s="%s" content="%s"/>`, g.pick("name", "property"), k, v)
	}
	if g.one(3) {
		b.WriteString(g.jsonld())
	}
	if g.one(6) {
		b.WriteString(`<base href="` + g.pick("/b/", "http://other.org/x/", "", "%zz", "http://[", "sub") + `"/>`)
	}
	if g.one(8) {
		b.WriteString("<style>p{}</style>")
	}
	b.WriteString("</head>")
	return b.String()
}

// doc makes a document: usually well formed, sometimes mangled
func (g *gen) doc() string {
	g.size, g.depth = 0, 2+g.Intn(7)
	var b strings.Builder
	if g.one(3) {
		b.WriteString("<!DOCTYPE html>")
	}
	noHTML := g.one(12)
	if !noHTML {
		b.WriteString("<html" + g.attrs("html") + ">")
	}
	if !g.one(8) {
		b.WriteString(g.head())
	}
	if g.one(15) {
		for i := 0; i < 3; i++ {
			g.node(&b, 1)
		}
	}
	b.WriteString("<body" + g.attrs("body") + ">")
	n := 1 + g.Intn(6)
	for i := 0; i < n; i++ {
		g.node(&b, 0)
	}
	if g.one(3) {
		b.WriteString("<div" + g.attrs("div") + ">")
		for i := 0; i < 1+g.Intn(5); i++ {
			b.WriteString("<p" + g.attrs("p") + ">" + g.words(30+g.Intn(80)) + "</p>")
		}
		b.WriteString("</div>")
	}
	b.WriteString("</body>")
	if g.one(15) {
		g.node(&b, 1)
	}
	if !noHTML {
		b.WriteString("</html>")
	}
	s := b.String()
	for g.one(6) && len(s) > 10 {
		i := g.Intn(len(s))
		switch g.Intn(4) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + s[i+1:]
		case 2:
			s = s[:i] + g.pick("<", ">", "\"", "&", "<br>", "</", "\x00", "\xff") + s[i:]
		case 3:
			j := i + g.Intn(len(s)-i)
			s = s[:j] + s[i:]
		}
	}
	return s
}

func (g *gen) uri() string {
	return g.pick("http://example.com/a/b.html", "", "http://[::1", "x", "file:///C|/x", "http://example.com")
}

func (g *gen) opts() ([]Option, string) {
	var o []Option
	var d []string
	add := func(s string, x Option) { o = append(o, x); d = append(d, s) }
	if g.one(4) {
		n := g.Intn(7) - 1
		add(fmt.Sprintf("NTopCandidates(%d)", n), NTopCandidates(n))
	}
	if g.one(2) {
		n := []int{0, 1, 50, 100, 300, 1000, 100000, -5}[g.Intn(8)]
		add(fmt.Sprintf("CharThreshold(%d)", n), CharThreshold(n))
	}
	if g.one(5) {
		add(`ClassesToPreserve("keep")`, ClassesToPreserve("keep"))
	}
	if g.one(6) {
		add(`KeepClasses(true)`, KeepClasses(true))
	}
	if g.one(6) {
		add(`DisableJSONLD(true)`, DisableJSONLD(true))
	}
	if g.one(8) {
		add(`AllowedVideoRegex(nil)`, AllowedVideoRegex(nil))
	} else if g.one(8) {
		add(`AllowedVideoRegex(evil)`, AllowedVideoRegex(regexp.MustCompile("evil")))
	}
	return o, strings.Join(d, ",")
}

// ---- documents with a known tree ----

type mnode struct {
	tag   string // "" for text
	text  string // raw text (to be escaped), for text nodes
	attrs [][2]string
	kids  []*mnode
	up    *mnode
}

func (m *mnode) add(k *mnode) *mnode { k.up = m; m.kids = append(m.kids, k); return k }
func (m *mnode) attr(k string) (string, bool) {
	for _, a := range m.attrs {
		if a[0] == k {
			return a[1], true
		}
	}
	return "", false
}
func (m *mnode) set(k, v string) {
	for i := range m.attrs {
		if m.attrs[i][0] == k {
			m.attrs[i][1] = v
			return
		}
	}
	m.attrs = append(m.attrs, [2]string{k, v})
}

var mEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
var mEscA = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\r", "&#13;")

func (m *mnode) render(b *strings.Builder) {
	if m.tag == "" {
		b.WriteString(mEsc.Replace(m.text))
		return
	}
	b.WriteString("<" + m.tag)
	for _, a := range m.attrs {
		b.WriteString(" " + a[0] + `="` + mEscA.Replace(a[1]) + `"`)
	}
	if genVoid[m.tag] {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range m.kids {
		k.render(b)
	}
	b.WriteString("</" + m.tag + ">")
}
func (m *mnode) html() string { var b strings.Builder; m.render(&b); return b.String() }
func (m *mnode) walk(f func(*mnode)) {
	f(m)
	for _, k := range m.kids {
		k.walk(f)
	}
}

// elements counts the elements of the tree
func (m *mnode) elements() int {
	n := 0
	m.walk(func(x *mnode) {
		if x.tag != "" {
			n++
		}
	})
	return n
}

func mt(s string) *mnode { return &mnode{text: s} }
func me(tag string, kids ...*mnode) *mnode {
	m := &mnode{tag: tag}
	for _, k := range kids {
		m.add(k)
	}
	return m
}

// article makes a document that looks like an article: containers with paragraphs, lists,
// tables, headings, images, links, and other blocks in between. every is called for each
// element below body, to decorate it.
func (g *gen) article(every func(*mnode)) (root, head, body *mnode) {
	root = me("html")
	head = root.add(me("head"))
	head.add(me("title", mt(g.pick("A plain title", "Site name | The long title of an article", g.words(3)))))
	body = root.add(me("body"))
	g.size = 0
	main := body
	for i := g.Intn(3); i > 0; i-- {
		main = main.add(me(g.pick("div", "div", "section", "article", "main")))
		if every != nil {
			every(main)
		}
	}
	n := 2 + g.Intn(7)
	for i := 0; i < n; i++ {
		g.block(main, 0, every)
	}
	if g.one(2) {
		for i := g.Intn(3); i > 0; i-- {
			g.block(body, 0, every)
		}
	}
	return
}

func (g *gen) longText() string {
	switch g.Intn(8) {
	case 0:
		return g.words(1 + g.Intn(3))
	case 1, 2:
		return g.words(5 + g.Intn(15))
	case 3:
		return g.pick("", " ", "\n\t") + g.words(5+g.Intn(15)) + g.pick("  ", "\n  ", "\u00a0", " \t", " ") + g.words(5+g.Intn(15)) + g.pick("", " ", "\n")
	default:
		return g.words(25 + g.Intn(50))
	}
}

func (g *gen) inline(m *mnode, every func(*mnode)) {
	for i := 1 + g.Intn(3); i > 0; i-- {
		if g.one(3) {
			k := m.add(me(g.pick("a", "b", "em", "span", "i", "code", "img", "span")))
			if g.one(5) {
				k.tag = g.pick("math", "ruby", "sup", "sub", "cite", "small", "time", "x-custom", "label", "abbr", "q", "mark", "kbd", "strong", "u", "del", "data", "var", "samp", "bdo", "dfn", "mi")
			}
			if k.tag == "img" {
				k.set("src", "pic"+strconv.Itoa(g.Intn(50))+".jpg")
			} else {
				k.add(mt(g.words(1 + g.Intn(6))))
			}
			if k.tag == "a" {
				k.set("href", g.pick("/x", "http://other.org/y?z=1", "page.html"))
			}
			if every != nil {
				every(k)
			}
		} else {
			m.add(mt(g.longText()))
		}
	}
}

func (g *gen) block(m *mnode, depth int, every func(*mnode)) {
	g.size++
	if g.size > 60 {
		return
	}
	tag := g.pick("p", "p", "p", "p", "div", "div", "section", "ul", "table", "h2", "h3", "blockquote", "pre", "figure", "article", "header", "span", "font", "center", "ol", "dl", "hr", "address", "details", "main")
	if depth > 4 && (tag == "div" || tag == "section" || tag == "article" || tag == "blockquote" || tag == "main") {
		tag = "p"
	}
	k := m.add(me(tag))
	if every != nil {
		every(k)
	}
	switch tag {
	case "hr":
	case "div", "section", "article", "header", "main":
		if g.one(5) {
			g.inline(k, every)
		}
		for i := g.Intn(4); i > 0; i-- {
			g.block(k, depth+1, every)
		}
		if g.one(6) {
			g.inline(k, every)
		}
	case "dl":
		for i := 1 + g.Intn(3); i > 0; i-- {
			for _, x := range []string{"dt", "dd"} {
				d := k.add(me(x))
				if every != nil {
					every(d)
				}
				g.inline(d, every)
			}
		}
	case "ul", "ol":
		for i := 1 + g.Intn(4); i > 0; i-- {
			li := k.add(me("li"))
			if every != nil {
				every(li)
			}
			g.inline(li, every)
		}
	case "table":
		if g.one(6) {
			k.add(me("caption", mt(g.words(3))))
		}
		if g.one(4) {
			k = k.add(me("tbody"))
			if every != nil {
				every(k)
			}
		}
		for i := 1 + g.Intn(3); i > 0; i-- {
			tr := k.add(me("tr"))
			if every != nil {
				every(tr)
			}
			for j := 1 + g.Intn(3); j > 0; j-- {
				td := tr.add(me(g.pick("td", "td", "td", "th")))
				if every != nil {
					every(td)
				}
				g.inline(td, every)
			}
		}
	case "figure":
		img := k.add(me("img"))
		img.set("src", "fig.png")
		if every != nil {
			every(img)
		}
		if g.one(2) {
			c := k.add(me("figcaption", mt(g.words(1+g.Intn(12)))))
			if every != nil {
				every(c)
			}
		}
	default:
		g.inline(k, every)
	}
}

// vParse runs an extraction and also returns the tree that was serialised
func vParse(src, uri string, opts ...Option) (res *Result, root *Node, err error) {
	opts = append(opts[:len(opts):len(opts)], Serializer(func(n *Node) string { root = n; return n.GetInnerHTML() }))
	r, err := New(src, uri, opts...)
	if err != nil {
		return nil, nil, err
	}
	res, err = r.Parse()
	return
}

// vByTag: the elements below n with this name, in document order
func vByTag(n *Node, tag string) (out []*Node) {
	vWalk(n, func(x *Node) {
		if x != n && x.NodeType == 1 && x.LocalName == tag {
			out = append(out, x)
		}
	})
	return
}

func vWalk(n *Node, f func(*Node)) {
	f(n)
	for _, c := range n.ChildNodes {
		vWalk(c, f)
	}
}

func vAttrs(n *Node) (out [][2]string) {
	for i := 0; i < n.GetAttributeLen(); i++ {
		a := n.GetAttributeByIndex(i)
		out = append(out, [2]string{a.getName(), a.getValue()})
	}
	return
}

// looseOpts: options that make the extractor keep more
func (g *gen) looseOpts() ([]Option, string) {
	switch g.Intn(4) {
	case 0:
		return []Option{CharThreshold(0)}, "CharThreshold(0)"
	case 1:
		return []Option{CharThreshold(50)}, "CharThreshold(50)"
	case 2:
		return []Option{CharThreshold(100000)}, "CharThreshold(100000)"
	}
	return nil, ""
}

// vGuard2 runs f; a panic is another property's business, a reported failure is passed on
func vGuard2(f func()) {
	defer func() { recover() }()
	f()
}

// vWait waits for the verdict of a run in another goroutine
func vWait(t *testing.T, ch chan string, fail func(string), input string) {
	t.Helper()
	select {
	case s := <-ch:
		if s != "" {
			fail(s)
		}
	case <-time.After(20 * time.Second):
		vFail(t, "a call did not return within 20 s", input)
	}
}

func (g *gen) pickInt(a ...int) int { return a[g.Intn(len(a))] }
