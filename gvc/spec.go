package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- contract language: expressions ----

type Expr struct {
	op   string // lit, str, id, field, index, call, un, bin, forall, exists
	s    string // name / operator / literal
	a    []*Expr
	vars []SVar
	trig [][]*Expr
	line string
}

type SVar struct{ name, ty string }

type tok struct {
	k string // id num str op
	s string
}

func lex(src string) []tok {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"num", src[i:j]})
			i = j
		case c == '"' || c == '`':
			j := i + 1
			for src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic("bad string in spec: " + src[i:j+1])
			}
			out = append(out, tok{"str", s})
			i = j + 1
		default:
			for _, o := range []string{"<==>", "==>", "<=", ">=", "==", "!=", "&&", "||", "::", "[]"} {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					goto next
				}
			}
			out = append(out, tok{"op", string(c)})
			i++
		next:
		}
	}
	out = append(out, tok{"eof", ""})
	return out
}

type parser struct {
	t   []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) accept(s string) bool {
	if p.peek().k != "str" && p.peek().s == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q got %q in: %s", s, p.peek().s, p.src))
	}
}

func parseExpr(src string) *Expr {
	p := &parser{t: lex(src), src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	e.line = src
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", s: t.s, a: []*Expr{l, r}}
	}
}

func (p *parser) ty() string {
	s := ""
	for p.peek().k == "op" && (p.peek().s == "*" || p.peek().s == "[]") {
		s += p.next().s
	}
	s += p.next().s
	if s == "map" && p.accept("[") {
		k := p.ty()
		p.expect("]")
		return "map[" + k + "]" + p.ty()
	}
	if p.accept(".") {
		s += "." + p.next().s
	}
	return s
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{op: "un", s: t.s, a: []*Expr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{op: t.s}
		for {
			n := p.next().s
			e.vars = append(e.vars, SVar{n, p.ty()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		p.expect("::")
		e.a = []*Expr{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &Expr{op: "lit", s: t.s}
	case "str":
		return &Expr{op: "str", s: t.s}
	case "id":
		return &Expr{op: "id", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			e = &Expr{op: "field", s: p.next().s, a: []*Expr{e}}
		case p.accept("["):
			i := p.expr(0)
			p.expect("]")
			e = &Expr{op: "index", a: []*Expr{e, i}}
		case p.peek().k == "op" && p.peek().s == "(" && e.op == "id":
			p.next()
			c := &Expr{op: "call", s: e.s}
			for !p.accept(")") {
				c.a = append(c.a, p.expr(0))
				p.accept(",")
			}
			e = c
		default:
			return e
		}
	}
}

// ---- contract files ----

type Clause struct {
	name string
	tags []string
	e    *Expr
	src  string
}

type GhostUpd struct {
	enter bool
	ghost string
	vars  []SVar
	e     *Expr
	tags  []string
}

type Contract struct {
	fn       string
	params   []string
	requires []*Clause
	ensures  []*Clause
	updates  []*GhostUpd
	ghosts   []string // ghosts that may change (havoc), besides updates
	nilable  map[string]bool
	tags     []string
	use      map[string]bool // lazy invariants whose definition is needed
	noinv    map[string]bool // invariants not required/ensured ("*" all)
	pure     bool
	cands    []*Cand
	onlyfor  []string
	optional bool
	trusted  string
	modifies []string // explicit overriding modset additions
	unroll   int
	splits   []*Expr
	skips    []string
	skipWhy  string
	leave    []*Leave
	hide     map[string]bool // invariants kept out of the solver's sight in this function
	pureRes  *Expr           // result as a pure expression of parameters and state
}

// Leave: obligations of this name (in one function) are not proved but left to the bounded part
type Leave struct {
	tag, name, why string
}

type Cand struct {
	name string
	vars []SVar
	e    *Expr
	tags []string
}

type Pred struct {
	name string
	vars []SVar
	e    *Expr
}

type Inv struct {
	name string
	tags []string
	e    *Expr
	lazy bool
	// computed
	comps []string
}

type Ghost struct{ name, sort string }

type Spec struct {
	ghosts    []*Ghost
	ghostBy   map[string]*Ghost
	preds     map[string]*Pred
	invs      []*Inv
	contracts map[string]*Contract
	order     []string
	cands     []*Cand
	smt       []string // raw smt
	funs      map[string][]string
	smtTag    map[int][]string
	lemmas    []*StoreLemma
	externs   map[string]*Contract // library functions and function values ("dyn:func(*Node) string")
	stable    []string
	trans     []*Inv
	auto      []*Auto
	profiles  map[string][]string
	prop      string // the property the specification is restricted to
	unproved  map[string]bool
	show      map[string][]string // property -> invariants not hidden in its proof
	owned     map[string][]string // element type -> ghosts naming the owner of an array
}

// elsewhere: the obligation is also one of a property that this one builds on and that does not build on it;
// its own check discharges it
func (sp *Spec) elsewhere(tags map[string]bool) bool {
	for _, t := range sp.profiles[sp.prop] {
		if t == sp.prop || !tags[t] {
			continue
		}
		back := false
		for _, u := range sp.profiles[t] {
			back = back || u == sp.prop
		}
		if !back {
			return true
		}
	}
	return false
}

// restrict drops invariants and postconditions that play no part in the proof of a property
func (sp *Spec) restrict(prop string) {
	sp.prop = prop
	on := map[string]bool{prop: true, "*": true}
	for _, t := range sp.profiles[prop] {
		on[t] = true
	}
	has := func(tags []string) bool {
		if len(tags) == 0 {
			return true
		}
		for _, t := range tags {
			if on[t] {
				return true
			}
		}
		return false
	}
	fi := func(in []*Inv) (out []*Inv) {
		for _, v := range in {
			if has(v.tags) {
				out = append(out, v)
			}
		}
		return
	}
	fc := func(in []*Clause) (out []*Clause) {
		for _, v := range in {
			if has(v.tags) {
				out = append(out, v)
			}
		}
		return
	}
	fu := func(in []*GhostUpd) (out []*GhostUpd) {
		for _, v := range in {
			if has(v.tags) {
				out = append(out, v)
			}
		}
		return
	}
	for i, tags := range sp.smtTag {
		if !has(tags) {
			sp.smt[i] = ""
		}
	}
	for _, c := range sp.externs {
		c.ensures, c.requires, c.updates = fc(c.ensures), fc(c.requires), fu(c.updates)
	}
	sp.invs, sp.trans = fi(sp.invs), fi(sp.trans)
	var au []*Auto
	for _, a := range sp.auto {
		if has(a.tags) {
			au = append(au, a)
		}
	}
	sp.auto = au
	for k, c := range sp.contracts {
		if len(c.onlyfor) > 0 && !has(c.onlyfor) {
			delete(sp.contracts, k)
			continue
		}
		for _, s := range sp.show[prop] {
			c.use[s] = true
		}
		c.ensures, c.requires = fc(c.ensures), fc(c.requires)
		c.updates = fu(c.updates)
		var cd []*Cand
		for _, x := range c.cands {
			if has(x.tags) {
				cd = append(cd, x)
			}
		}
		c.cands = cd
	}
}

// Auto: a precondition every contract function has for parameters of a type
type Auto struct {
	ty, pred string
	tags     []string
}

type StoreLemma struct {
	comp string
	e    string
}

func parseVars(s string) []SVar {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	var out []SVar
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(strings.TrimSpace(p))
		if len(f) == 1 {
			out = append(out, SVar{f[0], ""})
		} else {
			out = append(out, SVar{f[0], f[1]})
		}
	}
	return out
}

// splitTags reads leading @C01,C02 markers and an optional "name:" label.
func splitHead(s string) (tags []string, name, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "@") {
		i := strings.IndexAny(s, " \t")
		tags = strings.Split(s[1:i], ",")
		s = strings.TrimSpace(s[i:])
	}
	if i := strings.Index(s, ": "); i > 0 && !strings.ContainsAny(s[:i], " ()[]{}\"") {
		name = s[:i]
		s = strings.TrimSpace(s[i+2:])
	}
	return tags, name, s
}

func loadSpec(files []string) *Spec {
	sp := &Spec{ghostBy: map[string]*Ghost{}, preds: map[string]*Pred{}, contracts: map[string]*Contract{}, funs: map[string][]string{}, profiles: map[string][]string{}, owned: map[string][]string{}, unproved: map[string]bool{}, show: map[string][]string{}, externs: map[string]*Contract{}, smtTag: map[int][]string{}}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(string(b))
	}
	return sp
}

func (sp *Spec) parseFile(src string) {
	// logical lines: a line starting with whitespace twice-indented continuation "    |" joins; we join lines ending with '\'
	var lines []string
	cur := ""
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "// "); i >= 0 && strings.Count(l[:i], "\"")%2 == 0 {
			l = l[:i]
		} else if strings.HasSuffix(strings.TrimSpace(l), "//") {
			l = strings.TrimSuffix(strings.TrimSpace(l), "//")
		}
		t := strings.TrimRight(l, " \t")
		if strings.TrimSpace(t) == "" {
			if cur != "" {
				lines = append(lines, cur)
				cur = ""
			}
			continue
		}
		// continuation: line starts with at least 6 spaces
		if strings.HasPrefix(t, "      ") && cur != "" {
			cur += " " + strings.TrimSpace(t)
			continue
		}
		if cur != "" {
			lines = append(lines, cur)
		}
		cur = strings.TrimSpace(t)
	}
	if cur != "" {
		lines = append(lines, cur)
	}
	var c *Contract
	var defHide []string
	for _, l := range lines {
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "ghost":
			n, s, _ := strings.Cut(rest, " ")
			g := &Ghost{n, strings.TrimSpace(s)}
			sp.ghosts = append(sp.ghosts, g)
			sp.ghostBy[n] = g
		case "pred":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			k := strings.Index(rest, "=")
			sp.preds[rest[:i]] = &Pred{rest[:i], parseVars(rest[i+1 : j]), parseExpr(strings.TrimSpace(rest[k+1:]))}
		case "inv", "lazyinv":
			tags, name, e := splitHead(rest)
			sp.invs = append(sp.invs, &Inv{name: name, tags: tags, e: parseExpr(e), lazy: kw == "lazyinv"})
		case "trans":
			tags, name, e := splitHead(rest)
			sp.trans = append(sp.trans, &Inv{name: name, tags: tags, e: parseExpr(e)})
		case "smt":
			if strings.HasPrefix(rest, "@") {
				t, r, _ := strings.Cut(rest, " ")
				sp.smtTag[len(sp.smt)] = strings.Split(t[1:], ",")
				rest = strings.TrimSpace(r)
			}
			sp.smt = append(sp.smt, rest)
		case "fun": // fun name sort : argsorts
			f := sexpFields(rest)
			sp.funs[f[0]] = f[1:]
			if len(f) == 2 {
				sp.funs[f[0]] = []string{f[1], ""}
			}
			args := f[2:]
			sp.smt = append(sp.smt, fmt.Sprintf("(declare-fun %s (%s) %s)", f[0], strings.Join(args, " "), f[1]))
		case "unproved": // no obligations are generated for these properties yet
			for _, p := range strings.Fields(rest) {
				sp.unproved[p] = true
			}
		case "stable":
			sp.stable = append(sp.stable, strings.Fields(rest)...)
		case "owned":
			f := strings.Fields(rest)
			sp.owned[f[0]] = f[1:]
		case "auto":
			tags, _, r := splitHead(rest)
			f := strings.Fields(r)
			sp.auto = append(sp.auto, &Auto{f[0], f[1], tags})
		case "pure":
			c.pureRes = parseExpr(rest)
		case "ghosts":
			c.ghosts = append(c.ghosts, strings.Fields(rest)...)
		case "storelemma":
			n, e, _ := strings.Cut(rest, " ")
			sp.lemmas = append(sp.lemmas, &StoreLemma{n, e})
		case "cand":
			cd := parseCand(rest)
			if c != nil {
				c.cands = append(c.cands, cd)
			} else {
				sp.cands = append(sp.cands, cd)
			}
		case "end":
			c = nil
		case "func", "extern":
			i := strings.LastIndex(rest, "(")
			c = &Contract{fn: strings.TrimSpace(rest[:i]), nilable: map[string]bool{}, noinv: map[string]bool{}, use: map[string]bool{}, hide: map[string]bool{}}
			for _, p := range strings.Split(strings.TrimSuffix(strings.TrimSpace(rest[i+1:]), ")"), ",") {
				if strings.TrimSpace(p) != "" {
					c.params = append(c.params, strings.TrimSpace(p))
				}
			}
			for _, h := range defHide {
				c.hide[h] = true
			}
			if kw == "extern" {
				if o := sp.externs[c.fn]; o != nil { // further clauses
					if !slices.Equal(o.params, c.params) {
						panic("extern " + c.fn + " with other parameters")
					}
					c = o
					continue
				}
				sp.externs[c.fn] = c
				continue
			}
			if sp.contracts[c.fn] != nil {
				panic("duplicate contract " + c.fn)
			}
			sp.contracts[c.fn] = c
			sp.order = append(sp.order, c.fn)
		case "more": // further clauses of a contract
			c = sp.contracts[rest]
			if c == nil {
				panic("no contract " + rest)
			}
		case "requires", "ensures":
			tags, name, e := splitHead(rest)
			cl := &Clause{name, tags, parseExpr(e), e}
			if kw == "requires" {
				c.requires = append(c.requires, cl)
			} else {
				c.ensures = append(c.ensures, cl)
			}
		case "update", "enter": // update g[x] = e   |  update g = e, when the function returns; enter: when it starts
			g := &GhostUpd{enter: kw == "enter"}
			for strings.HasPrefix(rest, "@") {
				t, r, _ := strings.Cut(rest, " ")
				g.tags, rest = append(g.tags, strings.Split(t[1:], ",")...), strings.TrimSpace(r)
			}
			lhs, e, _ := strings.Cut(rest, " = ")
			if i := strings.Index(lhs, "["); i > 0 {
				g.ghost = strings.TrimSpace(lhs[:i])
				g.vars = parseVars(lhs[i+1 : strings.Index(lhs, "]")])
			} else {
				g.ghost = strings.TrimSpace(lhs)
			}
			g.e = parseExpr(e)
			c.updates = append(c.updates, g)
		case "nilable":
			for _, f := range strings.Fields(rest) {
				c.nilable[f] = true
			}
		case "split":
			c.splits = append(c.splits, parseExpr(rest))
		case "tags":
			c.tags = append(c.tags, strings.Fields(rest)...)
		case "use":
			for _, f := range strings.Fields(rest) {
				c.use[f] = true
			}
		case "noinv":
			for _, f := range strings.Fields(rest) {
				c.noinv[f] = true
			}
		case "show":
			f := strings.Fields(rest)
			sp.show[f[0]] = append(sp.show[f[0]], f[1:]...)
		case "profile":
			f := strings.Fields(rest)
			sp.profiles[f[0]] = append(sp.profiles[f[0]], f[1:]...)
		case "skip": // skip @C01 reason: obligations with these tags are left to the bounded part
			f := strings.Fields(rest)
			for len(f) > 0 && strings.HasPrefix(f[0], "@") {
				c.skips = append(c.skips, f[0][1:])
				f = f[1:]
			}
			c.skipWhy = strings.Join(f, " ")
		case "leave": // leave @C01 obligation name: reason
			i, j := strings.Index(rest, " "), strings.Index(rest, ": ")
			c.leave = append(c.leave, &Leave{strings.TrimPrefix(rest[:i], "@"), strings.TrimSpace(rest[i:j]), rest[j+2:]})
		case "hideall":
			defHide = strings.Fields(rest)
		case "hide":
			for _, f := range strings.Fields(rest) {
				c.hide[f] = true
			}
		case "onlyfor":
			c.onlyfor = strings.Fields(rest)
		case "optional":
			c.optional = true
		case "trusted":
			c.trusted = rest
		case "modifies":
			c.modifies = append(c.modifies, strings.Fields(rest)...)
		default:
			panic("spec: bad line: " + l)
		}
	}
}

func parseCand(rest string) *Cand {
	tags, name, e := splitHead(rest)
	cd := &Cand{name: name, tags: tags}
	if strings.HasPrefix(e, "(") {
		if i := strings.Index(e, ") ::"); i > 0 {
			cd.vars = parseVars(e[1:i])
			e = strings.TrimSpace(e[i+4:])
		}
	}
	cd.e = parseExpr(e)
	return cd
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p || t == "*" {
			return true
		}
	}
	return false
}

// sexpFields splits on blanks outside parentheses
func sexpFields(s string) []string {
	var out []string
	cur, d := "", 0
	for _, r := range s {
		switch {
		case r == '(':
			d++
		case r == ')':
			d--
		}
		if (r == ' ' || r == '\t') && d == 0 {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}
