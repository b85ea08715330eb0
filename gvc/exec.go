package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- engine ----

type Engine struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	main    *ssa.Package
	spec    *Spec
	effMemo map[*ssa.Function]map[string]bool
	fnBy    map[string]*ssa.Function
	globals map[string]*GlobalInfo
	keySort map[string]string
	prop    map[string]bool // property tags being checked
	cellFns map[*ssa.Alloc]*ssa.MakeClosure
	debug   bool
}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func fnBase(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

func (e *Engine) inScope(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	pk := pkgOf(p)
	for _, q := range e.pkgs {
		if q.Pkg.Path() == pk {
			return true
		}
	}
	return false
}

func (e *Engine) fnKey(f *ssa.Function) string {
	pk := e.main.Pkg
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg != nil {
		pk = p.Pkg.Pkg
	}
	return f.RelString(pk)
}

func (e *Engine) contractFor(f *ssa.Function) *Contract {
	k := e.fnKey(f)
	if p := f; p.Pkg != nil && p.Pkg != e.main {
		k = p.Pkg.Pkg.Name() + "." + k
	}
	c := e.spec.contracts[k]
	if c != nil && len(c.params) != len(f.Params) {
		return nil // the signature changed: the function is inlined instead
	}
	return c
}

// ---- verification conditions ----

type Item struct {
	kind        byte // D: raw command, O: obligation, K: candidate check, A: candidate assumption
	text        string
	guard       string
	cond        string
	cand        int
	name        string
	tags        []string
	pos         string
	assumeAfter string
}

type State struct {
	h map[string]string
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]string, len(s.h))}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

type VC struct {
	curPos   token.Pos // of the instruction being executed
	cells    map[string]*Addr
	splits   []string
	e        *Engine
	fn       *ssa.Function
	key      string
	items    []Item
	decl     map[string]bool
	nfresh   int
	lits     map[string]string // string -> const
	litOf    map[string]string // const -> string
	litList  []string
	flits    map[string]string
	funs     map[string]string // UF decls
	unfold   map[string]bool
	wfdone   map[string]bool
	facts    map[string]bool
	notes    []string
	entry    *State
	ncand    int
	candNm   []string
	stack    []*ssa.Function
	callees  map[string]bool
	tags     []string // default tags
	evidence map[string]bool
	obSeq    map[string]int
	params   map[string]Val
	atSorts  map[string]bool
	boxes    map[string]bool
	ext      map[string]bool // external functions modelled
	ct       *Contract
	pre      *State
	pfx      map[string][]string
	idxq     map[string][]string
	prov     map[string]prov
	framed   map[*Inv]bool
	framedT  map[*Inv]bool
	direct   map[string]bool
}

// prov: a slice expression s[lo:hi] and the slice it was cut from
type prov struct{ root, lo string }

func (x *VC) rootOf(s string) (string, string) {
	if p, ok := x.prov[s]; ok {
		return p.root, p.lo
	}
	return s, "0"
}

func (x *VC) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, n := range x.notes {
		if n == s {
			return
		}
	}
	x.notes = append(x.notes, s)
}

func (x *VC) emit(s string) { x.items = append(x.items, Item{kind: 'D', text: s}) }
func (x *VC) assume(f string) {
	if f == "true" {
		return
	}
	x.emit("(assert " + f + ")")
}
func (x *VC) assumeG(g, f string) { x.assume(implies(g, f)) }

func (x *VC) fresh(hint, srt string) string {
	x.nfresh++
	n := sym(fmt.Sprintf("%s!%d", hint, x.nfresh))
	x.emit(fmt.Sprintf("(declare-const %s %s)", n, srt))
	return n
}

// nm names a term
func (x *VC) nm(hint, t, srt string) string {
	if !strings.HasPrefix(t, "(") || srt == "Slice" && strings.HasPrefix(t, "(mks ") {
		return t
	}
	if _, ok := isNum(t); ok {
		return t
	}
	n := x.fresh(hint, srt)
	x.assume(eq(n, t))
	return n
}

func (x *VC) declare(n, srt string) {
	if !x.decl[n] {
		x.decl[n] = true
		x.emit(fmt.Sprintf("(declare-const %s %s)", n, srt))
	}
}

func (x *VC) uf(name string, ret string, args ...string) string {
	n := sym(name)
	if _, ok := x.funs[n]; !ok {
		x.funs[n] = fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(args, " "), ret)
		x.emit(x.funs[n])
	}
	return n
}

func (x *VC) lit(s string) string {
	if c, ok := x.lits[s]; ok {
		return c
	}
	c := sym("str:" + fmt.Sprint(len(x.lits)) + ":" + clip(strings.Map(func(r rune) rune {
		if r > 126 || r < 32 || r == '?' {
			return '~'
		}
		return r
	}, s), 24))
	x.lits[s] = c
	x.litOf[c] = s
	x.litList = append(x.litList, s)
	x.emit(fmt.Sprintf("(declare-const %s Str)", c))
	x.assume(eq("(strid "+c+")", fmt.Sprint(len(x.lits))))
	x.assume(eq("(strlen "+c+")", fmt.Sprint(len(s))))
	return c
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (x *VC) compSort(key string) string {
	if s, ok := x.e.keySort[key]; ok {
		return s
	}
	panic("unknown component sort " + key)
}

func (x *VC) get(st *State, key, srt string) string {
	if srt != "" {
		x.e.keySort[key] = srt
	}
	if t, ok := st.h[key]; ok {
		return t
	}
	n := sym(key + "@0")
	if !x.decl[n] {
		x.decl[n] = true
		// declared up front: goes to the head of the script
		x.items = append(x.items, Item{kind: 'D', text: fmt.Sprintf("(declare-const %s %s)", n, x.compSort(key))})
		x.wfComp(n, x.compSort(key))
		known := false
		for _, k := range x.e.wfHeaps() {
			if k == key {
				known = true
				x.heapBound(k, n, x.alloc(x.entry))
			}
		}
		if !known && strings.HasPrefix(key, "F:") {
			if ty := x.e.fieldType(key); ty != nil {
				switch under(ty).(type) {
				case *types.Pointer, *types.Map, *types.Signature:
					x.assume(fmt.Sprintf("(forall ((q Int)) (! (and (<= 0 (select %s q)) (< (select %s q) %s)) :pattern ((select %s q))))", n, n, x.alloc(x.entry), n))
				case *types.Slice:
					x.assume(fmt.Sprintf("(forall ((q Int)) (! (< (sarr (select %s q)) %s) :pattern ((select %s q))))", n, x.alloc(x.entry), n))
				}
			}
		}
	}
	st.h[key] = n
	return n
}

// wfComp: every slice in the heap is a well-formed slice
func (x *VC) wfComp(n, srt string) {
	if srt == "(Array Int Slice)" {
		x.assume(fmt.Sprintf("(forall ((q Int)) (! (swf (select %s q)) :pattern ((select %s q))))", n, n))
	}
}

func (x *VC) alloc(st *State) string { return x.get(st, "alloc", "Int") }

func (x *VC) zero(t types.Type) Val {
	var l []string
	for _, lf := range flat(t) {
		l = append(l, x.zeroOf(lf.ty))
	}
	return Val{L: l, Ty: t}
}

func (x *VC) zeroOf(t types.Type) string {
	switch sortOf(t) {
	case "Bool":
		return "false"
	case "Int":
		return "0"
	case "Str":
		return x.lit("")
	case "Flt":
		return x.flit("0")
	case "Slice":
		return "(mks 0 0 0 0)"
	case "Iface":
		return "inil"
	}
	return "opq0"
}

func (x *VC) flit(s string) string {
	if c, ok := x.flits[s]; ok {
		return c
	}
	c := sym("flt:" + s)
	x.flits[s] = c
	x.emit(fmt.Sprintf("(declare-const %s Flt)", c))
	return c
}

// wf: type-based well-formedness of a value
func (x *VC) wf(v Val, st *State, guard string) {
	if v.Ty == nil {
		return
	}
	for i, lf := range flat(v.Ty) {
		if i >= len(v.L) {
			return
		}
		x.wfTerm(v.L[i], lf.ty, st, guard)
	}
}

func (x *VC) wfTerm(t string, ty types.Type, st *State, guard string) {
	var f string
	switch u := under(ty).(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		if _, ok := isNum(t); ok {
			return
		}
		f = and("(<= 0 "+t+")", "(< "+t+" "+x.alloc(st)+")")
	case *types.Slice:
		if strings.HasPrefix(t, "(mks ") {
			return
		}
		f = and("(swf "+t+")", "(< (sarr "+t+") "+x.alloc(st)+")")
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			f = "(<= 0 " + t + ")"
		}
	}
	if f == "" {
		return
	}
	k := guard + "|" + f
	if x.wfdone[k] {
		return
	}
	x.wfdone[k] = true
	x.assumeG(guard, f)
}

func (x *VC) freshVal(hint string, t types.Type, st *State, guard string) Val {
	if tup, ok := t.(*types.Tuple); ok {
		v := Val{Ty: t}
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, x.freshVal(hint, tup.At(i).Type(), st, guard))
		}
		return v
	}
	v := Val{Ty: t}
	for _, lf := range flat(t) {
		v.L = append(v.L, x.fresh(hint, sortOf(lf.ty)))
	}
	x.wf(v, st, guard)
	return v
}

// ---- obligations ----

func (x *VC) oblige(guard, cond, name string, tags []string, pos token.Pos) {
	if cond == "true" {
		x.evidence["trivial"] = true
		cond = "true"
	}
	if !pos.IsValid() {
		pos = x.curPos
	}
	p := ""
	if pos.IsValid() {
		ps := x.e.prog.Fset.Position(pos)
		fn := ps.Filename
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		p = fmt.Sprintf("%s:%d", fn, ps.Line)
	}
	x.items = append(x.items, Item{kind: 'O', guard: guard, cond: cond, name: name, tags: tags, pos: p})
}

func (x *VC) safety(guard, cond, what string, pos token.Pos) {
	x.oblige(guard, cond, "safe/"+what, []string{"C01"}, pos)
}

// ---- memory ----

func (x *VC) addrOf(v Val, sv ssa.Value, st *State, guard string) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	pt := under(sv.Type()).(*types.Pointer)
	if _, ok := under(pt.Elem()).(*types.Struct); ok {
		return &Addr{kind: "field", pre: "F:" + typeKey(pt.Elem()), a: v.T(), ty: pt.Elem()}
	}
	if a, ok := under(pt.Elem()).(*types.Array); ok {
		return &Addr{kind: "elem", pre: "E:" + typeKey(a.Elem()), a: v.T(), off: "0", b: "0", ty: a.Elem()}
	}
	return &Addr{kind: "cell", pre: x.e.ptrCellKey(sv), a: v.T(), ty: pt.Elem()}
}

func (x *VC) at(a, off, i, srt string) string {
	f := x.atFn(srt)
	return "(" + f + " " + a + " " + off + " " + i + ")"
}

func (x *VC) atFn(srt string) string {
	n := "at_" + strings.NewReplacer("(", "", ")", "", " ", "_").Replace(srt)
	if !x.atSorts[srt] {
		x.atSorts[srt] = true
		x.emit(fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) %s)", n, srt, srt))
	}
	return n
}

func (x *VC) load(ad *Addr, st *State, guard string) Val {
	v := Val{Ty: ad.ty}
	for _, lf := range flat(ad.ty) {
		s := sortOf(lf.ty)
		h := x.get(st, ad.pre+lf.path, wrapSort(ad.kind, s))
		var t string
		switch ad.kind {
		case "field", "cell":
			t = sel(h, ad.a)
		case "elem":
			t = x.at(sel(h, ad.a), ad.off, ad.b, s)
		case "global":
			t = h
		}
		t = x.nm("v", t, s)
		v.L = append(v.L, t)
	}
	x.wf(v, st, guard)
	return v
}

func (x *VC) store(ad *Addr, v Val, st *State, guard string) {
	for i, lf := range flat(ad.ty) {
		s := sortOf(lf.ty)
		key := ad.pre + lf.path
		h := x.get(st, key, wrapSort(ad.kind, s))
		var t string
		switch ad.kind {
		case "field", "cell":
			t = sto(h, ad.a, v.L[i])
		case "elem":
			x.ownedWrite(key, ad.a, guard, st)
			N := x.fresh("N", "(Array Int "+s+")")
			at := x.atFn(s)
			x.assume(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s %s i) (ite (= i %s) %s (%s (select %s %s) %s i))) :pattern ((%s %s %s i)) :pattern ((%s (select %s %s) %s i))))",
				at, N, ad.off, ad.b, v.L[i], at, h, ad.a, ad.off, at, N, ad.off, at, h, ad.a, ad.off))
			t = sto(h, ad.a, N)
		case "global":
			t = v.L[i]
			st.h[key] = t
			continue
		}
		n := x.nm(shortKey(key), t, wrapSort(ad.kind, s))
		st.h[key] = n
		for _, l := range x.e.spec.lemmas {
			if l.comp == key {
				r := strings.NewReplacer("$OLD", h, "$NEW", n, "$C", ad.a, "$V", v.L[i])
				x.assume(r.Replace(l.e))
			}
		}
	}
}

func shortKey(k string) string {
	if i := strings.LastIndexAny(k, ".:"); i >= 0 && i+1 < len(k) && !strings.HasPrefix(k, "E:") {
		return k[i+1:]
	}
	return strings.Map(func(r rune) rune {
		if r == ':' || r == '*' || r == '[' || r == ']' {
			return '_'
		}
		return r
	}, k)
}

func (x *VC) newRef(hint string, st *State) string {
	a := x.alloc(st)
	r := x.fresh(hint, "Int")
	// any unused identifier: parallel branches get identifiers of their own
	x.assume("(<= " + a + " " + r + ")")
	na := x.fresh("alloc", "Int")
	x.assume(eq(na, "(+ "+r+" 1)"))
	st.h["alloc"] = na
	// nothing already in the heap refers to the new object
	for _, k := range x.e.wfHeaps() {
		if h, ok := st.h[k]; ok {
			x.heapBound(k, h, r)
		}
	}
	return r
}

func (x *VC) heapBound(k, h, r string) {
	kk := "hb|" + h
	if x.wfdone[kk] {
		return
	}
	x.wfdone[kk] = true
	if strings.HasPrefix(k, "E:") {
		at := x.atFn("Int")
		x.assume(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (< (%s (select %s a) o i) %s) :pattern ((%s (select %s a) o i))))", at, h, r, at, h))
	} else if strings.HasSuffix(k, "Nodes") || strings.HasSuffix(k, "Children") || strings.HasSuffix(k, "Attributes") {
		x.assume(fmt.Sprintf("(forall ((q Int)) (! (< (sarr (select %s q)) %s) :pattern ((select %s q))))", h, r, h))
	} else {
		x.assume(fmt.Sprintf("(forall ((q Int)) (! (< (select %s q) %s) :pattern ((select %s q))))", h, r, h))
	}
}

func (e *Engine) wfHeaps() []string {
	return []string{"F:Node.ParentNode", "F:Node.NextSibling", "F:Node.PreviousSibling", "F:Node.NextElementSibling", "F:Node.PreviousElementSibling", "F:Node.ChildNodes", "F:Node.Children", "E:*Node", "F:Node.Attributes", "E:*attribute", "$own", "$eown", "$aown", "$aobj"}
}

// zeroInit assumes the freshly allocated object is zero
func (x *VC) zeroInit(r string, t types.Type, st *State) {
	if a, ok := under(t).(*types.Array); ok {
		n := a.Len()
		if n > 64 {
			n = 64
		}
		for _, lf := range flat(a.Elem()) {
			s := sortOf(lf.ty)
			h := x.get(st, "E:"+typeKey(a.Elem())+lf.path, wrapSort("elem", s))
			for i := int64(0); i < n; i++ {
				x.assume(eq(x.at(sel(h, r), "0", num(i), s), x.zeroOf(lf.ty)))
			}
		}
		return
	}
	pre := "F:" + typeKey(t)
	for _, lf := range flat(t) {
		s := sortOf(lf.ty)
		h := x.get(st, pre+lf.path, wrapSort("field", s))
		x.assume(eq(sel(h, r), x.zeroOf(lf.ty)))
	}
}

// ghosts of fresh objects/arrays are zero
func (x *VC) zeroGhost(r string, st *State) {
	for _, g := range x.e.spec.ghosts {
		h := x.get(st, "$"+g.name, g.sort)
		switch g.sort {
		case "(Array Int Int)":
			x.assume(eq(sel(h, r), "0"))
		case "(Array Int Bool)":
			x.assume(not(sel(h, r)))
		case "(Array Int (Array Str Bool))":
			x.assume(eq(sel(h, r), "((as const (Array Str Bool)) false)"))
		case "(Array Int Str)":
			x.assume(eq(sel(h, r), x.lit("")))
		}
	}
}

// ---- merging ----

type edge struct {
	from  *ssa.BasicBlock
	guard string
	st    *State
}

func (x *VC) mergeStates(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.h {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := &State{h: map[string]string{}}
	for _, k := range ks {
		var ts []string
		same := true
		for _, e := range es {
			ts = append(ts, x.get(e.st, k, ""))
			if ts[len(ts)-1] != ts[0] {
				same = false
			}
		}
		if same {
			out.h[k] = ts[0]
			continue
		}
		n := x.fresh(shortKey(k), x.compSort(k))
		for i, e := range es {
			x.assumeG(e.guard, eq(n, ts[i]))
		}
		out.h[k] = n
	}
	return out
}

func (x *VC) mergeVals(vals []Val, guards []string, hint string) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	out := Val{Ty: vals[0].Ty, S: vals[0].S}
	if vals[0].Tup != nil {
		for i := range vals[0].Tup {
			var vs []Val
			for _, v := range vals {
				vs = append(vs, v.Tup[i])
			}
			out.Tup = append(out.Tup, x.mergeVals(vs, guards, hint))
		}
		return out
	}
	sameFn := true
	for _, v := range vals {
		if v.Fn == nil || vals[0].Fn == nil || v.Fn.fn != vals[0].Fn.fn || len(v.Fn.binds) > 0 {
			sameFn = false
		}
	}
	if sameFn {
		out.Fn = vals[0].Fn
	}
	lf := flat(out.Ty)
	for i := range lf {
		same := true
		for _, v := range vals {
			if i >= len(v.L) || v.L[i] != vals[0].L[i] {
				same = false
			}
		}
		if same {
			out.L = append(out.L, vals[0].L[i])
			continue
		}
		n := x.fresh(hint, sortOf(lf[i].ty))
		for j, v := range vals {
			x.assumeG(guards[j], eq(n, v.L[i]))
		}
		out.L = append(out.L, n)
	}
	return out
}

// ---- loops ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type cfgInfo struct {
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	back  map[[2]int]bool
}

func analyse(fn *ssa.Function) *cfgInfo {
	ci := &cfgInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, back: map[[2]int]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ci.back[[2]int{b.Index, s.Index}] = true
				l := ci.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ci.loops[s] = l
				}
				var walk func(c *ssa.BasicBlock)
				walk = func(c *ssa.BasicBlock) {
					if l.body[c] {
						return
					}
					l.body[c] = true
					for _, p := range c.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		ci.order = append(ci.order, post[i])
	}
	return ci
}

// ---- frames ----

type frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	binds []Val
	ci    *cfgInfo
	rets  []retEdge
	depth int
	loops map[*ssa.BasicBlock]*loopCtx
	outer *frame
}

type retEdge struct {
	guard string
	st    *State
	vals  []Val
}

type loopCtx struct {
	cands []*candInst
	entry *State
	phis  []*ssa.Phi
	head  *State
	mods  map[string]bool
}

type candInst struct {
	id    int
	eval  func(st *State, phis map[*ssa.Phi]Val) string
	check func(st *State, phis map[*ssa.Phi]Val) string
}

func (c *candInst) chk(st *State, phis map[*ssa.Phi]Val) string {
	if c.check != nil {
		return c.check(st, phis)
	}
	return c.eval(st, phis)
}

func (x *VC) val(f *frame, v ssa.Value, st *State, guard string) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		t := x.uf("fn:"+c.String(), "Int")
		x.fact("(< 0 " + t + ")")
		return Val{L: []string{t}, Ty: c.Type(), Fn: &FnVal{fn: c}}
	case *ssa.Global:
		return Val{L: []string{"1"}, Ty: c.Type(), Addr: &Addr{kind: "global", pre: "G:" + x.globalName(c), ty: under(c.Type()).(*types.Pointer).Elem()}}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == c && i < len(f.binds) {
				return f.binds[i]
			}
		}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	x.note("value %s of %s not available", v.Name(), f.fn.Name())
	r := x.freshVal("u", v.Type(), st, guard)
	f.env[v] = r
	return r
}

func (x *VC) globalName(g *ssa.Global) string {
	if g.Pkg == x.e.main {
		return g.Name()
	}
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

func (x *VC) fact(s string) {
	if !x.facts[s] {
		x.facts[s] = true
		x.assume(s)
	}
}

func (x *VC) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch sortOf(c.Type()) {
	case "Bool":
		return Val{L: []string{fmt.Sprint(constant.BoolVal(c.Value))}, Ty: c.Type()}
	case "Str":
		return Val{L: []string{x.lit(constant.StringVal(c.Value))}, Ty: c.Type()}
	case "Int":
		i, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			return Val{L: []string{x.fresh("bigc", "Int")}, Ty: c.Type()}
		}
		return Val{L: []string{num(i)}, Ty: c.Type()}
	case "Flt":
		return Val{L: []string{x.flit(c.Value.ExactString())}, Ty: c.Type()}
	}
	return x.zero(c.Type())
}

// run executes a function body symbolically and returns its merged exit.
func (x *VC) run(fn *ssa.Function, args []Val, binds []Val, st *State, guard string, depth int) ([]Val, *State, string) {
	f := &frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, ci: analyse(fn), depth: depth, loops: map[*ssa.BasicBlock]*loopCtx{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()

	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{nil, guard, st}}
	for _, b := range f.ci.order {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		var bst *State
		var g string
		if l := f.ci.loops[b]; l != nil {
			bst, g = x.enterLoop(f, l, es)
		} else {
			if len(es) == 1 {
				g = es[0].guard
				bst = es[0].st.clone()
			} else {
				var gs []string
				for _, e := range es {
					gs = append(gs, e.guard)
				}
				g = x.fresh("g", "Bool")
				x.assume(eq(g, or(gs...)))
				bst = x.mergeStates(es)
				x.assumeFramed(bst, g)
			}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var vs []Val
				var gs []string
				for _, e := range es {
					for j, pr := range b.Preds {
						if pr == e.from {
							vs = append(vs, x.val(f, p.Edges[j], e.st, e.guard))
							gs = append(gs, e.guard)
							break
						}
					}
				}
				f.env[p] = x.mergeVals(vs, gs, nameOf(p))
			}
		}
		x.block(f, b, bst, g, in)
	}
	// merge returns
	if len(f.rets) == 0 {
		return nil, st, "false"
	}
	var es []edge
	var gs []string
	for _, r := range f.rets {
		es = append(es, edge{nil, r.guard, r.st})
		gs = append(gs, r.guard)
	}
	out := x.mergeStates(es)
	g := gs[0]
	if len(gs) > 1 {
		g = x.fresh("gret", "Bool")
		x.assume(eq(g, or(gs...)))
	}
	var vals []Val
	for i := range f.rets[0].vals {
		var vs []Val
		for _, r := range f.rets {
			vs = append(vs, r.vals[i])
		}
		vals = append(vals, x.mergeVals(vs, gs, "ret"))
	}
	return vals, out, g
}

func nameOf(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (x *VC) block(f *frame, b *ssa.BasicBlock, st *State, g string, in map[*ssa.BasicBlock][]edge) {
	send := func(s *ssa.BasicBlock, eg string) {
		if eg == "false" {
			return
		}
		if f.ci.back[[2]int{b.Index, s.Index}] {
			x.backEdge(f, b, s, eg, st)
			return
		}
		in[s] = append(in[s], edge{b, eg, st})
	}
	for _, ins := range b.Instrs {
		switch c := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			send(b.Succs[0], g)
		case *ssa.If:
			cv := x.val(f, c.Cond, st, g).T()
			gt := x.nm("e", and(g, cv), "Bool")
			gf := x.nm("e", and(g, not(cv)), "Bool")
			if b.Succs[0] == b.Succs[1] {
				send(b.Succs[0], g)
				continue
			}
			send(b.Succs[0], gt)
			send(b.Succs[1], gf)
		case *ssa.Return:
			var vs []Val
			for _, r := range c.Results {
				vs = append(vs, x.val(f, r, st, g))
			}
			f.rets = append(f.rets, retEdge{g, st, vs})
		case *ssa.Panic:
			x.safety(g, "false", "panic", c.Pos())
		default:
			x.instr(f, ins, st, g)
		}
	}
}

// fieldType: the Go type of a heap component F:T.f
func (e *Engine) fieldType(key string) types.Type {
	i := strings.Index(key, ".")
	if i < 0 {
		return nil
	}
	t := e.lookupType(key[2:i])
	if t == nil {
		return nil
	}
	for _, lf := range flat(t) {
		if lf.path == key[i:] {
			return lf.ty
		}
	}
	return nil
}
