package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Trusted models of library functions. Every function used is listed in the evidence.

type pureSig struct {
	uf   string
	args []string
	ret  string
	fold func(a []string) any
}

var pureSigs = map[string]*pureSig{
	"upper":     {"strings.ToUpper", []string{"Str"}, "Str", func(a []string) any { return strings.ToUpper(a[0]) }},
	"lower":     {"strings.ToLower", []string{"Str"}, "Str", func(a []string) any { return strings.ToLower(a[0]) }},
	"trim":      {"strings.TrimSpace", []string{"Str"}, "Str", func(a []string) any { return strings.TrimSpace(a[0]) }},
	"contains":  {"strings.Contains", []string{"Str", "Str"}, "Bool", func(a []string) any { return strings.Contains(a[0], a[1]) }},
	"hasprefix": {"strings.HasPrefix", []string{"Str", "Str"}, "Bool", func(a []string) any { return strings.HasPrefix(a[0], a[1]) }},
	"hassuffix": {"strings.HasSuffix", []string{"Str", "Str"}, "Bool", func(a []string) any { return strings.HasSuffix(a[0], a[1]) }},
	"index":     {"strings.Index", []string{"Str", "Str"}, "Int", func(a []string) any { return strings.Index(a[0], a[1]) }},
	"lastindex": {"strings.LastIndex", []string{"Str", "Str"}, "Int", func(a []string) any { return strings.LastIndex(a[0], a[1]) }},
	"equalfold": {"strings.EqualFold", []string{"Str", "Str"}, "Bool", func(a []string) any { return strings.EqualFold(a[0], a[1]) }},
	"replall":   {"strings.ReplaceAll", []string{"Str", "Str", "Str"}, "Str", func(a []string) any { return strings.ReplaceAll(a[0], a[1], a[2]) }},
	"rematch":   {"(*regexp.Regexp).MatchString", []string{"Int", "Str"}, "Bool", nil},
	"rereplace": {"(*regexp.Regexp).ReplaceAllString", []string{"Int", "Str", "Str"}, "Str", nil},
	"replace":   {"(*strings.Replacer).Replace", []string{"Int", "Str"}, "Str", nil},
	"runes":     {"runelen", []string{"Str"}, "Int", func(a []string) any { return len([]rune(a[0])) }},
	"itag":      {"itag", []string{"Iface"}, "Int", nil},
}

var sigByUF = map[string]*pureSig{}

func init() {
	for _, s := range pureSigs {
		sigByUF[s.uf] = s
	}
}

func hasBound(ts ...string) bool {
	for _, t := range ts {
		if strings.Contains(t, "?") {
			return true
		}
	}
	return false
}

func (x *VC) pureApp(sg *pureSig, as []string) string {
	if sg.fold != nil {
		var ls []string
		for _, a := range as {
			if s, ok := x.litOf[a]; ok {
				ls = append(ls, s)
			}
		}
		if len(ls) == len(as) {
			switch r := sg.fold(ls).(type) {
			case string:
				if sg.uf == "strings.ToUpper" {
					x.fact(eq(app(x.uf(sg.uf, sg.ret, sg.args...), as...), x.lit(r)))
				}
				return x.lit(r)
			case bool:
				return fmt.Sprint(r)
			case int:
				return num(int64(r))
			}
		}
	}
	if sg.uf == "(*strings.Replacer).Replace" {
		if gi := x.globalOf(as[0]); gi != nil && gi.kind == "replacer" {
			return x.replaced(as[1], gi.args)
		}
	}
	f := sg.uf
	if f != "runelen" && f != "itag" {
		f = x.uf(sg.uf, sg.ret, sg.args...)
	}
	t := app(f, as...)
	if !hasBound(as...) {
		x.pureFacts(sg, t, as)
	}
	return t
}

// replaced: text with a fixed table of replacements applied, a function named by the table
func (x *VC) replaced(s string, pairs []string) string {
	if l, ok := x.litOf[s]; ok {
		return x.lit(strings.NewReplacer(pairs...).Replace(l))
	}
	var ps []string
	single := true
	for i := 0; i+1 < len(pairs); i += 2 {
		ps = append(ps, fmt.Sprintf("%q>%q", pairs[i], pairs[i+1]))
		if len(pairs[i]) != 1 || pairs[i+1] == "" {
			single = false
		}
	}
	if single { // one-byte patterns do not compete: the order of the table has no meaning
		sort.Strings(ps)
	}
	t := app(x.uf("replace:"+strings.Join(ps, " "), "Str", "Str"), s)
	if single && !hasBound(s) {
		x.fact(eq(eq("(strlen "+t+")", "0"), eq("(strlen "+s+")", "0")))
	}
	return t
}

func (x *VC) pureFacts(sg *pureSig, t string, as []string) {
	switch sg.uf {
	case "strings.ToUpper", "strings.ToLower":
		x.fact(eq(eq("(strlen "+t+")", "0"), eq("(strlen "+as[0]+")", "0")))
		x.fact(eq(app(sym(sg.uf), t), t))
	case "strings.TrimSpace":
		x.fact("(<= (strlen " + t + ") (strlen " + as[0] + "))")
		x.fact(eq(app(sym(sg.uf), t), t))
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		x.fact(implies(t, "(<= (strlen "+as[1]+") (strlen "+as[0]+"))"))
		if l, ok := x.litOf[as[1]]; ok && l == "" {
			x.fact(t)
		}
		if sg.uf != "strings.Contains" {
			x.fact(implies(t, x.pureApp(pureSigs["contains"], as)))
		}
		if sg.uf == "strings.HasPrefix" {
			x.prefixFacts(as[0])
			if _, ok := x.litOf[as[1]]; ok {
				k := "pfx|" + as[0]
				if !x.facts[k+as[1]] {
					x.facts[k+as[1]] = true
					x.pfx[as[0]] = append(x.pfx[as[0]], as[1])
				}
				x.prefixFacts(as[0])
			}
		}
	case "strings.Index", "strings.LastIndex":
		c := x.pureApp(pureSigs["contains"], as)
		x.fact(and("(<= (- 1) "+t+")", eq("(<= 0 "+t+")", c), implies(c, "(<= (+ "+t+" (strlen "+as[1]+")) (strlen "+as[0]+"))")))
		if sg.uf == "strings.Index" {
			if _, ok := x.litOf[as[1]]; ok && !x.facts["idx|"+t] {
				x.facts["idx|"+t] = true
				x.idxq[as[0]] = append(x.idxq[as[0]], as[1])
			}
			x.prefixFacts(as[0])
		}
	}
}

// prefixFacts: Index(s, Q) given a literal prefix P of s
func (x *VC) prefixFacts(s string) {
	for _, p := range x.pfx[s] {
		P := x.litOf[p]
		for _, q := range x.idxq[s] {
			Q := x.litOf[q]
			e := 0
			for ; e < len(P); e++ {
				n := len(P) - e
				if n > len(Q) {
					n = len(Q)
				}
				if P[e:e+n] == Q[:n] {
					break
				}
			}
			pt := app(x.uf("strings.HasPrefix", "Bool", "Str", "Str"), s, p)
			it := app(x.uf("strings.Index", "Int", "Str", "Str"), s, q)
			x.fact(implies(and(pt, "(<= 0 "+it+")"), "(<= "+num(int64(e))+" "+it+")"))
			if strings.HasPrefix(P, Q) {
				x.fact(implies(pt, eq(it, "0")))
			}
		}
	}
}

func (x *VC) bumpAlloc(st *State) {
	a := x.alloc(st)
	na := x.fresh("alloc", "Int")
	x.assume("(<= " + a + " " + na + ")")
	st.h["alloc"] = na
}

func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "regexp": true, "unicode": true, "unicode/utf8": true, "net/url": true, "reflect": true}

func (x *VC) external(fn *ssa.Function, args []Val, c ssa.CallInstruction, rt types.Type, depth int, st *State, g string) Val {
	name := extName(fn)
	pkg := pkgOf(fn)
	x.ext[name] = true
	pos := token.NoPos
	if c != nil {
		pos = c.Pos()
	}
	// method receivers
	if fn.Signature.Recv() != nil && len(args) > 0 && args[0].Addr == nil {
		if _, ok := under(fn.Signature.Recv().Type()).(*types.Pointer); ok {
			x.safety(g, not(eq(args[0].T(), "0")), "nil", pos)
		}
	}
	if sg, ok := sigByUF[name]; ok {
		var as []string
		for _, a := range args {
			as = append(as, a.L...)
		}
		return Val{L: []string{x.nm("p", x.pureApp(sg, as), sg.ret)}, Ty: rt}
	}
	switch name {
	case "slices.Contains":
		return x.containsModel(args, st, g, rt)
	case "slices.ContainsFunc", "slices.IndexFunc":
		if r, ok := x.funcModel(fnBase(fn), args, c, depth, st, g, rt); ok {
			return r
		}
	case "slices.SortFunc", "slices.SortStableFunc":
		return x.sortModel(args, c, depth, st, g, rt)
	case "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindAllStringIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
		return x.regexpFind(fnBase(fn), args, st, g, rt)
	case "(*regexp.Regexp).ReplaceAllStringFunc":
		return x.replaceFunc(args, c, depth, st, g, rt)
	case "encoding/json.Unmarshal":
		x.bumpAlloc(st)
		if in := args[1].In; in != nil {
			ad := x.addrOf(*in, args[1].InV, st, g)
			before := x.alloc(st)
			_ = before
			v := x.freshVal("json", ad.ty, st, "true")
			for i, lf := range flat(ad.ty) {
				if _, ok := under(lf.ty).(*types.Map); ok {
					x.assume(or(eq(v.L[i], "0"), x.notGlobalRef(v.L[i])))
				}
			}
			x.store(ad, v, st, g)
		}
		return x.freshVal("err", rt, st, g)
	case "fmt.Errorf", "errors.New":
		v := x.freshVal("err", rt, st, g)
		x.assume(not(eq(v.T(), "inil")))
		return v
	case "log.Fatal", "os.Exit", "log.Fatalf":
		x.assume(not(g))
		return x.freshVal("noret", rt, st, g)
	case "strings.Split":
		r := x.pureSlice(name, args, st, g, rt, false)
		if l, ok := x.litOf[args[1].T()]; ok && l != "" {
			x.fact("(<= 1 " + sLen(r.T()) + ")")
			x.fact(eq("(<= 2 "+sLen(r.T())+")", x.pureApp(pureSigs["contains"], []string{args[0].T(), args[1].T()})))
		}
		return r
	case "strings.Join":
		s := args[0].T()
		E := x.get(st, "E:string", wrapSort("elem", "Str"))
		if l, ok := x.litOf[args[1].T()]; ok && l == "" && x.e.spec.funs["joinof"] != nil {
			return Val{L: []string{x.nm("join", app("joinof", sel(E, sArr(s)), sOff(s), sLen(s)), "Str")}, Ty: rt}
		}
		if l, ok := x.litOf[args[1].T()]; ok && l == " " && x.e.spec.funs["joinsp"] != nil {
			return Val{L: []string{x.nm("join", app("joinsp", sel(E, sArr(s)), sOff(s), sLen(s)), "Str")}, Ty: rt}
		}
		f := x.uf("strings.Join", "Str", "(Array Int Str)", "Int", "Int", "Str")
		return Val{L: []string{x.nm("join", app(f, sel(E, sArr(s)), sOff(s), sLen(s), args[1].T()), "Str")}, Ty: rt}
	}
	if pkg == "slices" && fn.Blocks != nil {
		vals, out, og := x.run(fn, args, nil, st, g, depth+1)
		if og == "false" {
			x.assume(not(g))
			return x.freshVal("noret", rt, st, g)
		}
		st.h = out.h
		if og != g {
			x.assumeG(g, og)
		}
		return tupleOf(vals, rt)
	}
	if pkg == "log/slog" || pkg == "log" {
		return x.freshVal("slog", rt, st, g)
	}
	if purePkgs[pkg] && x.allScalar(args) {
		return x.pureCall(name, args, st, g, rt)
	}
	// unknown library function: arbitrary result, no effect on package state
	x.bumpAlloc(st)
	r := x.freshVal("ext", rt, st, g)
	x.postExternal(fn, name, args, r, st, g)
	return r
}

func (x *VC) allScalar(args []Val) bool {
	for _, a := range args {
		if a.Tup != nil || a.Addr != nil {
			return false
		}
		for _, lf := range flat(a.Ty) {
			if s := sortOf(lf.ty); s == "Slice" {
				return false
			}
		}
	}
	return true
}

func (x *VC) pureCall(name string, args []Val, st *State, g string, rt types.Type) Val {
	var as, ss []string
	for _, a := range args {
		for i, lf := range flat(a.Ty) {
			as = append(as, a.L[i])
			ss = append(ss, sortOf(lf.ty))
		}
	}
	mk := func(i int, t types.Type) Val {
		switch under(t).(type) {
		case *types.Slice:
			return x.pureSlice(fmt.Sprintf("%s#%d", name, i), args, st, g, t, true)
		case *types.Pointer, *types.Map, *types.Signature, *types.Struct:
			x.bumpAlloc(st)
			return x.freshVal("ext", t, st, g)
		}
		f := x.uf(fmt.Sprintf("%s#%d", name, i), sortOf(t), ss...)
		v := Val{L: []string{x.nm("p", app(f, as...), sortOf(t))}, Ty: t}
		x.wf(v, st, "true")
		return v
	}
	var r Val
	if tup, ok := rt.(*types.Tuple); ok {
		r = Val{Ty: rt}
		for i := 0; i < tup.Len(); i++ {
			r.Tup = append(r.Tup, mk(i, tup.At(i).Type()))
		}
	} else {
		r = mk(0, rt)
	}
	x.postExternal(nil, name, args, r, st, g)
	return r
}

// pureSlice: a freshly allocated slice whose contents are a function of the arguments
func (x *VC) pureSlice(name string, args []Val, st *State, g string, t types.Type, canNil bool) Val {
	var as, ss []string
	for _, a := range args {
		for i, lf := range flat(a.Ty) {
			as = append(as, a.L[i])
			ss = append(ss, sortOf(lf.ty))
		}
	}
	et := under(t).(*types.Slice).Elem()
	r := x.newRef("res", st)
	x.zeroGhost(r, st)
	n := x.nm("n", app(x.uf("len:"+name, "Int", ss...), as...), "Int")
	x.assume("(<= 0 " + n + ")")
	for _, lf := range flat(et) {
		s := sortOf(lf.ty)
		h := x.get(st, "E:"+typeKey(et)+lf.path, wrapSort("elem", s))
		if s == "Str" || s == "Int" && isBasic(lf.ty) {
			x.assume(eq(sel(h, r), app(x.uf("elems:"+name+lf.path, "(Array Int "+s+")", ss...), as...)))
		}
	}
	res := mks(r, "0", n, n)
	if canNil {
		res = x.nm("sl", ite(eq(n, "0"), "(mks 0 0 0 0)", res), "Slice")
	}
	return Val{L: []string{res}, Ty: t}
}

func isBasic(t types.Type) bool { _, ok := under(t).(*types.Basic); return ok }

func (x *VC) postExternal(fn *ssa.Function, name string, args []Val, r Val, st *State, g string) {
	switch name {
	case "net/url.Parse", "golang.org/x/net/html.Parse", "net/http.Get":
		x.assume(implies(eq(r.Tup[1].T(), "inil"), "(< 0 "+r.Tup[0].T()+")"))
		if name == "net/http.Get" {
			x.note("net/http.Get returns a response with a non-nil Body when err is nil")
		}
	case "golang.org/x/net/html.NewTokenizer", "strings.NewReader", "(*net/url.URL).ResolveReference", "strings.NewReplacer", "regexp.MustCompile", "bytes.NewBufferString", "log/slog.New", "log/slog.NewTextHandler":
		if len(r.L) == 1 {
			x.assume("(< 0 " + r.T() + ")")
		}
	case "github.com/andybalholm/cascadia.Parse":
		x.assume(implies(eq(r.Tup[1].T(), "inil"), not(eq(r.Tup[0].T(), "inil"))))
	case "(*golang.org/x/net/html.Tokenizer).Token":
		// data and attributes arbitrary
	case "math.Sqrt":
	case "(reflect.Value).Kind":
		if len(r.L) == 1 && args[0].In != nil {
			_ = args
		}
	case "github.com/andybalholm/cascadia.QueryAll":
		s := r.T()
		E := x.get(st, "E:*html.Node", wrapSort("elem", "Int"))
		at := x.atFn("Int")
		P := x.get(st, "F:html.Node.Parent", wrapSort("field", "Int"))
		// the result lists proper descendants of the node: none is nil, each has a parent
		x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen_ %s))) (and (< 0 (%s (select %s (sarr %s)) (soff %s) i)) (< 0 (select %s (%s (select %s (sarr %s)) (soff %s) i))) (< (%s (select %s (sarr %s)) (soff %s) i) %s))) :pattern ((%s (select %s (sarr %s)) (soff %s) i))))",
			s, at, E, s, s, P, at, E, s, s, at, E, s, s, x.alloc(st), at, E, s, s))
	}
	// errors: nothing known
}

// ---- slices ----

func (x *VC) elemVal(s string, et types.Type, i string, st *State) Val {
	v := Val{Ty: et}
	for _, lf := range flat(et) {
		srt := sortOf(lf.ty)
		h := x.get(st, "E:"+typeKey(et)+lf.path, wrapSort("elem", srt))
		v.L = append(v.L, x.at(sel(h, sArr(s)), sOff(s), i, srt))
	}
	return v
}

func (x *VC) containsModel(args []Val, st *State, g string, rt types.Type) Val {
	s := args[0].T()
	et := under(args[0].Ty).(*types.Slice).Elem()
	if t, ok := x.containsTerm(s, et, args[1].T(), st); ok {
		return Val{L: []string{x.nm("has", t, "Bool")}, Ty: rt}
	}
	b := x.fresh("has", "Bool")
	k := x.fresh("hasi", "Int")
	x.nfresh++
	q := fmt.Sprintf("|i?%d|", x.nfresh)
	el := x.elemVal(s, et, q, st).T()
	ek := x.elemVal(s, et, k, st).T()
	x.assume(implies(b, and("(<= 0 "+k+")", "(< "+k+" "+sLen(s)+")", eq(ek, args[1].T()))))
	x.assume(implies(not(b), fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (not (= %s %s))) :pattern (%s)))", q, q, q, sLen(s), el, args[1].T(), el)))
	return Val{L: []string{b}, Ty: rt}
}

// containsTerm: membership in a constant table, unrolled
func (x *VC) containsTerm(s string, et types.Type, v string, st *State) (string, bool) {
	if gi, ok := x.strsOf(s); ok && st.h["G:"+gi.name] == s {
		x.globalFacts(gi)
		var ds []string
		for _, w := range gi.strs {
			ds = append(ds, x.eqLit(v, x.lit(w)))
		}
		return or(ds...), true
	}
	if n, ok := isNum(sLen(s)); ok && n <= 40 {
		var ds []string
		for i := 0; i < n; i++ {
			ds = append(ds, eq(v, x.elemVal(s, et, num(int64(i)), st).T()))
		}
		return or(ds...), true
	}
	return "", false
}

func (x *VC) effectFree(fn *ssa.Function) bool {
	own := "C:" + x.e.fnKey(fn)
	for k := range x.e.fnEffects(fn) {
		if k == "alloc" || strings.HasPrefix(k, own+":") || strings.HasPrefix(k, own+"$") {
			continue
		}
		return false
	}
	return true
}

func (x *VC) funcModel(kind string, args []Val, c ssa.CallInstruction, depth int, st *State, g string, rt types.Type) (Val, bool) {
	fv := args[1].Fn
	if fv == nil || !x.effectFree(fv.fn) {
		return Val{}, false
	}
	s := args[0].T()
	et := under(args[0].Ty).(*types.Slice).Elem()
	if sortOf(et) == "" {
		return Val{}, false
	}
	x.nfresh++
	q := fmt.Sprintf("|i?%d|", x.nfresh)
	el := x.elemVal(s, et, q, st)
	p, ok := x.pureFn(fv, []Val{el}, st)
	if !ok {
		return Val{}, false
	}
	// safety of the callback on every element
	i := x.fresh("ci", "Int")
	gi := x.fresh("cg", "Bool")
	x.assume(implies(gi, and(g, "(<= 0 "+i+")", "(< "+i+" "+sLen(s)+")")))
	ev := x.elemVal(s, et, i, st)
	ev.L[0] = x.nm("ce", ev.L[0], sortOf(et))
	x.wf(ev, st, gi)
	x.callFn(fv.fn, fv.binds, []Val{ev}, c, depth+1, st.clone(), gi)
	at := func(j string) string { return strings.ReplaceAll(p, q, j) }
	rng := func(j string) string { return and("(<= 0 "+j+")", "(< "+j+" "+sLen(s)+")") }
	if kind == "ContainsFunc" {
		b := x.fresh("any", "Bool")
		k := x.fresh("anyi", "Int")
		x.assume(implies(b, and(rng(k), at(k))))
		x.assume(implies(not(b), fmt.Sprintf("(forall ((%s Int)) (! (=> %s (not %s)) :pattern (%s)))", q, rng(q), p, el.L[0])))
		return Val{L: []string{b}, Ty: rt}, true
	}
	r := x.fresh("idx", "Int")
	x.assume(and("(<= (- 1) "+r+")", "(< "+r+" "+sLen(s)+")"))
	x.assume(implies("(<= 0 "+r+")", at(r)))
	x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> (and %s (or (= %s (- 1)) (< %s %s))) (not %s)) :pattern (%s)))", q, rng(q), r, q, r, p, el.L[0]))
	return Val{L: []string{r}, Ty: rt}, true
}

func (x *VC) sortModel(args []Val, c ssa.CallInstruction, depth int, st *State, g string, rt types.Type) Val {
	s := args[0].T()
	et := under(args[0].Ty).(*types.Slice).Elem()
	fv := args[1].Fn
	srt := sortOf(et)
	key := "E:" + typeKey(et)
	if srt == "" || fv == nil {
		x.havocElems(et, sArr(s), st)
		return x.freshVal("sort", rt, st, g)
	}
	if key == "E:string" {
		x.globalArrWrite(sArr(s), g, token.NoPos)
	}
	h := x.get(st, key, wrapSort("elem", srt))
	// safety of the comparison on arbitrary pairs
	if x.effectFree(fv.fn) {
		i, j := x.fresh("ci", "Int"), x.fresh("cj", "Int")
		gi := x.fresh("cg", "Bool")
		x.assume(implies(gi, and(g, "(<= 0 "+i+")", "(< "+i+" "+sLen(s)+")", "(<= 0 "+j+")", "(< "+j+" "+sLen(s)+")")))
		a, b := x.elemVal(s, et, i, st), x.elemVal(s, et, j, st)
		a.L[0], b.L[0] = x.nm("ca", a.L[0], srt), x.nm("cb", b.L[0], srt)
		x.wf(a, st, gi)
		x.wf(b, st, gi)
		x.callFn(fv.fn, fv.binds, []Val{a, b}, c, depth+1, st.clone(), gi)
	} else {
		x.note("sort with effectful comparison")
	}
	A := x.fresh("A", "(Array Int "+srt+")")
	at := x.atFn(srt)
	perm := x.fresh("perm", "(Array Int Int)")
	inv := x.fresh("permi", "(Array Int Int)")
	n, o, old := sLen(s), sOff(s), sel(h, sArr(s))
	x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (<= 0 (select %s i)) (< (select %s i) %s) (= (select %s (select %s i)) i) (= (%s %s %s i) (%s %s %s (select %s i))))) :pattern ((%s %s %s i))))",
		n, perm, perm, n, inv, perm, at, A, o, at, old, o, perm, at, A, o))
	x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (<= 0 (select %s i)) (< (select %s i) %s) (= (select %s (select %s i)) i) (= (%s %s %s i) (%s %s %s (select %s i))))) :pattern ((%s %s %s i))))",
		n, inv, inv, n, perm, inv, at, old, o, at, A, o, inv, at, old, o))
	x.assume(fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k %s) (<= (+ %s %s) k)) (= (select %s k) (select %s k))) :pattern ((select %s k))))", o, o, n, A, old, A))
	st.h[key] = x.nm("E", sto(h, sArr(s), A), wrapSort("elem", srt))
	// ordered
	x.nfresh += 2
	qi, qj := fmt.Sprintf("|i?%d|", x.nfresh-1), fmt.Sprintf("|j?%d|", x.nfresh)
	ai, aj := x.at(A, o, qi, srt), x.at(A, o, qj, srt)
	if p, ok := x.pureFn(fv, []Val{{L: []string{ai}, Ty: et}, {L: []string{aj}, Ty: et}}, st); ok {
		x.assume(fmt.Sprintf("(forall ((%s Int) (%s Int)) (! (=> (and (<= 0 %s) (< %s %s) (< %s %s)) (<= %s 0)) :pattern (%s %s)))", qi, qj, qi, qi, qj, qj, n, p, ai, aj))
	}
	return x.freshVal("sort", rt, st, g)
}

// ---- regexp ----

func (x *VC) regexpFind(kind string, args []Val, st *State, g string, rt types.Type) Val {
	re, s := args[0].T(), args[1].T()
	m := x.pureApp(pureSigs["rematch"], []string{re, s})
	groups := -1
	if gi := x.globalOf(re); gi != nil && gi.kind == "regexp" {
		if n, ok := reGroups(gi.pattern); ok {
			groups = n
		}
	}
	mark := x.nm("mk", x.alloc(st), "Int")
	r := x.newRef("re", st)
	x.zeroGhost(r, st)
	n := x.nm("n", app(x.uf("len:"+kind, "Int", "Int", "Str"), re, s), "Int")
	et := under(rt).(*types.Slice).Elem()
	res := ite(m, mks(r, "0", n, n), "(mks 0 0 0 0)")
	switch kind {
	case "FindStringIndex", "FindStringSubmatchIndex", "FindStringSubmatch":
		w := groups + 1
		if kind == "FindStringIndex" {
			w = 2
		} else if kind == "FindStringSubmatchIndex" {
			w = 2 * (groups + 1)
		}
		if groups >= 0 || kind == "FindStringIndex" {
			x.assume(eq(n, num(int64(w))))
		} else {
			x.assume("(<= 1 " + n + ")")
		}
		if kind == "FindStringIndex" {
			h := x.get(st, "E:int", wrapSort("elem", "Int"))
			a0, a1 := x.at(sel(h, r), "0", "0", "Int"), x.at(sel(h, r), "0", "1", "Int")
			x.assume(implies(m, and("(<= 0 "+a0+")", "(<= "+a0+" "+a1+")", "(<= "+a1+" (strlen "+s+"))")))
		} else if kind == "FindStringSubmatch" {
			h := x.get(st, "E:string", wrapSort("elem", "Str"))
			x.assume(eq(sel(h, r), app(x.uf("elems:"+kind, "(Array Int Str)", "Int", "Str"), re, s)))
		}
	default:
		// the limit argument: -1 everywhere in the code
		if args[2].T() == "(- 1)" {
			x.assume(eq("(<= 1 "+n+")", m))
			x.assume("(<= 0 " + n + ")")
		} else {
			x.assume("(<= 0 " + n + ")")
			res = x.nm("fr", ite("(<= 1 "+n+")", mks(r, "0", n, n), "(mks 0 0 0 0)"), "Slice")
			x.assume(implies("(<= 1 "+n+")", m))
		}
		if kind == "FindAllString" {
			h := x.get(st, "E:string", wrapSort("elem", "Str"))
			x.assume(eq(sel(h, r), app(x.uf("elems:"+kind, "(Array Int Str)", "Int", "Str"), re, s)))
		} else {
			x.bumpAlloc(st)
			h := x.get(st, "E:"+typeKey(et), wrapSort("elem", "Slice"))
			at := x.atFn("Slice")
			e := fmt.Sprintf("(%s (select %s %s) 0 i)", at, h, r)
			w := "(<= 1 (slen_ " + e + "))"
			if kind == "FindAllStringIndex" {
				w = "(= (slen_ " + e + ") 2)"
			} else if groups >= 0 {
				w = fmt.Sprintf("(= (slen_ %s) %d)", e, groups+1)
			}
			x.assume(fmt.Sprintf("(forall ((i Int)) (! (and (swf %s) %s (< %s (sarr %s)) (< (sarr %s) %s)) :pattern (%s)))", e, w, mark, e, e, x.alloc(st), e))
		}
	}
	return Val{L: []string{x.nm("fr", res, "Slice")}, Ty: rt}
}

func (x *VC) replaceFunc(args []Val, c ssa.CallInstruction, depth int, st *State, g string, rt types.Type) Val {
	fv := args[2].Fn
	if fv == nil {
		x.note("ReplaceAllStringFunc with unknown function")
		return x.freshVal("rs", rt, st, g)
	}
	if !x.effectFree(fv.fn) {
		x.note("ReplaceAllStringFunc with effectful function: effects havocked")
		x.havocEffects(fv.fn, st)
	}
	run := func(arg string, gg string) {
		x.callFn(fv.fn, fv.binds, []Val{{L: []string{arg}, Ty: types.Typ[types.String]}}, c, depth+1, st.clone(), gg)
	}
	if gi := x.globalOf(args[0].T()); gi != nil && gi.kind == "regexp" {
		if ws, ok := reLang(gi.pattern, 32); ok {
			for _, w := range ws {
				gg := x.fresh("cg", "Bool")
				x.assume(implies(gg, g))
				run(x.lit(w), gg)
			}
			return x.pureCall("ReplaceAllStringFunc:"+x.e.fnKey(fv.fn), args[:2], st, g, rt)
		}
	}
	a := x.fresh("mstr", "Str")
	gg := x.fresh("cg", "Bool")
	x.assume(implies(gg, g))
	run(a, gg)
	return x.pureCall("ReplaceAllStringFunc:"+x.e.fnKey(fv.fn), args[:2], st, g, rt)
}

var _ = unicode.IsSpace

// ---- pure evaluation of a small function on terms (possibly with bound variables) ----

type pureFail struct{}

func (x *VC) pureFn(fv *FnVal, args []Val, st *State) (t string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pureFail); is {
				t, ok = "", false
				return
			}
			panic(r)
		}
	}()
	v := x.pureRun(fv.fn, args, fv.binds, st, 0)
	return v.T(), len(v.L) == 1
}

func (x *VC) pureRun(fn *ssa.Function, args, binds []Val, st *State, depth int) Val {
	if depth > 4 || fn.Blocks == nil || len(analyse(fn).loops) > 0 {
		panic(pureFail{})
	}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	f := &frame{fn: fn, env: env, binds: binds}
	return x.pureBlock(f, fn.Blocks[0], nil, st, depth, 0)
}

func (x *VC) pv(f *frame, v ssa.Value, st *State) Val {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.FreeVar:
		return x.val(f, v, st, "true")
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(pureFail{})
}

func (x *VC) pureBlock(f *frame, b, from *ssa.BasicBlock, st *State, depth, n int) Val {
	if n > 40 {
		panic(pureFail{})
	}
	// path-local environment
	env := map[ssa.Value]Val{}
	for k, v := range f.env {
		env[k] = v
	}
	f = &frame{fn: f.fn, env: env, binds: f.binds}
	for _, in := range b.Instrs {
		switch c := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for j, p := range b.Preds {
				if p == from {
					env[c] = x.pv(f, c.Edges[j], st)
				}
			}
		case *ssa.Jump:
			return x.pureBlock(f, b.Succs[0], b, st, depth, n+1)
		case *ssa.If:
			cv := x.pv(f, c.Cond, st).T()
			if cv == "true" {
				return x.pureBlock(f, b.Succs[0], b, st, depth, n+1)
			}
			if cv == "false" {
				return x.pureBlock(f, b.Succs[1], b, st, depth, n+1)
			}
			t := x.pureBlock(f, b.Succs[0], b, st, depth, n+1)
			e := x.pureBlock(f, b.Succs[1], b, st, depth, n+1)
			r := Val{Ty: t.Ty}
			for i := range t.L {
				r.L = append(r.L, boolIte(cv, t.L[i], e.L[i]))
			}
			return r
		case *ssa.Return:
			if len(c.Results) != 1 {
				panic(pureFail{})
			}
			return x.pv(f, c.Results[0], st)
		case *ssa.FieldAddr:
			bs := x.pv(f, c.X, st)
			ad := x.addrOf(bs, c.X, st, "true")
			stt := under(c.X.Type()).(*types.Pointer).Elem()
			fl := under(stt).(*types.Struct).Field(c.Field)
			nd := *ad
			nd.pre = ad.pre + "." + fl.Name()
			nd.ty = fl.Type()
			env[c] = Val{L: []string{x.ptrTerm(bs)}, Ty: c.Type(), Addr: &nd}
		case *ssa.IndexAddr:
			bs := x.pv(f, c.X, st)
			i := x.pv(f, c.Index, st).T()
			t, ok := under(c.X.Type()).(*types.Slice)
			if !ok {
				panic(pureFail{})
			}
			env[c] = Val{L: []string{"1"}, Ty: c.Type(), Addr: &Addr{kind: "elem", pre: "E:" + typeKey(t.Elem()), a: sArr(bs.T()), off: sOff(bs.T()), b: i, ty: t.Elem()}}
		case *ssa.UnOp:
			bs := x.pv(f, c.X, st)
			switch c.Op {
			case token.MUL:
				if gl, ok := c.X.(*ssa.Global); ok {
					x.globalFactsByName(x.globalName(gl))
				}
				ad := x.addrOf(bs, c.X, st, "true")
				v := Val{Ty: ad.ty}
				for _, lf := range flat(ad.ty) {
					s := sortOf(lf.ty)
					h := x.get(st, ad.pre+lf.path, wrapSort(ad.kind, s))
					switch ad.kind {
					case "field", "cell":
						v.L = append(v.L, sel(h, ad.a))
					case "elem":
						v.L = append(v.L, x.at(sel(h, ad.a), ad.off, ad.b, s))
					case "global":
						v.L = append(v.L, h)
					}
				}
				env[c] = v
			case token.NOT:
				env[c] = Val{L: []string{not(bs.T())}, Ty: c.Type()}
			default:
				panic(pureFail{})
			}
		case *ssa.BinOp:
			a, bb := x.pv(f, c.X, st), x.pv(f, c.Y, st)
			srt := sortOf(c.X.Type())
			switch {
			case (c.Op == token.EQL || c.Op == token.NEQ) && srt != "Slice" && srt != "Flt" && srt != "":
				r := x.eqLit(a.T(), bb.T())
				if c.Op == token.NEQ {
					r = not(r)
				}
				env[c] = Val{L: []string{r}, Ty: c.Type()}
			case srt == "Int" && (c.Op == token.LSS || c.Op == token.LEQ || c.Op == token.GTR || c.Op == token.GEQ):
				env[c] = Val{L: []string{"(" + c.Op.String() + " " + a.T() + " " + bb.T() + ")"}, Ty: c.Type()}
			case srt == "Int" && c.Op == token.ADD:
				env[c] = Val{L: []string{add(a.T(), bb.T())}, Ty: c.Type()}
			case srt == "Int" && c.Op == token.SUB:
				env[c] = Val{L: []string{sub(a.T(), bb.T())}, Ty: c.Type()}
			case srt == "Str" && c.Op == token.ADD:
				env[c] = Val{L: []string{"(sconcat " + a.T() + " " + bb.T() + ")"}, Ty: c.Type()}
			default:
				panic(pureFail{})
			}
		case *ssa.Call:
			cm := c.Common()
			if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := x.pv(f, cm.Args[0], st)
				if sortOf(cm.Args[0].Type()) == "Str" {
					env[c] = Val{L: []string{"(strlen " + a.T() + ")"}, Ty: c.Type()}
				} else if sortOf(cm.Args[0].Type()) == "Slice" {
					env[c] = Val{L: []string{sLen(a.T())}, Ty: c.Type()}
				} else {
					panic(pureFail{})
				}
				continue
			}
			fn := cm.StaticCallee()
			if fn == nil {
				panic(pureFail{})
			}
			var as []Val
			for _, a := range cm.Args {
				as = append(as, x.pv(f, a, st))
			}
			env[c] = x.pureCallee(fn, as, c, st, depth)
		default:
			// allocation of a literal table (slice of constants)
			if x.pureLiteral(f, in, st) {
				continue
			}
			panic(pureFail{})
		}
	}
	panic(pureFail{})
}

func boolIte(c, a, b string) string {
	switch {
	case a == "true" && b == "false":
		return c
	case a == "false" && b == "true":
		return not(c)
	case a == "true":
		return or(c, b)
	case a == "false":
		return and(not(c), b)
	case b == "false":
		return and(c, a)
	case b == "true":
		return or(not(c), a)
	}
	return ite(c, a, b)
}

func (x *VC) pureCallee(fn *ssa.Function, as []Val, c *ssa.Call, st *State, depth int) Val {
	name := extName(fn)
	if sg, ok := sigByUF[name]; ok {
		x.ext[name] = true
		var ts []string
		for _, a := range as {
			ts = append(ts, a.L...)
		}
		return Val{L: []string{x.pureApp(sg, ts)}, Ty: c.Type()}
	}
	if name == "slices.Contains" {
		x.ext[name] = true
		et := under(as[0].Ty).(*types.Slice).Elem()
		if as[0].Tup != nil { // literal table
			var ds []string
			for _, e := range as[0].Tup {
				ds = append(ds, x.eqLit(as[1].T(), e.T()))
			}
			return Val{L: []string{or(ds...)}, Ty: c.Type()}
		}
		if t, ok := x.containsTerm(as[0].T(), et, as[1].T(), st); ok {
			return Val{L: []string{t}, Ty: c.Type()}
		}
		panic(pureFail{})
	}
	if x.e.inScope(fn) && x.e.contractFor(fn) == nil {
		return x.pureRun(fn, as, nil, st, depth+1)
	}
	if ct := x.e.contractFor(fn); ct != nil && ct.pureRes != nil {
		env := x.contractEnv(fn, ct, nil, as, st, st)
		v := env.eval(ct.pureRes)
		v.Ty = c.Type()
		return v
	}
	panic(pureFail{})
}

// pureLiteral recognises the instructions building a constant string slice
func (x *VC) pureLiteral(f *frame, in ssa.Instruction, st *State) bool {
	switch c := in.(type) {
	case *ssa.Alloc:
		if _, ok := under(under(c.Type()).(*types.Pointer).Elem()).(*types.Array); ok {
			f.env[c] = Val{L: []string{"1"}, Ty: c.Type()}
			return true
		}
	case *ssa.Store:
		if ia, ok := c.Addr.(*ssa.IndexAddr); ok {
			if _, ok := ia.X.(*ssa.Alloc); ok {
				return true
			}
		}
	case *ssa.Slice:
		if ss, ok := sliceLits(c); ok {
			v := Val{L: []string{"(mks 0 0 0 0)"}, Ty: c.Type()}
			for _, s := range ss {
				v.Tup = append(v.Tup, Val{L: []string{x.lit(s)}, Ty: types.Typ[types.String]})
			}
			f.env[c] = v
			return true
		}
	}
	return false
}
