package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *VC) callInstr(f *frame, c *ssa.Call, st *State, g string) Val {
	cm := c.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return x.builtin(f, c, b, st, g)
	}
	if cm.IsInvoke() {
		recv := x.val(f, cm.Value, st, g)
		x.safety(g, not(eq(recv.T(), "inil")), "nilinvoke", c.Pos())
		return x.freshVal("inv", c.Type(), st, g)
	}
	var args []Val
	for _, a := range cm.Args {
		args = append(args, x.val(f, a, st, g))
	}
	fn := cm.StaticCallee()
	var binds []Val
	if fn == nil {
		v := x.val(f, cm.Value, st, g)
		if v.Fn != nil {
			fn, binds = v.Fn.fn, v.Fn.binds
		} else {
			return x.dynCall(f, c, v, args, st, g)
		}
	} else if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
		v := x.val(f, mc, st, g)
		if v.Fn != nil {
			binds = v.Fn.binds
		}
	}
	return x.callFn(fn, binds, args, c, f.depth, st, g)
}

func tupleOf(vals []Val, ty types.Type) Val {
	if t, ok := ty.(*types.Tuple); ok {
		return Val{Ty: t, Tup: vals}
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return Val{Ty: ty, Tup: vals}
}

func (x *VC) callFn(fn *ssa.Function, binds, args []Val, c ssa.CallInstruction, depth int, st *State, g string) Val {
	var rt types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		rt = fn.Signature.Results().At(0).Type()
	}
	pos := token.NoPos
	if c != nil {
		pos = c.Pos()
	}
	wrapper := fn.Blocks != nil && fn.Synthetic != "" && pkgOf(fn) == "" || strings.Contains(fn.Synthetic, "bound method") || strings.Contains(fn.Synthetic, "wrapper")
	if !x.e.inScope(fn) && !wrapper {
		ec := x.e.spec.externs[extName(fn)]
		if ec == nil {
			return x.external(fn, args, c, rt, depth, st, g)
		}
		x.externPre(ec, extName(fn), args, pos, st, g)
		old := st.clone()
		r := x.external(fn, args, c, rt, depth, st, g)
		x.externPost(ec, args, r, old, st, g)
		return r
	}
	if ct := x.e.contractFor(fn); ct != nil {
		return x.callContract(fn, ct, binds, args, rt, pos, st, g)
	}
	rec := false
	for _, s := range x.stack {
		if s == fn {
			rec = true
		}
	}
	if rec || depth > 14 {
		x.note("recursive function without contract: %s", x.e.fnKey(fn))
		return x.callDefault(fn, args, rt, st, g)
	}
	vals, out, og := x.run(fn, args, binds, st, g, depth+1)
	if og != "false" {
		st.h = out.h
		// paths that do not return (panic) are excluded
		if og != g {
			x.assumeG(g, og)
		}
	} else {
		x.assume(not(g))
		return x.freshVal("noret", rt, st, g)
	}
	return tupleOf(vals, rt)
}

func (x *VC) havocEffects(fn *ssa.Function, st *State) {
	own := "C:" + x.e.fnKey(fn)
	eff := x.e.fnEffects(fn)
	for _, k := range sortedKeys(x.e.fnEffects(fn)) {
		if k == "alloc" {
			continue
		}
		if strings.HasPrefix(k, own+":") || strings.HasPrefix(k, own+"$") || !x.cellVisible(k) {
			continue
		}
		x.get(st, k, "")
		st.h[k] = x.fresh(shortKey(k), x.compSort(k))
		x.wfComp(st.h[k], x.compSort(k))
	}
	if eff["alloc"] {
		a := x.alloc(st)
		na := x.fresh("alloc", "Int")
		x.assume("(<= " + a + " " + na + ")")
		st.h["alloc"] = na
	}
}

func (x *VC) callDefault(fn *ssa.Function, args []Val, rt types.Type, st *State, g string) Val {
	old := st.clone()
	x.requireInvs(nil, st, g, "call "+x.e.fnKey(fn))
	x.havocEffects(fn, st)
	x.assumeInvs(nil, old, st, g)
	x.assumeStable(old, st, g)
	x.assumeTrans(nil, old, st, g)
	return x.freshVal("ret", rt, st, g)
}

func (e *Engine) requiresOf(fn *ssa.Function, ct *Contract) []*Clause {
	out := ct.requires
	for i, p := range fn.Params {
		if i >= len(ct.params) {
			break
		}
		for _, a := range e.spec.auto {
			if typeKey(p.Type()) == a.ty && !ct.noinv[a.pred] {
				ex := &Expr{op: "call", s: a.pred, a: []*Expr{{op: "id", s: ct.params[i]}}}
				if ct.nilable[ct.params[i]] {
					ex = &Expr{op: "bin", s: "==>", a: []*Expr{{op: "bin", s: "!=", a: []*Expr{{op: "id", s: ct.params[i]}, {op: "id", s: "nil"}}}, ex}}
				}
				out = append(out[:len(out):len(out)], &Clause{name: a.pred + " " + ct.params[i], e: ex, tags: a.tags})
			}
		}
	}
	return out
}

// stable fields keep their value on every object that already exists
func (x *VC) assumeStable(old, st *State, g string) {
	for _, k := range x.e.spec.stable {
		if t := x.stableTerm(k, old, st); t != "true" {
			x.assumeG(g, t)
		}
	}
}

// two-state invariants
func (x *VC) transTerm(iv *Inv, old, st *State) string {
	same := true
	for _, k := range x.invComps(iv) {
		if k == "alloc" {
			continue
		}
		if x.get(st, k, "") != x.get(old, k, "") {
			same = false
		}
	}
	if same {
		return "true"
	}
	env := &senv{x: x, st: st, old: old, pre: old, vars: map[string]Val{}, qid: iv.name}
	return env.eval(iv.e).T()
}

func (x *VC) assumeTrans(ct *Contract, old, st *State, g string) {
	for _, iv := range x.e.spec.trans {
		if ct != nil && (ct.noinv[iv.name] || ct.noinv["*"]) {
			continue
		}
		if t := x.transTerm(iv, old, st); t != "true" {
			x.assumeG(g, t)
		}
	}
}

func (e *Engine) isStable(k string) bool {
	for _, s := range e.spec.stable {
		if s == k {
			return true
		}
	}
	return false
}

func (x *VC) stableTerm(k string, old, st *State) string {
	if x.e.keySort[k] == "" {
		return "true"
	}
	h, o := x.get(st, k, ""), x.get(old, k, "")
	if h == o {
		return "true"
	}
	al := x.alloc(old)
	return fmt.Sprintf("(forall ((q Int)) (! (=> (< q %s) (= (select %s q) (select %s q))) :pattern ((select %s q))))", al, h, o, h)
}

func (x *VC) requireInvs(ct *Contract, st *State, g, where string) {
	for _, iv := range x.e.spec.invs {
		if ct != nil && (ct.noinv[iv.name] || ct.noinv["*"]) || x.framed[iv] {
			continue
		}
		t := x.invTerm(iv, st)
		if x.facts["inv|true|"+t] || x.facts["inv|"+g+"|"+t] {
			continue
		}
		x.obligeInv(iv, st, g, where)
		x.facts["inv|"+g+"|"+t] = true
	}
}

func (x *VC) assumeInvs(ct *Contract, old, st *State, g string) {
	for _, iv := range x.e.spec.invs {
		if ct != nil && (ct.noinv[iv.name] || ct.noinv["*"]) || x.framed[iv] {
			continue
		}
		t := x.invTerm(iv, st)
		if old != nil && t == x.invTerm(iv, old) {
			continue
		}
		x.assumeInv(iv, st, g)
		x.facts["inv|"+g+"|"+t] = true
	}
	x.assumeFramed(st, g)
}

func (x *VC) contractEnv(fn *ssa.Function, ct *Contract, binds, args []Val, st, old *State) *senv {
	env := &senv{x: x, st: st, old: old, pre: old, vars: map[string]Val{}}
	for i, p := range ct.params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i >= len(binds) {
			continue
		}
		if pt, ok := under(fv.Type()).(*types.Pointer); ok {
			if _, isStruct := under(pt.Elem()).(*types.Struct); !isStruct || len(binds[i].L) == 1 {
				if al, ok := x.e.resolveFree(fv).(*ssa.Alloc); ok {
					if !isStruct {
						_ = al
						continue // resolved lazily below through cells
					}
				}
			}
		}
		env.vars[fv.Name()] = binds[i]
	}
	return env
}

// bindCells makes captured variables visible by name, in the environment's current state
func (x *VC) bindCells(env *senv, fn *ssa.Function, binds []Val, st *State) {
	for i, fv := range fn.FreeVars {
		if i >= len(binds) {
			continue
		}
		pt, ok := under(fv.Type()).(*types.Pointer)
		if !ok {
			continue
		}
		if _, isStruct := under(pt.Elem()).(*types.Struct); isStruct {
			continue
		}
		if _, isSig := under(pt.Elem()).(*types.Signature); isSig {
			continue
		}
		if al, ok := x.e.resolveFree(fv).(*ssa.Alloc); ok && len(binds[i].L) == 1 {
			ad := &Addr{kind: "cell", pre: x.e.cellKey(al), a: binds[i].T(), ty: pt.Elem()}
			x.get(st, ad.pre, wrapSort("cell", sortOf(pt.Elem())))
			if env.cells == nil {
				env.cells = map[string]*Addr{}
			}
			env.cells[fv.Name()] = ad
			delete(env.vars, fv.Name())
		}
	}
}

func (x *VC) callContract(fn *ssa.Function, ct *Contract, binds, args []Val, rt types.Type, pos token.Pos, st *State, g string) Val {
	key := x.e.fnKey(fn)
	x.callees[key] = true
	env := x.contractEnv(fn, ct, binds, args, st, st)
	x.bindCells(env, fn, binds, st)
	for i, p := range fn.Params {
		if i < len(ct.params) && i < len(args) {
			if _, ok := under(p.Type()).(*types.Pointer); ok && !ct.nilable[ct.params[i]] && args[i].Addr == nil {
				x.oblige(g, not(eq(args[i].T(), "0")), "pre "+key+"/nonnil "+ct.params[i], []string{"C01"}, pos)
			}
		}
	}
	for i, r := range x.e.requiresOf(fn, ct) {
		cond := env.eval(r.e).T()
		nm := r.name
		if nm == "" {
			nm = fmt.Sprint(i)
		}
		tags := r.tags
		if len(tags) == 0 {
			tags = []string{"C01"}
		}
		x.oblige(g, cond, "pre "+key+"/"+nm, tags, pos)
	}
	x.requireInvs(ct, st, g, "pre "+key)
	old := st.clone()
	x.havocEffects(fn, st)
	ret := x.freshVal("r_"+fn.Name(), rt, st, g)
	x.assumeInvs(ct, old, st, g)
	env2 := x.contractEnv(fn, ct, binds, args, st, old)
	x.bindCells(env2, fn, binds, st)
	x.bindResults(env2, ret)
	x.assumeStable(old, st, g)
	x.assumeTrans(ct, old, st, g)
	for _, en := range ct.ensures {
		x.assumeG(g, env2.eval(en.e).T())
	}
	return ret
}

func (x *VC) bindResults(env *senv, ret Val) {
	if ret.Tup != nil {
		for i, r := range ret.Tup {
			env.vars[fmt.Sprintf("res%d", i)] = r
		}
		if len(ret.Tup) == 1 {
			env.vars["res"] = ret.Tup[0]
		}
		return
	}
	env.vars["res"] = ret
	env.vars["res0"] = ret
}

// applyUpdate: ghost assignment at function exit; callers only see the invariants and postconditions.
func (x *VC) applyUpdate(env *senv, u *GhostUpd, st *State, g string) {
	gh := x.e.spec.ghostBy[u.ghost]
	x.get(st, "$"+u.ghost, gh.sort)
	before := st.clone()
	st.h["$"+u.ghost] = x.fresh(u.ghost, gh.sort)
	cur := st.h["$"+u.ghost]
	n := *env
	n.st = before
	if len(u.vars) == 0 {
		x.assumeG(g, eq(cur, n.eval(u.e).T()))
		return
	}
	n.vars = map[string]Val{}
	for k, v := range env.vars {
		n.vars[k] = v
	}
	x.nfresh++
	nm := sym(fmt.Sprintf("%s?%d", u.vars[0].name, x.nfresh))
	q := sv(nm, "Int")
	if t := x.e.lookupType(u.vars[0].ty); t != nil && smtSorts[u.vars[0].ty] == "" {
		q = Val{L: []string{nm}, Ty: t}
	}
	n.vars[u.vars[0].name] = q
	body := n.eval(u.e).T()
	x.assume(fmt.Sprintf("(forall ((%s Int)) (! (= (select %s %s) %s) :pattern ((select %s %s))))", nm, cur, nm, body, cur, nm))
}

// dynCall: call of an unknown function value (an Option, or a user callback)
func (x *VC) dynCall(f *frame, c *ssa.Call, v Val, args []Val, st *State, g string) Val {
	x.safety(g, not(eq(v.T(), "0")), "nilfunc", c.Pos())
	for i, a := range c.Common().Args {
		if p, ok := under(a.Type()).(*types.Pointer); ok && typeKey(p.Elem()) == "Options" {
			// an option may set every field of the Options object it is given; it keeps the
			// invariants (every function literal that can be one is proved to)
			x.requireInvs(nil, st, g, "option call")
			pre := st.clone()
			defer func() { x.assumeInvs(nil, pre, st, g) }()
			for _, lf := range flat(p.Elem()) {
				k := "F:Options" + lf.path
				h := x.get(st, k, wrapSort("field", sortOf(lf.ty)))
				nv := x.fresh("opt", sortOf(lf.ty))
				if _, ok := under(lf.ty).(*types.Signature); ok {
					if lf.path != ".html2text" {
						x.assume("(< 0 " + nv + ")") // assumption: function options are not nil
					}
				}
				st.h[k] = x.nm("opt", sto(h, args[i].T(), nv), wrapSort("field", sortOf(lf.ty)))
			}
		}
	}
	ec := x.e.spec.externs["dyn:"+sigKey(c.Common().Value.Type())]
	args = append([]Val{v}, args...)
	if ec != nil {
		x.externPre(ec, ec.fn, args, c.Pos(), st, g)
	}
	old := st.clone()
	r := x.freshVal("dyn", c.Type(), st, g)
	if ec != nil {
		x.externPost(ec, args, r, old, st, g)
	}
	return r
}

// contracts of functions outside the repository: preconditions are obligations, ghost updates
// and postconditions are taken on trust
func externEnv(x *VC, ec *Contract, args []Val, st, old *State) *senv {
	env := &senv{x: x, st: st, old: old, pre: old, vars: map[string]Val{}}
	for i, p := range ec.params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	return env
}

func (x *VC) externPre(ec *Contract, name string, args []Val, pos token.Pos, st *State, g string) {
	env := externEnv(x, ec, args, st, st)
	for _, r := range ec.requires {
		x.oblige(g, env.eval(r.e).T(), "pre "+name+"/"+r.name, r.tags, pos)
	}
}

func (x *VC) externPost(ec *Contract, args []Val, r Val, old, st *State, g string) {
	env := externEnv(x, ec, args, st, old)
	x.bindResults(env, r)
	for _, u := range ec.updates {
		x.applyUpdate(env, u, st, g)
	}
	for _, en := range ec.ensures {
		x.assumeG(g, env.eval(en.e).T())
	}
}

func (x *VC) builtin(f *frame, c *ssa.Call, b *ssa.Builtin, st *State, g string) Val {
	cm := c.Common()
	var args []Val
	for _, a := range cm.Args {
		args = append(args, x.val(f, a, st, g))
	}
	switch b.Name() {
	case "len", "cap":
		switch t := under(cm.Args[0].Type()).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return Val{L: []string{sCap(args[0].T())}, Ty: c.Type()}
			}
			return Val{L: []string{x.nm("len", sLen(args[0].T()), "Int")}, Ty: c.Type()}
		case *types.Basic:
			if s, ok := x.litOf[args[0].T()]; ok {
				return Val{L: []string{num(int64(len(s)))}, Ty: c.Type()}
			}
			return Val{L: []string{x.nm("len", "(strlen "+args[0].T()+")", "Int")}, Ty: c.Type()}
		case *types.Array:
			return Val{L: []string{num(t.Len())}, Ty: c.Type()}
		}
		r := x.freshVal("len", c.Type(), st, g)
		x.assume("(<= 0 " + r.T() + ")")
		return r
	case "append":
		return x.appendModel(args[0], args[1], cm, c, st, g)
	case "copy":
		return x.copyModel(args[0], args[1], cm, c, st, g)
	case "min", "max":
		if sortOf(c.Type()) == "Int" {
			r := args[0].T()
			for _, a := range args[1:] {
				op := "<="
				if b.Name() == "max" {
					op = ">="
				}
				r = ite("("+op+" "+r+" "+a.T()+")", r, a.T())
			}
			return Val{L: []string{x.nm("mm", r, "Int")}, Ty: c.Type()}
		}
	case "delete":
		ks := x.e.mapKeys(cm.Args[0].Type())
		x.oblige(g, x.notGlobalRef(args[0].T()), "globalwrite map", []string{"C06"}, c.Pos())
		md := x.get(st, ks[0], "")
		st.h[ks[0]] = x.nm("md", sto(md, args[0].T(), sto(sel(md, args[0].T()), args[1].T(), "false")), x.compSort(ks[0]))
		return Val{Ty: c.Type()}
	}
	if b.Name() != "print" && b.Name() != "println" {
		x.note("builtin %s", b.Name())
	}
	return x.freshVal("bi", c.Type(), st, g)
}

func (x *VC) appendModel(s, t Val, cm *ssa.CallCommon, c *ssa.Call, st *State, g string) Val {
	et := under(cm.Args[0].Type()).(*types.Slice).Elem()
	S := s.T()
	var tl string
	strArg := sortOf(cm.Args[1].Type()) == "Str"
	if strArg {
		tl = "(strlen " + t.T() + ")"
	} else {
		tl = sLen(t.T())
	}
	r := x.newRef("app", st)
	x.zeroGhost(r, st)
	rS, loS := x.rootOf(S)
	rT, loT := t.T(), "0"
	if !strArg {
		rT, loT = x.rootOf(t.T())
	}
	sl := sLen(S)
	nl := x.nm("nl", add(sl, tl), "Int")
	// appending nothing returns the slice itself (below): no write in place
	fits := "(<= " + nl + " " + sCap(S) + ")"
	if n, ok := isNum(tl); !ok || n == 0 {
		fits = and("(< 0 "+tl+")", fits)
	}
	inpl := x.nm("inpl", fits, "Bool")
	ra := x.nm("ra", ite(inpl, sArr(S), r), "Int")
	ro := x.nm("ro", ite(inpl, sOff(S), "0"), "Int")
	nc := x.fresh("ncap", "Int")
	x.assume("(<= " + nl + " " + nc + ")")
	rc := x.nm("rc", ite(inpl, sCap(S), nc), "Int")
	for _, lf := range flat(et) {
		srt := sortOf(lf.ty)
		key := "E:" + typeKey(et) + lf.path
		h := x.get(st, key, wrapSort("elem", srt))
		if key == "E:string" {
			x.oblige(and(g, inpl, "(< 0 "+tl+")"), x.notGlobalRef(ra), "globalwrite append", []string{"C06"}, c.Pos())
		}
		x.ownedWrite(key, ra, and(g, inpl, "(< 0 "+tl+")"), st)
		A := x.fresh("A", "(Array Int "+srt+")")
		at := x.atFn(srt)
		// existing elements
		x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s %s i) (%s (select %s %s) %s (+ %s i)))) :pattern ((%s %s %s i))))",
			sl, at, A, ro, at, h, sArr(rS), sOff(rS), loS, at, A, ro))
		// appended elements
		if n, ok := isNum(tl); ok && n <= 16 && !strArg {
			for j := 0; j < n; j++ {
				x.assume(eq(x.at(A, ro, add(sl, num(int64(j))), srt), x.at(sel(h, sArr(rT)), sOff(rT), add(loT, num(int64(j))), srt)))
			}
		} else if !strArg {
			x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (= (%s %s %s i) (%s (select %s %s) %s (+ %s (- i %s))))) :pattern ((%s %s %s i))))",
				sl, nl, at, A, ro, at, h, sArr(rT), sOff(rT), loT, sl, at, A, ro))
			// and forward: every element of t appears
			x.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (%s %s %s (+ (- i %s) %s)) (%s (select %s %s) %s i))) :pattern ((%s (select %s %s) %s i))))",
				loT, loT, tl, at, A, ro, loT, sl, at, h, sArr(rT), sOff(rT), at, h, sArr(rT), sOff(rT)))
		}
		if srt == "Str" && x.e.spec.funs["joinof"] != nil && !strArg {
			// joining the longer list appends the joined new elements
			j := app("joinof", sel(h, sArr(S)), sOff(S), sl)
			if n, ok := isNum(tl); ok && n <= 16 {
				for k := 0; k < n; k++ {
					j = "(sconcat " + j + " " + x.at(sel(h, sArr(rT)), sOff(rT), add(loT, num(int64(k))), srt) + ")"
				}
			} else {
				j = "(sconcat " + j + " " + app("joinof", sel(h, sArr(t.T())), sOff(t.T()), tl) + ")"
			}
			x.assume(eq(app("joinof", A, ro, nl), j))
		}
		if srt == "Str" && x.e.spec.funs["joinsp"] != nil && !strArg {
			if n, ok := isNum(tl); ok && n == 1 { // joined with blanks
				el := x.at(sel(h, sArr(rT)), sOff(rT), loT, srt)
				j := app("joinsp", sel(h, sArr(S)), sOff(S), sl)
				x.assume(eq(app("joinsp", A, ro, nl), ite(eq(sl, "0"), el, "(sconcat (sconcat "+j+" "+x.lit(" ")+") "+el+")")))
			}
		}
		// in place: everything outside the appended range is untouched
		x.assume(implies(inpl, fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k (+ %s %s)) (<= (+ %s %s) k)) (= (%s %s %s k) (%s (select %s %s) %s k))) :pattern ((%s %s %s k))))",
			loS, sl, loS, nl, at, A, sOff(rS), at, h, sArr(rS), sOff(rS), at, A, sOff(rS))))
		st.h[key] = x.nm("E", sto(h, ra, A), wrapSort("elem", srt))
	}
	x.assumeFramed(st, g)
	res := mks(ra, ro, nl, rc)
	if n, ok := isNum(tl); !ok || n == 0 {
		// appending nothing returns the slice unchanged (nil stays nil)
		res = x.nm("apps", ite(eq(tl, "0"), S, res), "Slice")
	}
	return Val{L: []string{res}, Ty: c.Type()}
}

func (x *VC) copyModel(d, s Val, cm *ssa.CallCommon, c *ssa.Call, st *State, g string) Val {
	et := under(cm.Args[0].Type()).(*types.Slice).Elem()
	if sortOf(cm.Args[1].Type()) == "Str" {
		x.note("copy from string")
		x.havocElems(et, sArr(d.T()), st)
		return x.freshVal("n", c.Type(), st, g)
	}
	D, S := d.T(), s.T()
	rD, loD := x.rootOf(D)
	rS, loS := x.rootOf(S)
	n := x.nm("cpn", ite("(<= "+sLen(D)+" "+sLen(S)+")", sLen(D), sLen(S)), "Int")
	for _, lf := range flat(et) {
		srt := sortOf(lf.ty)
		key := "E:" + typeKey(et) + lf.path
		h := x.get(st, key, wrapSort("elem", srt))
		if key == "E:string" {
			x.globalArrWrite(sArr(D), g, c.Pos())
		}
		x.ownedWrite(key, sArr(D), g, st)
		A := x.fresh("A", "(Array Int "+srt+")")
		at := x.atFn(srt)
		x.assume(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s %s i) (ite (and (<= %s i) (< i (+ %s %s))) (%s (select %s %s) %s (+ (- i %s) %s)) (%s (select %s %s) %s i))) :pattern ((%s %s %s i))))",
			at, A, sOff(rD), loD, loD, n, at, h, sArr(rS), sOff(rS), loD, loS, at, h, sArr(rD), sOff(rD), at, A, sOff(rD)))
		st.h[key] = x.nm("E", sto(h, sArr(rD), A), wrapSort("elem", srt))
	}
	return Val{L: []string{n}, Ty: c.Type()}
}

func (x *VC) havocElems(et types.Type, arr string, st *State) {
	for _, lf := range flat(et) {
		srt := sortOf(lf.ty)
		key := "E:" + typeKey(et) + lf.path
		h := x.get(st, key, wrapSort("elem", srt))
		A := x.fresh("A", "(Array Int "+srt+")")
		st.h[key] = x.nm("E", sto(h, arr, A), wrapSort("elem", srt))
	}
}
