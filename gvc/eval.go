package main

import (
	"fmt"
	"go/types"
	"strings"
)

type senv struct {
	x     *VC
	st    *State
	old   *State
	pre   *State
	vars  map[string]Val
	cells map[string]*Addr // captured variables, read in the state asked for
	rec   map[string]bool  // components read
	depth int
	inq   bool
	qid   string
}

func (v *senv) sub(st *State) *senv {
	n := *v
	n.st = st
	return &n
}

func (e *Engine) lookupType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		t := e.lookupType(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	case strings.HasPrefix(s, "[]"):
		t := e.lookupType(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	case strings.HasPrefix(s, "map[") && strings.Contains(s, "]"):
		k, v, _ := strings.Cut(s[4:], "]")
		kt, vt := e.lookupType(k), e.lookupType(v)
		if kt == nil || vt == nil {
			return nil
		}
		return types.NewMap(kt, vt)
	}
	if i := strings.Index(s, "."); i > 0 {
		for _, im := range e.main.Pkg.Imports() {
			if im.Name() == s[:i] {
				if o := im.Scope().Lookup(s[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if o := e.main.Pkg.Scope().Lookup(s); o != nil {
		return o.Type()
	}
	return nil
}

func sv(t, s string) Val { return Val{L: []string{t}, S: s} }

func (v *senv) comp(key, srt string) string {
	if v.rec != nil {
		v.rec[key] = true
	}
	return v.x.get(v.st, key, srt)
}

var smtSorts = map[string]string{"int": "Int", "bool": "Bool", "string": "Str", "ref": "Int", "float": "Flt"}

func (v *senv) eval(e *Expr) Val {
	x := v.x
	switch e.op {
	case "lit":
		return sv(e.s, "Int")
	case "str":
		return sv(x.lit(e.s), "Str")
	case "id":
		if r, ok := v.vars[e.s]; ok {
			return r
		}
		if c := v.cells[e.s]; c != nil {
			return Val{L: []string{sel(v.comp(c.pre, wrapSort("cell", sortOf(c.ty))), c.a)}, Ty: c.ty}
		}
		switch e.s {
		case "true", "false":
			return sv(e.s, "Bool")
		case "nil":
			return sv("0", "Int")
		case "alloc":
			return sv(v.comp("alloc", "Int"), "Int")
		}
		if g, ok := x.e.spec.ghostBy[e.s]; ok {
			return sv(v.comp("$"+g.name, g.sort), g.sort)
		}
		if f, ok := x.e.spec.funs[e.s]; ok && len(f) == 2 {
			return sv(e.s, f[0])
		}
		if gi, ok := x.e.globals[e.s]; ok {
			var l []string
			for _, lf := range flat(gi.ty) {
				l = append(l, v.comp("G:"+e.s+lf.path, sortOf(lf.ty)))
			}
			x.globalFacts(gi)
			return Val{L: l, Ty: gi.ty}
		}
		if c, ok := x.e.main.Pkg.Scope().Lookup(e.s).(*types.Const); ok {
			return sv(c.Val().ExactString(), "Int")
		}
		panic(specErr("unknown name " + e.s + " in contract of " + x.key))
	case "field":
		if e.a[0].op == "id" { // a variable of another package
			if gi, ok := x.e.globals[e.a[0].s+"."+e.s]; ok && v.vars[e.a[0].s].L == nil && sortOf(gi.ty) != "" {
				return Val{L: []string{v.comp("G:"+e.a[0].s+"."+e.s, sortOf(gi.ty))}, Ty: gi.ty}
			}
		}
		b := v.eval(e.a[0])
		return v.field(b, e.s)
	case "index":
		b := v.eval(e.a[0])
		i := v.eval(e.a[1])
		if b.Ty != nil {
			switch t := under(b.Ty).(type) {
			case *types.Slice:
				var l []string
				for _, lf := range flat(t.Elem()) {
					s := sortOf(lf.ty)
					h := v.comp("E:"+typeKey(t.Elem())+lf.path, wrapSort("elem", s))
					l = append(l, x.at(sel(h, sArr(b.T())), sOff(b.T()), i.T(), s))
				}
				return Val{L: l, Ty: t.Elem()}
			case *types.Map:
				ks := x.e.mapKeys(t)
				h := v.comp(ks[1], "")
				return Val{L: []string{sel(sel(h, b.T()), i.T())}, Ty: t.Elem()}
			}
		}
		if strings.HasPrefix(b.S, "(Array ") {
			a := splitArgs(b.S)
			return sv(sel(b.T(), i.T()), a[2])
		}
		panic(specErr("bad index in " + x.key))
	case "un":
		a := v.eval(e.a[0])
		if e.s == "!" {
			return sv(not(a.T()), "Bool")
		}
		return sv("(- "+a.T()+")", "Int")
	case "bin":
		a := v.eval(e.a[0])
		b := v.eval(e.a[1])
		switch e.s {
		case "==>":
			return sv(implies(a.T(), b.T()), "Bool")
		case "<==>":
			return sv("(= "+a.T()+" "+b.T()+")", "Bool")
		case "&&":
			return sv(and(a.T(), b.T()), "Bool")
		case "||":
			return sv(or(a.T(), b.T()), "Bool")
		case "==", "!=":
			if a.sort() == "Iface" && b.T() == "0" {
				b = sv("inil", "Iface")
			}
			if a.sort() == "Slice" && b.T() == "0" {
				a, b = sv(sArr(a.T()), "Int"), sv("0", "Int")
			}
			var cs []string
			for i := range a.L {
				cs = append(cs, eq(a.L[i], b.L[i]))
			}
			r := and(cs...)
			if e.s == "!=" {
				r = not(r)
			}
			return sv(r, "Bool")
		case "<", "<=", ">", ">=":
			return sv("("+e.s+" "+a.T()+" "+b.T()+")", "Bool")
		case "+":
			if a.sort() == "Str" {
				return sv("(sconcat "+a.T()+" "+b.T()+")", "Str")
			}
			return sv(add(a.T(), b.T()), "Int")
		case "-":
			return sv(sub(a.T(), b.T()), "Int")
		case "*":
			return sv("(* "+a.T()+" "+b.T()+")", "Int")
		}
	case "forall", "exists":
		n := *v
		n.vars = map[string]Val{}
		for k, w := range v.vars {
			n.vars[k] = w
		}
		n.inq = true
		var bs []string
		for _, q := range e.vars {
			x.nfresh++
			nm := sym(fmt.Sprintf("%s?%d", q.name, x.nfresh))
			if s, ok := smtSorts[q.ty]; ok {
				n.vars[q.name] = sv(nm, s)
				bs = append(bs, "("+nm+" "+s+")")
				continue
			}
			t := x.e.lookupType(q.ty)
			if t == nil {
				panic(specErr("unknown type " + q.ty))
			}
			n.vars[q.name] = Val{L: []string{nm}, Ty: t}
			bs = append(bs, "("+nm+" "+sortOf(t)+")")
		}
		body := n.eval(e.a[0]).T()
		if len(e.trig) > 0 {
			pats := ""
			for _, tr := range e.trig {
				var ts []string
				for _, t := range tr {
					ts = append(ts, n.eval(t).T())
				}
				pats += " :pattern (" + strings.Join(ts, " ") + ")"
			}
			if v.qid != "" {
				pats += " :qid " + v.qid
			}
			body = "(! " + body + pats + ")"
		}
		return sv("("+e.op+" ("+strings.Join(bs, " ")+") "+body+")", "Bool")
	case "call":
		return v.call(e)
	}
	panic(specErr("bad expression"))
}

type specErr string

func (v *senv) field(b Val, f string) Val {
	x := v.x
	if b.Ty == nil {
		panic(specErr("field " + f + " of untyped value in " + x.key))
	}
	t := b.Ty
	if p, ok := under(t).(*types.Pointer); ok {
		st, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			panic(specErr("field of non-struct"))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				var l []string
				for _, lf := range flat(st.Field(i).Type()) {
					h := v.comp("F:"+typeKey(p.Elem())+"."+f+lf.path, wrapSort("field", sortOf(lf.ty)))
					l = append(l, sel(h, b.T()))
				}
				return Val{L: l, Ty: st.Field(i).Type()}
			}
		}
		panic(specErr("no field " + f))
	}
	if st, ok := under(t).(*types.Struct); ok {
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			n := len(flat(st.Field(i).Type()))
			if st.Field(i).Name() == f {
				return Val{L: b.L[k : k+n], Ty: st.Field(i).Type()}
			}
			k += n
		}
	}
	panic(specErr("no field " + f))
}

func (v *senv) call(e *Expr) Val {
	x := v.x
	switch e.s {
	case "old":
		n := v.sub(v.old)
		return n.eval(e.a[0])
	case "pre":
		n := v.sub(v.pre)
		return n.eval(e.a[0])
	case "len":
		a := v.eval(e.a[0])
		if a.sort() == "Str" {
			return sv("(strlen "+a.T()+")", "Int")
		}
		return sv(sLen(a.T()), "Int")
	case "cap":
		return sv(sCap(v.eval(e.a[0]).T()), "Int")
	case "mine":
		t := v.eval(e.a[0]).T()
		return sv(or(eq(sCap(t), "0"), x.notGlobalRef(sArr(t))), "Bool")
	case "arr":
		return sv(sArr(v.eval(e.a[0]).T()), "Int")
	case "off":
		return sv(sOff(v.eval(e.a[0]).T()), "Int")
	case "slice": // slice(arr, off, len, cap)
		return sv(mks(v.eval(e.a[0]).T(), v.eval(e.a[1]).T(), v.eval(e.a[2]).T(), v.eval(e.a[3]).T()), "Slice")
	case "ite":
		a, b, c := v.eval(e.a[0]), v.eval(e.a[1]), v.eval(e.a[2])
		return Val{L: []string{ite(a.T(), b.T(), c.T())}, Ty: b.Ty, S: b.sort()}
	case "store":
		a, b, c := v.eval(e.a[0]), v.eval(e.a[1]), v.eval(e.a[2])
		return sv("(store "+a.T()+" "+b.T()+" "+c.T()+")", a.sort())
	case "heap": // heap(Node.f) -> the component array
		f := e.a[0]
		t := x.e.lookupType(f.a[0].s)
		for _, lf := range flat(t) {
			if lf.path == "."+f.s {
				s := wrapSort("field", sortOf(lf.ty))
				return sv(v.comp("F:"+typeKey(t)+lf.path, s), s)
			}
		}
		panic(specErr("heap"))
	case "elems": // elems(s): content array of slice s
		a := v.eval(e.a[0])
		et := under(a.Ty).(*types.Slice).Elem()
		s := sortOf(et)
		return sv(sel(v.comp("E:"+typeKey(et), wrapSort("elem", s)), sArr(a.T())), "(Array Int "+s+")")
	case "elemheap": // elemheap("T"): whole element heap
		t := x.e.lookupType(e.a[0].s)
		s := wrapSort("elem", sortOf(t))
		return sv(v.comp("E:"+typeKey(t), s), s)
	case "has": // has(m, k)
		m := v.eval(e.a[0])
		ks := x.e.mapKeys(m.Ty)
		return sv(sel(sel(v.comp(ks[0], ""), m.T()), v.eval(e.a[1]).T()), "Bool")
	case "unchanged": // unchanged(Node.f): same component as at entry
		var cs []string
		for _, f := range e.a {
			h := &Expr{op: "call", s: "heap", a: []*Expr{f}}
			cs = append(cs, eq(v.eval(h).T(), v.sub(v.old).eval(h).T()))
		}
		return sv(and(cs...), "Bool")
	case "keeps": // keeps(c, cond, Node.f, ...): objects c with cond have the same field as at entry
		var cs []string
		for _, f := range e.a[2:] {
			cur := &Expr{op: "field", s: f.s, a: []*Expr{{op: "id", s: e.a[0].s}}}
			body := &Expr{op: "bin", s: "==>", a: []*Expr{e.a[1], {op: "bin", s: "==", a: []*Expr{cur, {op: "call", s: "old", a: []*Expr{cur}}}}}}
			q := &Expr{op: "forall", vars: []SVar{{e.a[0].s, "*" + f.a[0].s}}, trig: [][]*Expr{{cur}}, a: []*Expr{body}}
			cs = append(cs, v.eval(q).T())
		}
		return sv(and(cs...), "Bool")
	case "freshonly": // freshonly(Node.f,...): objects that existed at entry keep the field
		var cs []string
		al := v.sub(v.old).eval(&Expr{op: "id", s: "alloc"}).T()
		for _, f := range e.a {
			h := &Expr{op: "call", s: "heap", a: []*Expr{f}}
			n, o := v.eval(h).T(), v.sub(v.old).eval(h).T()
			if n == o {
				continue
			}
			cs = append(cs, fmt.Sprintf("(forall ((q Int)) (! (=> (< q %s) (= (select %s q) (select %s q))) :pattern ((select %s q))))", al, n, o, n))
		}
		return sv(and(cs...), "Bool")
	case "freshelems": // freshelems("T"): arrays that existed at entry keep their contents
		var cs []string
		al := v.sub(v.old).eval(&Expr{op: "id", s: "alloc"}).T()
		for _, a := range e.a {
			h := &Expr{op: "call", s: "elemheap", a: []*Expr{a}}
			n, o := v.eval(h).T(), v.sub(v.old).eval(h).T()
			if n == o {
				continue
			}
			cs = append(cs, fmt.Sprintf("(forall ((q Int)) (! (=> (< q %s) (= (select %s q) (select %s q))) :pattern ((select %s q))))", al, n, o, n))
		}
		return sv(and(cs...), "Bool")
	case "typeis": // typeis(iface, "string")
		a := v.eval(e.a[0])
		t := x.e.lookupType(e.a[1].s)
		return sv(x.isType(a.T(), t), "Bool")
	case "strof": // strof(bytes): the conversion to string
		a := v.eval(e.a[0])
		el := under(a.Ty).(*types.Slice).Elem()
		f := x.uf("str_of_"+typeKey(el), "Str", "(Array Int Int)", "Int", "Int")
		return sv(app(f, sel(v.comp("E:"+typeKey(el), wrapSort("elem", "Int")), sArr(a.T())), sOff(a.T()), sLen(a.T())), "Str")
	case "astype": // astype(e, "*T"): a ghost number as a pointer
		a := v.eval(e.a[0])
		return Val{L: a.L, Ty: x.e.lookupType(e.a[1].s)}
	case "replaced": // replaced(s, old, new, ...): strings.NewReplacer(old, new, ...).Replace(s)
		var ps []string
		for _, a := range e.a[1:] {
			ps = append(ps, a.s)
		}
		return sv(x.replaced(v.eval(e.a[0]).T(), ps), "Str")
	case "joined": // joined(s): the texts of s one after the other
		a := v.eval(e.a[0])
		return sv(app("joinof", sel(v.comp("E:string", wrapSort("elem", "Str")), sArr(a.T())), sOff(a.T()), sLen(a.T())), "Str")
	case "spaced": // spaced(s): the texts of s joined with blanks
		a := v.eval(e.a[0])
		return sv(app("joinsp", sel(v.comp("E:string", wrapSort("elem", "Str")), sArr(a.T())), sOff(a.T()), sLen(a.T())), "Str")
	case "isstr":
		a := v.eval(e.a[0])
		return sv(x.isType(a.T(), types.Typ[types.String]), "Bool")
	case "asstr":
		a := v.eval(e.a[0])
		return Val{L: []string{x.unbox(a.T(), types.Typ[types.String])}, Ty: types.Typ[types.String]}
	case "inv":
		for _, iv := range x.e.spec.invs {
			if iv.name == e.a[0].s {
				return sv(x.invTerm(iv, v.st), "Bool")
			}
		}
		panic(specErr("no inv " + e.a[0].s))
	}
	if p, ok := x.e.spec.preds[e.s]; ok {
		n := *v
		n.depth++
		n.vars = map[string]Val{}
		for i, q := range p.vars {
			a := v.eval(e.a[i])
			if a.Ty == nil && q.ty != "" {
				if t := x.e.lookupType(q.ty); t != nil {
					a.Ty = t
				}
			}
			n.vars[q.name] = a
		}
		return n.eval(p.e)
	}
	if f, ok := x.e.spec.funs[e.s]; ok {
		var as []string
		for _, a := range e.a {
			r := v.eval(a)
			as = append(as, r.L...)
		}
		return sv(app(e.s, as...), f[0])
	}
	// library function as uninterpreted function of the same name
	if sg, ok := pureSigs[e.s]; ok {
		var as []string
		for _, a := range e.a {
			as = append(as, v.eval(a).T())
		}
		return sv(x.pureApp(sg, as), sg.ret)
	}
	panic(specErr("unknown function " + e.s + " in contract of " + x.key))
}

// ---- invariants ----

func (x *VC) invComps(iv *Inv) []string {
	if iv.comps == nil {
		st := &State{h: map[string]string{}}
		tmp := x.scratch()
		env := &senv{x: tmp, st: st, old: st, rec: map[string]bool{}, vars: map[string]Val{}}
		env.eval(iv.e)
		iv.comps = []string{}
		for _, k := range sortedKeys(env.rec) {
			iv.comps = append(iv.comps, k)
		}
	}
	return iv.comps
}

func (x *VC) scratch() *VC {
	y := newVC(x.e, x.fn)
	return y
}

func (x *VC) invTerm(iv *Inv, st *State) string {
	ks := x.invComps(iv)
	var ts, ss []string
	for _, k := range ks {
		ts = append(ts, x.get(st, k, ""))
		ss = append(ss, x.compSort(k))
	}
	f := x.uf("Inv_"+iv.name, "Bool", ss...)
	return app(f, ts...)
}

func (x *VC) invFormula(iv *Inv, st *State) string {
	env := &senv{x: x, st: st, old: st, vars: map[string]Val{}, qid: iv.name}
	return env.eval(iv.e).T()
}

// assumeInv asserts the invariant token and its unfolding
func (x *VC) assumeInv(iv *Inv, st *State, guard string) {
	t := x.invTerm(iv, st)
	x.unfoldInv(iv, st, t)
	x.assumeG(guard, t)
}

func (x *VC) unfoldInv(iv *Inv, st *State, t string) {
	if (iv.lazy || x.ct != nil && (x.ct.hide["*"] || x.ct.hide[iv.name])) && (x.ct == nil || !x.ct.use[iv.name] && !x.ct.use["*"]) {
		return
	}
	if !x.unfold[t] {
		x.unfold[t] = true
		x.assume(implies(t, x.invFormula(iv, st)))
	}
}

func (x *VC) obligeInv(iv *Inv, st *State, guard, where string) {
	t := x.invTerm(iv, st)
	x.items = append(x.items, Item{kind: 'O', guard: guard, cond: or(t, x.invFormula(iv, st)), name: where + "/inv " + iv.name, tags: iv.tags, assumeAfter: implies(guard, t)})
}
