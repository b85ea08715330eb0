package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *VC) instr(f *frame, in ssa.Instruction, st *State, g string) {
	if in.Pos().IsValid() {
		x.curPos = in.Pos()
	}
	set := func(v ssa.Value, r Val) {
		if r.Ty == nil {
			r.Ty = v.Type()
		}
		f.env[v] = r
	}
	switch c := in.(type) {
	case *ssa.Alloc:
		el := under(c.Type()).(*types.Pointer).Elem()
		r := x.newRef("new", st)
		switch under(el).(type) {
		case *types.Struct, *types.Array:
			x.zeroInit(r, el, st)
			x.zeroGhost(r, st)
		default:
			key := x.e.cellKey(c)
			h := x.get(st, key, wrapSort("cell", sortOf(el)))
			st.h[key] = x.nm("cell", sto(h, r, x.zeroOf(el)), wrapSort("cell", sortOf(el)))
		}
		set(c, Val{L: []string{r}, Ty: c.Type()})
	case *ssa.FieldAddr:
		b := x.val(f, c.X, st, g)
		ad := x.addrOf(b, c.X, st, g)
		if b.Addr == nil {
			x.safety(g, not(eq(b.T(), "0")), "nil", c.Pos())
		}
		stt := under(c.X.Type()).(*types.Pointer).Elem()
		fl := under(stt).(*types.Struct).Field(c.Field)
		n := *ad
		n.pre = ad.pre + "." + fl.Name()
		n.ty = fl.Type()
		set(c, Val{L: []string{x.ptrTerm(b)}, Ty: c.Type(), Addr: &n})
	case *ssa.Field:
		b := x.val(f, c.X, st, g)
		stt := under(c.X.Type()).(*types.Struct)
		k := 0
		for i := 0; i < c.Field; i++ {
			k += len(flat(stt.Field(i).Type()))
		}
		n := len(flat(stt.Field(c.Field).Type()))
		set(c, Val{L: b.L[k : k+n], Ty: c.Type()})
	case *ssa.IndexAddr:
		b := x.val(f, c.X, st, g)
		i := x.val(f, c.Index, st, g).T()
		switch t := under(c.X.Type()).(type) {
		case *types.Slice:
			s := b.T()
			x.safety(g, and("(<= 0 "+i+")", "(< "+i+" "+sLen(s)+")"), "index", c.Pos())
			rt, lo := x.rootOf(s)
			set(c, Val{L: []string{"1"}, Ty: c.Type(), Addr: &Addr{kind: "elem", pre: "E:" + typeKey(t.Elem()), a: sArr(rt), off: sOff(rt), b: add(lo, i), ty: t.Elem()}})
		case *types.Pointer:
			at := under(t.Elem()).(*types.Array)
			if _, ok := isNum(i); !ok {
				x.safety(g, and("(<= 0 "+i+")", "(< "+i+" "+num(at.Len())+")"), "index", c.Pos())
			}
			set(c, Val{L: []string{"1"}, Ty: c.Type(), Addr: &Addr{kind: "elem", pre: "E:" + typeKey(at.Elem()), a: b.T(), off: "0", b: i, ty: at.Elem()}})
		}
	case *ssa.Index:
		b := x.val(f, c.X, st, g)
		i := x.val(f, c.Index, st, g).T()
		if sortOf(c.X.Type()) == "Str" {
			x.safety(g, and("(<= 0 "+i+")", "(< "+i+" (strlen "+b.T()+"))"), "index", c.Pos())
			fn := x.uf("strat", "Int", "Str", "Int")
			set(c, Val{L: []string{app(fn, b.T(), i)}, Ty: c.Type()})
			return
		}
		set(c, x.freshVal("idx", c.Type(), st, g))
	case *ssa.Store:
		a := x.val(f, c.Addr, st, g)
		v := x.val(f, c.Val, st, g)
		ad := x.addrOf(a, c.Addr, st, g)
		if a.Addr == nil {
			if _, isAlloc := c.Addr.(*ssa.Alloc); !isAlloc {
				if _, isFV := c.Addr.(*ssa.FreeVar); !isFV {
					x.safety(g, not(eq(a.T(), "0")), "nil", c.Pos())
				}
			}
		}
		if ad.kind == "global" {
			x.oblige(g, "false", "globalwrite "+ad.pre, []string{"C06"}, c.Pos())
		}
		if ad.kind == "elem" && ad.pre == "E:string" {
			x.globalArrWrite(ad.a, g, c.Pos())
		}
		if len(v.L) == 0 && v.Fn != nil {
			v.L = []string{"1"}
		}
		x.store(ad, v, st, g)
	case *ssa.UnOp:
		b := x.val(f, c.X, st, g)
		switch c.Op {
		case token.MUL:
			if fn := x.staticFn(f, c); fn != nil {
				// a variable holding one known closure
				r := Val{L: []string{x.fresh("fnv", "Int")}, Ty: c.Type(), Fn: &FnVal{fn: fn}}
				x.assume("(< 0 " + r.L[0] + ")")
				var al *ssa.Alloc
				switch p := c.X.(type) {
				case *ssa.Alloc:
					al = p
				case *ssa.FreeVar:
					al, _ = x.e.resolveFree(p).(*ssa.Alloc)
				}
				if al != nil {
					if mc := x.e.cellClosure(al); mc != nil {
						r.Fn.binds = x.rebind(f, mc)
					}
				}
				set(c, r)
				return
			}
			ad := x.addrOf(b, c.X, st, g)
			if ad.kind == "global" {
				if gl, ok := c.X.(*ssa.Global); ok {
					x.globalFactsByName(x.globalName(gl))
				}
			}
			if b.Addr == nil {
				switch c.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
				default:
					x.safety(g, not(eq(b.T(), "0")), "nil", c.Pos())
				}
			}
			set(c, x.load(ad, st, g))
		case token.NOT:
			set(c, Val{L: []string{x.nm("t", not(b.T()), "Bool")}, Ty: c.Type()})
		case token.SUB:
			if sortOf(c.Type()) == "Int" {
				set(c, Val{L: []string{sub("0", b.T())}, Ty: c.Type()})
				return
			}
			fn := x.uf("fneg", "Flt", "Flt")
			set(c, Val{L: []string{app(fn, b.T())}, Ty: c.Type()})
		case token.XOR:
			if n, ok := isNum(b.T()); ok {
				set(c, Val{L: []string{num(int64(^n))}, Ty: c.Type()})
				return
			}
			if t, ok := c.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 && t.Info()&types.IsUnsigned == 0 {
				set(c, Val{L: []string{sub(num(-1), b.T())}, Ty: c.Type()})
				return
			}
			set(c, x.freshVal("x", c.Type(), st, g))
		default:
			x.note("unop %s", c.Op)
			set(c, x.freshVal("u", c.Type(), st, g))
		}
	case *ssa.BinOp:
		set(c, x.binop(f, c, st, g))
	case *ssa.Slice:
		b := x.val(f, c.X, st, g)
		lo, hi := "0", ""
		if c.Low != nil {
			lo = x.val(f, c.Low, st, g).T()
		}
		if c.High != nil {
			hi = x.val(f, c.High, st, g).T()
		}
		switch t := under(c.X.Type()).(type) {
		case *types.Slice:
			s := b.T()
			if hi == "" {
				hi = sLen(s)
			}
			x.safety(g, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+sCap(s)+")"), "slice", c.Pos())
			ns := mks(sArr(s), add(sOff(s), lo), sub(hi, lo), sub(sCap(s), lo))
			if rt, rlo := x.rootOf(s); ns != s {
				x.prov[ns] = prov{rt, add(rlo, lo)}
			}
			set(c, Val{L: []string{ns}, Ty: c.Type()})
		case *types.Pointer:
			at := under(t.Elem()).(*types.Array)
			n := num(at.Len())
			if hi == "" {
				hi = n
			}
			set(c, Val{L: []string{mks(b.T(), lo, sub(hi, lo), sub(n, lo))}, Ty: c.Type()})
		case *types.Basic:
			s := b.T()
			if hi == "" {
				hi = "(strlen " + s + ")"
			}
			x.safety(g, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (strlen "+s+"))"), "slice", c.Pos())
			r := x.nm("sub", "(ssub "+s+" "+lo+" "+hi+")", "Str")
			x.assumeG(and(g, "(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (strlen "+s+"))"), eq("(strlen "+r+")", sub(hi, lo)))
			set(c, Val{L: []string{r}, Ty: c.Type()})
		default:
			set(c, x.freshVal("sl", c.Type(), st, g))
		}
	case *ssa.MakeSlice:
		n := x.val(f, c.Len, st, g).T()
		cp := x.val(f, c.Cap, st, g).T()
		x.safety(g, and("(<= 0 "+n+")", "(<= "+n+" "+cp+")"), "makeslice", c.Pos())
		r := x.newRef("arr", st)
		x.zeroGhost(r, st)
		et := under(c.Type()).(*types.Slice).Elem()
		for _, lf := range flat(et) {
			s := sortOf(lf.ty)
			h := x.get(st, "E:"+typeKey(et)+lf.path, wrapSort("elem", s))
			a := x.atFn(s)
			x.assume(fmt.Sprintf("(forall ((o Int) (i Int)) (! (= (%s (select %s %s) o i) %s) :pattern ((%s (select %s %s) o i))))", a, h, r, x.zeroOf(lf.ty), a, h, r))
		}
		set(c, Val{L: []string{mks(r, "0", n, cp)}, Ty: c.Type()})
	case *ssa.MakeMap:
		r := x.newRef("map", st)
		ks := x.e.mapKeys(c.Type())
		md := x.get(st, ks[0], "")
		kk := splitArgs(splitArgs(x.compSort(ks[0]))[2])[1]
		st.h[ks[0]] = x.nm("md", sto(md, r, "((as const (Array "+kk+" Bool)) false)"), x.compSort(ks[0]))
		set(c, Val{L: []string{r}, Ty: c.Type()})
	case *ssa.MapUpdate:
		m := x.val(f, c.Map, st, g).T()
		k := x.val(f, c.Key, st, g)
		v := x.val(f, c.Value, st, g)
		x.safety(g, not(eq(m, "0")), "nilmap", c.Pos())
		ks := x.e.mapKeys(c.Map.Type())
		x.oblige(g, x.notGlobalRef(m), "globalwrite map", []string{"C06"}, c.Pos())
		md := x.get(st, ks[0], "")
		mv := x.get(st, ks[1], "")
		st.h[ks[0]] = x.nm("md", sto(md, m, sto(sel(md, m), k.T(), "true")), x.compSort(ks[0]))
		if len(v.L) == 1 {
			st.h[ks[1]] = x.nm("mv", sto(mv, m, sto(sel(mv, m), k.T(), v.T())), x.compSort(ks[1]))
		}
	case *ssa.Lookup:
		x.lookup(f, c, st, g, set)
	case *ssa.Extract:
		t := x.val(f, c.Tuple, st, g)
		if c.Index < len(t.Tup) {
			set(c, t.Tup[c.Index])
		} else {
			set(c, x.freshVal("ex", c.Type(), st, g))
		}
	case *ssa.MakeInterface:
		b := x.val(f, c.X, st, g)
		iv := x.makeIface(b, c.X.Type(), c.Type())
		iv.In, iv.InV = &b, c.X
		set(c, iv)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var X ssa.Value
		if ci, ok := c.(*ssa.ChangeInterface); ok {
			X = ci.X
		} else {
			X = c.(*ssa.ChangeType).X
		}
		b := x.val(f, X, st, g)
		b.Ty = in.(ssa.Value).Type()
		set(in.(ssa.Value), b)
	case *ssa.TypeAssert:
		b := x.val(f, c.X, st, g)
		is := x.isType(b.T(), c.AssertedType)
		var u Val
		if types.IsInterface(c.AssertedType) {
			is = not(eq(b.T(), "inil"))
			u = Val{L: b.L, Ty: c.AssertedType}
		} else if sortOf(c.AssertedType) == "" {
			u = x.freshVal("ta", c.AssertedType, st, g)
		} else {
			u = Val{L: []string{x.nm("ub", x.unbox(b.T(), c.AssertedType), sortOf(c.AssertedType))}, Ty: c.AssertedType}
			x.wf(u, st, and(g, is))
		}
		if c.CommaOk {
			ok := x.nm("ok", is, "Bool")
			for i, lf := range flat(c.AssertedType) {
				u.L[i] = x.nm("ta", ite(ok, u.L[i], x.zeroOf(lf.ty)), sortOf(lf.ty))
			}
			set(c, Val{Ty: c.Type(), Tup: []Val{u, {L: []string{ok}, Ty: types.Typ[types.Bool]}}})
			return
		}
		x.safety(g, is, "typeassert", c.Pos())
		set(c, u)
	case *ssa.MakeClosure:
		fn := c.Fn.(*ssa.Function)
		fv := &FnVal{fn: fn}
		for _, b := range c.Bindings {
			fv.binds = append(fv.binds, x.val(f, b, st, g))
		}
		r := x.newRef("clo", st)
		set(c, Val{L: []string{r}, Ty: c.Type(), Fn: fv})
	case *ssa.Convert:
		set(c, x.convert(f, c, st, g))
	case *ssa.Call:
		set(c, x.callInstr(f, c, st, g))
	case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Send, *ssa.Select:
		x.note("unsupported %T", in)
	default:
		x.note("unsupported %T", in)
		if v, ok := in.(ssa.Value); ok {
			set(v, x.freshVal("un", v.Type(), st, g))
		}
	}
}

func (x *VC) ptrTerm(b Val) string {
	if len(b.L) > 0 {
		return b.L[0]
	}
	return "1"
}

// rebind gives a closure loaded from a variable its captured environment, seen from frame f.
func (x *VC) rebind(f *frame, mc *ssa.MakeClosure) []Val {
	var out []Val
	for _, b := range mc.Bindings {
		if r, ok := f.env[b]; ok {
			out = append(out, r)
			continue
		}
		// inside the closure itself: find our free variable bound to the same value
		found := false
		for i, fv := range f.fn.FreeVars {
			if i < len(f.binds) {
				rv := x.e.resolveFree(fv)
				rb := b
				if bf, ok := b.(*ssa.FreeVar); ok {
					rb = x.e.resolveFree(bf)
				}
				if rv != nil && rv == rb {
					out = append(out, f.binds[i])
					found = true
					break
				}
			}
		}
		if !found {
			n := x.fresh("bind", "Int")
			out = append(out, Val{L: []string{n}, Ty: b.Type()})
		}
	}
	return out
}

func (x *VC) binop(f *frame, c *ssa.BinOp, st *State, g string) Val {
	a := x.val(f, c.X, st, g)
	b := x.val(f, c.Y, st, g)
	res := func(t, s string) Val { return Val{L: []string{x.nm("t", t, s)}, Ty: c.Type()} }
	srt := sortOf(c.X.Type())
	switch c.Op {
	case token.EQL, token.NEQ:
		var cs []string
		if srt == "Slice" {
			// comparison with nil
			s := a.T()
			if strings.HasPrefix(s, "(mks 0 0 0 0)") {
				s = b.T()
			}
			cs = []string{eq(sArr(s), "0")}
		} else if a.Fn != nil && b.T() == "0" {
			cs = []string{"false"}
		} else if srt == "Iface" {
			cs = []string{eq(a.T(), b.T())}
		} else if srt == "Flt" {
			cs = []string{app(x.uf("feq", "Bool", "Flt", "Flt"), a.T(), b.T())}
		} else {
			for i := range a.L {
				if i < len(b.L) {
					cs = append(cs, x.eqLit(a.L[i], b.L[i]))
				}
			}
		}
		r := and(cs...)
		if c.Op == token.NEQ {
			r = not(r)
		}
		return res(r, "Bool")
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[c.Op]
		if srt == "Int" {
			return res("("+op+" "+a.T()+" "+b.T()+")", "Bool")
		}
		if srt == "Flt" {
			// a>b is b<a, a>=b is b<=a
			switch c.Op {
			case token.LSS:
				return res(app(x.uf("flt", "Bool", "Flt", "Flt"), a.T(), b.T()), "Bool")
			case token.GTR:
				return res(app(x.uf("flt", "Bool", "Flt", "Flt"), b.T(), a.T()), "Bool")
			case token.LEQ:
				return res(app(x.uf("fle", "Bool", "Flt", "Flt"), a.T(), b.T()), "Bool")
			default:
				return res(app(x.uf("fle", "Bool", "Flt", "Flt"), b.T(), a.T()), "Bool")
			}
		}
		return x.freshVal("cmp", c.Type(), st, g)
	case token.ADD:
		switch srt {
		case "Int":
			return Val{L: []string{x.nm("t", add(a.T(), b.T()), "Int")}, Ty: c.Type()}
		case "Str":
			return Val{L: []string{x.concat(a.T(), b.T())}, Ty: c.Type()}
		}
	case token.SUB:
		if srt == "Int" {
			return Val{L: []string{x.nm("t", sub(a.T(), b.T()), "Int")}, Ty: c.Type()}
		}
	case token.MUL:
		if srt == "Int" {
			if _, ok := isNum(a.T()); ok {
				return res("(* "+a.T()+" "+b.T()+")", "Int")
			}
			if _, ok := isNum(b.T()); ok {
				return res("(* "+a.T()+" "+b.T()+")", "Int")
			}
			return res(app(x.uf("imul", "Int", "Int", "Int"), a.T(), b.T()), "Int")
		}
	case token.QUO, token.REM:
		if srt == "Int" {
			x.safety(g, not(eq(b.T(), "0")), "div", c.Pos())
			fn := "idiv"
			if c.Op == token.REM {
				fn = "irem"
			}
			return res(app(x.uf(fn, "Int", "Int", "Int"), a.T(), b.T()), "Int")
		}
	case token.AND, token.OR, token.AND_NOT, token.XOR, token.SHL, token.SHR:
		if srt == "Int" {
			return x.bitop(c, a.T(), b.T())
		}
	}
	if srt == "Flt" {
		fn := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[c.Op]
		if fn != "" {
			return res(app(x.uf(fn, "Flt", "Flt", "Flt"), a.T(), b.T()), "Flt")
		}
	}
	x.note("binop %s on %s", c.Op, srt)
	return x.freshVal("bo", c.Type(), st, g)
}

// bit operations with a small constant mask, through 3-bit decomposition (values 0..7); otherwise uninterpreted
func (x *VC) bitop(c *ssa.BinOp, a, b string) Val {
	op := c.Op
	m, ok1 := isNum(a)
	k, ok2 := isNum(b)
	if ok1 && ok2 {
		var r int
		switch op {
		case token.AND:
			r = m & k
		case token.OR:
			r = m | k
		case token.AND_NOT:
			r = m &^ k
		case token.XOR:
			r = m ^ k
		case token.SHL:
			r = m << uint(k)
		case token.SHR:
			r = m >> uint(k)
		}
		return Val{L: []string{num(int64(r))}, Ty: c.Type()}
	}
	name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.AND_NOT: "bandnot", token.XOR: "bxor", token.SHL: "bshl", token.SHR: "bshr"}[op]
	fn := x.uf(name, "Int", "Int", "Int")
	t := x.nm("bit", app(fn, a, b), "Int")
	// exact on small non-negative operands: table for 0..7
	if op == token.AND || op == token.OR || op == token.AND_NOT || op == token.XOR {
		for i := 0; i < 8; i++ {
			for j := -8; j < 8; j++ {
				if ok2 && j != k || ok1 && i != m {
					continue
				}
				var r int
				switch op {
				case token.AND:
					r = i & j
				case token.OR:
					r = i | j
				case token.AND_NOT:
					r = i &^ j
				case token.XOR:
					r = i ^ j
				}
				x.fact(implies(and(eq(a, num(int64(i))), eq(b, num(int64(j)))), eq(t, num(int64(r)))))
			}
		}
	}
	return Val{L: []string{t}, Ty: c.Type()}
}

func (x *VC) eqLit(a, b string) string {
	la, ok1 := x.litOf[a]
	lb, ok2 := x.litOf[b]
	if ok1 && ok2 {
		if la == lb {
			return "true"
		}
		return "false"
	}
	return eq(a, b)
}

func (x *VC) concat(a, b string) string {
	la, ok1 := x.litOf[a]
	lb, ok2 := x.litOf[b]
	if ok1 && ok2 {
		return x.lit(la + lb)
	}
	if ok1 && la == "" {
		return b
	}
	if ok2 && lb == "" {
		return a
	}
	return x.nm("cat", "(sconcat "+a+" "+b+")", "Str")
}

// ---- interfaces ----

func (x *VC) typeTag(t types.Type) string {
	f := x.uf("type:"+typeKey(t), "Int")
	if !x.boxes["tag"+f] {
		x.boxes["tag"+f] = true
		x.assume(eq("(typeid "+f+")", num(int64(hashStr(typeKey(t))))))
		x.assume("(< 0 " + f + ")")
	}
	return f
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h >> 1
}

func (x *VC) isType(i string, t types.Type) string {
	return eq("(itag "+i+")", x.typeTag(t))
}

func (x *VC) unbox(i string, t types.Type) string {
	s := sortOf(t)
	f := x.uf("unbox:"+typeKey(t), s, "Iface")
	return app(f, i)
}

func (x *VC) makeIface(b Val, from, to types.Type) Val {
	n := x.fresh("if", "Iface")
	x.assume(x.isType(n, from))
	if len(b.L) == 1 && sortOf(from) != "" {
		x.assume(eq(x.unbox(n, from), b.T()))
		// equal contents give equal interface values (comparable dynamic types)
		bx := x.uf("box:"+typeKey(from), "Iface", sortOf(from))
		x.assume(eq(n, app(bx, b.T())))
	}
	return Val{L: []string{n}, Ty: to}
}

func (x *VC) lookup(f *frame, c *ssa.Lookup, st *State, g string, set func(ssa.Value, Val)) {
	if m, ok := under(c.X.Type()).(*types.Map); ok {
		mt := x.val(f, c.X, st, g).T()
		k := x.val(f, c.Index, st, g)
		ks := x.e.mapKeys(m)
		md := x.get(st, ks[0], "")
		mv := x.get(st, ks[1], "")
		x.fact(fmt.Sprintf("(forall ((k %s)) (! (not (select (select %s 0) k)) :pattern ((select (select %s 0) k))))", sortOf(m.Key()), md, md))
		x.globalMapFacts(c.X, mt, md, mv, k.T())
		found := x.nm("has", sel(sel(md, mt), k.T()), "Bool")
		var v Val
		if sortOf(m.Elem()) == "" {
			v = x.freshVal("mval", m.Elem(), st, g)
		} else {
			v = Val{L: []string{x.nm("mval", ite(found, sel(sel(mv, mt), k.T()), x.zeroOf(m.Elem())), sortOf(m.Elem()))}, Ty: m.Elem()}
			x.wf(v, st, g)
		}
		if c.CommaOk {
			set(c, Val{Ty: c.Type(), Tup: []Val{v, {L: []string{found}, Ty: types.Typ[types.Bool]}}})
		} else {
			set(c, v)
		}
		return
	}
	// string index
	b := x.val(f, c.X, st, g)
	i := x.val(f, c.Index, st, g).T()
	x.safety(g, and("(<= 0 "+i+")", "(< "+i+" (strlen "+b.T()+"))"), "index", c.Pos())
	fn := x.uf("strat", "Int", "Str", "Int")
	set(c, Val{L: []string{app(fn, b.T(), i)}, Ty: c.Type()})
}

func (x *VC) convert(f *frame, c *ssa.Convert, st *State, g string) Val {
	b := x.val(f, c.X, st, g)
	fs, ts := sortOf(c.X.Type()), sortOf(c.Type())
	switch {
	case fs == "Int" && ts == "Int":
		return Val{L: b.L, Ty: c.Type()}
	case fs == "Flt" && ts == "Flt":
		return Val{L: b.L, Ty: c.Type()}
	case fs == "Int" && ts == "Flt":
		return Val{L: []string{x.nm("f", app(x.uf("i2f", "Flt", "Int"), b.T()), "Flt")}, Ty: c.Type()}
	case fs == "Flt" && ts == "Int":
		return Val{L: []string{x.nm("f", app(x.uf("f2i", "Int", "Flt"), b.T()), "Int")}, Ty: c.Type()}
	case fs == "Int" && ts == "Str":
		r := x.nm("rs", app(x.uf("rune2str", "Str", "Int"), b.T()), "Str")
		x.assume("(< 0 (strlen " + r + "))")
		return Val{L: []string{r}, Ty: c.Type()}
	case fs == "Str" && ts == "Str":
		return Val{L: b.L, Ty: c.Type()}
	case fs == "Str" && ts == "Slice":
		el := under(c.Type()).(*types.Slice).Elem()
		r := x.newRef("conv", st)
		x.zeroGhost(r, st)
		key := "E:" + typeKey(el)
		h := x.get(st, key, wrapSort("elem", "Int"))
		n := ""
		cont := ""
		if typeKey(el) == "rune" || typeKey(el) == "int32" {
			n = x.nm("nr", "(runelen "+b.T()+")", "Int")
			cont = app(x.uf("runesof", "(Array Int Int)", "Str"), b.T())
			if s, ok := x.litOf[b.T()]; ok {
				x.fact(eq("(runelen "+b.T()+")", num(int64(len([]rune(s))))))
				for i, r := range []rune(s) {
					x.fact(eq(x.at(cont, "0", num(int64(i)), "Int"), num(int64(r))))
				}
			}
		} else {
			n = x.nm("nb", "(strlen "+b.T()+")", "Int")
			cont = app(x.uf("bytesof", "(Array Int Int)", "Str"), b.T())
		}
		x.assume(eq(sel(h, r), cont))
		return Val{L: []string{mks(r, "0", n, n)}, Ty: c.Type()}
	case fs == "Slice" && ts == "Str":
		el := under(c.X.Type()).(*types.Slice).Elem()
		key := "E:" + typeKey(el)
		h := x.get(st, key, wrapSort("elem", "Int"))
		fn := x.uf("str_of_"+typeKey(el), "Str", "(Array Int Int)", "Int", "Int")
		s := b.T()
		r := x.nm("sb", app(fn, sel(h, sArr(s)), sOff(s), sLen(s)), "Str")
		if typeKey(el) == "byte" || typeKey(el) == "uint8" {
			x.assume(eq("(strlen "+r+")", sLen(s)))
		}
		return Val{L: []string{r}, Ty: c.Type()}
	}
	x.note("convert %s to %s", c.X.Type(), c.Type())
	return x.freshVal("cv", c.Type(), st, g)
}
