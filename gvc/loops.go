package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cvar is a typed quantity an invariant template can be instantiated with.
type cvar struct {
	name string
	ty   types.Type
	phi  bool
	wide bool // not used in the loop: only for templates that ask for any value
	get  func(st *State, phis map[*ssa.Phi]Val) Val
}

func (x *VC) loopMods(f *frame, l *loopInfo) []string {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	for b := range l.body {
		for _, in := range b.Instrs {
			x.e.instrEffects(in, out, func(g *ssa.Function) {
				if seen[g] {
					return
				}
				seen[g] = true
				for k := range x.e.fnEffects(g) {
					out[k] = true
				}
			})
			// calls of function values known statically
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil {
				for _, g := range x.dynTargets(f, c.Common()) {
					for k := range x.e.fnEffects(g) {
						out[k] = true
					}
				}
			}
			// function values passed on
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, a := range c.Common().Args {
					if v, ok := f.env[a]; ok && v.Fn != nil {
						for k := range x.e.fnEffects(v.Fn.fn) {
							out[k] = true
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *VC) dynTargets(f *frame, c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	if v, ok := f.env[c.Value]; ok && v.Fn != nil {
		return []*ssa.Function{v.Fn.fn}
	}
	if fv := x.staticFn(f, c.Value); fv != nil {
		return []*ssa.Function{fv}
	}
	return nil
}

// staticFn resolves a function value loaded from a variable that is assigned exactly one closure.
func (x *VC) staticFn(f *frame, v ssa.Value) *ssa.Function {
	switch c := v.(type) {
	case *ssa.Function:
		return c
	case *ssa.MakeClosure:
		return c.Fn.(*ssa.Function)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == c && i < len(f.binds) && f.binds[i].Fn != nil {
				return f.binds[i].Fn.fn
			}
		}
	case *ssa.UnOp:
		var al *ssa.Alloc
		switch p := c.X.(type) {
		case *ssa.Alloc:
			al = p
		case *ssa.FreeVar:
			al, _ = x.e.resolveFree(p).(*ssa.Alloc)
		}
		if al == nil {
			return nil
		}
		if mc := x.e.cellClosure(al); mc != nil {
			return mc.Fn.(*ssa.Function)
		}
	}
	return nil
}

// cellClosure: the unique closure ever stored in a captured variable, if so.
func (e *Engine) cellClosure(al *ssa.Alloc) *ssa.MakeClosure {
	if mc, ok := e.cellFns[al]; ok {
		return mc
	}
	var found *ssa.MakeClosure
	n := 0
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var tgt ssa.Value = s.Addr
				if fv, ok := tgt.(*ssa.FreeVar); ok {
					tgt = e.resolveFree(fv)
				}
				if tgt == al {
					n++
					found, _ = s.Val.(*ssa.MakeClosure)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	scan(al.Parent())
	if n != 1 {
		found = nil
	}
	e.cellFns[al] = found
	return found
}

func (x *VC) enterLoop(f *frame, l *loopInfo, es []edge) (*State, string) {
	b := l.header
	var gs []string
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	ge := gs[0]
	if len(gs) > 1 {
		ge = x.fresh("g", "Bool")
		x.assume(eq(ge, or(gs...)))
	}
	se := x.mergeStates(es)
	lc := &loopCtx{entry: se.clone()}
	f.loops[b] = lc
	entryPhi := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phis = append(lc.phis, p)
		var vs []Val
		var pgs []string
		for _, e := range es {
			for j, pr := range b.Preds {
				if pr == e.from {
					vs = append(vs, x.val(f, p.Edges[j], e.st, e.guard))
					pgs = append(pgs, e.guard)
					break
				}
			}
		}
		entryPhi[p] = x.mergeVals(vs, pgs, nameOf(p)+"_in")
	}
	mods := x.loopMods(f, l)
	// make sure pre-versions of modified components exist
	for _, k := range mods {
		x.get(se, k, "")
		lc.entry.h[k] = se.h[k]
	}
	x.alloc(se)
	lc.entry.h["alloc"] = se.h["alloc"]

	cv := x.loopVars(f, l, lc)
	lc.cands = x.instCands(f, l, lc, cv, mods, entryPhi)

	loopName := fmt.Sprintf("%s.loop%d", x.e.fnKey(f.fn), b.Index)
	for _, c := range lc.cands {
		x.items = append(x.items, Item{kind: 'K', guard: ge, cond: c.chk(se, entryPhi), cand: c.id, name: loopName + "/entry"})
	}
	sh := se.clone()
	for _, k := range mods {
		if k == "alloc" {
			continue
		}
		sh.h[k] = x.fresh(shortKey(k), x.compSort(k))
		x.wfComp(sh.h[k], x.compSort(k))
	}
	allocs := false
	for _, k := range mods {
		allocs = allocs || k == "alloc"
	}
	if allocs {
		na := x.fresh("alloc", "Int")
		x.assume("(<= " + se.h["alloc"] + " " + na + ")")
		sh.h["alloc"] = na
	}
	lc.head = sh.clone()
	lc.mods = map[string]bool{}
	for _, k := range mods {
		lc.mods[k] = true
	}
	gh := x.fresh("loop", "Bool")
	x.assume(implies(gh, ge))
	hv := map[*ssa.Phi]Val{}
	for _, p := range lc.phis {
		v := x.freshVal(nameOf(p), p.Type(), sh, gh)
		v.Fn = entryPhi[p].Fn
		hv[p] = v
		f.env[p] = v
	}
	x.assumeFramed(sh, gh)
	for iv := range x.framedT {
		if t := x.transTerm(iv, x.entry, sh); t != "true" {
			x.assumeG(gh, t)
		}
	}
	for _, c := range lc.cands {
		x.items = append(x.items, Item{kind: 'A', text: implies(gh, c.eval(sh, hv)), cand: c.id, name: loopName})
	}
	return sh, gh
}

func (x *VC) backEdge(f *frame, from, to *ssa.BasicBlock, g string, st *State) {
	lc := f.loops[to]
	for k, v := range st.h {
		h, ok := lc.head.h[k]
		if !ok {
			h = sym(k + "@0")
		}
		if v != h && !lc.mods[k] {
			panic("loop modifies " + k + " beyond its computed effects")
		}
	}
	pv := map[*ssa.Phi]Val{}
	idx := -1
	for j, pr := range to.Preds {
		if pr == from {
			idx = j
		}
	}
	for _, p := range lc.phis {
		pv[p] = x.val(f, p.Edges[idx], st, g)
	}
	loopName := fmt.Sprintf("%s.loop%d", x.e.fnKey(f.fn), to.Index)
	for _, c := range lc.cands {
		x.items = append(x.items, Item{kind: 'K', guard: g, cond: c.chk(st, pv), cand: c.id, name: loopName + "/step"})
	}
}

func (x *VC) loopVars(f *frame, l *loopInfo, lc *loopCtx) []cvar {
	var out []cvar
	seen := map[string]bool{}
	addv := func(c cvar) {
		if seen[c.name] {
			return
		}
		seen[c.name] = true
		out = append(out, c)
	}
	for _, p := range lc.phis {
		p := p
		addv(cvar{name: "phi:" + p.Name(), ty: p.Type(), phi: true, get: func(st *State, ph map[*ssa.Phi]Val) Val { return ph[p] }})
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	var vals []ssa.Value
	for b := range l.body {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					vals = append(vals, *op)
				}
			}
		}
	}
	for _, p := range f.fn.Params {
		vals = append(vals, p)
	}
	used := map[ssa.Value]bool{}
	for _, v := range vals {
		used[v] = true
	}
	for v := range f.env {
		if in, ok := v.(ssa.Instruction); ok && !used[v] && in.Block() != nil && in.Block().Dominates(l.header) {
			if _, isAl := v.(*ssa.Alloc); !isAl {
				vals = append(vals, v)
			}
		}
	}
	sort.SliceStable(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		v := v
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			continue
		}
		if inLoop(v) {
			continue
		}
		if al, ok := v.(*ssa.Alloc); ok {
			if _, isStruct := under(under(al.Type()).(*types.Pointer).Elem()).(*types.Struct); !isStruct {
				if _, isArr := under(under(al.Type()).(*types.Pointer).Elem()).(*types.Array); isArr {
					continue
				}
				if av, ok := f.env[al]; ok {
					el := under(al.Type()).(*types.Pointer).Elem()
					ad := &Addr{kind: "cell", pre: x.e.cellKey(al), a: av.T(), ty: el}
					addv(cvar{name: "cell:" + al.Name(), ty: el, phi: true, get: func(st *State, ph map[*ssa.Phi]Val) Val { return x.load(ad, st, "true") }})
				}
				continue
			}
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			if pt, ok := under(fv.Type()).(*types.Pointer); ok {
				if al, ok := x.e.resolveFree(fv).(*ssa.Alloc); ok {
					if _, isStruct := under(pt.Elem()).(*types.Struct); !isStruct || al.Comment != "complit" {
						bv := x.val(f, fv, nil, "true")
						if !isStruct && len(bv.L) == 1 {
							ad := &Addr{kind: "cell", pre: x.e.cellKey(al), a: bv.T(), ty: pt.Elem()}
							addv(cvar{name: "cell:" + fv.Name(), ty: pt.Elem(), phi: true, get: func(st *State, ph map[*ssa.Phi]Val) Val { return x.load(ad, st, "true") }})
						}
						continue
					}
				}
			}
		}
		r, ok := f.env[v]
		if !ok {
			if fv, ok2 := v.(*ssa.FreeVar); ok2 {
				r = x.val(f, fv, nil, "true")
			} else {
				continue
			}
		}
		if len(r.L) != 1 || r.Addr != nil {
			continue
		}
		addv(cvar{name: "val:" + v.Name(), ty: v.Type(), wide: !used[v], get: func(st *State, ph map[*ssa.Phi]Val) Val { return r }})
	}
	return out
}

func (x *VC) instCands(f *frame, l *loopInfo, lc *loopCtx, cv []cvar, mods []string, entryPhi map[*ssa.Phi]Val) []*candInst {
	var out []*candInst
	seen := map[string]bool{}
	addc := func(name string, ev func(st *State, ph map[*ssa.Phi]Val) string) {
		k := name
		if seen[k] {
			return
		}
		seen[k] = true
		id := x.ncand
		x.ncand++
		x.candNm = append(x.candNm, fmt.Sprintf("%s.loop%d: %s", x.e.fnKey(f.fn), l.header.Index, name))
		out = append(out, &candInst{id: id, eval: ev})
	}
	modset := map[string]bool{}
	for _, k := range mods {
		modset[k] = true
	}
	fe := x.entry
	// integers
	var ints, slcs, ptrs []cvar
	for _, c := range cv {
		if c.wide {
			continue
		}
		switch under(c.ty).(type) {
		case *types.Basic:
			if sortOf(c.ty) == "Int" {
				ints = append(ints, c)
			}
		case *types.Slice:
			slcs = append(slcs, c)
		case *types.Pointer:
			ptrs = append(ptrs, c)
		}
	}
	for _, c := range ints {
		c := c
		if !c.phi {
			continue
		}
		addc(c.name+">=-1", func(st *State, ph map[*ssa.Phi]Val) string { return "(<= (- 1) " + c.get(st, ph).T() + ")" })
		addc(c.name+">=0", func(st *State, ph map[*ssa.Phi]Val) string { return "(<= 0 " + c.get(st, ph).T() + ")" })
		for _, s := range slcs {
			s := s
			addc(c.name+"<len "+s.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(< " + c.get(st, ph).T() + " " + sLen(s.get(st, ph).T()) + ")"
			})
			addc(c.name+"<=len "+s.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(<= " + c.get(st, ph).T() + " " + sLen(s.get(st, ph).T()) + ")"
			})
			addc(c.name+"==len "+s.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(= " + c.get(st, ph).T() + " " + sLen(s.get(st, ph).T()) + ")"
			})
		}
		for _, d := range ints {
			d := d
			if d.name == c.name {
				continue
			}
			addc(c.name+"<="+d.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(<= " + c.get(st, ph).T() + " " + d.get(st, ph).T() + ")"
			})
			addc(c.name+">"+d.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(> " + c.get(st, ph).T() + " " + d.get(st, ph).T() + ")"
			})
			addc(c.name+"<"+d.name, func(st *State, ph map[*ssa.Phi]Val) string {
				return "(< " + c.get(st, ph).T() + " " + d.get(st, ph).T() + ")"
			})
		}
	}
	for _, c := range ptrs {
		c := c
		if c.phi {
			addc(c.name+"!=nil", func(st *State, ph map[*ssa.Phi]Val) string { return not(eq(c.get(st, ph).T(), "0")) })
		}
	}
	for _, c := range slcs {
		c := c
		if c.phi {
			addc(c.name+" fresh", func(st *State, ph map[*ssa.Phi]Val) string {
				s := c.get(st, ph).T()
				return or(eq(sCap(s), "0"), "(<= "+x.alloc(fe)+" "+sArr(s)+")")
			})
			addc(c.name+" nonempty", func(st *State, ph map[*ssa.Phi]Val) string {
				return "(< 0 " + sLen(c.get(st, ph).T()) + ")"
			})
		}
	}
	// frames
	la := lc.entry.h["alloc"]
	for _, k := range mods {
		k := k
		if k == "alloc" || strings.HasPrefix(k, "$") || strings.HasPrefix(k, "G:") {
			continue
		}
		if x.ct.hide["*"] && !x.e.isStable(k) && !(strings.HasPrefix(k, "C:") && x.cellVisible(k)) {
			continue // such functions rely on the contracts of the functions they call
		}
		h0 := lc.entry.h[k]
		for _, lim := range []string{la, x.alloc(fe)} {
			lim := lim
			addc("frame "+k+" below "+lim, func(st *State, ph map[*ssa.Phi]Val) string {
				h := x.get(st, k, "")
				return fmt.Sprintf("(forall ((q Int)) (! (=> (< q %s) (= (select %s q) (select %s q))) :pattern ((select %s q))))", lim, h, h0, h)
			})
		}
	}
	// global invariants
	for _, iv := range x.e.spec.invs {
		iv := iv
		hit := false
		for _, k := range x.invComps(iv) {
			if modset[k] {
				hit = true
			}
		}
		if hit && !x.framed[iv] {
			addc("inv "+iv.name, func(st *State, ph map[*ssa.Phi]Val) string {
				t := x.invTerm(iv, st)
				x.unfoldInv(iv, st, t)
				return t
			})
			out[len(out)-1].check = func(st *State, ph map[*ssa.Phi]Val) string {
				return or(x.invTerm(iv, st), x.invFormula(iv, st))
			}
		}
	}
	for _, iv := range x.e.spec.trans {
		iv := iv
		hit := false
		for _, k := range x.invComps(iv) {
			if modset[k] {
				hit = true
			}
		}
		if hit {
			for i, base := range []*State{lc.entry, x.entry} {
				if i == 1 && x.framedT[iv] {
					continue
				}
				base := base
				addc(fmt.Sprintf("trans %s %d", iv.name, i), func(st *State, ph map[*ssa.Phi]Val) string {
					return x.transTerm(iv, base, st)
				})
			}
		}
	}
	// templates
	all := append([]*Cand{}, x.e.spec.cands...)
	if c := x.e.spec.contracts[x.key]; c != nil {
		all = append(all, c.cands...)
	}
	if c := x.e.contractFor(f.fn); c != nil && f.fn != x.fn {
		all = append(all, c.cands...)
	}
	for _, t := range all {
		t := t
		if len(t.tags) > 0 && !x.wantTags(t.tags) {
			continue
		}
		var rec func(i int, cur []cvar)
		count := 0
		rec = func(i int, cur []cvar) {
			if i == len(t.vars) {
				count++
				if count > 80 {
					return
				}
				cs := append([]cvar{}, cur...)
				nm := t.name
				for _, c := range cs {
					nm += " " + c.name
				}
				addc("T:"+nm, func(st *State, ph map[*ssa.Phi]Val) string {
					env := &senv{x: x, st: st, old: x.entry, pre: lc.entry, vars: map[string]Val{}, cells: x.cells}
					for n, v := range x.params {
						env.vars[n] = v
					}
					for j, c := range cs {
						env.vars[t.vars[j].name] = c.get(st, ph)
					}
					return env.eval(t.e).T()
				})
				return
			}
			want := t.vars[i].ty
			phiOnly := strings.HasPrefix(want, "phi")
			anyVal := strings.HasPrefix(want, "any")
			want = strings.TrimPrefix(strings.TrimPrefix(want, "phi"), "any")
			for _, c := range cv {
				if typeKey(c.ty) != want || phiOnly && !c.phi || c.wide && !anyVal {
					continue
				}
				dup := false
				for _, d := range cur {
					if d.name == c.name {
						dup = true
					}
				}
				if dup {
					continue
				}
				rec(i+1, append(cur, c))
			}
		}
		rec(0, nil)
	}
	return out
}

func (x *VC) wantTags(tags []string) bool {
	for _, t := range tags {
		if x.e.prop[t] || t == "*" {
			return true
		}
	}
	return false
}
