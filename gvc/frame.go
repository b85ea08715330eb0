package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame rule. A function that writes no component of an invariant itself (its callees under
// contract preserve the invariant) preserves it; the invariant is then not re-proved at every
// call, merge and loop of that function. Element writes (appending to a list of nodes) are
// allowed if the array written is shown to have no owner: see ownedWrite and frameLemmas.

// directEffects: components written by fn or by functions inlined into it
func (e *Engine) directEffects(fn *ssa.Function) map[string]bool {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				e.instrEffects(in, out, func(g *ssa.Function) {
					if e.contractFor(g) == nil {
						visit(g)
					}
				})
			}
		}
	}
	visit(fn)
	if c := e.contractFor(fn); c != nil {
		for _, u := range c.updates {
			out["$"+u.ghost] = true
		}
		for _, g := range c.ghosts {
			out["$"+g] = true
		}
		for _, g := range c.modifies {
			out[g] = true
		}
	}
	return out
}

func (x *VC) setupFrames() {
	x.framed, x.framedT = map[*Inv]bool{}, map[*Inv]bool{}
	x.direct = x.e.directEffects(x.fn)
	ok := func(iv *Inv) bool {
		for _, k := range x.invComps(iv) {
			if k == "alloc" || !x.direct[k] {
				continue
			}
			if strings.HasPrefix(k, "E:") && x.e.spec.owned[k[2:]] != nil {
				continue
			}
			return false
		}
		return true
	}
	for _, iv := range x.e.spec.invs {
		if !(x.ct.noinv[iv.name] || x.ct.noinv["*"]) && ok(iv) {
			x.framed[iv] = true
		}
	}
	for _, iv := range x.e.spec.trans {
		if !(x.ct.noinv[iv.name] || x.ct.noinv["*"]) && ok(iv) {
			x.framedT[iv] = true
		}
	}
}

// ownedWrite: an element of array arr is written
func (x *VC) ownedWrite(key, arr, g string, st *State) {
	if !strings.HasPrefix(key, "E:") || x.fn == nil {
		return
	}
	gs := x.e.spec.owned[key[2:]]
	if gs == nil {
		return
	}
	has := func(iv *Inv) bool {
		for _, k := range x.invComps(iv) {
			if k == key {
				return true
			}
		}
		return false
	}
	tags := map[string]bool{}
	for iv := range x.framed {
		if has(iv) {
			for _, t := range iv.tags {
				tags[t] = true
			}
		}
	}
	if x.e.spec.elsewhere(tags) {
		delete(tags, x.e.spec.prop)
	}
	if len(tags) > 0 {
		var cs []string
		for _, gh := range gs {
			cs = append(cs, eq(sel(x.get(st, "$"+gh, x.e.spec.ghostBy[gh].sort), arr), "0"))
		}
		x.oblige(g, and(cs...), "frame/list "+key[2:]+" has no owner", sortedKeys(tags), 0)
	}
	tags = map[string]bool{}
	for iv := range x.framedT {
		if has(iv) {
			for _, t := range iv.tags {
				tags[t] = true
			}
		}
	}
	if len(tags) > 0 {
		// new since entry, or owned at entry: a trans clause is about lists nobody owns
		cs := []string{"(<= " + x.alloc(x.entry) + " " + arr + ")"}
		for _, gh := range gs {
			cs = append(cs, not(eq(sel(x.get(x.entry, "$"+gh, x.e.spec.ghostBy[gh].sort), arr), "0")))
		}
		x.oblige(g, or(cs...), "frame/list "+key[2:]+" is local or owned", sortedKeys(tags), 0)
	}
}

// assumeFramed makes the framed invariants that are not hidden available in a state
func (x *VC) assumeFramed(st *State, g string) {
	for _, iv := range x.e.spec.invs {
		if !x.framed[iv] {
			continue
		}
		if (iv.lazy || x.ct.hide["*"] || x.ct.hide[iv.name]) && !x.ct.use[iv.name] && !x.ct.use["*"] {
			continue
		}
		t := x.invTerm(iv, st)
		if x.facts["inv|true|"+t] || x.facts["inv|"+g+"|"+t] {
			continue
		}
		x.facts["inv|"+g+"|"+t] = true
		x.assumeInv(iv, st, g)
	}
}

// cellVisible: captured variables of functions that are not being executed are of no concern
func (x *VC) cellVisible(k string) bool {
	if !strings.HasPrefix(k, "C:") {
		return true
	}
	own := k[2:strings.LastIndex(k, ":")]
	for p := x.fn; p != nil; p = p.Parent() {
		if x.e.fnKey(p) == own {
			return true
		}
	}
	for _, s := range x.stack {
		for p := s; p != nil; p = p.Parent() {
			if x.e.fnKey(p) == own {
				return true
			}
		}
	}
	return false
}
