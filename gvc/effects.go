package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Static effect analysis: which heap components a function may write.

func (e *Engine) cellKey(a *ssa.Alloc) string {
	return "C:" + e.fnKey(a.Parent()) + ":" + a.Name()
}

// resolveFree finds the unique Alloc (or other value) a free variable is bound to.
func (e *Engine) resolveFree(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	var found ssa.Value
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				v := mc.Bindings[idx]
				if found != nil && found != v {
					return nil
				}
				found = v
			}
		}
	}
	if f2, ok := found.(*ssa.FreeVar); ok {
		return e.resolveFree(f2)
	}
	return found
}

func (e *Engine) ptrCellKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return e.cellKey(x)
	case *ssa.FreeVar:
		if a, ok := e.resolveFree(x).(*ssa.Alloc); ok {
			return e.cellKey(a)
		}
	}
	return "C?:" + typeKey(v.Type().Underlying().(*types.Pointer).Elem())
}

// addrKeys lists the components written by a store through address v.
func (e *Engine) addrKeys(v ssa.Value) []string {
	pt, ok := under(v.Type()).(*types.Pointer)
	if !ok {
		return nil
	}
	pre := e.addrPrefix(v)
	var out []string
	el := pt.Elem()
	if a, ok := under(el).(*types.Array); ok {
		el = a.Elem()
	}
	kind := "cell"
	switch {
	case len(pre) > 1 && pre[:2] == "E:":
		kind = "elem"
	case len(pre) > 1 && pre[:2] == "G:":
		kind = "global"
	}
	for _, l := range flat(el) {
		out = append(out, pre+l.path)
		e.keySort[pre+l.path] = wrapSort(kind, sortOf(l.ty))
	}
	return out
}

func (e *Engine) addrPrefix(v ssa.Value) string {
	pt := under(v.Type()).(*types.Pointer)
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := under(x.X.Type()).(*types.Pointer).Elem()
		f := under(st).(*types.Struct).Field(x.Field)
		return e.addrPrefix(x.X) + "." + f.Name()
	case *ssa.IndexAddr:
		switch t := under(x.X.Type()).(type) {
		case *types.Slice:
			return "E:" + typeKey(t.Elem())
		case *types.Pointer:
			return "E:" + typeKey(under(t.Elem()).(*types.Array).Elem())
		}
	case *ssa.Global:
		return "G:" + x.Name()
	}
	if _, ok := under(pt.Elem()).(*types.Struct); ok {
		return "F:" + typeKey(pt.Elem())
	}
	if a, ok := under(pt.Elem()).(*types.Array); ok {
		return "E:" + typeKey(a.Elem())
	}
	return e.ptrCellKey(v)
}

func (e *Engine) elemKeys(t types.Type) []string {
	var out []string
	for _, l := range flat(t) {
		out = append(out, "E:"+typeKey(t)+l.path)
		e.keySort["E:"+typeKey(t)+l.path] = wrapSort("elem", sortOf(l.ty))
	}
	return out
}

func (e *Engine) mapKeys(t types.Type) []string {
	m := under(t).(*types.Map)
	k := typeKey(m.Key()) + ":" + typeKey(m.Elem())
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	if vs == "" {
		vs = "Opq"
	}
	if ks == "" {
		ks = "Opq"
	}
	e.keySort["MD:"+k] = "(Array Int (Array " + ks + " Bool))"
	e.keySort["MV:"+k] = "(Array Int (Array " + ks + " " + vs + "))"
	return []string{"MD:" + k, "MV:" + k}
}

func (e *Engine) fnEffects(fn *ssa.Function) map[string]bool {
	if m, ok := e.effMemo[fn]; ok {
		return m
	}
	// fixpoint over reachable functions
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, out map[string]bool)
	visit = func(f *ssa.Function, out map[string]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		if c := e.contractFor(f); c != nil {
			for _, u := range c.updates {
				out["$"+u.ghost] = true
			}
			for _, g := range c.ghosts {
				out["$"+g] = true
			}
			for _, g := range c.modifies {
				out[g] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				e.instrEffects(in, out, func(g *ssa.Function) { visit(g, out) })
			}
		}
	}
	out := map[string]bool{}
	visit(fn, out)
	e.effMemo[fn] = out
	return out
}

func (e *Engine) instrEffects(in ssa.Instruction, out map[string]bool, call func(*ssa.Function)) {
	switch x := in.(type) {
	case *ssa.Store:
		for _, k := range e.addrKeys(x.Addr) {
			out[k] = true
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan:
		out["alloc"] = true
		if mc, ok := x.(*ssa.MakeClosure); ok {
			call(mc.Fn.(*ssa.Function))
		}
	case *ssa.MapUpdate:
		for _, k := range e.mapKeys(x.Map.Type()) {
			out[k] = true
		}
	case *ssa.Convert:
		if _, ok := under(x.Type()).(*types.Slice); ok {
			out["alloc"] = true
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				out["alloc"] = true
				for _, k := range e.elemKeys(under(c.Args[0].Type()).(*types.Slice).Elem()) {
					out[k] = true
				}
			case "copy", "clear":
				if s, ok := under(c.Args[0].Type()).(*types.Slice); ok {
					for _, k := range e.elemKeys(s.Elem()) {
						out[k] = true
					}
				}
			case "delete":
				for _, k := range e.mapKeys(c.Args[0].Type()) {
					out[k] = true
				}
			}
			return
		}
		for _, a := range c.Args {
			if f, ok := a.(*ssa.Function); ok {
				call(f)
			}
		}
		f := c.StaticCallee()
		if f != nil && e.inScope(f) {
			call(f)
			return
		}
		if f != nil && f.Blocks != nil && f.Synthetic != "" {
			call(f)
			return
		}
		// external or dynamic
		out["alloc"] = true
		if f == nil {
			for k := range e.dynEffects(c) {
				out[k] = true
			}
		} else {
			for _, k := range e.extEffects(f, c) {
				out[k] = true
			}
			for _, k := range e.externEffects(extName(f)) {
				out[k] = true
			}
		}
	}
}

// dynEffects: a dynamic call may be an Option applied to Options, or a user callback.
func (e *Engine) dynEffects(c *ssa.CallCommon) map[string]bool {
	out := map[string]bool{}
	if c.IsInvoke() {
		return out
	}
	for _, a := range c.Args {
		if p, ok := under(a.Type()).(*types.Pointer); ok && typeKey(p.Elem()) == "Options" {
			for _, l := range flat(p.Elem()) {
				out["F:Options"+l.path] = true
				e.keySort["F:Options"+l.path] = wrapSort("field", sortOf(l.ty))
			}
		}
	}
	for _, k := range e.externEffects("dyn:" + sigKey(c.Value.Type())) {
		out[k] = true
	}
	// a call through a captured function variable: closures are visited where they are made
	return out
}

func (e *Engine) extEffects(f *ssa.Function, c *ssa.CallCommon) []string {
	switch f.String() {
	case "encoding/json.Unmarshal":
		if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
			return e.addrKeys(mi.X)
		}
		return nil
	case "slices.SortFunc", "sort.Slice", "slices.Sort", "slices.Reverse", "slices.SortStableFunc":
	}
	var out []string
	if pkgOf(f) == "slices" || pkgOf(f) == "sort" {
		for _, a := range c.Args {
			if s, ok := under(a.Type()).(*types.Slice); ok {
				switch fnBase(f) {
				case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "Max", "Min", "Clone":
				default:
					out = append(out, e.elemKeys(s.Elem())...)
				}
			}
		}
	}
	return out
}

func (e *Engine) externEffects(name string) (out []string) {
	if ec := e.spec.externs[name]; ec != nil {
		for _, u := range ec.updates {
			out = append(out, "$"+u.ghost)
			e.keySort["$"+u.ghost] = e.spec.ghostBy[u.ghost].sort
		}
	}
	return
}
