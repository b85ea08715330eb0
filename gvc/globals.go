package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Package-level tables: constants once init has run (any later write is an obligation).

type GlobalInfo struct {
	name    string
	ty      types.Type
	mutable bool // stored to outside init
	kind    string
	pattern string
	strs    []string
	mapStr  map[string]string
	mapBool map[string]bool
	args    []string // NewReplacer arguments
	num     int
	intVal  *int64
	nonNil  bool
}

func (e *Engine) scanGlobals() {
	e.globals = map[string]*GlobalInfo{}
	k := 0
	for _, p := range e.pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok || n == "init$guard" {
				continue
			}
			nm := n
			if p != e.main {
				nm = p.Pkg.Name() + "." + n
			}
			k++
			e.globals[nm] = &GlobalInfo{name: nm, ty: under(g.Type()).(*types.Pointer).Elem(), num: k}
		}
	}
	gname := func(g *ssa.Global) string {
		if g.Pkg == e.main {
			return g.Name()
		}
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	for _, p := range e.pkgs {
		init := p.Func("init")
		for _, fn := range e.allFns() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && fn != init {
							if gi := e.globals[gname(g)]; gi != nil && fn.Name() != "init" {
								gi.mutable = true
							}
						}
					}
				}
			}
		}
		if init == nil {
			continue
		}
		maps := map[ssa.Value]*GlobalInfo{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					g, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					gi := e.globals[gname(g)]
					if gi == nil {
						continue
					}
					switch v := s.Val.(type) {
					case *ssa.Call:
						f := v.Common().StaticCallee()
						if f == nil {
							continue
						}
						switch f.String() {
						case "regexp.MustCompile":
							if c, ok := v.Common().Args[0].(*ssa.Const); ok {
								gi.kind = "regexp"
								gi.pattern = constant.StringVal(c.Value)
								gi.nonNil = true
							}
						case "strings.NewReplacer":
							if ss, ok := sliceLits(v.Common().Args[0]); ok {
								gi.kind = "replacer"
								gi.args = ss
								gi.nonNil = true
							}
						}
					case *ssa.Slice:
						if ss, ok := sliceLits(v); ok {
							gi.kind = "strs"
							gi.strs = ss
						}
					case *ssa.MakeMap:
						maps[v] = gi
						gi.kind = "map"
						gi.mapStr = map[string]string{}
						gi.mapBool = map[string]bool{}
					case *ssa.Const:
						if v.Value != nil && v.Value.Kind() == constant.Int {
							i, _ := constant.Int64Val(v.Value)
							gi.kind = "int"
							gi.intVal = &i
						}
					}
				case *ssa.MapUpdate:
					// the store to the global may follow the updates
				}
			}
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok {
					gi := maps[u.Map]
					kc, ok1 := u.Key.(*ssa.Const)
					vc, ok2 := u.Value.(*ssa.Const)
					if gi == nil {
						continue
					}
					if !ok1 || !ok2 || kc.Value.Kind() != constant.String {
						gi.kind = ""
						continue
					}
					switch vc.Value.Kind() {
					case constant.String:
						gi.mapStr[constant.StringVal(kc.Value)] = constant.StringVal(vc.Value)
					case constant.Bool:
						gi.mapBool[constant.StringVal(kc.Value)] = constant.BoolVal(vc.Value)
					}
				}
			}
		}
	}
}

// sliceLits recognises a slice literal of string constants
func sliceLits(v ssa.Value) ([]string, bool) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := under(under(al.Type()).(*types.Pointer).Elem()).(*types.Array)
	if !ok || sortOf(at.Elem()) != "Str" {
		return nil, false
	}
	out := make([]string, at.Len())
	cnt := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				i, _ := constant.Int64Val(ic.Value)
				out[i] = constant.StringVal(c.Value)
				cnt++
			}
		}
	}
	return out, cnt == len(out)
}

func (e *Engine) allFns() []*ssa.Function {
	var out []*ssa.Function
	var addf func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	addf = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			addf(a)
		}
	}
	for _, p := range e.pkgs {
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				addf(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := e.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							addf(f)
						}
					}
				}
			}
		}
	}
	return out
}

func (x *VC) globalFactsByName(n string) {
	if gi, ok := x.e.globals[n]; ok {
		x.globalFacts(gi)
	}
}

func (x *VC) globalRef(gi *GlobalInfo) string {
	c := x.uf("gref:"+gi.name, "Int")
	if !x.facts["gref"+c] {
		x.facts["gref"+c] = true
		x.assume(eq(c, num(int64(gi.num))))
	}
	return c
}

// globalFacts: what init established for a package-level table that nothing writes afterwards
func (x *VC) globalFacts(gi *GlobalInfo) {
	if gi.mutable || x.facts["gf:"+gi.name] {
		return
	}
	x.facts["gf:"+gi.name] = true
	ref := x.globalRef(gi)
	switch gi.kind {
	case "regexp", "replacer":
		h := x.get(x.entry, "G:"+gi.name, "Int")
		x.assume(eq(h, ref))
	case "map":
		h := x.get(x.entry, "G:"+gi.name, "Int")
		x.assume(eq(h, ref))
	case "strs":
		h := x.get(x.entry, "G:"+gi.name, "Slice")
		n := num(int64(len(gi.strs)))
		x.assume(eq(h, mks(ref, "0", n, n)))
		E := x.get(x.entry, "E:string", wrapSort("elem", "Str"))
		for i, s := range gi.strs {
			x.assume(eq(x.at(sel(E, ref), "0", num(int64(i)), "Str"), x.lit(s)))
		}
		if len(gi.strs) > 0 { // and nothing else
			at := x.at(sel(E, ref), "0", "i?", "Str")
			var alts []string
			for i := range gi.strs {
				alts = append(alts, eq("i?", num(int64(i))))
			}
			x.assume(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) %s) :pattern (%s)))", n, or(alts...), at))
		}
	case "int":
		if gi.intVal != nil {
			h := x.get(x.entry, "G:"+gi.name, "Int")
			x.assume(eq(h, num(*gi.intVal)))
		}
	}
}

// strsOf: the constant contents of a slice term that is a package-level table
func (x *VC) strsOf(term string) (*GlobalInfo, bool) {
	for n, gi := range x.e.globals {
		if !gi.mutable && gi.kind == "strs" && term == sym("G:"+n+"@0") {
			return gi, true
		}
	}
	return nil, false
}

func (x *VC) globalOf(term string) *GlobalInfo {
	for n, gi := range x.e.globals {
		if !gi.mutable && term == sym("G:"+n+"@0") {
			return gi
		}
	}
	return nil
}

func (x *VC) notGlobalRef(r string) string {
	return "(< " + num(int64(len(x.e.globals))) + " " + r + ")"
}

func (x *VC) globalArrWrite(arr, g string, pos token.Pos) {
	x.oblige(g, x.notGlobalRef(arr), "globalwrite array", []string{"C06"}, pos)
}

func (x *VC) globalMapFacts(v ssa.Value, mt, md, mv, key string) {
	gi := x.globalOf(mt)
	if gi == nil || gi.kind != "map" {
		return
	}
	x.globalFacts(gi)
	if s, ok := x.litOf[key]; ok {
		if w, ok := gi.mapStr[s]; ok {
			x.fact(and(sel(sel(md, mt), key), eq(sel(sel(mv, mt), key), x.lit(w))))
			return
		}
		if w, ok := gi.mapBool[s]; ok {
			x.fact(and(sel(sel(md, mt), key), eq(sel(sel(mv, mt), key), fmt.Sprint(w))))
			return
		}
		x.fact(not(sel(sel(md, mt), key)))
		return
	}
	for _, k := range []string{"display", "visibility"} { // the styles that decide visibility
		if w, ok := gi.mapStr[k]; ok {
			x.fact(implies(eq(key, x.lit(k)), and(sel(sel(md, mt), key), eq(sel(sel(mv, mt), key), x.lit(w)))))
		}
	}
	if len(gi.mapBool) > 0 && len(gi.mapBool) <= 40 {
		var ds []string
		for _, k := range sortedKeys(gi.mapBool) {
			ds = append(ds, eq(key, x.lit(k)))
		}
		x.fact(eq(sel(sel(md, mt), key), or(ds...)))
	}
}

func reGroups(p string) (int, bool) {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return 0, false
	}
	return re.MaxCap(), true
}

// finite language of a regexp (at most max words)
func reLang(p string, max int) ([]string, bool) {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, false
	}
	re = re.Simplify()
	var gen func(r *syntax.Regexp) ([]string, bool)
	gen = func(r *syntax.Regexp) ([]string, bool) {
		switch r.Op {
		case syntax.OpEmptyMatch:
			return []string{""}, true
		case syntax.OpLiteral:
			if r.Flags&syntax.FoldCase != 0 {
				return nil, false
			}
			return []string{string(r.Rune)}, true
		case syntax.OpCharClass:
			var out []string
			for i := 0; i+1 < len(r.Rune); i += 2 {
				for c := r.Rune[i]; c <= r.Rune[i+1]; c++ {
					out = append(out, string(c))
					if len(out) > max {
						return nil, false
					}
				}
			}
			return out, true
		case syntax.OpCapture:
			return gen(r.Sub[0])
		case syntax.OpQuest:
			l, ok := gen(r.Sub[0])
			return append(l, ""), ok
		case syntax.OpConcat:
			out := []string{""}
			for _, s := range r.Sub {
				l, ok := gen(s)
				if !ok {
					return nil, false
				}
				var n []string
				for _, a := range out {
					for _, b := range l {
						n = append(n, a+b)
					}
				}
				if len(n) > max {
					return nil, false
				}
				out = n
			}
			return out, true
		case syntax.OpAlternate:
			var out []string
			for _, s := range r.Sub {
				l, ok := gen(s)
				if !ok {
					return nil, false
				}
				out = append(out, l...)
			}
			return out, len(out) <= max
		}
		return nil, false
	}
	return gen(re)
}
