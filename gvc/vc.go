package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newVC(e *Engine, fn *ssa.Function) *VC {
	x := &VC{e: e, fn: fn, decl: map[string]bool{}, lits: map[string]string{}, litOf: map[string]string{},
		flits: map[string]string{}, funs: map[string]string{}, unfold: map[string]bool{}, wfdone: map[string]bool{},
		facts: map[string]bool{}, callees: map[string]bool{}, evidence: map[string]bool{}, obSeq: map[string]int{},
		params: map[string]Val{}, atSorts: map[string]bool{}, boxes: map[string]bool{}, ext: map[string]bool{}, pfx: map[string][]string{}, idxq: map[string][]string{}, prov: map[string]prov{}}
	x.entry = &State{h: map[string]string{}}
	if fn != nil {
		x.key = e.fnKey(fn)
	}
	x.prelude()
	return x
}

func (x *VC) prelude() {
	for _, s := range strings.Split(strings.TrimSpace(`
(declare-sort Str 0)
(declare-sort Flt 0)
(declare-sort Iface 0)
(declare-sort Opq 0)
(declare-datatypes ((Slice 0)) (((mks (sarr Int) (soff Int) (slen_ Int) (scap Int)))))
(define-fun swf ((s Slice)) Bool (and (<= 0 (sarr s)) (<= 0 (soff s)) (<= 0 (slen_ s)) (<= (slen_ s) (scap s)) (=> (= (sarr s) 0) (and (= (scap s) 0) (= (soff s) 0)))))
(declare-fun strid (Str) Int)
(declare-fun strlen (Str) Int)
(declare-fun runelen (Str) Int)
(declare-fun sconcat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun itag (Iface) Int)
(declare-const inil Iface)
(declare-const opq0 Opq)
(declare-fun typeid (Int) Int)
(assert (= (itag inil) 0))
(assert (forall ((i Iface)) (! (=> (= (itag i) 0) (= i inil)) :pattern ((itag i)))))
(assert (forall ((s Str)) (! (<= 0 (strlen s)) :pattern ((strlen s)))))
(assert (forall ((s Str)) (! (and (<= 0 (runelen s)) (<= (runelen s) (strlen s)) (= (= (runelen s) 0) (= (strlen s) 0))) :pattern ((runelen s)))))
(assert (forall ((a Str) (b Str)) (! (= (strlen (sconcat a b)) (+ (strlen a) (strlen b))) :pattern ((sconcat a b)))))
`), "\n") {
		x.emit(s)
	}
	em := x.lit("")
	x.emit(fmt.Sprintf("(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s %s)) :pattern ((strlen s)))))", em))
	x.emit(fmt.Sprintf("(assert (forall ((s Str)) (! (and (= (sconcat s %s) s)) :pattern ((sconcat s %s)))))", em, em))
	for _, s := range x.e.spec.smt {
		if s == "" {
			continue
		}
		if strings.Contains(s, "at_Int") {
			x.atFn("Int")
		}
		if strings.Contains(s, "at_Str") {
			x.atFn("Str")
		}
		x.emit(x.expandLits(s))
	}
	a := x.alloc(x.entry)
	x.assume("(< " + num(int64(len(x.e.globals))) + " " + a + ")")
}

// expandLits replaces "text" in raw SMT by the literal's constant
func (x *VC) expandLits(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "\"")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		j := strings.Index(s[i+1:], "\"")
		if j < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		b.WriteString(x.lit(s[i+1 : i+1+j]))
		s = s[i+j+2:]
	}
}

// ---- verification of one function against its contract ----

func defaultContract(fn *ssa.Function) *Contract {
	c := &Contract{fn: fn.Name(), nilable: map[string]bool{}, noinv: map[string]bool{}, use: map[string]bool{}, hide: map[string]bool{}}
	for _, p := range fn.Params {
		c.params = append(c.params, p.Name())
	}
	return c
}

func (e *Engine) verify(fn *ssa.Function) (x *VC, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("contract error: %s", string(s))
				return
			}
			if e.debug {
				panic(r)
			}
			err = fmt.Errorf("generator error: %v", r)
		}
	}()
	x = newVC(e, fn)
	ct := e.contractFor(fn)
	if ct == nil {
		ct = defaultContract(fn)
	}
	x.ct = ct
	x.setupFrames()
	st := x.entry
	var args []Val
	for i, p := range fn.Params {
		v := Val{Ty: p.Type()}
		for _, lf := range flat(p.Type()) {
			n := sym("p:" + p.Name() + lf.path)
			x.declare(n, sortOf(lf.ty))
			v.L = append(v.L, n)
		}
		x.wf(v, st, "true")
		name := p.Name()
		if i < len(ct.params) {
			name = ct.params[i]
		}
		if _, ok := under(p.Type()).(*types.Pointer); ok && !ct.nilable[name] {
			x.assume("(< 0 " + v.T() + ")")
			x.note("param %s of %s assumed non-nil (checked at calls inside the package)", name, x.key)
		}
		if _, ok := under(p.Type()).(*types.Signature); ok && !ct.nilable[name] {
			x.assume("(< 0 " + v.T() + ")")
		}
		args = append(args, v)
		x.params[name] = v
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		v := Val{Ty: fv.Type(), L: []string{sym("fv:" + fv.Name())}}
		if len(flat(fv.Type())) != 1 {
			return x, fmt.Errorf("free variable of struct type")
		}
		x.declare(v.L[0], sortOf(fv.Type()))
		x.wf(v, st, "true")
		if _, ok := under(fv.Type()).(*types.Pointer); ok {
			x.assume("(< 0 " + v.T() + ")")
		}
		binds = append(binds, v)
	}
	// distinct captured variables live in distinct cells
	env := x.contractEnv(fn, ct, binds, args, st, st)
	x.bindCells(env, fn, binds, st)
	x.cells = env.cells
	for n, v := range env.vars {
		if _, ok := x.params[n]; !ok {
			x.params[n] = v
		}
	}
	for _, iv := range e.spec.invs {
		if ct.noinv[iv.name] || ct.noinv["*"] {
			continue
		}
		x.assumeInv(iv, st, "true")
		x.facts["inv|true|"+x.invTerm(iv, st)] = true
	}
	for _, r := range e.requiresOf(fn, ct) {
		x.assume(env.eval(r.e).T())
	}
	for _, r := range ct.splits {
		x.splits = append(x.splits, env.eval(r).T())
	}
	x.pre = st.clone()
	start := st.clone()
	for _, u := range ct.updates {
		if u.enter {
			x.applyUpdate(env, u, start, "true")
			env.st = start
		}
	}
	vals, out, g := x.run(fn, args, binds, start, "true", 0)
	if g == "false" {
		x.oblige("true", "false", "never returns", []string{"C01"}, fn.Pos())
		return x, nil
	}
	x.items = append(x.items, Item{kind: 'V', guard: g, name: "vacuity"})
	old := x.pre
	env2 := x.contractEnv(fn, ct, binds, args, out, old)
	x.bindCells(env2, fn, binds, out)
	var rt types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		rt = fn.Signature.Results().At(0).Type()
	}
	x.bindResults(env2, tupleOf(vals, rt))
	for _, u := range ct.updates {
		if u.enter {
			continue
		}
		x.applyUpdate(env2, u, out, g)
		env2.st = out
	}
	for i, en := range ct.ensures {
		nm := en.name
		if nm == "" {
			nm = fmt.Sprint(i)
		}
		tags := en.tags
		if len(tags) == 0 {
			tags = ct.tags
		}
		if len(tags) == 0 {
			tags = []string{"C01"}
		}
		x.oblige(g, env2.eval(en.e).T(), "post/"+nm, tags, fn.Pos())
	}
	for _, k := range e.spec.stable {
		if t := x.stableTerm(k, old, out); t != "true" {
			x.oblige(g, t, "post/stable "+k, []string{"C01"}, fn.Pos())
		}
	}
	for _, iv := range e.spec.trans {
		if ct.noinv[iv.name] || ct.noinv["*"] || x.framedT[iv] {
			continue
		}
		if t := x.transTerm(iv, old, out); t != "true" {
			x.oblige(g, t, "exit/trans "+iv.name, iv.tags, fn.Pos())
		}
	}
	for _, iv := range e.spec.invs {
		if ct.noinv[iv.name] || ct.noinv["*"] || x.framed[iv] {
			continue
		}
		t := x.invTerm(iv, out)
		if x.facts["inv|true|"+t] || x.facts["inv|"+g+"|"+t] {
			continue
		}
		x.obligeInv(iv, out, g, "exit")
	}
	return x, nil
}
