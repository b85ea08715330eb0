package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Go types to SMT sorts ----

var mainPkg *types.Package

func qual(p *types.Package) string {
	if p == mainPkg {
		return ""
	}
	return p.Name()
}

func typeKey(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

// sigKey: a function type without parameter names
func sigKey(t types.Type) string {
	sg, ok := under(t).(*types.Signature)
	if !ok {
		return typeKey(t)
	}
	strip := func(tp *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < tp.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", tp.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return typeKey(types.NewSignatureType(nil, nil, nil, strip(sg.Params()), strip(sg.Results()), sg.Variadic()))
}

func under(t types.Type) types.Type { return t.Underlying() }

// sortOf returns the SMT sort of a scalar Go type, or "" for composites.
func sortOf(t types.Type) string {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "Bool"
		case x.Info()&types.IsInteger != 0:
			return "Int"
		case x.Info()&types.IsFloat != 0:
			return "Flt"
		case x.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct, *types.Tuple:
		return ""
	}
	return "Opq"
}

type leaf struct {
	path string
	ty   types.Type
}

func flat(t types.Type) []leaf {
	if st, ok := under(t).(*types.Struct); ok {
		var out []leaf
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			for _, l := range flat(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.path, l.ty})
			}
		}
		return out
	}
	return []leaf{{"", t}}
}

// ---- values ----

type FnVal struct {
	fn    *ssa.Function
	binds []Val
}

type Val struct {
	L    []string
	Ty   types.Type
	S    string // sort, for spec-level values without Go type
	Addr *Addr
	Fn   *FnVal
	Tup  []Val
	In   *Val      // boxed value of an interface
	InV  ssa.Value // its SSA value
}

func (v Val) T() string {
	if len(v.L) != 1 {
		panic(fmt.Sprintf("scalar expected, got %v of type %v", v.L, v.Ty))
	}
	return v.L[0]
}

func (v Val) sort() string {
	if v.Ty != nil {
		return sortOf(v.Ty)
	}
	return v.S
}

type Addr struct {
	kind string // field elem cell global
	pre  string // comp key prefix (path appended per leaf)
	a, b string // obj / (arr, absolute off, idx)
	off  string
	ty   types.Type
}

func wrapSort(kind, s string) string {
	switch kind {
	case "field", "cell":
		return "(Array Int " + s + ")"
	case "elem":
		return "(Array Int (Array Int " + s + "))"
	case "global":
		return s
	}
	panic(kind)
}

func sym(s string) string {
	ok := s != ""
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_@!.$%", c)) {
			ok = false
		}
	}
	if ok && !(s[0] >= '0' && s[0] <= '9') && s[0] != '.' && s[0] != '@' {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

func and(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}

func or(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "false" || x == "" {
			continue
		}
		if x == "true" {
			return "true"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return "(or " + strings.Join(out, " ") + ")"
}

func not(x string) string {
	if x == "true" {
		return "false"
	}
	if x == "false" {
		return "true"
	}
	return "(not " + x + ")"
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func app(f string, xs ...string) string {
	if len(xs) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(xs, " ") + ")"
}

func sel(a, i string) string    { return "(select " + a + " " + i + ")" }
func sto(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }
func num(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func isNum(s string) (int, bool) {
	n := 0
	if s == "" {
		return 0, false
	}
	if strings.HasPrefix(s, "(- ") {
		m, ok := isNum(strings.TrimSuffix(s[3:], ")"))
		return -m, ok
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, true
}

func add(a, b string) string {
	x, ok1 := isNum(a)
	y, ok2 := isNum(b)
	if ok1 && ok2 {
		return num(int64(x + y))
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func sub(a, b string) string {
	x, ok1 := isNum(a)
	y, ok2 := isNum(b)
	if ok1 && ok2 {
		return num(int64(x - y))
	}
	if ok2 && y == 0 {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func splitArgs(t string) []string {
	// arguments of an application "(f a b c)"
	if len(t) < 2 || t[0] != '(' {
		return nil
	}
	var out []string
	d := 0
	start := -1
	bar := false
	for i := 1; i < len(t)-1; i++ {
		c := t[i]
		if bar {
			if c == '|' {
				bar = false
			}
			continue
		}
		switch {
		case c == '|':
			bar = true
			if start < 0 {
				start = i
			}
		case c == '(':
			if start < 0 {
				start = i
			}
			d++
		case c == ')':
			d--
		case c == ' ' && d == 0:
			if start >= 0 {
				out = append(out, t[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, t[start:len(t)-1])
	}
	return out
}

// slice projections with simplification of constructor terms
func sproj(f, s string, i int) string {
	if strings.HasPrefix(s, "(mks ") {
		return splitArgs(s)[i]
	}
	return "(" + f + " " + s + ")"
}
func sArr(s string) string { return sproj("sarr", s, 1) }
func sOff(s string) string { return sproj("soff", s, 2) }
func sLen(s string) string { return sproj("slen_", s, 3) }
func sCap(s string) string { return sproj("scap", s, 4) }
func mks(a, o, l, c string) string {
	return "(mks " + a + " " + o + " " + l + " " + c + ")"
}
