package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir, contracts string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, ".", "./cmd/...", "slices")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	e := &Engine{prog: prog, effMemo: map[*ssa.Function]map[string]bool{}, fnBy: map[string]*ssa.Function{}, keySort: map[string]string{}, prop: map[string]bool{}, cellFns: map[*ssa.Alloc]*ssa.MakeClosure{}}
	for i, p := range ps {
		if p == nil || pkgs[i].PkgPath == "slices" || pkgs[i].Name != "main" && pkgs[i].Name != "readability" {
			continue
		}
		e.pkgs = append(e.pkgs, p)
		if pkgs[i].Name == "readability" {
			e.main = p
		}
	}
	if e.main == nil {
		return nil, fmt.Errorf("package readability not found")
	}
	mainPkg = e.main.Pkg
	fs, _ := filepath.Glob(filepath.Join(contracts, "*.gvc"))
	e.spec = loadSpec(fs)
	for _, g := range e.spec.ghosts {
		e.keySort["$"+g.name] = g.sort
	}
	e.scanGlobals()
	for _, f := range e.allFns() {
		k := e.fnKey(f)
		if f.Pkg != nil && f.Pkg != e.main {
			k = f.Pkg.Pkg.Name() + "." + k
		}
		e.fnBy[k] = f
	}
	return e, nil
}

func cli() {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	e, err := load(repo, root+"/contracts")
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(checkCmd(e, err, os.Args[2]))
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.debug = os.Getenv("GVC_DEBUG") != ""
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var ks []string
		for k := range e.fnBy {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "prove" {
		proveCmd(e, os.Args[2:])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		for i := 0; i < 30; i++ {
			e.prop[fmt.Sprintf("C%02d", i)] = true
		}
		if p := os.Getenv("GVC_PROP"); p != "" {
			e.spec.restrict(p)
		}
		dumpCmd(e, os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "fn" {
		x, err := e.verify(e.fnBy[os.Args[2]])
		if err != nil {
			fmt.Println("ERR", err)
		}
		for _, it := range x.items {
			switch it.kind {
			case 'D':
				fmt.Println(it.text)
			default:
				fmt.Println(";", string(it.kind), it.name, it.guard, it.cond, it.text)
			}
		}
	}
}
