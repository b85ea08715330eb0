package main

// gvc check PROPERTY: the registered checks.
// Decides a property by discharging every obligation tagged with it in every function
// under contract, and runs the property's bounded stand-in (harness) for what is not
// under contract; the stand-in also looks for a failing input when an obligation fails.

import (
	"context"
	"encoding/json"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessRes struct {
	ran, failed bool
	what, input string
	out         string
	tried       int
	nontrivial  int
	samples     []string
	note        string
	seed        int
}

var rootDir, repoDir string

func runHarness(prop string, budget float64, seed int) *harnessRes {
	h := &harnessRes{}
	test := filepath.Join(rootDir, "harness", strings.ToLower(prop)+"_verif_test.go")
	if _, err := os.Stat(test); err != nil {
		h.note = "no bounded stand-in for this property"
		return h
	}
	tmp, err := os.MkdirTemp("", "gvc")
	if err != nil {
		h.note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	src, _ := os.ReadFile(test)
	files := []string{filepath.Join(rootDir, "harness", "gen_verif_test.go"), test}
	for _, m := range regexp.MustCompile(`(?m)^// needs: (\S+)`).FindAllStringSubmatch(string(src), -1) {
		files = append(files, filepath.Join(rootDir, "harness", m[1]))
	}
	sub := "."
	if m := regexp.MustCompile(`(?m)^// package-dir: (\S+)`).FindStringSubmatch(string(src)); m != nil {
		sub = m[1]
		files = []string{test}
	}
	for _, f := range files {
		repl[filepath.Join(repoDir, sub, filepath.Base(f))] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(tmp, "h.test")
	args := []string{"test", "-vet=off", "-c", "-overlay", ov, "-o", bin}
	if m := regexp.MustCompile(`(?m)^// build-flags: (.*)`).FindStringSubmatch(string(src)); m != nil {
		args = append(args, strings.Fields(m[1])...)
	}
	cmd := exec.Command("go", append(args, "./"+sub)...)
	cmd.Dir = repoDir
	if out, err := cmd.CombinedOutput(); err != nil {
		h.note = "bounded stand-in does not compile against this tree: " + clip(string(out), 600)
		return h
	}
	// several processes with seeds of their own
	procs := runtime.NumCPU() - 1
	if procs < 1 {
		procs = 1
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*float64(time.Second))+90*time.Second)
	defer cancel()
	parts := make([]*harnessRes, procs)
	var wg sync.WaitGroup
	for i := range parts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := &harnessRes{seed: seed*procs + i}
			parts[i] = p
			run := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif"+prop+"$", "-test.v", "-test.timeout", "0")
			run.Dir = tmp
			run.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", p.seed), fmt.Sprintf("VERIF_BUDGET=%g", budget), "VERIF_REPO="+repoDir)
			out, err := run.CombinedOutput()
			p.read(string(out), err)
			if p.failed {
				cancel()
			}
		}()
	}
	wg.Wait()
	h.ran = true
	h.seed = parts[0].seed
	for _, p := range parts {
		if p.failed && !h.failed {
			h.failed, h.what, h.input, h.seed = true, p.what, p.input, p.seed
		}
		h.tried += p.tried
		h.nontrivial += p.nontrivial
		if len(h.samples) < 6 {
			h.samples = append(h.samples, p.samples...)
		}
		if p.note != "" {
			h.note = p.note
		}
	}
	if h.failed {
		h.note = ""
	}
	return h
}

// read takes the outcome of one process
func (h *harnessRes) read(out string, err error) {
	h.out = out
	if m := regexp.MustCompile(`VERIF-COUNT tried=(\d+) nontrivial=(\d+)`).FindStringSubmatch(h.out); m != nil {
		h.tried, _ = strconv.Atoi(m[1])
		h.nontrivial, _ = strconv.Atoi(m[2])
	}
	for _, m := range regexp.MustCompile(`VERIF-SAMPLE (".*")`).FindAllStringSubmatch(h.out, -1) {
		if s, err := strconv.Unquote(m[1]); err == nil {
			h.samples = append(h.samples, s)
		}
	}
	if err != nil {
		if i := strings.Index(h.out, "VERIF-FAIL "); i >= 0 {
			h.failed = true
			rest := h.out[i+len("VERIF-FAIL "):]
			if j := strings.Index(rest, "VERIF-INPUT "); j >= 0 {
				h.what = strings.TrimSpace(rest[:j])
				in, _, _ := strings.Cut(rest[j+len("VERIF-INPUT "):], "\n")
				h.input = in
			} else {
				h.what = clip(rest, 400)
			}
		} else if i := strings.Index(h.out, "WARNING: DATA RACE"); i >= 0 {
			h.failed = true
			h.what = clip(h.out[i:], 3000)
			h.input = "extractions run at the same time"
		} else if strings.Contains(h.out, "panic:") || strings.Contains(h.out, "fatal error:") {
			h.failed = true
			i := strings.Index(h.out, "panic:")
			if i < 0 {
				i = strings.Index(h.out, "fatal error:")
			}
			h.what = "the run crashed: " + clip(h.out[i:], 800)
		} else {
			h.note = "bounded stand-in ended with " + err.Error()
		}
	}
}

func checkCmd(e *Engine, loadErr error, prop string) int {
	t0 := time.Now()
	rootDir, repoDir = os.Getenv("VERIF_ROOT"), os.Getenv("VERIF_REPO")
	if rootDir == "" {
		rootDir = "/verif"
	}
	if repoDir == "" {
		repoDir = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	for _, a := range os.Args[3:] {
		if a == "--thorough" {
			tier = "thorough"
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	budget, more := 8.0, 40.0
	if tier == "thorough" {
		budget, more = 240, 240
	}

	h := runHarness(prop, budget, seed)

	var results []*FnRes
	var failed []*ObRes
	var skipped []string
	total, ok := 0, 0
	backends := map[string]int{}
	solverTime := 0.0
	assumptions := map[string]bool{}
	nproved := 0
	if loadErr != nil {
		failed = append(failed, &ObRes{Fn: "(load)", Name: "the source is not accepted: " + loadErr.Error(), Result: "unsupported"})
	} else if !e.spec.unproved[prop] {
		e.spec.restrict(prop)
		e.prop[prop] = true
		opt := &proveOpt{rlimit: 40000000, shards: 8}
		deadline = t0.Add(700 * time.Second)
		if tier == "thorough" {
			deadline = t0.Add(3 * time.Hour)
		}
		opt.want = func(it *Item) bool { return hasTag(it.tags, prop) }
		var keys []string
		seen := map[string]bool{}
		for k, c := range e.spec.contracts {
			f := e.fnBy[k]
			if f == nil || e.contractFor(f) == nil {
				assumptions["contract of "+k+" has no matching function in this tree; its clauses were not checked"] = true
				continue
			}
			if c.trusted != "" {
				assumptions["trusted contract: "+k+": "+c.trusted] = true
				continue
			}
			if hasTag(c.skips, prop) {
				skipped = append(skipped, k+": "+c.skipWhy)
				continue
			}
			keys = append(keys, k)
			seen[k] = true
		}
		for k, f := range e.fnBy {
			if !seen[k] && f.Parent() != nil && e.spec.contracts[k] == nil && escapes(f) {
				keys = append(keys, k)
				continue
			}
			if seen[k] || f.Parent() != nil || f.Synthetic != "" || e.spec.contracts[k] != nil {
				continue
			}
			nm := f.Name()
			exported := nm[0] >= 'A' && nm[0] <= 'Z' || nm == "main"
			if exported && f.TypeParams().Len() == 0 {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		results = make([]*FnRes, len(keys))
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU())
		for i, k := range keys {
			i, k := i, k
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				results[i] = e.prove(k, opt)
			}()
		}
		wg.Wait()
		// a solver process lost under load must not look like a failed proof: try those functions once more
		for i, r := range results {
			bad := false
			for _, o := range r.Obs {
				bad = bad || !o.OK && o.Result != "sat"
			}
			if bad && time.Now().Before(deadline.Add(-200*time.Second)) {
				r2 := e.prove(keys[i], opt)
				r2.Solver += r.Solver
				results[i] = r2
			}
		}
		for _, r := range results {
			solverTime += r.Solver
			skipped = append(skipped, r.Left...)
			if len(r.Obs) > 0 {
				nproved++
			}
			for _, o := range r.Obs {
				total++
				if o.OK {
					ok++
					backends[o.Solver]++
				} else {
					failed = append(failed, o)
				}
			}
			if len(r.Obs) > 0 && r.Vac == "unsat" {
				failed = append(failed, &ObRes{Fn: r.Key, Name: "vacuity: the assumptions of " + r.Key + " contradict each other", Result: "unsat"})
			}
			if len(r.Obs) > 0 {
				for _, n := range r.Notes {
					assumptions[n] = true
				}
				for _, x := range r.Ext {
					assumptions["library model: "+x] = true
				}
			}
		}
	}
	if len(failed) > 0 && !h.failed && h.ran {
		// look harder for a failing input
		for i := 1; i <= 2 && !h.failed; i++ {
			h2 := runHarness(prop, more/2, seed+1000*i)
			h2.tried += h.tried
			h2.nontrivial += h.nontrivial
			h = h2
		}
	}

	var fns []string
	for _, r := range results {
		if len(r.Obs) > 0 {
			g := 0
			for _, o := range r.Obs {
				if o.OK {
					g++
				}
			}
			fns = append(fns, fmt.Sprintf("%s: %d/%d obligations, %d/%d invariant candidates kept, vacuity %s, %.1fs", r.Key, g, len(r.Obs), r.Active, r.Cands, r.Vac, r.Time))
		}
	}
	for _, s := range skipped {
		assumptions["bounded only, not proved: "+s] = true
	}
	violations := 0
	replay := filepath.Join(rootDir, "evidence", "replay", prop+".txt")
	var lines []string
	if h.failed || len(failed) > 0 {
		violations = len(failed)
		if h.failed {
			violations++
		}
		os.MkdirAll(filepath.Dir(replay), 0o755)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		if h.failed {
			fmt.Fprintf(&b, "FAILING INPUT (run against the real code)\n%s\ninput: %s\nrepeat: the generator with seed %d; /verif/check.sh %s repeats the run\n\n", h.what, h.input, h.seed, prop)
		}
		for _, o := range failed {
			fmt.Fprintf(&b, "FAILED OBLIGATION %s in %s at %s: solver said %q\n", o.Name, o.Fn, o.Pos, o.Result)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, replay)
		if !h.failed {
			l += " no-failing-input-found"
		}
		lines = append(lines, l)
	}
	// evidence
	var ass []string
	for a := range assumptions {
		ass = append(ass, a)
	}
	sort.Strings(ass)
	level := "proof"
	if total == 0 {
		level = "exploration"
	}
	cov := map[string]any{
		"obligations":         total,
		"discharged":          ok,
		"checker_cmd":         "/verif/bin/gvc check " + prop,
		"functions":           fns,
		"functions_proved":    nproved,
		"back_ends":           backends,
		"solver_s":            solverTime,
		"not_proved_here":     skipped,
		"trusted_base":        append([]string{"gvc (verification condition generator, /verif/gvc)", "golang.org/x/tools/go/ssa", "z3 4.8.12 / z3-new / cvc5 1.1.2"}, ass...),
		"evaluations":         h.tried,
		"distinct_nontrivial": h.nontrivial,
		"samples":             h.samples,
		"rule":                "bounded part: documents, options and call sequences made by a seeded generator until the time is used; non-trivial ones reached the property's oracle",
		"bounded_note":        h.note,
		"explanation":         "deductive proof of the obligations above for all inputs; the bounded part ran the real code on generated inputs and is not counted as proof",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(rootDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(rootDir, "evidence", prop+".json"), append(js, '\n'), 0o644)

	fmt.Printf("%s: %d obligations in %d functions, %d discharged; bounded part: %d inputs%s; %.0f s\n", prop, total, nproved, ok, h.tried, map[bool]string{true: " (" + clip(h.note, 300) + ")", false: ""}[h.note != ""], time.Since(t0).Seconds())
	for _, o := range failed {
		fmt.Printf("  failed: %s in %s at %s (%s)\n", o.Name, o.Fn, o.Pos, o.Result)
	}
	if h.failed {
		fmt.Printf("  failing input: %s\n", clip(h.what, 600))
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if len(lines) > 0 {
		return 1
	}
	return 0
}

// escapes: the function literal is returned or stored, so that callers outside its function's proof run it
func escapes(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			var v ssa.Value
			switch t := in.(type) {
			case *ssa.MakeClosure:
				if t.Fn == f {
					v = t
				}
			}
			if v != nil {
				for _, r := range *v.Referrers() {
					if ct, ok := r.(*ssa.ChangeType); ok {
						for _, r2 := range *ct.Referrers() {
							if isEscape(r2, ct) {
								return true
							}
						}
					}
					if isEscape(r, v) {
						return true
					}
				}
			}
			if ct, ok := in.(*ssa.ChangeType); ok && ct.X == ssa.Value(f) {
				for _, r2 := range *ct.Referrers() {
					if isEscape(r2, ct) {
						return true
					}
				}
			}
			if isEscape(in, f) {
				return true
			}
		}
	}
	return false
}

func isEscape(in ssa.Instruction, v ssa.Value) bool {
	switch t := in.(type) {
	case *ssa.Return:
		for _, r := range t.Results {
			if r == v {
				return true
			}
		}
	case *ssa.Store:
		if t.Val == v {
			_, local := t.Addr.(*ssa.Alloc)
			return !local
		}
	}
	return false
}
