package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// ---- solver process ----

type solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inc   io.Closer
	out   *bufio.Reader
	dead  bool
	spent time.Duration
	n     int
	log   *os.File
}

var genMu sync.Mutex // verification conditions are generated one function at a time

var solverSem = make(chan struct{}, 8)

func newSolver(bin string, seed int) *solver {
	args := []string{"-in", "-smt2"}
	if bin == "cvc5" {
		args = []string{"--incremental", "--lang=smt2", "--no-interactive"}
	}
	s := &solver{cmd: exec.Command(bin, args...)}
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<20)
	s.out = bufio.NewReaderSize(r, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return s
	}
	if p := os.Getenv("GVC_LOG"); p != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d.smt2", p, s.cmd.Process.Pid))
	}
	s.raw("(set-option :print-success false)")
	if bin != "cvc5" {
		s.raw("(set-option :auto_config false)")
		s.raw("(set-option :smt.mbqi false)")
		s.raw("(set-option :smt.array.extensional false)")
		s.raw("(set-option :smt.qi.eager_threshold 100)")
		s.raw(fmt.Sprintf("(set-option :smt.random_seed %d)", seed))
		s.raw("(set-option :smt.arith.nl false)")
	}
	s.raw("(set-logic ALL)")
	return s
}

func (s *solver) raw(t string) {
	if s.dead {
		return
	}
	if s.log != nil {
		s.log.WriteString(t + "\n")
	}
	s.in.WriteString(t)
	s.in.WriteByte('\n')
}

func (s *solver) close() {
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.log != nil {
		s.log.Close()
	}
}

// deadline: after it nothing more is asked of the solvers (a check has to end)
var deadline time.Time

// check: result of check-sat under the given assertions
func (s *solver) check(rlimit int, wall time.Duration, as ...string) string {
	if s.dead {
		return "dead"
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		return "timeout"
	}
	s.raw("(push 1)")
	for _, a := range as {
		s.raw("(assert " + a + ")")
	}
	if rlimit > 0 {
		s.raw(fmt.Sprintf("(set-option :rlimit %d)", rlimit))
	}
	s.raw("(check-sat)")
	s.in.Flush()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), wall)
	done := make(chan struct{})
	go func() {
		select {
		case <-ctx.Done():
			s.cmd.Process.Kill()
		case <-done:
		}
	}()
	res := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			res = "timeout"
			break
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = l
			if !strings.Contains(l, "canceled") {
				fmt.Fprintln(os.Stderr, "SOLVER:", l)
			}
			// keep reading for the verdict
			continue
		}
	}
	close(done)
	cancel()
	s.spent += time.Since(t0)
	s.n++
	s.raw("(pop 1)")
	return res
}

// ---- proving a function ----

type ObRes struct {
	Fn, Name, Pos string
	Tags          []string
	OK            bool
	Result        string
	Time          float64
	Solver        string
	item          int
}

type FnRes struct {
	Key     string
	Err     string
	Obs     []*ObRes
	Cands   int
	Active  int
	Time    float64
	Solver  float64
	Vac     string
	Notes   []string
	Ext     []string
	Callees []string
	dropped []string
	Left    []string
}

type proveOpt struct {
	want    func(it *Item) bool
	verbose bool
	rlimit  int
	shards  int
}

func (x *VC) stream(s *solver, items []Item, active []bool, upto int, each func(i int, it *Item)) {
	for i := range items {
		if upto >= 0 && i >= upto {
			return
		}
		it := &items[i]
		switch it.kind {
		case 'D':
			s.raw(it.text)
		case 'A':
			if active[it.cand] {
				s.raw("(assert " + it.text + ")")
			}
		case 'O':
			if each != nil {
				each(i, it)
			}
			s.raw("(assert " + after(it) + ")")
		default:
			if each != nil {
				each(i, it)
			}
		}
	}
}

func after(it *Item) string {
	if it.assumeAfter != "" {
		return it.assumeAfter
	}
	return implies(it.guard, it.cond)
}

func (x *VC) houdini(opt *proveOpt, last int) ([]bool, float64, []string) {
	active := make([]bool, x.ncand)
	for i := range active {
		active[i] = true
	}
	var spent float64
	var dropped []string
	if x.ncand == 0 {
		return active, 0, nil
	}
	// checks grouped by position
	var groups [][]int
	var cur []int
	for i := range x.items {
		if x.items[i].kind == 'K' {
			cur = append(cur, i)
		} else if cur != nil && x.items[i].kind != 'D' {
			groups = append(groups, cur)
			cur = nil
		} else if cur != nil {
			groups = append(groups, cur)
			cur = nil
		}
	}
	if cur != nil {
		groups = append(groups, cur)
	}
	for pass := 0; pass < 40; pass++ {
		var mu sync.Mutex
		changed := false
		nsh := opt.shards
		if nsh > len(groups) {
			nsh = len(groups)
		}
		snap := append([]bool{}, active...)
		var wg sync.WaitGroup
		for sh := 0; sh < nsh; sh++ {
			sh := sh
			wg.Add(1)
			go func() {
				defer wg.Done()
				solverSem <- struct{}{}
				defer func() { <-solverSem }()
				s := newSolver("z3", 0)
				defer func() { mu.Lock(); spent += s.spent.Seconds(); mu.Unlock(); s.close() }()
				local := append([]bool{}, snap...)
				mine := map[int]bool{}
				hi := 0
				for gi, g := range groups {
					if gi%nsh == sh {
						for _, i := range g {
							mine[i] = true
						}
						hi = g[len(g)-1] + 1
					}
				}
				restart := func(i int) {
					s.close()
					s2 := newSolver("z3", 0)
					s2.spent = s.spent
					*s = *s2
					x.stream(s, x.items, local, i, nil)
				}
				i := 0
				for i < hi {
					it := &x.items[i]
					switch it.kind {
					case 'D':
						s.raw(it.text)
					case 'A':
						if local[it.cand] {
							s.raw("(assert " + it.text + ")")
						}
					case 'O':
						s.raw("(assert " + after(it) + ")")
					case 'K':
						j := i
						var ks []int
						for j < len(x.items) && x.items[j].kind == 'K' {
							if mine[j] && local[x.items[j].cand] {
								ks = append(ks, j)
							}
							j++
						}
						var rec func(ks []int)
						rec = func(ks []int) {
							if len(ks) == 0 {
								return
							}
							var cs []string
							for _, k := range ks {
								cs = append(cs, x.items[k].cond)
							}
							th := time.Now()
							defer func() {
								if d := time.Since(th).Seconds(); os.Getenv("GVC_SLOW") != "" && d > 3 && len(ks) <= 2 {
									fmt.Fprintf(os.Stderr, "    slowcand %.1f %s %s\n", d, x.items[ks[0]].name, x.candNm[x.items[ks[0]].cand])
								}
							}()
							r := s.check(opt.rlimit/4, 30*time.Second, x.items[ks[0]].guard, not(and(cs...)))
							if s.dead {
								restart(i)
								if r == "dead" || time.Since(th) < 25*time.Second {
									// the process was lost, not out of time
									r = s.check(opt.rlimit/4, 30*time.Second, x.items[ks[0]].guard, not(and(cs...)))
									if s.dead {
										restart(i)
									}
								}
							}
							if r == "unsat" {
								return
							}
							if len(ks) == 1 {
								c := x.items[ks[0]].cand
								local[c] = false
								mu.Lock()
								if active[c] {
									active[c] = false
									changed = true
									dropped = append(dropped, x.candNm[c]+" @ "+x.items[ks[0]].name+" "+r)
								}
								mu.Unlock()
								return
							}
							m := len(ks) / 2
							rec(ks[:m])
							rec(ks[m:])
						}
						// same guard groups only
						for a := 0; a < len(ks); {
							b := a
							for b < len(ks) && x.items[ks[b]].guard == x.items[ks[a]].guard {
								b++
							}
							rec(ks[a:b])
							a = b
						}
						i = j - 1
					}
					i++
				}
			}()
		}
		wg.Wait()
		if opt.verbose {
			n := 0
			for _, a := range active {
				if a {
					n++
				}
			}
			fmt.Fprintf(os.Stderr, "  houdini pass %d: %d/%d active\n", pass, n, len(active))
		}
		if !changed {
			break
		}
	}
	return active, spent, dropped
}

func (e *Engine) prove(fn string, opt *proveOpt) *FnRes {
	t0 := time.Now()
	f := e.fnBy[fn]
	r := &FnRes{Key: fn}
	genMu.Lock()
	x, err := e.verify(f)
	genMu.Unlock()
	if os.Getenv("GVC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "  gen %s %.1fs items %d cands %d\n", fn, time.Since(t0).Seconds(), len(x.items), x.ncand)
	}
	if err != nil {
		r.Err = err.Error()
		r.Obs = append(r.Obs, &ObRes{Fn: fn, Name: "generator: " + err.Error(), Tags: []string{"*"}, Result: "unsupported"})
		return r
	}
	r.Notes = x.notes
	r.Ext = sortedKeys(x.ext)
	r.Callees = sortedKeys(x.callees)
	r.Cands = x.ncand
	last := -1
	var idx []int
	for i := range x.items {
		it := &x.items[i]
		if it.kind == 'O' && opt.want(it) {
			if l := x.left(it); l != nil {
				r.Left = append(r.Left, fmt.Sprintf("%s in %s at %s: %s", it.name, fn, it.pos, l.why))
				continue
			}
			idx = append(idx, i)
			last = i
		}
	}
	if len(idx) == 0 {
		r.Time = time.Since(t0).Seconds()
		return r
	}
	active, hs, dropped := x.houdini(opt, last)
	r.dropped = dropped
	for _, a := range active {
		if a {
			r.Active++
		}
	}
	r.Solver += hs
	res := make([]*ObRes, len(idx))
	pos := map[int]int{}
	for k, i := range idx {
		it := &x.items[i]
		res[k] = &ObRes{Fn: fn, Name: it.name, Pos: it.pos, Tags: it.tags, item: i}
		pos[i] = k
	}
	nsh := opt.shards
	if m := (len(idx) + 11) / 12; nsh > m {
		nsh = m
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for sh := 0; sh < nsh; sh++ {
		sh := sh
		wg.Add(1)
		go func() {
			defer wg.Done()
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			s := newSolver("z3", 0)
			defer func() { mu.Lock(); r.Solver += s.spent.Seconds(); mu.Unlock(); s.close() }()
			for i := range x.items {
				it := &x.items[i]
				switch it.kind {
				case 'D':
					s.raw(it.text)
				case 'A':
					if active[it.cand] {
						s.raw("(assert " + it.text + ")")
					}
				case 'V':
					if sh == 0 {
						v := s.check(opt.rlimit/20, 30*time.Second, it.guard)
						mu.Lock()
						r.Vac = v
						mu.Unlock()
						if s.dead {
							s2 := newSolver("z3", 0)
							*s = *s2
							x.stream(s, x.items, active, i, nil)
						}
					}
				case 'O':
					if k, ok := pos[i]; ok && k%nsh == sh {
						t1 := time.Now()
						o := res[k]
						if it.cond == "true" {
							o.OK, o.Result, o.Solver = true, "unsat", "simplifier"
						} else {
							wall := 60 * time.Second
							if len(x.splits) > 0 {
								wall = 6 * time.Second
							}
							v := s.check(opt.rlimit, wall, it.guard, not(it.cond))
							o.Result, o.Solver = v, "z3"
							o.OK = v == "unsat"
							if s.dead {
								s.close()
								s2 := newSolver("z3", 0)
								s2.spent = s.spent
								*s = *s2
								x.stream(s, x.items, active, i, nil)
							}
						}
						o.Time = time.Since(t1).Seconds()
					}
					s.raw("(assert " + after(it) + ")")
				}
			}
		}()
	}
	wg.Wait()
	// case splits named by the contract
	if len(x.splits) > 0 {
		var wg1 sync.WaitGroup
		for _, o := range res {
			if o.OK {
				continue
			}
			o := o
			left := 1 << len(x.splits)
			for c := 0; c < 1<<len(x.splits); c++ {
				c := c
				wg1.Add(1)
				go func() {
					defer wg1.Done()
					solverSem <- struct{}{}
					defer func() { <-solverSem }()
					it := &x.items[o.item]
					as := []string{it.guard}
					nm := ""
					for k, sp := range x.splits {
						if c>>k&1 == 1 {
							as = append(as, sp)
							nm += "+"
						} else {
							as = append(as, not(sp))
							nm += "-"
						}
					}
					as = append(as, not(it.cond))
					v := ""
					for _, bin := range []string{"z3", "z3-new"} {
						s := newSolver(bin, 0)
						x.stream(s, x.items, active, o.item, nil)
						v = s.check(opt.rlimit*2, 60*time.Second, as...)
						mu.Lock()
						r.Solver += s.spent.Seconds()
						mu.Unlock()
						s.close()
						if v == "unsat" {
							break
						}
					}
					mu.Lock()
					if v == "unsat" {
						left--
						if left == 0 {
							o.OK, o.Result, o.Solver = true, v, "z3 case split"
						}
					} else {
						o.Result += " case " + nm + " " + v
					}
					mu.Unlock()
				}()
			}
		}
		wg1.Wait()
	}
	// second chance, stand-alone, other solvers
	var wg2 sync.WaitGroup
	for _, o := range res {
		if o.OK {
			continue
		}
		o := o
		for _, alt := range []struct {
			bin  string
			seed int
		}{{"z3-new", 0}, {"z3", 7}, {"cvc5", 0}} {
			alt := alt
			wg2.Add(1)
			go func() {
				defer wg2.Done()
				solverSem <- struct{}{}
				defer func() { <-solverSem }()
				mu.Lock()
				done := o.OK
				mu.Unlock()
				if done {
					return
				}
				s := newSolver(alt.bin, alt.seed)
				x.stream(s, x.items, active, o.item, nil)
				it := &x.items[o.item]
				rl := opt.rlimit * 3
				if alt.bin == "cvc5" {
					rl = 0
				}
				v := s.check(rl, 40*time.Second, it.guard, not(it.cond))
				mu.Lock()
				r.Solver += s.spent.Seconds()
				if v == "unsat" && !o.OK {
					o.OK, o.Result, o.Solver = true, v, alt.bin+fmt.Sprint(" seed ", alt.seed)
				}
				mu.Unlock()
				s.close()
			}()
		}
	}
	wg2.Wait()
	r.Obs = res
	r.Time = time.Since(t0).Seconds()
	return r
}

func (x *VC) left(it *Item) *Leave {
	if x.ct == nil {
		return nil
	}
	for _, l := range x.ct.leave {
		if hasTag(it.tags, l.tag) && it.name == l.name {
			return l
		}
	}
	return nil
}

func proveCmd(e *Engine, args []string) {
	opt := &proveOpt{verbose: true, rlimit: 40000000, shards: 8, want: func(it *Item) bool { return true }}
	var keys []string
	for i := 0; i < len(args); i++ {
		switch {
		case args[i] == "-p":
			i++
			p := args[i]
			e.prop[p] = true
			e.spec.restrict(p)
			opt.want = func(it *Item) bool { return hasTag(it.tags, p) }
		case args[i] == "-d":
			opt.verbose = true
		case args[i] == "all":
			for k, c := range e.spec.contracts {
				if c.trusted == "" && e.fnBy[k] != nil {
					keys = append(keys, k)
				}
			}
		default:
			keys = append(keys, args[i])
		}
	}
	if len(e.prop) == 0 {
		for i := 0; i < 30; i++ {
			e.prop[fmt.Sprintf("C%02d", i)] = true
		}
	}
	for _, k := range keys {
		if e.fnBy[k] == nil {
			fmt.Println("no function", k)
			continue
		}
		r := e.prove(k, opt)
		bad := 0
		for _, o := range r.Obs {
			if !o.OK {
				bad++
			}
		}
		fmt.Printf("%-45s obs %3d bad %2d cands %d/%d vac=%s %.1fs (solver %.1fs) %s\n", k, len(r.Obs), bad, r.Active, r.Cands, r.Vac, r.Time, r.Solver, r.Err)
		for _, o := range r.Obs {
			if !o.OK {
				fmt.Printf("    FAIL %s [%s] %s %v\n", o.Name, o.Pos, o.Result, o.Tags)
			}
		}
		if os.Getenv("GVC_SLOW") != "" {
			for _, o := range r.Obs {
				if o.Time > 2 || o.Solver != "z3" && o.Solver != "simplifier" {
					fmt.Printf("    slow %s [%s] %.1f %s %s\n", o.Name, o.Pos, o.Time, o.Result, o.Solver)
				}
			}
		}
		if os.Getenv("GVC_DROP") != "" {
			for _, d := range r.dropped {
				fmt.Println("    drop", d)
			}
		}
		if os.Getenv("GVC_NOTES") != "" {
			for _, n := range r.Notes {
				fmt.Println("    note", n)
			}
		}
	}
}

// dumpCmd prints one obligation as a stand-alone script
func dumpCmd(e *Engine, fn, name string) {
	x, err := e.verify(e.fnBy[fn])
	if err != nil {
		fmt.Println(err)
		return
	}
	opt := &proveOpt{rlimit: 40000000, shards: 8}
	active, _, _ := x.houdini(opt, -1)
	fmt.Println("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.array.extensional false)\n(set-option :smt.qi.eager_threshold 100)\n(set-option :smt.arith.nl false)")
	for i := range x.items {
		it := &x.items[i]
		switch it.kind {
		case 'D':
			fmt.Println(it.text)
		case 'A':
			if k := os.Getenv("GVC_CAND"); active[it.cand] || k != "" && strings.Contains(x.candNm[it.cand], strings.Split(k, " @ ")[0]) {
				fmt.Println("(assert " + it.text + ")")
			}
		case 'O':
			if strings.Contains(it.name+" "+it.pos, name) {
				fmt.Println("; " + it.name + " " + it.pos)
				fmt.Println("(assert " + it.guard + ")\n(assert (not " + it.cond + "))\n(check-sat)")
				return
			}
			fmt.Println("(assert " + after(it) + ") ; " + it.name)
		case 'K':
			if k := os.Getenv("GVC_CAND"); k != "" && strings.Contains(x.candNm[it.cand]+" @ "+it.name, k) {
				fmt.Println("; " + it.name)
				fmt.Println("(push)(assert " + it.guard + ")\n(assert (not " + it.cond + "))\n(check-sat)(pop)")
			}
		}
	}
}
