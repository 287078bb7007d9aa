package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	fn     *ssa.Function
	calls  map[*ssa.Function]bool
	obls   []*Obligation
	deps   map[string]bool
	edges  map[string]bool
	loops  map[string]bool
	vars   map[string][]string
	ext    map[string]bool
	assumed map[string]bool
	unsup  string
	smtTime time.Duration
	wall   time.Duration
	nAss   int
	nSolver int
	vacuous, vacChecked bool
}

// Generate runs the symbolic execution of fn against its contract.
func (w *World) Generate(fn *ssa.Function, setup func(x *Exec)) (x *Exec, err string) {
	x = NewExec(w, fn)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = u.msg
				return
			}
			if os.Getenv("GOVPANIC") != "" {
				panic(r)
			}
			err = fmt.Sprintf("internal error: %v at %s", r, w.posStr(x.curPos))
		}
	}()
	if setup != nil {
		setup(x)
	}
	p := x.p
	st := &State{reach: p.T, heap: map[string]*Term{}, next: p.Const("next0", SInt), env: map[ssa.Value]Val{}, pub: map[int]bool{}, mpub: map[int]bool{}, pubIn: map[int]*Term{}, ghost: map[string]*Term{}}
	x.ass = append(x.ass, p.Lt(p.Int(0), st.next))
	var args []Val
	for i, pr := range fn.Params {
		v := x.freshVal(fmt.Sprintf("arg%d_%s", i, pr.Name()), pr.Type())
		args = append(args, v)
		if isPtr(pr.Type()) {
			x.ass = append(x.ass, p.Le(p.Int(0), v.leaves[0]), p.Le(v.leaves[0], st.next))
		}
		if isIface(pr.Type()) {
			x.ass = append(x.ass, p.Le(v.leaves[1], st.next), x.tagRange(pr.Type(), v))
		}
		if ch := w.childRef(pr.Type(), v); ch != nil {
			x.ass = append(x.ass, p.Or(p.Eq(ch, p.Int(0)), x.pub(ch)))
		}
	}
	if x.specialise != nil {
		x.specialise(fn, args)
	}
	if x.plug != nil && x.plug.onStart != nil {
		x.plug.onStart(fn, args, st)
	}
	x.entry = st.clone()
	e := &Env{x: x, fn: fn, args: args, pre: st}
	for _, c := range w.preClauses(fn) {
		x.deps[c.id] = true
		x.ass = append(x.ass, c.build(e))
	}
	if r := fn.Signature.Recv(); r != nil && w.dispatched(fn) && isPtr(r.Type()) {
		x.ass = append(x.ass, p.Not(p.Eq(args[0].leaves[0], p.Int(0))))
	}
	x.runBody(fn, args, nil, st)
	return x, ""
}

func (w *World) Verify(fn *ssa.Function, setup func(x *Exec)) *FnResult {
	t0 := time.Now()
	x, msg := w.Generate(fn, setup)
	r := &FnResult{fn: fn, calls: x.callDeps, obls: x.obls, deps: x.deps, edges: x.edges, loops: x.loopsSeen, vars: x.loopVars, ext: x.usedExt, assumed: w.assumed, unsup: msg, nAss: len(x.ass)}
	if msg == "" {
		x.discharge(r)
	}
	r.wall = time.Since(t0)
	return r
}

func (x *Exec) discharge(r *FnResult) {
	need := false
	for _, o := range x.obls {
		if o.status == "" {
			need = true
		}
	}
	if !need {
		return
	}
	s, err := NewSolver(x.w, x.p)
	must(err)
	defer s.Close()
	done := 0
	dropped := map[string]bool{}
	for _, o := range x.obls {
		if o.status != "" {
			continue
		}
		// a candidate refuted already needs no further work
		skip := len(o.cands) > 0
		for _, c := range o.cands {
			if !dropped[c] {
				skip = false
			}
		}
		if skip {
			o.status = "skipped"
			continue
		}
		for ; done < o.nAss; done++ {
			s.Assert(x.ass[done])
		}
		tq := time.Now()
		res, err := s.Check(o.guard, o.cond)
		if d := time.Since(tq); os.Getenv("GOVQ") != "" && d > 200*time.Millisecond {
			fmt.Fprintf(os.Stderr, "Q %.2f %s %s %s %s %v\n", d.Seconds(), res, o.kind, o.pos, o.name, o.cands)
		}
		if err != nil {
			r.unsup = err.Error()
			return
		}
		switch res {
		case "unsat":
			o.status = "proved"
		case "sat":
			o.status = "failed"
		default:
			o.status = "unknown"
		}
		if o.status != "proved" {
			for _, c := range o.cands {
				dropped[c] = true
			}
		}
	}
	// the assumptions are consistent and some return is reachable
	if len(dropped) == 0 && r.unsup == "" && len(x.retGuards) > 0 {
		for ; done < len(x.ass); done++ {
			s.Assert(x.ass[done])
		}
		res, err := s.Check(x.p.Or(x.retGuards...), x.p.F)
		if err == nil && res == "unsat" {
			r.vacuous = true
		}
		r.vacChecked = true
	}
	r.smtTime = s.Time
	r.nSolver = s.n
}

// Fixpoint runs Houdini over the functions and returns the final results.
func (w *World) Fixpoint(fns []*ssa.Function, verbose bool) map[*ssa.Function]*FnResult {
	results := map[*ssa.Function]*FnResult{}
	work := append([]*ssa.Function{}, fns...)
	heavy := map[*ssa.Function]bool{}
	for _, f := range fns {
		if w.instrCount(f) > 1500 {
			heavy[f] = true
		}
	}
	var late []*ssa.Function // heavy functions wait until the others are stable
	for round := 0; len(work) > 0 || len(late) > 0; round++ {
		var now []*ssa.Function
		for _, f := range work {
			if heavy[f] {
				if !isIn(late, f) {
					late = append(late, f)
				}
			} else {
				now = append(now, f)
			}
		}
		work = now
		if len(work) == 0 {
			work, late = late, nil
		}
		t0 := time.Now()
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan *ssa.Function, len(work))
		for _, f := range work {
			ch <- f
		}
		close(ch)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for f := range ch {
					wf := w.fork()
					t1 := time.Now()
					if os.Getenv("GOVPROG") != "" {
						fmt.Fprintf(os.Stderr, "start %s\n", w.fnKey(f))
					}
					r := wf.Verify(f, w.propSetup)
					if os.Getenv("GOVPROG") != "" {
						fmt.Fprintf(os.Stderr, "end %s %.1f smt %.1f n=%d\n", w.fnKey(f), time.Since(t1).Seconds(), r.smtTime.Seconds(), r.nSolver)
					}
					mu.Lock()
					results[f] = r
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		newly := map[string]bool{}
		for _, f := range work {
			for _, o := range results[f].obls {
				if o.status == "failed" || o.status == "unknown" {
					for _, c := range o.cands {
						if !w.dropped[c] {
							w.dropped[c] = true
							newly[c] = true
							w.why[c] = fmt.Sprintf("%s %s %s", o.status, o.pos, o.name)
						}
					}
				}
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "round %d: %d functions, %d candidates dropped, %.1fs\n", round, len(work), len(newly), time.Since(t0).Seconds())
		}
		if f := os.Getenv("GOVSAVE"); f != "" {
			var ds []string
			for d := range w.dropped {
				ds = append(ds, d)
			}
			sort.Strings(ds)
			os.WriteFile(f, []byte(strings.Join(ds, "\n")), 0o644)
		}
		var next []*ssa.Function
		for _, f := range fns {
			r := results[f]
			if r == nil || isIn(late, f) {
				continue
			}
			hit := false
			for c := range newly {
				if r.deps[c] {
					hit = true
					break
				}
			}
			if !hit {
				// obligations about dropped clauses disappear
				for _, o := range r.obls {
					for _, c := range o.cands {
						if newly[c] {
							o.status = "dropped"
						}
					}
				}
				continue
			}
			next = append(next, f)
		}
		work = next
	}
	return results
}

func (w *World) select_(re string) []*ssa.Function {
	var out []*ssa.Function
	rx := regexp.MustCompile(re)
	for _, f := range w.fns {
		if w.underContract(f) && rx.MatchString(w.fnKey(f)) {
			out = append(out, f)
		}
	}
	return out
}

func runCmd(args []string) {
	re := ".*"
	if len(args) > 0 {
		re = args[0]
	}
	w, err := LoadWorld("/repo/parser")
	must(err)
	if f := os.Getenv("GOVLOAD"); f != "" {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w.dropped[l] = true
		}
	}
	fns := w.select_(re)
	fmt.Fprintf(os.Stderr, "%d functions\n", len(fns))
	t0 := time.Now()
	res := w.Fixpoint(fns, true)
	report(w, fns, res)
	fmt.Fprintf(os.Stderr, "total %.1fs\n", time.Since(t0).Seconds())
}

func report(w *World, fns []*ssa.Function, res map[*ssa.Function]*FnResult) {
	np, nf := 0, 0
	for _, f := range fns {
		r := res[f]
		if r.unsup != "" {
			fmt.Printf("UNSUPPORTED %s: %s\n", w.fnKey(f), r.unsup)
		}
		if r.vacuous {
			fmt.Printf("VACUOUS %s: no return is reachable under the assumptions\n", w.fnKey(f))
		}
		if r.wall > 5*time.Second {
			fmt.Printf("SLOW %s %.1fs smt %.1fs n=%d ass=%d obls=%d\n", w.fnKey(f), r.wall.Seconds(), r.smtTime.Seconds(), r.nSolver, r.nAss, len(r.obls))
		}
		for _, o := range r.obls {
			switch o.status {
			case "proved":
				np++
			case "failed", "unknown":
				if len(o.cands) == 0 {
					nf++
					fmt.Printf("FAIL %s %s [%s] %s: %s\n", o.status, w.fnKey(f), o.kind, o.pos, strings.TrimPrefix(o.name, w.fnKey(f)+": "))
				}
			}
		}
	}
	fmt.Printf("proved %d, failed %d, candidates dropped %d\n", np, nf, len(w.dropped))
	if os.Getenv("GOVDROP") != "" {
		var ds []string
		for d := range w.dropped {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			fmt.Println("DROP", d, "::", w.why[d])
		}
	}
}
