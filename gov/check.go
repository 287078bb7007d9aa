package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A property: which functions carry it, which obligations state it, and how a
// failing input is looked for when a proof fails.
type Prop struct {
	id      string
	roots   func(w *World) []*ssa.Function         // entry points; the call closure is verified
	counts  func(w *World, cl map[*ssa.Function]bool) func(f *ssa.Function, o *Obligation) bool
	extra   func(w *World, cl []*ssa.Function, res map[*ssa.Function]*FnResult) []Failure
	setup   func(x *Exec)
	witness bool
	jobs    func(w *World) []Job
	minRoots int
	bounded bool // run the replay harness on every run as a labelled bounded check
	level   string
	trusted []string
	assume  []string
}

type Failure struct {
	fn   string
	kind string
	pos  string
	what string
	status string
}

func (f Failure) String() string {
	return fmt.Sprintf("%s [%s] %s: %s (%s)", f.fn, f.kind, f.pos, f.what, f.status)
}

func (w *World) closure(roots []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range w.callees[f] {
			rec(g)
		}
	}
	for _, r := range roots {
		rec(r)
	}
	var out []*ssa.Function
	for _, f := range w.fns {
		if seen[f] && w.underContract(f) {
			out = append(out, f)
		}
	}
	return out
}

type checkRun struct {
	w      *World
	fns    []*ssa.Function
	res    map[*ssa.Function]*FnResult
	fails  []Failure
	mode   string
	proved int
	total  int
	byKind map[string]int
	smt    time.Duration
	dropped int
	vac     int
	jobRes  []JobResult
	baseProved, baseOpen int
}

func verifDir() string {
	if d := os.Getenv("GOV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("GOV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func (p *Prop) run(w *World, mode string) *checkRun {
	fns := w.closure(p.roots(w))
	r := &checkRun{w: w, fns: fns, mode: mode, byKind: map[string]int{}}
	w.propSetup = p.setup
	r.res = w.Fixpoint(fns, os.Getenv("GOVV") != "")
	if p.jobs != nil {
		p.runJobs(w, r)
		return r
	}
	cl := map[*ssa.Function]bool{}
	for _, f := range fns {
		cl[f] = true
	}
	counts := p.counts(w, cl)
	for _, f := range fns {
		fr := r.res[f]
		r.smt += fr.smtTime
		if fr.unsup != "" {
			r.fails = append(r.fails, Failure{w.fnKey(f), "unsupported", "", fr.unsup, "outside the verified subset"})
			continue
		}
		if fr.vacChecked {
			r.vac++
		}
		if fr.vacuous && w.fixedPre(f) {
			r.fails = append(r.fails, Failure{w.fnKey(f), "vacuity", "", "some return is reachable under the contract", "contradictory assumptions"})
		}
		for _, o := range fr.obls {
			live := len(o.cands) == 0
			for _, c := range o.cands {
				if !w.dropped[c] {
					live = true
				}
			}
			if !live || !counts(f, o) {
				continue
			}
			switch o.status {
			case "proved":
				r.proved++
				r.total++
				r.byKind[o.kind]++
			case "failed", "unknown":
				r.total++
				r.fails = append(r.fails, Failure{w.fnKey(f), o.kind, o.pos, strings.TrimPrefix(o.name, w.fnKey(f)+": "), o.status})
			case "skipped", "dropped":
			default:
				r.proved++
				r.total++
				r.byKind[o.kind]++
			}
		}
		// every callee whose contract was used is itself verified here
		for g := range fr.calls {
			if !cl[g] && w.underContract(g) {
				r.fails = append(r.fails, Failure{w.fnKey(f), "closure", "", "contract of " + w.fnKey(g) + " used but not verified", "internal"})
			}
		}
	}
	if p.extra != nil {
		r.fails = append(r.fails, p.extra(w, fns, r.res)...)
	}
	r.dropped = len(w.dropped)
	return r
}

// runJobs: the property's own obligations, over the base contracts that hold
// on the current source. A base obligation that fails (a possible panic, say)
// is another property's business; what it would have given is not used here.
func (p *Prop) runJobs(w *World, r *checkRun) {
	base, open := 0, 0
	for _, f := range r.fns {
		fr := r.res[f]
		r.smt += fr.smtTime
		for _, o := range fr.obls {
			live := len(o.cands) == 0
			for _, c := range o.cands {
				live = live || !w.dropped[c]
			}
			if !live {
				continue
			}
			switch o.status {
			case "failed", "unknown":
				open++
			case "skipped", "dropped":
			default:
				base++
			}
		}
	}
	r.baseProved, r.baseOpen = base, open
	jobs := p.jobs(w)
	r.jobRes = w.RunJobs(jobs)
	roots := 0
	for _, jr := range r.jobRes {
		fr := jr.res
		r.smt += fr.smtTime
		if fr.unsup != "" {
			if jr.job.must {
				r.fails = append(r.fails, Failure{jr.job.name, "unsupported", "", fr.unsup, "outside the verified subset"})
			}
			continue
		}
		if jr.job.must {
			roots++
		}
		if fr.vacChecked {
			r.vac++
		}
		if fr.vacuous && jr.job.must {
			r.fails = append(r.fails, Failure{jr.job.name, "vacuity", "", "some return is reachable under the contract", "contradictory assumptions"})
		}
		for _, o := range fr.obls {
			live := len(o.cands) == 0
			for _, c := range o.cands {
				live = live || w.active(c)
			}
			if !live {
				continue
			}
			switch o.status {
			case "proved":
				r.proved++
				r.total++
				r.byKind[o.kind]++
			case "failed", "unknown":
				r.total++
				r.fails = append(r.fails, Failure{jr.job.name, o.kind, o.pos, strings.TrimPrefix(o.name, w.fnKey(jr.job.fn)+": "), o.status})
			case "skipped", "dropped":
			default:
				r.proved++
				r.total++
				r.byKind[o.kind]++
			}
		}
	}
	if roots < p.minRoots {
		r.fails = append(r.fails, Failure{p.id, "closure", "", fmt.Sprintf("%d functions carry the property, at least %d expected", roots, p.minRoots), "nothing to verify"})
	}
	if p.extra != nil {
		r.fails = append(r.fails, p.extra(w, r.fns, r.res)...)
	}
	r.dropped = len(w.dropped)
}

// ---------------------------------------------------------------- contracts file

func contractsPath() string { return filepath.Join(verifDir(), "contracts", "parser.contracts") }

// readContracts: the committed specification, one clause per line under a heading per function or type.
func readContracts() (map[string]bool, error) {
	b, err := os.ReadFile(contractsPath())
	if err != nil {
		return nil, err
	}
	out := map[string]bool{}
	head := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") {
			out[head+"|"+strings.TrimPrefix(l, "\t")] = true
			continue
		}
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		head = l
	}
	return out, nil
}

func writeContracts(w *World, res map[*ssa.Function]*FnResult) error {
	used := map[string]bool{}
	for _, r := range res {
		for d := range r.deps {
			if !w.dropped[d] {
				used[d] = true
			}
		}
		for _, o := range r.obls {
			for _, c := range o.cands {
				if !w.dropped[c] && (o.status == "proved") {
					used[c] = true
				}
			}
		}
	}
	by := map[string][]string{}
	for u := range used {
		i := strings.Index(u, "|")
		if strings.HasPrefix(u, "edge|") || strings.HasPrefix(u, "inv|") || strings.HasPrefix(u, "lemma|") {
			j := strings.Index(u[i+1:], "|")
			i += 1 + j
		}
		by[u[:i]] = append(by[u[:i]], u[i+1:])
	}
	var hs []string
	for h := range by {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	var b bytes.Buffer
	b.WriteString("# Contracts of the parser package, checked clause by clause against /repo's source by gov.\n")
	b.WriteString("# Heading: function, loop (#loopN), node field (inv|Type.Field), recursive call (edge|caller) or join (lemma|...).\n")
	b.WriteString("# Clauses: pre|... required at every call; post|... ensured; inv|... loop invariant; var|... loop variant.\n")
	for _, h := range hs {
		sort.Strings(by[h])
		fmt.Fprintln(&b, h)
		for _, c := range by[h] {
			fmt.Fprintln(&b, "\t"+c)
		}
	}
	return os.WriteFile(contractsPath(), b.Bytes(), 0o644)
}

// ---------------------------------------------------------------- known findings

type knownFinding struct {
	prop, key, text string
	fixed           bool
}

// Lines: "finding: property=C03 key=<substring of the failure> <what fails>" or
// "fixed: property=C03 <commit> <what failed>".
func readKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "finding: property="):
			rest := strings.TrimPrefix(l, "finding: property=")
			id, rest, _ := strings.Cut(rest, " ")
			k := knownFinding{prop: id}
			if strings.HasPrefix(rest, "key={") {
				key, txt, _ := strings.Cut(strings.TrimPrefix(rest, "key={"), "} ")
				k.key, k.text = key, txt
			}
			out = append(out, k)
		case strings.HasPrefix(l, "fixed: "):
			out = append(out, knownFinding{fixed: true, text: l})
		}
	}
	return out
}

// ---------------------------------------------------------------- replay

type Witness struct {
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type searchResult struct {
	found *Witness
	tried, nontriv int
	err   string
	wall  float64
}

// buildHarness compiles the replay harness into the package as it stands.
func buildHarness(dir string) (string, error) {
	rep := map[string]string{}
	hs, _ := filepath.Glob(filepath.Join(verifDir(), "harness", "*_test.go"))
	for _, h := range hs {
		rep[filepath.Join(repoDir(), "parser", strings.TrimSuffix(filepath.Base(h), "_test.go")+"_verif_test.go")] = h
	}
	// the repository's own tests stay out of the way
	ts, _ := filepath.Glob(filepath.Join(repoDir(), "parser", "*_test.go"))
	for _, t := range ts {
		if _, ok := rep[t]; !ok {
			rep[t] = ""
		}
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "w.test")
	bc := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./parser")
	bc.Dir = repoDir()
	bc.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if o, err := bc.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the package does not compile with the replay harness: %s", o)
	}
	return bin, nil
}

func harnessCmd() {
	dir, err := os.MkdirTemp("", "govw")
	must(err)
	_, err = buildHarness(dir)
	os.RemoveAll(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

// search runs the replay harness against the real code.
func search(prop string, secs float64, known []string) (sr searchResult) {
	t0 := time.Now()
	defer func() { sr.wall = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "govw")
	if err != nil {
		sr.err = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	kf := filepath.Join(dir, "known.json")
	kb, _ := json.Marshal(known)
	_ = os.WriteFile(kf, kb, 0o644)
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	bin, err := buildHarness(dir)
	if err != nil {
		sr.err = err.Error()
		return
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 1 {
		shards = 1
	}
	type one struct {
		w              *Witness
		tried, nontriv int
		err            string
	}
	res := make([]one, shards)
	cmds := make([]*exec.Cmd, shards)
	stop := make(chan bool)
	var stopOnce sync.Once
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		sd := filepath.Join(dir, fmt.Sprint("s", i))
		_ = os.Mkdir(sd, 0o755)
		out := filepath.Join(sd, "witness.json")
		c := exec.Command(bin, "-test.run", "^TestGovWitness$", "-test.timeout", fmt.Sprintf("%ds", int(secs)+120))
		c.Dir = sd
		c.Env = append(os.Environ(), "GOVW_PROP="+prop, "GOVW_OUT="+out, "GOVW_SEED="+seed, fmt.Sprintf("GOVW_SECS=%g", secs), "GOVW_KNOWN="+kf,
			fmt.Sprintf("GOVW_SHARD=%d/%d", i, shards),
			"GOVW_CORPUS="+filepath.Join(repoDir(), "parser", "testdata")+":"+filepath.Join(verifDir(), "corpus"), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
		cmds[i] = c
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := &res[i]
			var buf bytes.Buffer
			c.Stdout, c.Stderr = &buf, &buf
			if e := c.Start(); e != nil {
				r.err = e.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			var err error
			killed := false
			select {
			case err = <-done:
			case <-stop:
				killed = true
				_ = c.Process.Kill()
				err = <-done
			}
			o := buf.String()
			if os.Getenv("GOVW_STATS") != "" {
				fmt.Println(o)
			}
			for _, l := range strings.Split(o, "\n") {
				if strings.HasPrefix(l, "GOVW-COUNT ") {
					f := strings.Fields(l)
					r.tried, _ = strconv.Atoi(f[1])
					r.nontriv, _ = strconv.Atoi(f[2])
				}
			}
			if wb, e := os.ReadFile(out); e == nil {
				var w Witness
				if json.Unmarshal(wb, &w) == nil {
					r.w = &w
				}
			}
			if r.w == nil && err != nil && !killed && r.tried == 0 && !strings.Contains(o, "no oracle") { // crashed: the last input did it
				if cb, e := os.ReadFile(out + ".cur"); e == nil && len(cb) > 9 {
					n, _ := strconv.Atoi(strings.TrimSpace(string(cb[:9])))
					if n >= 0 && 9+n <= len(cb) {
						msg := o
						if len(msg) > 300 {
							msg = msg[:300]
						}
						r.w = &Witness{string(cb[9 : 9+n]), "process died: " + msg}
					}
				}
				if r.w == nil {
					r.err = o
				}
			}
			if r.w != nil {
				stopOnce.Do(func() { close(stop) })
			}
		}(i)
	}
	wg.Wait()
	for _, r := range res {
		sr.tried += r.tried
		sr.nontriv += r.nontriv
		if r.w != nil && (sr.found == nil || len(r.w.Input) < len(sr.found.Input)) {
			sr.found = r.w
		}
		if r.err != "" && sr.err == "" {
			sr.err = r.err
		}
	}
	if sr.found != nil { // once more, alone and with more patience
		in := filepath.Join(dir, "again.sql")
		_ = os.WriteFile(in, []byte(sr.found.Input), 0o644)
		out := filepath.Join(dir, "again.json")
		c := exec.Command(bin, "-test.run", "^TestGovWitness$", "-test.timeout", "120s")
		c.Dir = dir
		c.Env = append(os.Environ(), "GOVW_PROP="+prop, "GOVW_OUT="+out, "GOVW_SEED="+seed, "GOVW_SECS=60", "GOVW_KNOWN="+kf, "GOVW_REPLAY="+in, "GOMEMLIMIT=8GiB")
		o, err := c.CombinedOutput()
		if _, e := os.Stat(out); e != nil && err == nil {
			sr.err = "an input was reported but does not fail again: " + sr.found.Detail + " " + string(o)
			sr.found = nil
		}
	}
	return
}

// ---------------------------------------------------------------- the check

func checkCmd(args []string) {
	t0 := time.Now()
	id := args[0]
	p, ok := props()[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	w, err := LoadWorld(filepath.Join(repoDir(), "parser"))
	must(err)
	known := readKnown()
	var run *checkRun
	var first *checkRun
	cs, err := readContracts()
	if err == nil {
		w.onlyCands = cs
		run = p.run(w, "committed contracts")
		first = run
	}
	if run != nil && os.Getenv("GOVV") != "" {
		for _, f := range run.fails {
			fmt.Println("under the committed contracts:", f)
		}
		for d := range w.dropped {
			fmt.Println("dropped", d, w.why[d])
		}
	}
	listed := func(f Failure) bool {
		for _, k := range known {
			if !k.fixed && k.prop == id && strings.Contains(f.String(), k.key) {
				return true
			}
		}
		return false
	}
	again := run == nil
	if run != nil {
		for _, f := range run.fails {
			again = again || !listed(f)
		}
	}
	if again {
		w2, err := LoadWorld(filepath.Join(repoDir(), "parser"))
		must(err)
		run = p.run(w2, "contracts re-inferred from the templates")
		w = w2
	}
	wall := func() float64 { return time.Since(t0).Seconds() }
	var open []Failure
	var hits []string
	for _, f := range run.fails {
		match := false
		for _, k := range known {
			if !k.fixed && k.prop == id && strings.Contains(f.String(), k.key) {
				match = true
				hits = append(hits, k.text)
			}
		}
		if !match {
			open = append(open, f)
		}
	}
	var knownKeys []string
	for _, k := range known {
		if !k.fixed && k.prop == id {
			knownKeys = append(knownKeys, k.key)
		}
	}
	var sr searchResult
	searched := false
	if p.witness && (len(open) > 0 || p.bounded || tier == "thorough") {
		secs := 60.0
		if len(open) == 0 {
			secs = 20
		}
		if tier == "thorough" {
			secs = 240
		}
		sr = search(id, secs, knownKeys)
		searched = true
		if sr.err != "" {
			fmt.Println("replay harness:", sr.err)
		}
	}
	violated := len(open) > 0 || sr.found != nil
	ev := evidence(p, id, tier, run, first, sr, searched, wall(), len(open), hits)
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644))
	nf := len(run.fns)
	if run.jobRes != nil {
		nf = len(run.jobRes)
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged (%s), %.1fs\n", id, nf, run.proved, run.total, run.mode, wall())
	seen := map[string]bool{}
	for _, h := range hits {
		if !seen[h] {
			seen[h] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, h)
		}
	}
	if !violated {
		return
	}
	rp := filepath.Join(verifDir(), "evidence", id+".replay.txt")
	var o bytes.Buffer
	fmt.Fprintf(&o, "property %s\n\n", id)
	if sr.found != nil {
		fmt.Fprintf(&o, "failing input (quoted): %q\nwhat the real code does: %s\n\n", sr.found.Input, sr.found.Detail)
		fmt.Fprintf(&o, "replay: put the input in a file F and run\n  GOVW_REPLAY=F %s/bin/check replay %s\n\n", verifDir(), id)
	}
	fmt.Fprintf(&o, "failed obligations (%d):\n", len(open))
	for _, f := range open {
		fmt.Fprintln(&o, "  "+f.String())
	}
	if first != nil && len(first.fails) > 0 {
		fmt.Fprintf(&o, "\nunder the committed contracts:\n")
		for i, f := range first.fails {
			if i > 40 {
				break
			}
			fmt.Fprintln(&o, "  "+f.String())
		}
		fmt.Fprintf(&o, "\ncommitted clauses the current source no longer satisfies:\n")
		var ds []string
		for d := range first.w.dropped {
			ds = append(ds, d+"  -- "+first.w.why[d])
		}
		sort.Strings(ds)
		for i, d := range ds {
			if i > 200 {
				break
			}
			fmt.Fprintln(&o, "  "+d)
		}
	}
	if sr.err != "" {
		fmt.Fprintf(&o, "\nreplay harness: %s\n", sr.err)
	}
	must(os.WriteFile(rp, o.Bytes(), 0o644))
	for i, f := range open {
		if i < 10 {
			fmt.Println("FAILED", f)
		}
	}
	if sr.found != nil {
		fmt.Printf("input %q: %s\n", sr.found.Input, sr.found.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	os.Exit(1)
}

func evidence(p *Prop, id, tier string, run, first *checkRun, sr searchResult, searched bool, wall float64, open int, hits []string) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ass := map[string]bool{}
	ext := map[string]bool{}
	var fns []string
	cands := 0
	for _, f := range run.fns {
		r := run.res[f]
		fns = append(fns, run.w.fnKey(f))
		for a := range r.assumed {
			ass[a] = true
		}
		for e := range r.ext {
			ext[e] = true
		}
		cands += len(r.deps)
	}
	jobFns := map[string]bool{}
	for _, j := range run.jobRes {
		for a := range j.res.assumed {
			ass[a] = true
		}
		for e := range j.res.ext {
			ext[e] = true
		}
		jobFns[run.w.fnKey(j.job.fn)] = true
	}
	for _, a := range p.assume {
		ass[a] = true
	}
	for _, a := range generalAssumptions {
		ass[a] = true
	}
	keys := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	var trusted []string
	trusted = append(trusted, "gov (this verifier: go/ssa to verification conditions), golang.org/x/tools/go/ssa v0.52.0, the Go compiler", "z3 (back end of every discharged obligation)")
	for _, e := range keys(ext) {
		trusted = append(trusted, "assumed contract of "+e)
	}
	trusted = append(trusted, p.trusted...)
	cov := map[string]any{
		"obligations": run.total, "discharged": run.proved, "by_kind": run.byKind,
		"checker_cmd":  "bin/check " + id,
		"trusted_base": trusted,
		"functions_under_contract": len(fns),
		"contract_mode": run.mode,
		"back_end": "z3, one incremental process per function; terms decided by the rewriter are counted too",
		"solver_seconds": run.smt.Seconds(),
		"functions_with_a_reachable_return_confirmed": run.vac,
		"clauses_refuted_during_inference": run.dropped,
		"functions": fns,
	}
	if run.jobRes != nil {
		cov["functions_under_contract"] = len(jobFns)
		cov["functions"] = setKeys(jobFns)
		cov["jobs"] = len(run.jobRes)
		cov["base_contracts"] = map[string]any{"functions": len(run.fns), "obligations_discharged_this_run": run.baseProved, "obligations_open": run.baseOpen}
	}
	if searched {
		key := "replay_search"
		if p.bounded {
			key = "bounded_check"
		}
		cov[key] = map[string]any{"inputs": sr.tried, "accepted_by_the_parser": sr.nontriv, "seconds": sr.wall, "bound": "corpus statements, their prefixes, single-token edits, and random splices within the time limit", "counted_as_proved": false}
	}
	level := p.level
	if level == "" {
		level = "proof"
	}
	if level != "proof" {
		cov["evaluations"] = sr.tried
		cov["distinct_nontrivial"] = sr.nontriv
		cov["rule"] = "corpus statements, token-level edits of them; non-trivial: accepted by the parser"
		cov["samples"] = []string{"SELECT 1"}
		cov["explanation"] = "deductive obligations plus a bounded replay, see DESIGN.md"
	}
	return map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": keys(ass), "wall_s": wall, "violations": open,
		"known_findings": hits,
	}
}

func setKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var generalAssumptions = []string{
	"machine integers are treated as mathematical integers (offsets and counters stay far below 2^63)",
	"slices are values: two slices sharing a backing array are not aliased through append",
	"memory and stack are unbounded (inputs nested deeper than the goroutine stack are outside the claim)",
	"single goroutine: nobody mutates the parser or the tree concurrently",
	"node trees handed to the API come from the parser (or satisfy the inferred node invariants)",
	"strings are modelled by length, bytes, concatenation and case folding; other library functions by the contracts listed in trusted_base",
}

func contractsCmd(args []string) {
	w, err := LoadWorld(filepath.Join(repoDir(), "parser"))
	must(err)
	fns := w.select_(".*")
	res := w.Fixpoint(fns, true)
	report(w, fns, res)
	_ = os.MkdirAll(filepath.Dir(contractsPath()), 0o755)
	must(writeContracts(w, res))
}

func replayCmd(args []string) {
	secs := 5.0
	if s := os.Getenv("GOVW_TIME"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	sr := search(args[0], secs, nil)
	fmt.Printf("%d inputs tried, %d accepted by the parser, %.1fs %s\n", sr.tried, sr.nontriv, sr.wall, sr.err)
	if sr.found != nil {
		fmt.Printf("input %q: %s\n", sr.found.Input, sr.found.Detail)
	}
	if sr.found != nil {
		os.Exit(1)
	}
}
