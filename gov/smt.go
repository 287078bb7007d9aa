package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	w     *bufio.Writer
	out   *bufio.Reader
	p     *Pool
	defd  map[int]string
	syms  map[string]bool
	strs  map[string]string
	preds map[string]bool
	w0    *World
	Time  time.Duration
	n     int
	log   *strings.Builder
	apps  []*Term
	dead  bool
}

var z3bin = "z3-new"
var solverTimeoutMs = 4000

func NewSolver(w *World, p *Pool) (*Solver, error) {
	s := &Solver{p: p, defd: map[int]string{}, syms: map[string]bool{}, strs: map[string]string{}, w0: w, preds: map[string]bool{}}
	s.cmd = exec.Command(z3bin, "-in", "-smt2", "smt.random_seed=1", "smt.arith.solver=2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReader(out)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	if os.Getenv("GOVSMT") != "" {
		s.log = &strings.Builder{}
	}
	s.put("(set-option :timeout %d)\n(set-option :smt.mbqi false)\n(declare-sort Str 0)\n(declare-fun slen (Str) Int)\n(declare-fun upper (Str) Str)\n(declare-fun strid (Str) Int)\n", solverTimeoutMs)
	s.syms["slen"], s.syms["upper"], s.syms["strid"] = true, true, true
	if p.funs["LT"] != "" || p.funs["nl"] != "" {
		s.put("%s", linesPreamble)
		s.syms["nl"], s.syms["sat"], s.syms["LT"] = true, true, true
	}
	if p.funs["triv"] != "" {
		s.put("%s", lexPreamble(p))
		for _, f := range []string{"sat", "triv", "run", "strb", "num", "isSpace", "rune", "rsz"} {
			s.syms[f] = true
		}
	}
	return s, nil
}

func (s *Solver) put(f string, a ...any) {
	fmt.Fprintf(s.w, f, a...)
	if s.log != nil {
		fmt.Fprintf(s.log, f, a...)
	}
}

func (s *Solver) Close() {
	if s.dead {
		return
	}
	s.dead = true
	s.w.WriteString("(exit)\n")
	s.w.Flush()
	s.in.Close()
	done := make(chan bool, 1)
	go func() { s.cmd.Wait(); done <- true }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		s.cmd.Process.Kill()
	}
}

func quoteSym(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func (s *Solver) lit(str string) string {
	if n, ok := s.strs[str]; ok {
		return n
	}
	n := fmt.Sprintf("|str:%d:%s|", len(s.strs), sanitize(str))
	s.strs[str] = n
	s.put("(declare-const %s Str)\n(assert (= (strid %s) %d))\n(assert (= (slen %s) %d))\n", n, n, len(s.strs), n, len(str))
	up := strings.ToUpper(str)
	un := s.lit(up)
	s.put("(assert (= (upper %s) %s))\n", n, un)
	for set := range s.preds {
		s.setFact(set, str)
	}
	return n
}

func (s *Solver) setFact(set, str string) {
	m := s.w0.setMembers[set]
	if set == keywordTexts {
		m = map[string]bool{str: s.w0.keywordText(str)}
	}
	if m == nil {
		return
	}
	v := "not "
	if m[str] {
		s.put("(assert (contains %s %s))\n", quoteSym(set), s.lit(str))
		return
	}
	s.put("(assert (%s(contains %s %s)))\n", v, quoteSym(set), s.lit(str))
}

// ref returns an expression naming the term, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	if r, ok := s.defd[t.id]; ok {
		return r
	}
	var r string
	switch t.op {
	case "true", "false":
		r = t.op
	case "int":
		if t.n < 0 {
			r = "(- " + strings.TrimPrefix(strconv.FormatInt(t.n, 10), "-") + ")"
		} else {
			r = strconv.FormatInt(t.n, 10)
		}
	case "str":
		r = s.lit(t.name)
	case "const":
		r = quoteSym(t.name)
		if !s.syms[t.name] {
			s.syms[t.name] = true
			s.put("(declare-const %s %s)\n", r, t.sort)
		}
	default:
		var as []string
		for _, a := range t.args {
			as = append(as, s.ref(a))
		}
		var e string
		switch {
		case t.op == "app" && strings.HasPrefix(t.name, "constarr_"):
			e = "((as const " + t.sort + ") " + as[0] + ")"
		case t.op == "app":
			if !s.syms[t.name] {
				s.syms[t.name] = true
				var ss []string
				for _, a := range t.args {
					ss = append(ss, a.sort)
				}
				s.put("(declare-fun %s (%s) %s)\n", quoteSymApp(t.name), strings.Join(ss, " "), t.sort)
			}
			if t.name == "contains" && t.args[0].op == "const" {
				set := t.args[0].name
				if !s.preds[set] {
					s.preds[set] = true
					var ks []string
					for k := range s.strs {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						s.setFact(set, k)
					}
				}
			}
			e = "(" + quoteSymApp(t.name) + " " + strings.Join(as, " ") + ")"
		default:
			e = "(" + t.op + " " + strings.Join(as, " ") + ")"
		}
		n := fmt.Sprintf("t%d", t.id)
		s.put("(define-fun %s () %s %s)\n", n, t.sort, e)
		r = n
		if t.op == "app" {
			s.appFacts(t, n)
		}
	}
	s.defd[t.id] = r
	return r
}

func quoteSymApp(n string) string {
	return quoteSym(n)
}

func (s *Solver) appFacts(t *Term, n string) {
	switch t.name {
	case "slen":
		s.put("(assert (<= 0 %s))\n", n)
	case "upper":
		s.defd[t.id] = n
		s.put("(assert (= (upper %s) %s))\n(assert (= (slen %s) (slen %s)))\n", n, n, n, s.ref(t.args[0]))
	case "scat":
		s.put("(assert (= (slen %s) (+ (slen %s) (slen %s))))\n", n, s.ref(t.args[0]), s.ref(t.args[1]))
	}
}

func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.put("(assert %s)\n", r)
}

// Check: is (guard and not cond) satisfiable under the assertions so far?
func (s *Solver) Check(guard, cond *Term) (string, error) {
	g, c := s.ref(guard), s.ref(cond)
	s.put("(push 1)\n(assert %s)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", g, c)
	t0 := time.Now()
	if os.Getenv("GOVSMT") != "" {
		os.WriteFile(os.Getenv("GOVSMT"), []byte(s.log.String()), 0o644)
	}
	if err := s.w.Flush(); err != nil {
		return "", err
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", fmt.Errorf("z3: %v %s", err, line)
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			s.Time += time.Since(t0)
			s.n++
			return line, nil
		}
		if strings.HasPrefix(line, "(error") && !strings.Contains(line, "canceled") {
			return "", fmt.Errorf("z3 says %s", line)
		}
	}
}
