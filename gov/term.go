package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

const (
	SBool = "Bool"
	SInt  = "Int"
	SStr  = "Str"
)

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func elemSort(a string) string {
	if !strings.HasPrefix(a, "(Array Int ") {
		panic("not an array sort: " + a)
	}
	return a[len("(Array Int ") : len(a)-1]
}

type Term struct {
	id   int
	op   string // "const", "int", "str", "true","false","and","or","not","=","ite","+","-","<=","<","select","store","app"
	name string // const/app symbol, string literal value
	n    int64
	args []*Term
	sort string
	// fresh allocation reference (distinct from every other such ref and from nil)
	fresh bool
	size  int
}

type Pool struct {
	tab    map[string]*Term
	next   int
	T, F   *Term
	nfresh int
	funs   map[string]string // app symbol -> "(args) ret"
	strs   map[string]*Term
	selMemo map[[2]int]*Term
	eqMemo  map[[2]int]*Term
}

func NewPool() *Pool {
	p := &Pool{tab: map[string]*Term{}, funs: map[string]string{}, strs: map[string]*Term{}, selMemo: map[[2]int]*Term{}, eqMemo: map[[2]int]*Term{}}
	p.T = p.mk("true", "", 0, SBool)
	p.F = p.mk("false", "", 0, SBool)
	return p
}

func (p *Pool) mk(op, name string, n int64, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(n, 10))
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	t := &Term{id: p.next, op: op, name: name, n: n, args: args, sort: srt}
	p.next++
	p.tab[k] = t
	return t
}

func (p *Pool) Int(n int64) *Term { return p.mk("int", "", n, SInt) }
func (p *Pool) Str(s string) *Term {
	t := p.mk("str", s, 0, SStr)
	p.strs[s] = t
	return t
}
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}
func (p *Pool) Const(name, srt string) *Term { return p.mk("const", name, 0, srt) }
func (p *Pool) Fresh(hint, srt string) *Term {
	p.nfresh++
	return p.Const(fmt.Sprintf("%s!%d", sanitize(hint), p.nfresh), srt)
}
func (p *Pool) FreshRef(hint string) *Term {
	t := p.Fresh("new_"+hint, SInt)
	t.fresh = true
	return t
}
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (p *Pool) App(fn, ret string, args ...*Term) *Term {
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	sig := "(" + strings.Join(ss, " ") + ") " + ret
	if old, ok := p.funs[fn]; ok && old != sig {
		panic("conflicting signature for " + fn + ": " + old + " / " + sig)
	}
	p.funs[fn] = sig
	return p.mk("app", fn, 0, ret, args...)
}

func (p *Pool) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return p.F
	case "false":
		return p.T
	case "not":
		return a.args[0]
	}
	return p.mk("not", "", 0, SBool, a)
}

func (p *Pool) And(xs ...*Term) *Term { return p.nary("and", xs) }
func (p *Pool) Or(xs ...*Term) *Term  { return p.nary("or", xs) }

func (p *Pool) nary(op string, xs []*Term) *Term {
	unit, zero := p.T, p.F
	if op == "or" {
		unit, zero = p.F, p.T
	}
	seen := map[int]*Term{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit {
			return true
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if _, ok := seen[x.id]; ok {
			return true
		}
		if x.op == "not" {
			if _, ok := seen[x.args[0].id]; ok {
				return false
			}
		} else {
			// not(x) present?
			nk := p.Not(x)
			if _, ok := seen[nk.id]; ok {
				return false
			}
		}
		seen[x.id] = x
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	// (a and c) or (a and not c)  ->  a   [common at joins]
	if op == "or" && len(out) == 2 {
		if r := p.resolve(out[0], out[1]); r != nil {
			return r
		}
	}
	return p.mk(op, "", 0, SBool, out...)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// resolve: A∧c ∨ A∧¬c = A
func (p *Pool) resolve(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inA := map[int]bool{}
	for _, x := range ca {
		inA[x.id] = true
	}
	inB := map[int]bool{}
	for _, x := range cb {
		inB[x.id] = true
	}
	var oa, ob, com []*Term
	for _, x := range ca {
		if inB[x.id] {
			com = append(com, x)
		} else {
			oa = append(oa, x)
		}
	}
	for _, x := range cb {
		if !inA[x.id] {
			ob = append(ob, x)
		}
	}
	if len(oa) == 0 {
		return a
	}
	if len(ob) == 0 {
		return b
	}
	if len(oa) == 1 && len(ob) == 1 && p.Not(oa[0]) == ob[0] {
		return p.And(com...)
	}
	if len(oa) == 1 && p.Not(oa[0]).op == "and" {
		// a = com ∧ ¬(x∧y), b = com ∧ x ∧ y
		n := p.Not(oa[0])
		if sameSet(n.args, ob) {
			return p.And(com...)
		}
	}
	if len(com) > 0 {
		return p.And(append(append([]*Term{}, com...), p.mkOr2(p.And(oa...), p.And(ob...)))...)
	}
	return nil
}

func (p *Pool) mkOr2(a, b *Term) *Term {
	if a == p.T || b == p.T {
		return p.T
	}
	if a == p.F {
		return b
	}
	if b == p.F {
		return a
	}
	if a == b {
		return a
	}
	return p.Or(a, b)
}

func sameSet(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x.id] = true
	}
	for _, x := range b {
		if !m[x.id] {
			return false
		}
	}
	return true
}

func (p *Pool) Implies(a, b *Term) *Term { return p.Or(p.Not(a), b) }

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c == p.T || a == b {
		return a
	}
	if c == p.F {
		return b
	}
	if a.sort == SBool {
		if a == p.T && b == p.F {
			return c
		}
		if a == p.F && b == p.T {
			return p.Not(c)
		}
		if a == p.T {
			return p.Or(c, b)
		}
		if b == p.F {
			return p.And(c, a)
		}
		if a == p.F {
			return p.And(p.Not(c), b)
		}
		if b == p.T {
			return p.Or(p.Not(c), a)
		}
	}
	if c.op == "not" {
		return p.Ite(c.args[0], b, a)
	}
	if a.op == "store" || b.op == "store" {
		if r := p.iteStore(c, a, b); r != nil {
			return r
		}
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return p.mk("ite", "", 0, a.sort, c, a, b)
}

func isValue(t *Term) bool { return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false" }

// definitely distinct?
func (p *Pool) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isValue(a) && isValue(b) {
		return true
	}
	if a.fresh && b.fresh {
		return true
	}
	if a.fresh && b.op == "int" && b.n <= 0 || b.fresh && a.op == "int" && a.n <= 0 {
		return true
	}
	// x+c vs x+d
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba == bb && ba != nil && ca != cb {
		return true
	}
	return false
}

func splitOff(t *Term) (*Term, int64) {
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].n
	}
	if t.sort == SInt && t.op != "int" {
		return t, 0
	}
	return nil, 0
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.T
	}
	if a.sort != b.sort {
		panic("eq sort mismatch " + a.sort + " " + b.sort + " : " + a.String() + " = " + b.String())
	}
	if p.distinct(a, b) {
		return p.F
	}
	k := [2]int{a.id, b.id}
	if r, ok := p.eqMemo[k]; ok {
		return r
	}
	r := p.eq0(a, b)
	p.eqMemo[k] = r
	return r
}

func (p *Pool) eq0(a, b *Term) *Term {
	if a.sort == SBool {
		if a == p.T {
			return b
		}
		if b == p.T {
			return a
		}
		if a == p.F {
			return p.Not(b)
		}
		if b == p.F {
			return p.Not(a)
		}
	}
	// push eq-with-value into ite with value branches
	if isValue(b) && a.op == "ite" && iteValueDepth(a, 8) {
		return p.Ite(a.args[0], p.Eq(a.args[1], b), p.Eq(a.args[2], b))
	}
	if isValue(a) && b.op == "ite" && iteValueDepth(b, 8) {
		return p.Ite(b.args[0], p.Eq(b.args[1], a), p.Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk("=", "", 0, SBool, a, b)
}

// every leaf is a value, a fresh ref, or at least one is (worth pushing)
func iteValueDepth(t *Term, d int) bool {
	if d == 0 {
		return false
	}
	if t.op != "ite" {
		return isValue(t) || t.fresh
	}
	return iteValueDepth(t.args[1], d-1) || iteValueDepth(t.args[2], d-1)
}

func (p *Pool) Add(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return p.Int(a.n + b.n)
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.n == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].op == "int" {
			return p.Add(a.args[0], p.Int(a.args[1].n+b.n))
		}
		return p.mk("+", "", 0, SInt, a, b)
	}
	// keep constant offset outermost
	if a.op == "+" && a.args[1].op == "int" {
		return p.Add(p.Add(a.args[0], b), a.args[1])
	}
	if b.op == "+" && b.args[1].op == "int" {
		return p.Add(p.Add(a, b.args[0]), b.args[1])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk("+", "", 0, SInt, a, b)
}

func (p *Pool) Sub(a, b *Term) *Term {
	if b.op == "int" {
		return p.Add(a, p.Int(-b.n))
	}
	if a == b {
		return p.Int(0)
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba != nil && ba == bb {
		return p.Int(ca - cb)
	}
	return p.mk("-", "", 0, SInt, a, b)
}

func (p *Pool) Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return p.Int(a.n * b.n)
	}
	return p.mk("*", "", 0, SInt, a, b)
}

func (p *Pool) Le(a, b *Term) *Term {
	if a == b {
		return p.T
	}
	if a.op == "int" && b.op == "int" {
		return p.Bool(a.n <= b.n)
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba != nil && ba == bb {
		return p.Bool(ca <= cb)
	}
	return p.mk("<=", "", 0, SBool, a, b)
}
func (p *Pool) Lt(a, b *Term) *Term { return p.Not(p.Le(b, a)) }

func (p *Pool) Select(a, i *Term) *Term {
	es := elemSort(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if p.distinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constarr_"+sanitize(es) {
		return a.args[0]
	}
	if a.op == "ite" {
		x, y := p.selectTry(a.args[1], i, 0), p.selectTry(a.args[2], i, 0)
		if x != nil && y != nil {
			return p.Ite(a.args[0], x, y)
		}
	}
	return p.mk("select", "", 0, es, a, i)
}

// selectTry resolves the select through ite/store structure without producing
// residual selects over compound arrays (unless over a plain constant array).
func (p *Pool) selectTry(a, i *Term, d int) *Term {
	k := [2]int{a.id, i.id}
	if r, ok := p.selMemo[k]; ok {
		return r
	}
	r := p.selectTry0(a, i, d)
	p.selMemo[k] = r
	return r
}

func (p *Pool) selectTry0(a, i *Term, d int) *Term {
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if p.distinct(a.args[1], i) {
			return p.selectTry(a.args[0], i, d+1)
		}
		rest := p.selectTry(a.args[0], i, d+1)
		if rest == nil {
			return nil
		}
		return p.Ite(p.Eq(a.args[1], i), a.args[2], rest)
	case "ite":
		x := p.selectTry(a.args[1], i, d+1)
		if x == nil {
			return nil
		}
		y := p.selectTry(a.args[2], i, d+1)
		if y == nil {
			return nil
		}
		return p.Ite(a.args[0], x, y)
	case "const":
		return p.mk("select", "", 0, elemSort(a.sort), a, i)
	case "app":
		if strings.HasPrefix(a.name, "constarr_") {
			return a.args[0]
		}
		return p.mk("select", "", 0, elemSort(a.sort), a, i)
	case "select":
		return p.mk("select", "", 0, elemSort(a.sort), a, i)
	}
	return nil
}

func (p *Pool) Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic("store sort mismatch " + a.sort + " <- " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return p.mk("store", "", 0, a.sort, a, i, v)
}

// ConstArr: array with every element = v
func (p *Pool) ConstArr(v *Term) *Term {
	return p.mk("app", "constarr_"+sanitize(v.sort), 0, arrSort(v.sort), v)
}

func (t *Term) String() string {
	switch t.op {
	case "int":
		return strconv.FormatInt(t.n, 10)
	case "str":
		return strconv.Quote(t.name)
	case "const":
		return t.name
	case "true", "false":
		return t.op
	}
	var ss []string
	for _, a := range t.args {
		s := a.String()
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		ss = append(ss, s)
	}
	op := t.op
	if op == "app" {
		op = t.name
	}
	return "(" + op + " " + strings.Join(ss, " ") + ")"
}

// iteStore merges two store chains over a common base into one chain.
func (p *Pool) iteStore(c, a, b *Term) *Term {
	chain := func(t *Term) []*Term {
		var out []*Term
		for {
			out = append(out, t)
			if t.op != "store" {
				return out
			}
			t = t.args[0]
		}
	}
	ca, cb := chain(a), chain(b)
	pos := map[int]int{}
	for i, t := range ca {
		pos[t.id] = i
	}
	ia, ib := -1, -1
	for j, t := range cb {
		if i, ok := pos[t.id]; ok {
			ia, ib = i, j
			break
		}
	}
	if ia < 0 || ia+ib > 40 {
		return nil
	}
	var idx []*Term
	seen := map[int]bool{}
	add := func(ts []*Term) {
		for k := len(ts) - 1; k >= 0; k-- {
			i := ts[k].args[1]
			if !seen[i.id] {
				seen[i.id] = true
				idx = append(idx, i)
			}
		}
	}
	add(ca[:ia])
	add(cb[:ib])
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if !p.distinct(idx[i], idx[j]) {
				return nil
			}
		}
	}
	r := ca[ia]
	for _, i := range idx {
		va, vb := p.Select(a, i), p.Select(b, i)
		r = p.Store(r, i, p.Ite(c, va, vb))
	}
	return r
}
