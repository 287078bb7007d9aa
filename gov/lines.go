package main

import (
	"go/types"
	"strings"
)

// Line tables. LT(a, n, s, k): the n entries of a are the offsets at which the
// lines of s[:k] begin: a[0] = 0, every later entry follows a newline, entry i
// has exactly i newlines before it, and there are nl(s, k)+1 of them.
// nl(s, k) is the number of newlines in s[:k].
const linesPreamble = `(declare-fun nl (Str Int) Int)
(declare-fun sat (Str Int) Int)
(declare-fun LT ((Array Int Int) Int Str Int) Bool)
(declare-fun LTw ((Array Int Int) Int Str Int) Int)
(assert (forall ((s Str)) (! (= (nl s 0) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (k Int)) (! (=> (<= k 0) (= (nl s k) 0)) :pattern ((nl s k)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (= b (+ a 1))) (= (nl s b) (+ (nl s a) (ite (= (sat s a) 10) 1 0)))) :pattern ((nl s a) (nl s b)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (<= a b) (<= (nl s a) (nl s b))) :pattern ((nl s a) (nl s b)))))
(assert (forall ((a (Array Int Int)) (n Int) (s Str) (k Int)) (! (=> (LT a n s k) (and (= n (+ (nl s k) 1)) (= (select a 0) 0) (>= n 1))) :pattern ((LT a n s k)))))
(assert (forall ((a (Array Int Int)) (n Int) (s Str) (k Int) (i Int)) (! (=> (and (LT a n s k) (<= 0 i) (< i n))
  (and (<= 0 (select a i)) (<= (select a i) k) (= (nl s (select a i)) i)
       (=> (< 0 i) (and (<= 1 (select a i)) (= (sat s (- (select a i) 1)) 10) (= (nl s (- (select a i) 1)) (- i 1))))))
  :pattern ((LT a n s k) (select a i)))))
(assert (forall ((a (Array Int Int)) (n Int) (s Str) (k Int)) (! (let ((i (LTw a n s k))) (=> (and (= n (+ (nl s k) 1)) (= (select a 0) 0) (>= n 1)
   (=> (and (<= 0 i) (< i n))
  (and (<= 0 (select a i)) (<= (select a i) k) (= (nl s (select a i)) i)
       (=> (< 0 i) (and (<= 1 (select a i)) (= (sat s (- (select a i) 1)) 10) (= (nl s (- (select a i) 1)) (- i 1))))))) (LT a n s k)))
  :pattern ((LT a n s k)))))
`

func (x *Exec) lineTable(v Val, s, k *Term) *Term {
	es, ln, _, _ := sliceParts(v)
	return x.p.App("LT", SBool, es[0], ln, s, k)
}

func (x *Exec) nl(s, k *Term) *Term { return x.p.App("nl", SInt, s, k) }

func isIntSlice(t types.Type) bool {
	return isSlice(t) && isIntT(t.Underlying().(*types.Slice).Elem())
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lineFields: the unexported []int field of a struct and the unexported string
// field it indexes ("" if none).
func (w *World) lineFields(t types.Type) (tab, text string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() {
			continue
		}
		if isIntSlice(f.Type()) {
			tab = f.Name()
		}
		if isStringT(f.Type()) {
			text = f.Name()
		}
	}
	return
}

// tabledType: a struct holding a line table together with its text (a parse error).
func (w *World) tabledType(t types.Type) bool {
	a, b := w.lineFields(t)
	return a != "" && b != ""
}

// tableOK: the object's line table is absent or belongs to its text.
func (x *Exec) tableOK(st *State, t types.Type, ref *Term) *Term {
	p := x.p
	a, b := x.w.lineFields(t)
	s := t.Underlying().(*types.Struct)
	var tab, text Val
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != a && f.Name() != b {
			continue
		}
		var v Val
		for _, k := range x.objKeys(t, "."+f.Name(), f.Type()) {
			v.leaves = append(v.leaves, p.Select(x.heapGet(st, k), ref))
		}
		if f.Name() == a {
			tab = v
		} else {
			text = v
		}
	}
	_, _, nn, _ := sliceParts(tab)
	return p.Implies(nn, x.lineTable(tab, text.leaves[0], x.slen(text.leaves[0])))
}

// linesOK: the cached line table of a parser is absent or describes its input.
func (x *Exec) linesOK(st *State, v Val) *Term {
	p := x.p
	t := x.w.pkg.Pkg.Scope().Lookup("Parser").Type()
	a, _ := x.w.lineFields(t)
	if a == "" {
		return p.T
	}
	s := t.Underlying().(*types.Struct)
	var tab Val
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == a {
			for _, k := range x.objKeys(t, "."+a, s.Field(i).Type()) {
				tab.leaves = append(tab.leaves, p.Select(x.heapGet(st, k), v.leaves[0]))
			}
		}
	}
	in := x.lexField(st, x.lexOf(st, types.NewPointer(t), v), "input")
	_, _, nn, _ := sliceParts(tab)
	return p.Implies(nn, x.lineTable(tab, in, x.slen(in)))
}

// linesKey: the heap keys of the parser's line table, for frame questions.
func (w *World) touchesLines(mods map[string]bool) bool {
	t := w.pkg.Pkg.Scope().Lookup("Parser").Type()
	a, _ := w.lineFields(t)
	for k := range mods {
		if a != "" && strings.HasPrefix(k, "Parser."+a+".") {
			return true
		}
	}
	return false
}

// touched: objects whose table or text was stored to by the function under proof.
func (x *Exec) noteTabled(st *State, a *Addr) {
	if a.kind != "heap" || !x.w.tabledType(a.root) {
		return
	}
	tab, text := x.w.lineFields(a.root)
	if a.path != "" && !strings.HasPrefix(a.path, "."+tab) && !strings.HasPrefix(a.path, "."+text) {
		return
	}
	x.tabled = append(x.tabled, tabledObj{a, st.reach})
}

type tabledObj struct {
	a *Addr
	g *Term
}

func (x *Exec) tabledOblige(st *State, where string) {
	for _, q := range x.tabled {
		x.oblige2(st, "objinv", "line table matches its text "+where, x.p.Implies(q.g, x.tableOK(st, q.a.root, q.a.base)))
	}
}
