package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: operators group by how tightly they bind. Node invariant of every
// operator node, shown where the node is handed on: its left operand binds at
// least as tightly, its right operand more tightly (operands that are complete
// in themselves, and those behind a prefix operator, bind as tightly as can
// be). For it every function that reads an expression has a contract over how
// tightly the result binds and how tightly the operator it stopped at does:
// next(state), the function of the state that the package itself computes,
// whose values are shown to be the levels below.

type opLevels struct {
	w       *World
	texts   map[string]int64 // operator as kept in the tree, in capitals
	kinds   map[string]int64 // token kind of an operator
	words   map[string]int64 // keyword operators
	not     map[string]int64 // what NOT before a keyword operator binds like
	ternary, is, prefix, between, subscript, member int64
	ordered bool
}

func (w *World) levels() *opLevels {
	if w.opLv != nil {
		return w.opLv
	}
	find := func(name string, def int64) int64 {
		sc := w.pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			if strings.EqualFold(n, name) {
				if c, ok := sc.Lookup(n).(*types.Const); ok {
					if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
						return v
					}
				}
			}
		}
		return def
	}
	l := &opLevels{w: w}
	arrow := find("PrecedenceArrow", 1)
	l.ternary = find("PrecedenceQuery", 2)
	or := find("PrecedenceOr", 3)
	and := find("PrecedenceAnd", 4)
	l.prefix = find("PrecedenceNot", 5)
	l.is = find("PrecedenceIs", 7)
	cmp := find("PrecedenceCompare", 8)
	l.between = find("PrecedenceBetweenLike", 9)
	in := find("precedenceIn", 10)
	cat := find("PrecedenceConcat", 11)
	add := find("PrecedenceAddSub", 12)
	mul := find("PrecedenceMulDivMod", 13)
	l.subscript = find("PrecedenceBracket", 14)
	l.member = find("PrecedenceDot", 15)
	cast := find("PrecedenceDoubleColon", 16)
	order := []int64{0, arrow, l.ternary, or, and, l.prefix, l.is, cmp, l.between, in, cat, add, mul, l.subscript, l.member, cast}
	l.ordered = true
	for i := 1; i < len(order); i++ {
		l.ordered = l.ordered && order[i-1] < order[i]
	}
	l.words = map[string]int64{"OR": or, "AND": and, "IS": l.is, "BETWEEN": l.between, "LIKE": l.between, "ILIKE": l.between, "REGEXP": l.between, "IN": in}
	l.not = map[string]int64{"IN": in, "LIKE": l.between, "ILIKE": l.between, "BETWEEN": l.between}
	l.kinds = map[string]int64{".": l.member, "::": cast, "||": cat, "+": add, "-": add, "*": mul, "/": mul, "%": mul, "->": arrow, "(": l.subscript, "[": l.subscript, "?": l.ternary}
	for _, k := range []string{"=", "==", "!=", "<>", "<", "<=", ">", ">="} {
		l.kinds[k] = cmp
	}
	l.texts = map[string]int64{"OR": or, "AND": and, "LIKE": l.between, "ILIKE": l.between, "REGEXP": l.between, "IN": in, "NOT LIKE": l.between, "NOT ILIKE": l.between, "NOT IN": in}
	for k, v := range l.kinds {
		switch k {
		case ".", "(", "[", "?":
		default:
			l.texts[k] = v
		}
	}
	w.opLv = l
	return l
}

func (x *Exec) table(t *Term, m map[string]int64, def *Term) *Term {
	p := x.p
	out := def
	for _, k := range sortedKeys(m) {
		out = p.Ite(p.Eq(t, p.Str(k)), p.Int(m[k]), out)
	}
	return out
}

// textLevel: how tightly the operator of this text binds.
func (x *Exec) textLevel(t *Term) *Term {
	p, l := x.p, x.w.levels()
	switch {
	case t.op == "ite":
		return p.Ite(t.args[0], x.textLevel(t.args[1]), x.textLevel(t.args[2]))
	case t.op == "app" && t.name == "scat" && t.args[0].op == "str":
		m := map[string]int64{}
		pre := strings.ToUpper(t.args[0].name)
		for k, v := range l.texts {
			if strings.HasPrefix(k, pre) {
				m[k[len(pre):]] = v
			}
		}
		return x.table(x.upper(t.args[1]), m, p.Int(0))
	}
	return x.table(x.upper(t), l.texts, p.Int(0))
}

var operatorNodes = []string{"BinaryOperation", "UnaryExpr", "TernaryOperation", "IsNullExpr", "IsNotNullExpr", "BetweenClause", "IndexOperation", "ObjectParams"}

func (x *Exec) nodeText(st *State, typ, field string, ref *Term) *Term {
	return x.nodeField(st, typ, field, ref).leaves[0]
}

func (x *Exec) nodeField(st *State, typ, field string, ref *Term) Val {
	o := x.w.pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		x.unsupported("no node type %s", typ)
		return Val{leaves: []*Term{x.p.Int(0), x.p.Int(0)}}
	}
	t := o.Type()
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			var v Val
			for _, k := range x.objKeys(t, "."+field, s.Field(i).Type()) {
				v.leaves = append(v.leaves, x.p.Select(x.heapGet(st, k), ref))
			}
			return v
		}
	}
	x.unsupported("no field %s in %s", field, typ)
	return Val{leaves: []*Term{x.p.Int(0), x.p.Int(0)}}
}

func (w *World) tagOf(name string) int64 {
	o := w.pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return -1
	}
	return int64(w.typeTag(types.NewPointer(o.Type())))
}

// ownLevel: how tightly a node of this type binds its operands.
func (x *Exec) ownLevel(st *State, typ string, ref *Term) *Term {
	p, l := x.p, x.w.levels()
	switch typ {
	case "BinaryOperation":
		return x.textLevel(x.nodeText(st, typ, "Operation", ref))
	case "UnaryExpr":
		return p.Ite(x.prefixed(st, ref), p.Int(l.prefix), p.Int(0))
	case "TernaryOperation":
		return p.Int(l.ternary)
	case "IsNullExpr", "IsNotNullExpr":
		return p.Int(l.is)
	case "BetweenClause":
		return p.Int(l.between)
	case "IndexOperation":
		return p.Int(l.member)
	case "ObjectParams":
		return p.Int(l.subscript)
	}
	return p.Int(0)
}

func (x *Exec) prefixed(st *State, ref *Term) *Term {
	return x.p.Eq(x.upper(x.nodeText(st, "UnaryExpr", "Kind", ref)), x.p.Str("NOT"))
}

// operand: what a node is as an operand: how tightly it binds (0: complete in
// itself), whether nothing can follow its operand (IS NULL), and whether it
// starts with a prefix operator.
func (x *Exec) operand(st *State, t types.Type, v Val) (lv, postfix, prefix *Term) {
	p, w := x.p, x.w
	lv, postfix, prefix = p.Int(0), p.F, p.F
	for _, n := range operatorNodes {
		if n == "IndexOperation" || n == "ObjectParams" {
			continue // complete: they end in what belongs to them
		}
		var is, ref *Term
		if isIface(t) {
			is, ref = p.Eq(v.leaves[0], p.Int(w.tagOf(n))), v.leaves[1]
		} else if w.ptrName(t) == n {
			is, ref = p.Not(p.Eq(v.leaves[0], p.Int(0))), v.leaves[0]
		} else {
			continue
		}
		if is == p.F {
			continue
		}
		lv = p.Ite(is, x.ownLevel(st, n, ref), lv)
		switch n {
		case "IsNullExpr", "IsNotNullExpr":
			postfix = p.Or(postfix, is)
		case "UnaryExpr":
			prefix = p.Or(prefix, p.And(is, x.prefixed(st, ref)))
		}
	}
	return
}

// tight: as a right operand, binds more tightly than n.
func (x *Exec) tight(st *State, t types.Type, v Val, n *Term) *Term {
	lv, _, prefix := x.operand(st, t, v)
	p := x.p
	return p.Or(p.Eq(lv, p.Int(0)), prefix, p.Lt(n, lv))
}

// firm: as a left operand, binds as tightly as n (more tightly where
// operators group to the right).
func (x *Exec) firm(st *State, t types.Type, v Val, n *Term) *Term {
	lv, postfix, _ := x.operand(st, t, v)
	p := x.p
	return p.Or(p.Eq(lv, p.Int(0)), postfix, p.Lt(n, lv), p.And(p.Eq(n, lv), p.Not(x.rightGrouping(n))))
}

func (x *Exec) rightGrouping(n *Term) *Term {
	p, l := x.p, x.w.levels()
	return p.Or(p.Eq(n, p.Int(l.kinds["->"])), p.Eq(n, p.Int(l.ternary)))
}

// ---- the operator ahead

// levelFn: the function that says how tightly the operator ahead binds.
func (w *World) levelFn() *ssa.Function {
	var out *ssa.Function
	for _, f := range w.fns {
		if w.lexParam(f) < 0 || w.lexerMethod(f) || f.Parent() != nil || len(f.Params) != 1 || len(f.Blocks) == 0 || wrapper(f) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 || !isIntT(rs.At(0).Type()) || isNamed(rs.At(0).Type(), w.pkg.Pkg.Path()+".Pos") {
			continue
		}
		if out == nil || isIn(w.callees[f], out) || !isIn(w.callees[out], f) && w.instrCount(f) > w.instrCount(out) {
			out = f
		}
	}
	return out
}

func (x *Exec) ahead(st *State, lex *Term) (ok, kind, text *Term) {
	p := x.p
	a := []*Term{x.lexField(st, lex, "input"), x.lexField(st, lex, "offset"), x.lexField(st, lex, "currentToken")}
	return p.App("ahead.is", SBool, a...), p.App("ahead.kind", SStr, a...), p.App("ahead.text", SStr, a...)
}

// next: how tightly the operator that the lexer stands at binds; 0 when there is none.
func (x *Exec) next(st *State, lex *Term) *Term {
	p, l := x.p, x.w.levels()
	cur := x.lexField(st, lex, "currentToken")
	n := p.App("next.level", SInt, x.lexField(st, lex, "input"), x.lexField(st, lex, "offset"), cur)
	x.addFact(x.nextIs(st, lex, n))
	_ = l
	return n
}

// nextIs: the levels of the operators, by the token the lexer stands at.
func (x *Exec) nextIs(st *State, lex, n *Term) *Term {
	p, l := x.p, x.w.levels()
	cur := x.lexField(st, lex, "currentToken")
	kind, text := x.tokField(st, "Kind", cur), x.upper(x.tokField(st, "String", cur))
	ok, nk, nt := x.ahead(st, lex)
	word := p.Eq(n, x.table(text, l.words, p.Int(0)))
	notLv := p.Ite(p.And(ok, p.Eq(nk, p.Str("<keyword>"))), x.table(x.upper(nt), l.not, p.Int(l.prefix)), p.Int(l.prefix))
	word = p.Ite(p.Eq(text, p.Str("NOT")), p.Eq(n, notLv), word)
	word = p.Ite(p.Eq(text, p.Str("GLOBAL")), p.Or(p.Eq(n, p.Int(0)), p.Eq(n, p.Int(l.words["IN"]))), word)
	return p.Ite(p.Eq(cur, p.Int(0)), p.Eq(n, p.Int(0)),
		p.Ite(p.Eq(kind, p.Str("<keyword>")), word, p.Eq(n, x.table(kind, l.kinds, p.Int(0)))))
}

// stop: the operator the lexer stands at does not belong to the expression read.
func (x *Exec) stop(st *State, lex *Term, t types.Type, v Val) *Term {
	return x.firm(st, t, v, x.next(st, lex))
}

// ---- contracts

func (w *World) isExprT(t types.Type) bool {
	if isIface(t) {
		return w.isASTIface(t)
	}
	n := w.ptrName(t)
	for _, o := range operatorNodes {
		if n == o && n != "IndexOperation" && n != "ObjectParams" {
			return true
		}
	}
	return false
}

func precID(w *World, f *ssa.Function, what string, i int) string {
	return fmt.Sprintf("prop|prec|%s|%s%d", w.fnKey(f), what, i)
}

type precPre struct {
	id, name string
	build    func(x *Exec, st *State, lex *Term, args []Val) *Term
}

func (w *World) precPres(f *ssa.Function) []precPre {
	var out []precPre
	if w.dispatched(f) || w.isAPI(f) || w.addressTaken(f) || w.lexParam(f) < 0 {
		return nil
	}
	add := func(what string, i int, name string, b func(x *Exec, st *State, lex *Term, args []Val) *Term) {
		if id := precID(w, f, what, i); w.active(id) {
			out = append(out, precPre{id, name, b})
		}
	}
	for i, prm := range f.Params {
		i, t := i, prm.Type()
		switch {
		case isIntT(t) && !isNamed(t, w.pkg.Pkg.Path()+".Pos"):
			add("ge0.", i, "a level", func(x *Exec, _ *State, _ *Term, a []Val) *Term { return x.p.Le(x.p.Int(0), a[i].leaves[0]) })
			add("gt0.", i, "the level of an operator", func(x *Exec, _ *State, _ *Term, a []Val) *Term { return x.p.Lt(x.p.Int(0), a[i].leaves[0]) })
			add("left.", i, "a level that groups to the left", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				return x.p.Not(x.rightGrouping(a[i].leaves[0]))
			})
			add("next.", i, "the level of the operator ahead", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				return x.p.Eq(a[i].leaves[0], x.next(st, lex))
			})
		case isStringT(t):
			add("op.", i, "the operator ahead", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				return x.p.Eq(x.textLevel(a[i].leaves[0]), x.next(st, lex))
			})
			add("left.", i, "an operator that groups to the left", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				return x.p.Not(x.rightGrouping(x.textLevel(a[i].leaves[0])))
			})
			for j, q := range f.Params {
				if j, u := j, q.Type(); isIntT(u) && !isNamed(u, w.pkg.Pkg.Path()+".Pos") {
					add(fmt.Sprintf("op.%d.", j), i, "an operator of that level", func(x *Exec, st *State, lex *Term, a []Val) *Term {
						return x.p.Eq(x.textLevel(a[i].leaves[0]), a[j].leaves[0])
					})
				}
			}
		case w.isExprT(t):
			add("whole.", i, "a complete operand", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				lv, _, _ := x.operand(st, t, a[i])
				return x.p.Eq(lv, x.p.Int(0))
			})
			add("head.", i, "an operand that no operator before it can take apart", func(x *Exec, st *State, lex *Term, a []Val) *Term {
				lv, _, prefix := x.operand(st, t, a[i])
				return x.p.Or(prefix, x.p.Eq(lv, x.p.Int(0)))
			})
			add("stop.", i, "an operand that ends here", func(x *Exec, st *State, lex *Term, a []Val) *Term { return x.stop(st, lex, t, a[i]) })
			for j, q := range f.Params {
				if j, u := j, q.Type(); isIntT(u) && !isNamed(u, w.pkg.Pkg.Path()+".Pos") {
					add(fmt.Sprintf("tight.%d.", j), i, "an operand tighter than the level", func(x *Exec, st *State, lex *Term, a []Val) *Term {
						return x.tight(st, t, a[i], a[j].leaves[0])
					})
				}
			}
		}
	}
	return out
}

func (w *World) precPosts(f *ssa.Function) []Clause {
	var out []Clause
	if w.lexParam(f) < 0 || w.lexerMethod(f) || !w.touchesLexer(f) {
		return nil
	}
	rs := f.Signature.Results()
	if f == w.levelFn() {
		return []Clause{{id: precID(w, f, "level", 0), name: "gives the level of the operator ahead", build: func(e *Env) *Term {
			x, p := e.x, e.x.p
			if e.fn == x.top { // what next() is the name of
				return p.And(x.nextIs(e.pre, e.lex(), e.res[0].leaves[0]), x.sameLex(e.post, e.pre, e.lex()))
			}
			return p.And(p.Eq(e.res[0].leaves[0], x.next(e.pre, e.lex())), x.sameLex(e.post, e.pre, e.lex()))
		}}}
	}
	add := func(what string, i int, name string, b func(e *Env) *Term) {
		out = append(out, Clause{id: precID(w, f, what, i), name: name, build: func(e *Env) *Term { return e.x.p.Implies(e.errNil(), b(e)) }})
		for j, q := range f.Params {
			if j := j; isBool(q.Type()) {
				out = append(out, Clause{id: precID(w, f, fmt.Sprintf("%s.if%d.", what, j), i), name: name + " when " + q.Name(), build: func(e *Env) *Term {
					return e.x.p.Implies(e.x.p.And(e.errNil(), e.args[j].leaves[0]), b(e))
				}}, Clause{id: precID(w, f, fmt.Sprintf("%s.unless%d.", what, j), i), name: name + " unless " + q.Name(), build: func(e *Env) *Term {
					return e.x.p.Implies(e.x.p.And(e.errNil(), e.x.p.Not(e.args[j].leaves[0])), b(e))
				}})
			}
		}
	}
	fixed := w.fixedLevels(f)
	for i := 0; i < rs.Len(); i++ {
		i, t := i, rs.At(i).Type()
		if !w.isExprT(t) {
			continue
		}
		add("whole", i, "gives a complete operand", func(e *Env) *Term {
			lv, _, _ := e.x.operand(e.post, t, e.res[i])
			return e.x.p.Eq(lv, e.x.p.Int(0))
		})
		add("head", i, "gives an operand that no operator before it can take apart", func(e *Env) *Term {
			lv, _, prefix := e.x.operand(e.post, t, e.res[i])
			return e.x.p.Or(prefix, e.x.p.Eq(lv, e.x.p.Int(0)))
		})
		add("stop", i, "gives an operand that ends here", func(e *Env) *Term { return e.x.stop(e.post, e.lex(), t, e.res[i]) })
		for j, q := range f.Params {
			if j, u := j, q.Type(); isIntT(u) && !isNamed(u, w.pkg.Pkg.Path()+".Pos") {
				add(fmt.Sprintf("tight.%d.", j), i, "gives an operand tighter than the level", func(e *Env) *Term {
					return e.x.tight(e.post, t, e.res[i], e.args[j].leaves[0])
				})
				add(fmt.Sprintf("atleast.%d.", j), i, "gives an operand as tight as the level", func(e *Env) *Term {
					lv, _, _ := e.x.operand(e.post, t, e.res[i])
					return e.x.p.Or(e.x.p.Eq(lv, e.x.p.Int(0)), e.x.p.Le(e.args[j].leaves[0], lv))
				})
				add(fmt.Sprintf("until.%d.", j), i, "stops at an operator no tighter than the level", func(e *Env) *Term {
					return e.x.p.Le(e.x.next(e.post, e.lex()), e.args[j].leaves[0])
				})
			}
		}
		for _, k := range fixed {
			k := k
			add(fmt.Sprintf("tight.at%d.", k), i, "gives an operand tighter than a level", func(e *Env) *Term {
				return e.x.tight(e.post, t, e.res[i], e.x.p.Int(k))
			})
			add(fmt.Sprintf("atleast.at%d.", k), i, "gives an operand as tight as a level", func(e *Env) *Term {
				lv, _, _ := e.x.operand(e.post, t, e.res[i])
				return e.x.p.Or(e.x.p.Eq(lv, e.x.p.Int(0)), e.x.p.Le(e.x.p.Int(k), lv))
			})
			add(fmt.Sprintf("until.at%d.", k), i, "stops at an operator no tighter than a level", func(e *Env) *Term {
				return e.x.p.Le(e.x.next(e.post, e.lex()), e.x.p.Int(k))
			})
		}
		add("until", i, "stops at no operator", func(e *Env) *Term { return e.x.p.Le(e.x.next(e.post, e.lex()), e.x.p.Int(0)) })
	}
	return out
}

// fixedLevels: the levels that f reads operands at.
func (w *World) fixedLevels(f *ssa.Function) []int64 {
	got := map[int64]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || w.lexParam(g) < 0 {
				continue
			}
			for _, a := range c.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && isIntT(k.Type()) && !isNamed(k.Type(), w.pkg.Pkg.Path()+".Pos") && k.Int64() > 0 {
					got[k.Int64()] = true
				}
			}
		}
	}
	var out []int64
	for k := range got {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func precJobs(w *World) []Job {
	lf := w.levelFn()
	if lf == nil {
		return nil
	}
	out := lexJobs(w)
	for _, f := range w.closure(parseRoots(w)) {
		f := f
		if wrapper(f) || len(f.Blocks) == 0 || w.isInit(f) || f.Parent() != nil || w.lexerInternal(f) || w.lexerMethod(f) || w.lexParam(f) < 0 || w.inlinable(f) && w.hasCaller(f) && f != lf {
			continue
		}
		w.extraPosts[w.fnKey(f)] = append(w.extraPosts[w.fnKey(f)], append(w.precPosts(f), tookClauses(w, f)...)...)
		j := Job{name: w.fnKey(f) + " groups operators", fn: f, setup: func(x *Exec) { installPrec(x, f) }}
		if f == lf {
			j.name, j.must = w.fnKey(f)+" knows how tightly operators bind", true
		}
		out = append(out, j)
	}
	return out
}

func installPrec(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode, x.proveExtra = true, true
	pl := &Plug{}
	x.plug = pl
	core, peek := w.lexCore()
	lf := w.levelFn()
	lp := w.lexParam(fn)
	if fn == lf { // what it asks about the tokens ahead is looked into
		x.mode.inlineAll = func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return w.tokenHelper(f) || w.lexParam(f) >= 0 && !w.lexerMethod(f) && rs.Len() == 1 && (isBool(rs.At(0).Type()) || isIntT(rs.At(0).Type())) && !w.recursive(f) && !w.dispatched(f)
		}
	}
	var lex *Term
	ob := func(st *State, what string, c *Term, ids ...string) { x.oblige2(st, "prop", what, c, ids...) }
	var seen []*Term // tokens read in this function
	note := func(st *State) {
		c := x.lexField(st, lex, "currentToken")
		for _, s := range seen {
			if s == c {
				return
			}
		}
		seen = append(seen, c)
	}
	allocates := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				for _, o := range operatorNodes {
					allocates = allocates || w.ptrName(a.Type()) == o
				}
			}
		}
	}
	// an operator's or keyword's token stays what it is (see onStore)
	kept := func(st *State) {
		if !allocates {
			return
		}
		for _, t := range seen {
			k, s := x.tokField(st, "Kind", t), x.tokField(st, "String", t)
			k0, s0 := p.App("token.kind", SStr, t), p.App("token.text", SStr, t)
			x.addFact(p.Implies(p.And(p.Not(p.Eq(t, p.Int(0))), p.Or(x.operatorKind(k), x.operatorKind(k0))), p.And(p.Eq(k, k0), p.Eq(s, s0))))
			// the kind of an operator is its text (C05)
			x.addFact(p.Implies(p.And(p.Not(p.Eq(t, p.Int(0))), x.operatorKind(k), p.Not(p.Eq(k, p.Str("<keyword>")))), p.And(p.Eq(s, k), p.Eq(x.upper(s), k))))
		}
	}
	pl.onStart = func(f *ssa.Function, args []Val, st *State) {
		lex = x.lexOf(st, f.Params[lp].Type(), args[lp])
		if fn == lf {
			ob(st, "the levels are in order", p.Bool(w.levels().ordered))
		}
		note(st)
		kept(st)
		for i, a := range args {
			if i < len(f.Params) {
				x.tableLists(f.Params[i].Type(), a)
			}
		}
		for _, c := range w.precPres(f) {
			x.deps[c.id] = true
			x.assume(st, c.build(x, st, lex, args))
		}
	}
	var before *State
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		before = nil
		if f == core || f == peek {
			before = st.clone()
		}
		if !w.underContract(f) || w.inlinable(f) {
			return
		}
		if i := w.lexParam(f); i >= 0 && !w.lexerMethod(f) {
			l := x.lexOf(st, f.Params[i].Type(), args[i])
			for _, c := range w.precPres(f) {
				ob(st, "gives "+w.fnKey(f)+" "+c.name, c.build(x, st, l, args), c.id)
			}
		}
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		switch {
		case f == core && before != nil:
			ok, nk, nt := x.ahead(before, lex)
			cur := x.lexField(st, lex, "currentToken")
			some := p.Not(p.Eq(cur, p.Int(0)))
			good := p.Eq(rs[0].leaves[0], p.Int(0))
			x.assume(st, p.And(p.Eq(some, p.And(ok, good)), p.Implies(ok, good),
				p.Implies(some, p.And(p.Eq(x.tokField(st, "Kind", cur), nk), p.Eq(x.tokField(st, "String", cur), nt), p.Lt(x.lexField(before, lex, "offset"), x.slen(x.lexField(before, lex, "input")))))))
		case f == peek && before != nil:
			ok, nk, nt := x.ahead(before, lex)
			tok := rs[0].leaves[0]
			some := p.And(p.Eq(rs[1].leaves[0], p.Int(0)), p.Not(p.Eq(tok, p.Int(0))))
			x.assume(st, p.And(p.Eq(some, ok), p.Implies(some, p.And(p.Eq(x.tokField(st, "Kind", tok), nk), p.Eq(x.tokField(st, "String", tok), nt)))))
		}
		for i, r := range rs {
			if t := f.Signature.Results().At(i).Type(); isIface(t) && w.isASTIface(t) { // it exists already
				x.assume(st, p.And(p.Le(p.Int(0), r.leaves[1]), p.Le(r.leaves[1], st.next)))
			}
		}
		if i := w.lexParam(f); i >= 0 && w.touchesLexer(f) {
			// without text there is no token
			ok, _, _ := x.ahead(st, lex)
			x.addFact(p.Implies(ok, p.Lt(x.lexField(st, lex, "offset"), x.slen(x.lexField(st, lex, "input")))))
			note(st)
		}
		kept(st)
	}
	pl.onHead = kept
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		if fn == lf {
			ob(st, "gives the level of the operator ahead", x.nextIs(x.entry, lex, vals[0].leaves[0]))
			ob(st, "leaves the lexer as it is", x.sameLex(st, x.entry, lex))
		}
	}
	pl.onStore = func(st *State, a *Addr, v Val, in ssa.Instruction) {
		if a.kind != "heap" {
			return
		}
		_, own := x.allocs[a.base.id]
		for i, k := range x.objKeys(a.root, a.path, a.typ) {
			switch {
			case k == w.tokKey("Kind") || k == w.tokKey("String"):
				if !own {
					c := p.Not(x.operatorKind(x.tokField(st, "Kind", a.base)))
					if k == w.tokKey("Kind") {
						c = p.And(c, p.Not(x.operatorKind(v.leaves[i])))
					}
					ob(st, "leaves the tokens of operators and keywords as they are", c)
				}
			default:
				typ, field, _ := strings.Cut(k, ".")
				for _, o := range operatorNodes {
					if typ == o && (!own || st.pub[a.base.id]) {
						switch strings.SplitN(field, ".", 2)[0] {
						case "LeftExpr", "RightExpr", "Operation", "Expr", "Kind", "Condition", "And", "Between", "Object":
							ob(st, "changes no operator node made before", p.F)
						}
					}
				}
			}
		}
	}
	pl.onPub = func(st *State, t types.Type, ref *Term) {
		typ := t.(*types.Named).Obj().Name()
		n := x.ownLevel(st, typ, ref)
		op := p.Lt(p.Int(0), n)
		expr := func(f string) (types.Type, Val) {
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f {
					return s.Field(i).Type(), x.nodeField(st, typ, f, ref)
				}
			}
			x.unsupported("no field %s in %s", f, typ)
			return types.Typ[types.Int], Val{leaves: []*Term{p.Int(0), p.Int(0)}}
		}
		left := func(f string) {
			ft, v := expr(f)
			ob(st, "the left operand of "+typ+" binds as tightly", p.Implies(op, x.firm(st, ft, v, n)))
		}
		right := func(f string, g *Term) {
			ft, v := expr(f)
			ob(st, "the operand "+f+" of "+typ+" binds more tightly", p.Implies(p.And(op, g), x.tight(st, ft, v, n)))
		}
		switch typ {
		case "BinaryOperation":
			left("LeftExpr")
			right("RightExpr", p.Not(p.Eq(n, p.Int(w.levels().kinds["->"]))))
		case "UnaryExpr":
			right("Expr", p.T)
			ft, v := expr("Expr")
			k := x.nodeText(st, typ, "Kind", ref)
			lv, _, _ := x.operand(st, ft, v)
			ob(st, "a sign belongs to a complete operand", p.Implies(p.Or(p.Eq(k, p.Str("-")), p.Eq(k, p.Str("+"))), p.Eq(lv, p.Int(0))))
		case "TernaryOperation":
			left("Condition")
		case "IsNullExpr", "IsNotNullExpr":
			left("Expr")
		case "BetweenClause":
			left("Expr")
			right("Between", p.T)
			right("And", p.T)
		case "IndexOperation", "ObjectParams":
			left("Object")
		}
	}
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		add := func(name string, b func(st *State, phis []Val) *Term) {
			id := "prop|prec|" + x.jobName + "|" + lc.id + "|" + name
			if w.active(id) {
				out = append(out, LoopInv{name: name, cand: id, build: func(st *State, phis, _ []Val) *Term { return b(st, phis) }})
			}
			for i, ph := range lc.phis {
				i := i
				if id := fmt.Sprint(id, "|err", i); isErrorType(ph.Type()) && w.active(id) {
					out = append(out, LoopInv{name: name + " without error", cand: id, build: func(st *State, phis, _ []Val) *Term {
						return x.p.Implies(x.p.Eq(phis[i].leaves[0], x.p.Int(0)), b(st, phis))
					}})
				}
			}
		}
		for i, ph := range lc.phis {
			i, t := i, ph.Type()
			if !w.isExprT(t) {
				continue
			}
			n := phiName(ph, i)
			add(n+".whole", func(st *State, phis []Val) *Term {
				lv, _, _ := x.operand(st, t, phis[i])
				return p.Eq(lv, p.Int(0))
			})
			add(n+".stop", func(st *State, phis []Val) *Term { return x.stop(st, lex, t, phis[i]) })
			for j, q := range fn.Params {
				if j, u := j, q.Type(); isIntT(u) && !isNamed(u, w.pkg.Pkg.Path()+".Pos") {
					add(fmt.Sprintf("%s.tight%d", n, j), func(st *State, phis []Val) *Term {
						return x.tight(st, t, phis[i], lc.fr.args[j].leaves[0])
					})
				}
			}
		}
		return out
	}
}

// operatorKind: kinds of the tokens that decide how expressions group.
func (x *Exec) operatorKind(k *Term) *Term {
	p := x.p
	out := p.Eq(k, p.Str("<keyword>"))
	for _, o := range sortedKeys(x.w.levels().kinds) {
		out = p.Or(out, p.Eq(k, p.Str(o)))
	}
	return out
}

// tableTexts: the texts in a list field of a table entry that is only ever
// filled when the package starts, with constants.
func (w *World) tableTexts(t types.Type, field int) []string {
	key := fmt.Sprint(w.L.typeKey(t), ".", field)
	if r, ok := w.tabTexts[key]; ok {
		return r
	}
	var out []string
	ok := true
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, is := in.(*ssa.Store)
				if !is {
					continue
				}
				fa, is := st.Addr.(*ssa.FieldAddr)
				if !is || fa.Field != field || !types.Identical(derefType(fa.X.Type()), t) {
					continue
				}
				sl, is := st.Val.(*ssa.Slice)
				if !is || !w.isInit(f) {
					ok = false
					continue
				}
				for _, r := range *sl.X.Referrers() {
					if ia, is := r.(*ssa.IndexAddr); is {
						for _, q := range *ia.Referrers() {
							c, is := q.(*ssa.Store)
							if !is {
								ok = false
								continue
							}
							v, is := c.Val.(*ssa.Const)
							if !is {
								ok = false
								continue
							}
							out = append(out, constant.StringVal(v.Value))
						}
					} else if r != sl {
						ok = false
					}
				}
			}
		}
	}
	if !ok {
		out = nil
	}
	if w.tabTexts == nil {
		w.tabTexts = map[string][]string{}
	}
	w.tabTexts[key] = out
	return out
}

// tableLists: the lists of texts in a struct value that came from such a table.
func (x *Exec) tableLists(t types.Type, v Val) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	at := 0
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := len(x.L.leaves(ft))
		if isSlice(ft) && isStringT(ft.Underlying().(*types.Slice).Elem()) {
			if c := x.w.tableTexts(t, i); len(c) > 0 {
				es, _, _, _ := sliceParts(Val{leaves: v.leaves[at : at+n]})
				x.elemTexts[es[0].id] = c
			}
		}
		at += n
	}
}

func (x *Exec) elemText(st *State, es, v *Term) {
	c, ok := x.elemTexts[es.id]
	if !ok {
		return
	}
	p := x.p
	g := p.F
	for _, s := range c {
		g = p.Or(g, p.And(p.Eq(v, p.Str(s)), p.Eq(x.upper(v), p.Str(strings.ToUpper(s)))))
	}
	x.assume(st, g)
}
