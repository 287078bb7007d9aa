package main

// Contract templates: every function under contract gets the candidate clauses
// below; the clauses that survive the fixpoint are its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env gives contract clauses access to the pre/post states of one call.
type Env struct {
	x         *Exec
	fn        *ssa.Function
	args, res []Val
	pre, post *State
}

type Clause struct {
	id    string
	name  string
	fixed bool
	build func(e *Env) *Term
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func paramTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

func (w *World) ptrName(t types.Type) string {
	if e := derefType(t); e != nil {
		return w.L.typeKey(e)
	}
	return ""
}

// lexParam: index of the *Parser / *Lexer parameter, -1 if none.
func (w *World) lexParam(fn *ssa.Function) int {
	for i, t := range paramTypes(fn) {
		if n := w.ptrName(t); n == "Parser" || n == "Lexer" {
			return i
		}
	}
	return -1
}

func (w *World) hasErr(fn *ssa.Function) int {
	r := fn.Signature.Results()
	if n := r.Len(); n > 0 && isErrorType(r.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func (x *Exec) lexOf(st *State, t types.Type, v Val) *Term {
	if x.w.ptrName(t) == "Lexer" {
		return v.leaves[0]
	}
	return x.p.Select(x.heapGet(st, "Parser.lexer"), v.leaves[0])
}

func (w *World) lexKey(field string) string {
	if k, ok := w.lexKeys[field]; ok {
		return k
	}
	o := w.pkg.Pkg.Scope().Lookup("Lexer")
	for _, l := range w.L.leaves(o.Type()) {
		if l.path == "."+field || strings.HasSuffix(l.path, "."+field) {
			k := "Lexer" + l.path
			w.keySorts[k] = l.sort
			w.lexKeys[field] = k
			return k
		}
	}
	panic(unsup{"lexer field " + field + " not found"})
}

func (x *Exec) lexField(st *State, lex *Term, f string) *Term {
	return x.p.Select(x.heapGet(st, x.w.lexKey(f)), lex)
}

func (x *Exec) measure(st *State, lex *Term) *Term {
	p := x.p
	in := x.slen(x.lexField(st, lex, "input"))
	off := x.lexField(st, lex, "offset")
	cur := x.lexField(st, lex, "currentToken")
	d := p.Sub(in, off)
	return p.Add(p.Add(d, d), p.Ite(p.Eq(cur, p.Int(0)), p.Int(0), p.Int(1)))
}

func (x *Exec) lexWF(st *State, lex *Term) *Term {
	p := x.p
	off := x.lexField(st, lex, "offset")
	return p.And(p.Le(p.Int(0), off), p.Le(off, x.slen(x.lexField(st, lex, "input"))))
}

func (x *Exec) sameLex(a, b *State, lex *Term) *Term {
	p := x.p
	return p.And(p.Eq(x.lexField(a, lex, "offset"), x.lexField(b, lex, "offset")),
		p.Eq(x.lexField(a, lex, "currentToken"), x.lexField(b, lex, "currentToken")))
}

func (e *Env) lex() *Term {
	i := e.x.w.lexParam(e.fn)
	return e.x.lexOf(e.pre, e.fn.Params[i].Type(), e.args[i])
}
func (e *Env) errNil() *Term {
	i := e.x.w.hasErr(e.fn)
	if i < 0 {
		return e.x.p.T
	}
	return e.x.p.Eq(e.res[i].leaves[0], e.x.p.Int(0))
}

func (w *World) touchesLexer(fn *ssa.Function) bool {
	return w.mods[fn][w.lexKey("offset")] || w.mods[fn][w.lexKey("currentToken")]
}

// preClauses: candidate preconditions. Exported functions that are not reached
// through an interface get only the documented ones.
func (w *World) preClauses(fn *ssa.Function) []Clause {
	key := w.fnKey(fn)
	var out []Clause
	add := func(name string, b func(e *Env) *Term) {
		out = append(out, Clause{id: key + "|pre|" + name, name: name, build: b})
	}
	api := w.isAPI(fn)
	for i, t := range paramTypes(fn) {
		i, t := i, t
		pn := fmt.Sprintf("p%d", i)
		switch {
		case isPtr(t):
			add(pn+".nonnil", func(e *Env) *Term { return e.x.p.Not(e.x.p.Eq(e.args[i].leaves[0], e.x.p.Int(0))) })
			if n := w.ptrName(t); n == "Parser" {
				add(pn+".lines", func(e *Env) *Term { return e.x.linesOK(e.pre, e.args[i]) })
				add(pn+".lexer", func(e *Env) *Term {
					return e.x.p.Not(e.x.p.Eq(e.x.lexOf(e.pre, t, e.args[i]), e.x.p.Int(0)))
				})
			}
			if et := derefType(t); w.tabledType(et) {
				add(pn+".table", func(e *Env) *Term { return e.x.tableOK(e.pre, et, e.args[i].leaves[0]) })
			}
			if n := w.ptrName(t); n == "Parser" || n == "Lexer" {
				add(pn+".wf", func(e *Env) *Term { return e.x.lexWF(e.pre, e.x.lexOf(e.pre, t, e.args[i])) })
				if !api {
					add(pn+".avail", func(e *Env) *Term {
						lex := e.x.lexOf(e.pre, t, e.args[i])
						return e.x.p.Lt(e.x.lexField(e.pre, lex, "offset"), e.x.slen(e.x.lexField(e.pre, lex, "input")))
					})
					add(pn+".avail2", func(e *Env) *Term {
						lex := e.x.lexOf(e.pre, t, e.args[i])
						return e.x.p.Lt(e.x.p.Add(e.x.lexField(e.pre, lex, "offset"), e.x.p.Int(1)), e.x.slen(e.x.lexField(e.pre, lex, "input")))
					})
					if ks := w.headConsts(fn); len(ks) > 0 {
						add(pn+".curin", func(e *Env) *Term {
							lex := e.x.lexOf(e.pre, t, e.args[i])
							r := e.x.p.F
							for _, k := range ks {
								r = e.x.p.Or(r, e.x.curIs(e.pre, lex, k))
							}
							return r
						})
					}
					add(pn+".cur", func(e *Env) *Term {
						return e.x.p.Not(e.x.p.Eq(e.x.lexField(e.pre, e.x.lexOf(e.pre, t, e.args[i]), "currentToken"), e.x.p.Int(0)))
					})
				}
			}
		case isIface(t):
			if !isErrorType(t) || !api {
				if !api || (w.dispatched(fn) && !isErrorType(t)) {
					add(pn+".nonnil", func(e *Env) *Term { return e.x.p.Not(e.x.p.Eq(e.args[i].leaves[0], e.x.p.Int(0))) })
				}
			}
			add(pn+".ntn", func(e *Env) *Term {
				p := e.x.p
				return p.Or(p.Eq(e.args[i].leaves[0], p.Int(0)), p.Not(p.Eq(e.args[i].leaves[1], p.Int(0))))
			})
		case isSlice(t):
			if w.elemOKType(t.Underlying().(*types.Slice).Elem()) {
				add(pn+".elems", func(e *Env) *Term { _, _, _, ok := sliceParts(e.args[i]); return ok })
			}
			if isIntSlice(t) && !api {
				for j, u := range paramTypes(fn) {
					if j := j; isStringT(u) {
						add(fmt.Sprintf("%s.lines.p%d", pn, j), func(e *Env) *Term {
							return e.x.lineTable(e.args[i], e.args[j].leaves[0], e.x.slen(e.args[j].leaves[0]))
						})
					}
				}
			}
			if !api {
				add(pn+".nonempty", func(e *Env) *Term {
					_, ln, _, _ := sliceParts(e.args[i])
					return e.x.p.Lt(e.x.p.Int(0), ln)
				})
			}
		case isIntT(t) && !api && !w.dispatched(fn):
			add(pn+".ge0", func(e *Env) *Term { return e.x.p.Le(e.x.p.Int(0), e.args[i].leaves[0]) })
		case isStructT(t) && !api:
			for _, c := range w.valueRels(t) {
				c := c
				add(pn+c.name, func(e *Env) *Term { return c.build(e.x, e.args[i]) })
			}
		case isSig(t):
			add(pn+".nonnil", func(e *Env) *Term {
				if e.args[i].fn != nil {
					return e.x.p.T
				}
				return e.x.p.Not(e.x.p.Eq(e.args[i].leaves[0], e.x.p.Int(0)))
			})
		}
	}
	if w.fixedPre(fn) {
		// the documented precondition of an entry point: never weakened
		var o2 []Clause
		for _, c := range out {
			// whether a typed nil is allowed is inferred for plain entry points
			if strings.HasSuffix(c.name, ".ntn") && !w.dispatched(fn) {
				if w.active(c.id) {
					o2 = append(o2, c)
				}
				continue
			}
			c.fixed = true
			o2 = append(o2, c)
		}
		return o2
	}
	return w.activeClauses(out)
}

func (w *World) fixedPre(fn *ssa.Function) bool { return w.isAPI(fn) || w.dispatched(fn) }

func (c Clause) cands() []string {
	if c.fixed {
		return nil
	}
	return []string{c.id}
}

func (w *World) elemOKType(et types.Type) bool {
	if isIface(et) {
		return true
	}
	if t := derefType(et); t != nil {
		return w.isAST(t)
	}
	return isStructT(et) && w.isAST(et)
}

func (w *World) activeClauses(cs []Clause) []Clause {
	var out []Clause
	for _, c := range cs {
		if w.active(c.id) {
			out = append(out, c)
		}
	}
	return out
}

func (w *World) active(id string) bool {
	if w.dropped[id] {
		return false
	}
	if strings.HasPrefix(id, "prop|") {
		return true
	}
	if w.onlyCands != nil && !w.onlyCands[id] {
		return false
	}
	return true
}

func (w *World) postClauses(fn *ssa.Function) []Clause {
	key := w.fnKey(fn)
	var out []Clause
	add := func(name string, b func(e *Env) *Term) {
		out = append(out, Clause{id: key + "|post|" + name, name: name, build: b})
	}
	rs := fn.Signature.Results()
	ei := w.hasErr(fn)
	nonnil := func(x *Exec, v Val) *Term { return x.p.Not(x.p.Eq(v.leaves[0], x.p.Int(0))) }
	if lp := w.lexParam(fn); lp >= 0 && w.touchesLexer(fn) {
		add("lex.same", func(e *Env) *Term { return e.x.sameLex(e.pre, e.post, e.lex()) })
		add("lex.wf", func(e *Env) *Term { return e.x.lexWF(e.post, e.lex()) })
		le := func(e *Env) *Term { return e.x.p.Le(e.x.measure(e.post, e.lex()), e.x.measure(e.pre, e.lex())) }
		lt := func(e *Env) *Term { return e.x.p.Lt(e.x.measure(e.post, e.lex()), e.x.measure(e.pre, e.lex())) }
		add("M.le", le)
		add("M.lt", lt)
		add("M.lt|cur", func(e *Env) *Term {
			p := e.x.p
			return p.Implies(p.Not(p.Eq(e.x.lexField(e.pre, e.lex(), "currentToken"), p.Int(0))), lt(e))
		})
		add("cur", func(e *Env) *Term {
			return e.x.p.Not(e.x.p.Eq(e.x.lexField(e.post, e.lex(), "currentToken"), e.x.p.Int(0)))
		})
		if ei >= 0 {
			add("M.lt|ok", func(e *Env) *Term { return e.x.p.Implies(e.errNil(), lt(e)) })
			add("M.lt|ok,cur", func(e *Env) *Term {
				p := e.x.p
				return p.Implies(p.And(e.errNil(), p.Not(p.Eq(e.x.lexField(e.pre, e.lex(), "currentToken"), p.Int(0)))), lt(e))
			})
			add("cur|ok", func(e *Env) *Term {
				p := e.x.p
				return p.Implies(e.errNil(), p.Not(p.Eq(e.x.lexField(e.post, e.lex(), "currentToken"), p.Int(0))))
			})
			add("cur.pre|ok", func(e *Env) *Term {
				p := e.x.p
				return p.Implies(e.errNil(), p.Not(p.Eq(e.x.lexField(e.pre, e.lex(), "currentToken"), p.Int(0))))
			})
			add("same|err", func(e *Env) *Term { return e.x.p.Or(e.errNil(), e.x.sameLex(e.pre, e.post, e.lex())) })
		}
		// relation between the outcome and the lookahead token, for functions that
		// take the expected keyword or kind as a parameter
		if fin := rs.Len() - 1; fin >= 0 {
			ft := rs.At(fin).Type()
			var yes func(e *Env) *Term
			switch {
			case fin == ei:
				yes = func(e *Env) *Term { return e.errNil() }
			case isBool(ft):
				yes = func(e *Env) *Term { return e.res[fin].leaves[0] }
			case isPtr(ft) || isIface(ft):
				yes = func(e *Env) *Term { return nonnil(e.x, e.res[fin]) }
			}
			for j, t := range paramTypes(fn) {
				j := j
				kind, one, ok := w.tokenParam(t)
				if !ok || yes == nil {
					continue
				}
				is := func(e *Env) (*Term, *Term) {
					p := e.x.p
					if one {
						return e.x.curIsTerm(e.pre, e.lex(), e.args[j].leaves[0], kind), p.T
					}
					es, ln, _, _ := sliceParts(e.args[j])
					return e.x.curIsTerm(e.pre, e.lex(), p.Select(es[0], p.Int(0)), kind), p.Eq(ln, p.Int(1))
				}
				add(fmt.Sprintf("yes|cur=p%d", j), func(e *Env) *Term {
					c, g := is(e)
					return e.x.p.Implies(e.x.p.And(g, c), yes(e))
				})
				add(fmt.Sprintf("cur=p%d|yes", j), func(e *Env) *Term {
					c, g := is(e)
					return e.x.p.Implies(e.x.p.And(g, yes(e)), c)
				})
			}
		}
		for i := 0; i < rs.Len(); i++ {
			i := i
			t := rs.At(i).Type()
			if i == ei {
				continue
			}
			var yes func(e *Env) *Term
			switch {
			case isPtr(t) || isIface(t):
				yes = func(e *Env) *Term { return nonnil(e.x, e.res[i]) }
			case isBool(t):
				yes = func(e *Env) *Term { return e.res[i].leaves[0] }
			default:
				continue
			}
			add(fmt.Sprintf("cur.pre|r%d", i), func(e *Env) *Term {
				p := e.x.p
				return p.Implies(p.And(e.errNil(), yes(e)), p.Not(p.Eq(e.x.lexField(e.pre, e.lex(), "currentToken"), p.Int(0))))
			})
			if w.ptrName(t) == "Token" {
				add(fmt.Sprintf("r%d.is.cur", i), func(e *Env) *Term {
					p := e.x.p
					return p.Implies(p.And(e.errNil(), yes(e)), p.Eq(e.res[i].leaves[0], e.x.lexField(e.pre, e.lex(), "currentToken")))
				})
			}
			if !isBool(t) && ei >= 0 {
				for _, k := range w.fnConsts(fn) {
					k := k
					add(fmt.Sprintf("r%d.nonnil|ok,cur=%s", i, k.id), func(e *Env) *Term {
						p := e.x.p
						return p.Implies(p.And(e.errNil(), e.x.curIs(e.pre, e.lex(), k)), nonnil(e.x, e.res[i]))
					})
				}
			}
			add(fmt.Sprintf("M.lt|r%d", i), func(e *Env) *Term { return e.x.p.Implies(e.x.p.And(e.errNil(), yes(e)), lt(e)) })
			add(fmt.Sprintf("same|!r%d", i), func(e *Env) *Term {
				p := e.x.p
				return p.Or(p.And(e.errNil(), yes(e)), p.Not(e.errNil()), e.x.sameLex(e.pre, e.post, e.lex()))
			})
		}
	}
	for i, t := range paramTypes(fn) {
		i := i
		if w.ptrName(t) == "Parser" && w.touchesLines(w.mods[fn]) {
			add(fmt.Sprintf("p%d.lines", i), func(e *Env) *Term { return e.x.linesOK(e.post, e.args[i]) })
		}
	}
	for i := 0; i < rs.Len(); i++ {
		i := i
		t := rs.At(i).Type()
		rn := fmt.Sprintf("r%d", i)
		if i == ei {
			add(rn+".ntn", func(e *Env) *Term {
				p := e.x.p
				return p.Or(p.Eq(e.res[i].leaves[0], p.Int(0)), p.Not(p.Eq(e.res[i].leaves[1], p.Int(0))))
			})
			continue
		}
		switch {
		case isPtr(t) || isIface(t):
			add(rn+".nonnil", func(e *Env) *Term { return nonnil(e.x, e.res[i]) })
			if ei >= 0 {
				add(rn+".nonnil|ok", func(e *Env) *Term { return e.x.p.Implies(e.errNil(), nonnil(e.x, e.res[i])) })
				add(rn+".nil|err", func(e *Env) *Term { return e.x.p.Or(e.errNil(), e.x.p.Not(nonnil(e.x, e.res[i]))) })
			}
			if isIface(t) {
				add(rn+".ntn", func(e *Env) *Term {
					p := e.x.p
					return p.Or(p.Eq(e.res[i].leaves[0], p.Int(0)), p.Not(p.Eq(e.res[i].leaves[1], p.Int(0))))
				})
				if ei >= 0 {
					add(rn+".ntn|ok", func(e *Env) *Term {
						p := e.x.p
						return p.Or(p.Not(e.errNil()), p.Eq(e.res[i].leaves[0], p.Int(0)), p.Not(p.Eq(e.res[i].leaves[1], p.Int(0))))
					})
				}
			}
			// a nil input tail: result non-nil only when a parameter of the same kind was
			if n := w.ptrName(t); n == "Parser" {
				add(rn+".lines", func(e *Env) *Term { return e.x.linesOK(e.post, e.res[i]) })
				add(rn+".lexer", func(e *Env) *Term {
					return e.x.p.Not(e.x.p.Eq(e.x.lexOf(e.post, t, e.res[i]), e.x.p.Int(0)))
				})
			}
			if n := w.ptrName(t); n == "Parser" || n == "Lexer" {
				add(rn+".wf", func(e *Env) *Term { return e.x.lexWF(e.post, e.x.lexOf(e.post, t, e.res[i])) })
			}
		case isSlice(t):
			if w.elemOKType(t.Underlying().(*types.Slice).Elem()) {
				add(rn+".elems", func(e *Env) *Term { _, _, _, ok := sliceParts(e.res[i]); return e.x.p.Implies(e.errNil(), ok) })
			}
			if isIntSlice(t) {
				for j, u := range paramTypes(fn) {
					if j := j; isStringT(u) {
						add(fmt.Sprintf("%s.lines.p%d", rn, j), func(e *Env) *Term {
							return e.x.lineTable(e.res[i], e.args[j].leaves[0], e.x.slen(e.args[j].leaves[0]))
						})
					}
					if j := j; w.ptrName(u) == "Parser" {
						add(fmt.Sprintf("%s.lines.p%d", rn, j), func(e *Env) *Term {
							in := e.x.lexField(e.post, e.lex(), "input")
							return e.x.lineTable(e.res[i], in, e.x.slen(in))
						})
					}
				}
			}
			add(rn+".nonempty", func(e *Env) *Term {
				_, ln, _, _ := sliceParts(e.res[i])
				return e.x.p.Implies(e.errNil(), e.x.p.Lt(e.x.p.Int(0), ln))
			})
			add(rn+".nn.nonempty", func(e *Env) *Term {
				_, ln, nn, _ := sliceParts(e.res[i])
				return e.x.p.Implies(e.x.p.And(e.errNil(), nn), e.x.p.Lt(e.x.p.Int(0), ln))
			})
			if ei >= 0 {
				add(rn+".empty|err", func(e *Env) *Term {
					_, ln, _, _ := sliceParts(e.res[i])
					return e.x.p.Or(e.errNil(), e.x.p.Eq(ln, e.x.p.Int(0)))
				})
			}
		case isIntT(t):
			add(rn+".ge0", func(e *Env) *Term { return e.x.p.Implies(e.errNil(), e.x.p.Le(e.x.p.Int(0), e.res[i].leaves[0])) })
		case isBool(t):
			if ei >= 0 {
				add(rn+".false|err", func(e *Env) *Term { return e.x.p.Or(e.errNil(), e.x.p.Not(e.res[i].leaves[0])) })
			}
		}
	}
	if extra := w.extraPosts[key]; extra != nil {
		out = append(out, extra...)
	}
	return w.activeClauses(out)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// isAPI: callable from outside with arbitrary arguments.
func (w *World) isAPI(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	o := fn.Object()
	if o == nil || !o.Exported() {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if e := derefType(t); e != nil {
			t = e
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

// dispatched: reached through an AST interface call (FormatSQL, Accept, ...).
func (w *World) dispatched(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if w.ifaceMethods == nil {
		w.ifaceMethods = map[string]bool{}
		sc := w.pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && isIface(tn.Type()) && w.isASTIface(tn.Type()) {
				it := tn.Type().Underlying().(*types.Interface)
				for i := 0; i < it.NumMethods(); i++ {
					w.ifaceMethods[it.Method(i).Name()] = true
				}
			}
		}
	}
	return w.isASTish(r.Type()) && w.ifaceMethods[fn.Name()]
}

const inlineMax = 70

func (w *World) instrCount(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); !ok {
				n++
			}
		}
	}
	return n
}

func (w *World) shouldInline(x *Exec, fn *ssa.Function) bool {
	if fn.Parent() != nil || wrapper(fn) { // closures and promotion wrappers
		return true
	}
	if x.mode.inlineAll != nil && x.mode.inlineAll(fn) {
		return true
	}
	if r, ok := w.inlineMemo[fn]; ok {
		return r
	}
	r := w.inlinable(fn)
	w.inlineMemo[fn] = r
	return r
}

func (w *World) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || w.recursive(fn) || w.dispatched(fn) {
		return false
	}
	if w.lexerInternal(fn) {
		return true
	}
	if w.lexParam(fn) >= 0 && w.touchesLexer(fn) && !(len(w.analyze(fn).loops) == 0 && w.leaf(fn)) {
		return false
	}
	if len(w.analyze(fn).loops) > 0 && !hasVariadic(fn) {
		return false
	}
	return w.instrCount(fn) <= inlineMax
}

func (w *World) leaf(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return true
}

// lexerInternal: an unexported *Lexer method that only other *Lexer methods call;
// the lexer's entry points carry the contracts.
func (w *World) lexerInternal(fn *ssa.Function) bool {
	isLex := func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return r != nil && w.ptrName(r.Type()) == "Lexer"
	}
	if !isLex(fn) || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	for f, cs := range w.callees {
		if isLex(f) {
			continue
		}
		for _, g := range cs {
			if g == fn {
				return false
			}
		}
	}
	return true
}

func hasVariadic(fn *ssa.Function) bool { return fn.Signature.Variadic() }

// underContract lists the functions that are verified against a contract of
// their own (every function not always inlined, and every API function).
func (w *World) underContract(fn *ssa.Function) bool {
	if fn.Parent() != nil || wrapper(fn) || fn.Name() == "init" {
		return false
	}
	if strings.HasPrefix(fn.Name(), "init#") {
		return false
	}
	return !w.inlinable(fn) || w.isAPI(fn) || w.dispatched(fn)
}

// ---------------------------------------------------------------- AST invariants

type fieldInfo struct {
	path string
	typ  types.Type
}

func (w *World) walkFields(t types.Type) []fieldInfo {
	if r, ok := w.fieldMemo[t]; ok {
		return r
	}
	var out []fieldInfo
	var rec func(t types.Type, path string)
	rec = func(t types.Type, path string) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := f.Type().Underlying().(*types.Struct); ok && !isNamed(f.Type(), "strings.Builder") {
				rec(f.Type(), path+"."+f.Name())
				continue
			}
			out = append(out, fieldInfo{path + "." + f.Name(), f.Type()})
		}
	}
	rec(t, "")
	w.fieldMemo[t] = out
	return out
}

type invClause struct {
	id   string
	kind string
	f    fieldInfo
}

// invs: active invariant clauses of one field.
func (w *World) invs(t types.Type, f fieldInfo) []invClause {
	tk := w.L.typeKey(t)
	var out []invClause
	add := func(kind string) {
		id := "inv|" + tk + f.path + "|" + kind
		if w.active(id) {
			out = append(out, invClause{id, kind, f})
		}
	}
	switch {
	case isPtr(f.typ):
		add("nonnil")
	case isIface(f.typ):
		add("nonnil")
		add("ntn")
	case isSlice(f.typ):
		if w.elemOKType(f.typ.Underlying().(*types.Slice).Elem()) {
			add("elems")
		}
		add("nonempty")
	}
	return out
}

func (x *Exec) invTerm(c invClause, v Val) *Term {
	p := x.p
	switch c.kind {
	case "nonnil":
		return p.Not(p.Eq(v.leaves[0], p.Int(0)))
	case "ntn":
		return p.Or(p.Eq(v.leaves[0], p.Int(0)), p.Not(p.Eq(v.leaves[1], p.Int(0))))
	case "elems":
		_, _, _, ok := sliceParts(v)
		return ok
	case "nonempty":
		_, ln, _, _ := sliceParts(v)
		return p.Lt(p.Int(0), ln)
	}
	panic("inv kind " + c.kind)
}

// childRef: the reference of a pointer/interface field that must be published too.
func (w *World) childRef(t types.Type, v Val) *Term {
	if isPtr(t) && w.isASTish(t) {
		return v.leaves[0]
	}
	if isIface(t) && w.isASTIface(t) {
		return v.leaves[1]
	}
	return nil
}

func (x *Exec) addFact(t *Term) {
	if t == x.p.T {
		return
	}
	if x.assSeen[t.id] {
		return
	}
	x.assSeen[t.id] = true
	x.ass = append(x.ass, t)
}

func (x *Exec) truncAss(n int) {
	for _, t := range x.ass[n:] {
		delete(x.assSeen, t.id)
	}
	x.ass = x.ass[:n]
}

// loadFacts: what may be assumed about a value just loaded from the heap.
func (x *Exec) loadFacts(st *State, root types.Type, path string, t types.Type, base *Term, v Val) {
	p, w := x.p, x.w
	if _, local := x.allocs[base.id]; local && !st.pub[base.id] {
		return
	}
	ls := x.L.leaves(t)
	for i, l := range ls {
		if strings.HasSuffix(l.path, ".len") && l.sort == SInt {
			x.addFact(p.Le(p.Int(0), v.leaves[i]))
			if i+1 < len(ls) && strings.HasSuffix(ls[i+1].path, ".nn") {
				x.addFact(p.Or(v.leaves[i+1], p.Eq(v.leaves[i], p.Int(0))))
			}
		}
	}
	if isPtr(t) {
		x.addFact(p.Implies(st.reach, p.And(p.Le(v.leaves[0], st.next), p.Le(p.Int(0), v.leaves[0]))))
	}
	if !w.isAST(root) {
		return
	}
	// guard: the object is published
	g := []*Term{p.Not(p.Eq(base, p.Int(0)))}
	if !st.pub[base.id] {
		g = append(g, x.pub(base))
	}
	for _, a := range x.localAllocsOf(root) {
		if !st.pub[a.id] && a != base {
			g = append(g, p.Not(p.Eq(base, a)))
		}
	}
	guard := p.And(g...)
	for _, o := range x.orInvs(root) {
		if o.has(path) || path == "" {
			x.deps[o.id] = true
			x.addFact(p.Implies(guard, x.orTerm(o, func(f fieldInfo) Val { return x.fieldOf(st, root, f, base) })))
		}
	}
	emit := func(f fieldInfo, fv Val) {
		for _, c := range w.invs(root, f) {
			x.deps[c.id] = true
			x.addFact(p.Implies(guard, x.invTerm(c, fv)))
		}
		if ch := w.childRef(f.typ, fv); ch != nil {
			x.addFact(p.Implies(guard, p.Or(p.Eq(ch, p.Int(0)), x.pub(ch))))
		}
		if isIface(f.typ) {
			x.addFact(p.Implies(guard, x.tagRange(f.typ, fv)))
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		// struct value: distribute over its fields
		for _, f := range w.walkFields(t) {
			lo, hi := x.leafRange(t, f.path)
			emit(fieldInfo{path + f.path, f.typ}, Val{leaves: v.leaves[lo:hi]})
		}
		return
	}
	emit(fieldInfo{path, t}, v)
}

func (x *Exec) tagRange(it types.Type, v Val) *Term {
	p := x.p
	if !x.w.isASTIface(it) {
		return p.T
	}
	alts := []*Term{p.Eq(v.leaves[0], p.Int(0))}
	for _, t := range x.w.implementers(it) {
		alts = append(alts, p.Eq(v.leaves[0], p.Int(int64(x.w.typeTag(t)))))
	}
	if len(alts) > 24 {
		return p.T
	}
	return p.Or(alts...)
}

func (x *Exec) leafRange(t types.Type, path string) (int, int) {
	ls := x.L.leaves(t)
	lo := -1
	for i, l := range ls {
		if l.path == path || strings.HasPrefix(l.path, path+".") || strings.HasPrefix(l.path, path+"[") {
			if lo < 0 {
				lo = i
			}
		} else if lo >= 0 {
			return lo, i
		}
	}
	return lo, len(ls)
}

func (x *Exec) localAllocsOf(t types.Type) []*Term {
	return x.allocsByType[x.L.typeKey(t)]
}

// pubConds: what must hold of a local object for it to be published. emit is
// called with the condition and the candidates it would refute.
func (x *Exec) publish(st *State, t types.Type, v Val, g *Term, why string) {
	if g == nil {
		g = x.p.T
	}
	if ch := x.w.childRef(t, v); ch != nil {
		x.publishRef(st, ch, g, why, 0)
	}
}

func (x *Exec) publishRef(st *State, ref, g *Term, why string, d int) {
	p, w := x.p, x.w
	if g == p.F || st.reach == p.F || p.And(st.reach, g) == p.F {
		return
	}
	if ref.op == "int" && ref.n == 0 {
		return
	}
	if t, ok := x.allocs[ref.id]; ok {
		if !w.isAST(t) {
			return
		}
		if st.pub[ref.id] {
			return
		}
		st.mpub[ref.id] = true
		if p.Implies(st.reach, g) == p.T {
			st.pub[ref.id] = true
		} else if prev, ok := st.pubIn[ref.id]; ok && p.Implies(p.And(st.reach, g), prev) == p.T {
			return
		} else {
			st.pubIn[ref.id] = p.And(st.reach, g)
		}
		s2 := *st
		s2.reach = p.And(st.reach, g)
		if x.plug != nil && x.plug.onPub != nil {
			x.plug.onPub(&s2, t, ref)
		}
		for _, f := range w.walkFields(t) {
			var fv Val
			for _, k := range x.objKeys(t, f.path, f.typ) {
				fv.leaves = append(fv.leaves, p.Select(x.heapGet(st, k), ref))
			}
			for _, c := range w.invs(t, f) {
				x.oblige(&s2, "publish", fmt.Sprintf("published %s satisfies %s%s %s (%s)", w.L.typeKey(t), w.L.typeKey(t), f.path, c.kind, why), x.invTerm(c, fv), c.id)
			}
			if ch := w.childRef(f.typ, fv); ch != nil {
				x.publishRef(st, ch, g, why, d+1)
			}
		}
		for _, o := range x.orInvs(t) {
			x.deps[o.id] = true
			x.oblige(&s2, "publish", fmt.Sprintf("published %s satisfies: %s (%s)", w.L.typeKey(t), o, why), x.orTerm(o, func(f fieldInfo) Val { return x.fieldOf(st, t, f, ref) }), o.id)
		}
		x.addFact(p.Implies(p.And(st.reach, g), x.pub(ref)))
		return
	}
	if ref.op == "ite" && d < 30 && x.iteHasLocal(ref, 12) {
		x.publishRef(st, ref.args[1], p.And(g, ref.args[0]), why, d+1)
		x.publishRef(st, ref.args[2], p.And(g, p.Not(ref.args[0])), why, d+1)
		return
	}
	if ref.op == "app" && strings.HasPrefix(ref.name, "box_") {
		x.addFact(x.pub(ref))
		return
	}
	s2 := *st
	s2.reach = p.And(st.reach, g)
	cond := p.Or(p.Eq(ref, p.Int(0)), x.pub(ref))
	if x.assSeen[p.Implies(s2.reach, cond).id] {
		return
	}
	x.oblige(&s2, "publish", "child node is published ("+why+")", cond)
}

func (x *Exec) iteHasLocal(t *Term, d int) bool {
	if _, ok := x.allocs[t.id]; ok {
		return true
	}
	if t.op == "int" || (t.op == "app" && strings.HasPrefix(t.name, "box_")) {
		return true
	}
	if t.op != "ite" || d == 0 {
		return false
	}
	return x.iteHasLocal(t.args[1], d-1) || x.iteHasLocal(t.args[2], d-1)
}

// couldPublish: the condition under which the value is publishable (used for loop candidates).
func (x *Exec) couldPublish(st *State, ref *Term, seen map[int]bool, d int) *Term {
	p, w := x.p, x.w
	if ref.op == "int" && ref.n == 0 {
		return p.T
	}
	if t, ok := x.allocs[ref.id]; ok {
		if !w.isAST(t) || st.pub[ref.id] || seen[ref.id] {
			return p.T
		}
		seen[ref.id] = true
		var cs []*Term
		for _, f := range w.walkFields(t) {
			var fv Val
			for _, k := range x.objKeys(t, f.path, f.typ) {
				fv.leaves = append(fv.leaves, p.Select(x.heapGet(st, k), ref))
			}
			for _, c := range w.invs(t, f) {
				x.deps[c.id] = true
				cs = append(cs, x.invTerm(c, fv))
			}
			if ch := w.childRef(f.typ, fv); ch != nil {
				cs = append(cs, x.couldPublish(st, ch, seen, d+1))
			}
		}
		for _, o := range x.orInvs(t) {
			x.deps[o.id] = true
			cs = append(cs, x.orTerm(o, func(f fieldInfo) Val { return x.fieldOf(st, t, f, ref) }))
		}
		return p.And(cs...)
	}
	if ref.op == "ite" && d < 12 && x.iteHasLocal(ref, 12) {
		return p.And(p.Implies(ref.args[0], x.couldPublish(st, ref.args[1], seen, d+1)),
			p.Implies(p.Not(ref.args[0]), x.couldPublish(st, ref.args[2], seen, d+1)))
	}
	if ref.op == "app" && strings.HasPrefix(ref.name, "box_") {
		return p.T
	}
	return p.Or(p.Eq(ref, p.Int(0)), x.pub(ref))
}

// markPublished marks the local objects reachable from ref as published without obligations
// (they were established by a couldPublish obligation).
func (x *Exec) markPublished(st *State, ref, g *Term, d int) {
	save := x.noObl
	x.noObl = true
	x.publishRef(st, ref, g, "", d)
	x.noObl = save
}

// checkStore: stores into objects others can already see must keep the invariant.
func (x *Exec) checkStore(st *State, a *Addr, v Val, in ssa.Instruction) {
	p, w := x.p, x.w
	if x.onStore != nil {
		x.onStore(x, st, a, v, in)
	}
	if x.plug != nil && x.plug.onStore != nil {
		x.plug.onStore(st, a, v, in)
	}
	if !w.isAST(a.root) {
		return
	}
	if _, local := x.allocs[a.base.id]; local && !st.mpub[a.base.id] {
		return
	}
	for _, o := range x.orInvs(a.root) {
		if !o.has(a.path) && a.path != "" {
			continue
		}
		x.deps[o.id] = true
		x.oblige(st, "publish", fmt.Sprintf("store to a shared %s keeps: %s", w.L.typeKey(a.root), o), x.orTerm(o, func(f fieldInfo) Val {
			if f.path == a.path {
				return v
			}
			if a.path == "" || strings.HasPrefix(f.path, a.path+".") {
				lo, hi := x.leafRange(a.typ, strings.TrimPrefix(f.path, a.path))
				return Val{leaves: v.leaves[lo:hi]}
			}
			return x.fieldOf(st, a.root, f, a.base)
		}), o.id)
	}
	visit := func(f fieldInfo, fv Val) {
		for _, c := range w.invs(a.root, f) {
			x.oblige(st, "publish", fmt.Sprintf("store to a shared %s keeps %s%s %s", w.L.typeKey(a.root), w.L.typeKey(a.root), f.path, c.kind), x.invTerm(c, fv), c.id)
		}
		if ch := w.childRef(f.typ, fv); ch != nil {
			x.publishRef(st, ch, p.T, "stored into a shared node", 0)
		}
	}
	if _, ok := a.typ.Underlying().(*types.Struct); ok {
		for _, f := range w.walkFields(a.typ) {
			lo, hi := x.leafRange(a.typ, f.path)
			visit(fieldInfo{a.path + f.path, f.typ}, Val{leaves: v.leaves[lo:hi]})
		}
		return
	}
	visit(fieldInfo{a.path, a.typ}, v)
}

// ---------------------------------------------------------------- calls

// boolParam: the first flag of a function (recursion may be well-founded for one value of it only).
func (w *World) boolParam(fn *ssa.Function) int {
	for i, t := range paramTypes(fn) {
		if isBool(t) {
			return i
		}
	}
	return -1
}

func (x *Exec) isSCCEdge(fn *ssa.Function) bool {
	return x.w.scc[x.top] == x.w.scc[fn] && x.w.recursive(fn) && x.w.recursive(x.top)
}

func (w *World) applyContract(x *Exec, st *State, fn *ssa.Function, args []Val) []Val {
	rs := w.applyContract0(x, st, fn, args)
	if x.plug != nil && x.plug.onCall != nil {
		x.plug.onCall(st, fn, args, rs)
	}
	return rs
}

func (w *World) invoke(x *Exec, st *State, c *ssa.CallCommon, args []Val) []Val {
	rs := w.invoke0(x, st, c, args)
	if x.plug != nil && x.plug.onInvoke != nil {
		x.plug.onInvoke(st, c, args, rs)
	}
	return rs
}

func (w *World) dynCall(x *Exec, st *State, c *ssa.CallCommon, fv Val, args []Val) []Val {
	rs := w.dynCall0(x, st, c, fv, args)
	if x.plug != nil && x.plug.onDyn != nil {
		x.plug.onDyn(st, c, fv, args, rs)
	}
	return rs
}

func (w *World) applyContract0(x *Exec, st *State, fn *ssa.Function, args []Val) []Val {
	p := x.p
	x.callDeps[fn] = true
	e := &Env{x: x, fn: fn, args: args, pre: st}
	for i, t := range paramTypes(fn) {
		x.publish(st, t, args[i], p.T, "passed to "+fn.Name())
	}
	for _, c := range w.preClauses(fn) {
		x.oblige(st, "pre", "precondition "+c.name+" of "+w.fnKey(fn), c.build(e), c.cands()...)
	}
	if lp := w.lexParam(fn); lp >= 0 && x.isSCCEdge(fn) && w.lexParam(x.top) >= 0 {
		te := &Env{x: x, fn: x.top, args: x.topFr.args, pre: x.topFr.entry}
		m0 := x.measure(x.topFr.entry, te.lex())
		m1 := x.measure(st, e.lex())
		edge := "edge|" + w.fnKey(x.top) + "|" + w.fnKey(fn)
		if w.active(edge + "|lt") {
			x.oblige2(st, "term", "call of "+w.fnKey(fn)+" decreases the measure", p.Lt(m1, m0), edge+"|lt")
			x.deps[edge+"|lt"] = true
		} else if bp := w.boolParam(x.top); bp >= 0 {
			b := x.topFr.args[bp].leaves[0]
			if w.active(edge + "|lt|T") {
				x.oblige2(st, "term", "call of "+w.fnKey(fn)+" decreases the measure when the flag is set", p.Implies(b, p.Lt(m1, m0)), edge+"|lt|T")
			}
			if w.active(edge + "|lt|F") {
				x.oblige2(st, "term", "call of "+w.fnKey(fn)+" decreases the measure when the flag is not set", p.Implies(p.Not(b), p.Lt(m1, m0)), edge+"|lt|F")
			}
		}
		if w.active(edge + "|le") {
			x.oblige2(st, "term", "call of "+w.fnKey(fn)+" does not increase the measure", p.Le(m1, m0), edge+"|le")
		}
		ctx := ""
		if bp := w.boolParam(fn); bp >= 0 {
			switch args[bp].leaves[0] {
			case p.T:
				ctx = "T"
			case p.F:
				ctx = "F"
			}
		}
		x.edges[w.fnKey(fn)+"#"+ctx] = true
	}
	pre := st.clone()
	e.pre = pre
	var mods []string
	for k := range w.mods[fn] {
		mods = append(mods, k)
	}
	sort.Strings(mods)
	pure := w.lexParam(fn) >= 0 && w.touchesLexer(fn) && w.active(w.fnKey(fn)+"|post|lex.same")
	for _, k := range mods {
		if strings.HasPrefix(k, "G:") {
			continue
		}
		if _, ok := w.keySorts[k]; !ok {
			x.unsupported("unknown key %s", k)
		}
		if pure && (k == w.lexKey("offset") || k == w.lexKey("currentToken")) {
			x.deps[w.fnKey(fn)+"|post|lex.same"] = true
			continue
		}
		old := x.heapGet(st, k)
		var nw *Term
		if lp := w.lexParam(fn); lp >= 0 && strings.HasPrefix(k, "Lexer.") {
			// the only lexer a function touches is the one it was given
			f := p.Fresh("hv."+k, elemSort(old.sort))
			x.upText[f.id] = "prop|case|field|" + k
			nw = p.Store(old, e.lex(), f)
		} else {
			nw = p.Fresh("hv."+k, old.sort)
			x.arrKey[nw] = k
			for _, a := range x.allocsWithKey(k) {
				if !st.mpub[a.id] {
					nw = p.Store(nw, a, p.Select(old, a))
				}
			}
		}
		st.heap[k] = nw
	}
	nx := p.Fresh("next", SInt)
	x.ass = append(x.ass, p.Le(st.next, nx))
	st.next = nx
	rs := x.resultVals(st, fn.Signature, fn.Name())
	e.post, e.res = st, rs
	for _, c := range w.postClauses(fn) {
		x.deps[c.id] = true
		x.assume(st, c.build(e))
	}
	en := e.errNil()
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		if ch := w.childRef(t, rs[i]); ch != nil {
			x.assume(st, p.Implies(en, p.Or(p.Eq(ch, p.Int(0)), x.pub(ch))))
		}
		if isPtr(t) {
			x.assume(st, p.And(p.Le(p.Int(0), rs[i].leaves[0]), p.Le(rs[i].leaves[0], st.next)))
		}
		if isIface(t) {
			x.assume(st, x.tagRange(t, rs[i]))
		}
	}
	return rs
}

// oblige2: like oblige, but the condition is not assumed afterwards.
func (x *Exec) oblige2(st *State, kind, what string, cond *Term, cands ...string) {
	n := len(x.ass)
	x.oblige(st, kind, what, cond, cands...)
	x.truncAss(n)
}

func (x *Exec) allocsWithKey(k string) []*Term {
	tk := k
	if i := strings.IndexAny(k, ".["); i >= 0 && !strings.HasPrefix(k, "cell<") {
		tk = k[:i]
	}
	if strings.HasPrefix(k, "cell<") {
		return nil
	}
	if _, ok := x.w.astTypes[tk]; !ok {
		return nil
	}
	return x.allocsByType[tk]
}

// atReturn: postconditions of the function being verified.
func (x *Exec) atReturn(fr *Frame, st *State, vals []Val, in ssa.Instruction) {
	w := x.w
	fn := fr.fn
	if x.onReturn != nil {
		x.onReturn(x, fr, st, vals, in)
	}
	if x.plug != nil && x.plug.onReturn != nil {
		x.plug.onReturn(fr, st, vals)
	}
	if x.propMode {
		x.retGuards = append(x.retGuards, st.reach)
		if x.plug != nil && x.plug.onPub != nil {
			for i := range vals {
				if t := fn.Signature.Results().At(i).Type(); !isErrorType(t) {
					x.publish(st, t, vals[i], x.p.T, "returned")
				}
			}
		}
		// the clauses a property adds to the function's contract
		if cs := w.extraPosts[w.fnKey(fn)]; len(cs) > 0 && fn == x.top && x.proveExtra {
			e := &Env{x: x, fn: fn, args: fr.args, res: vals, pre: fr.entry, post: st}
			for _, c := range cs {
				x.oblige2(st, "post", "postcondition "+c.name, c.build(e), c.id)
			}
		}
		return
	}
	if x.mode.noPost {
		return
	}
	x.tabledOblige(st, "on return")
	x.retGuards = append(x.retGuards, st.reach)
	e := &Env{x: x, fn: fn, args: fr.args, res: vals, pre: fr.entry, post: st}
	en := e.errNil()
	for i := range vals {
		t := fn.Signature.Results().At(i).Type()
		if isErrorType(t) {
			continue
		}
		x.publish(st, t, vals[i], en, "returned")
	}
	for _, c := range w.postClauses(fn) {
		x.oblige2(st, "post", "postcondition "+c.name, c.build(e), c.id)
	}
}

func (w *World) invoke0(x *Exec, st *State, c *ssa.CallCommon, args []Val) []Val {
	p := x.p
	recv := args[0]
	x.nilOblige(st, recv.leaves[0], "call of "+c.Method.Name()+" on a non-nil interface value")
	it := c.Value.Type()
	name := c.Method.Name()
	if x.mode.traceInvoke != nil {
		if rs, ok := x.mode.traceInvoke(x, st, c, args); ok {
			return rs
		}
	}
	if isErrorType(it) {
		x.tabledOblige(st, "when "+name+" is called on an error")
		return x.resultVals(st, c.Signature(), "error_"+name)
	}
	if w.isASTIface(it) {
		// AST node: all implementers share the contract "non-nil published receiver"
		x.oblige(st, "nil", name+" is not called on a typed nil node", p.Not(p.Eq(recv.leaves[1], p.Int(0))))
		x.publish(st, it, recv, p.T, "receiver of "+name)
		for i, a := range args[1:] {
			t := c.Signature().Params().At(i).Type()
			x.publish(st, t, a, p.T, "passed to "+name)
			if isPtr(t) {
				x.oblige(st, "pre", fmt.Sprintf("argument %d of %s is non-nil", i, name), p.Not(p.Eq(a.leaves[0], p.Int(0))), "iface|"+name+fmt.Sprintf("|p%d.nonnil", i))
			}
			if isIface(t) && !isErrorType(t) {
				x.oblige(st, "pre", fmt.Sprintf("argument %d of %s is non-nil", i, name), p.Not(p.Eq(a.leaves[0], p.Int(0))))
			}
		}
		var targets []*ssa.Function
		tg := recv.leaves[0]
		for _, t := range w.implementers(it) {
			if tg.op == "int" && int64(w.typeTag(t)) != tg.n {
				continue
			}
			sel := w.prog.MethodSets.MethodSet(t).Lookup(w.pkg.Pkg, name)
			if f := w.prog.MethodValue(sel); f != nil {
				targets = append(targets, f)
			}
		}
		mods := map[string]bool{}
		for _, f := range targets {
			for k := range w.mods[f] {
				mods[k] = true
			}
		}
		w.havoc(x, st, mods)
		rs := x.resultVals(st, c.Signature(), name)
		// a postcondition holds when every possible target guarantees it
		if len(targets) > 0 {
			cnt := map[string]int{}
			cl := map[string]Clause{}
			for _, f := range targets {
				ff := w.unwrap(f)
				for _, c := range w.postClauses(ff) {
					cnt[c.name]++
					cl[c.name] = c
					x.deps[c.id] = true
				}
			}
			var names []string
			for n, k := range cnt {
				if k == len(targets) && strings.HasPrefix(n, "r") {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				e := &Env{x: x, fn: w.unwrap(targets[0]), args: args, res: rs, pre: st, post: st}
				x.assume(st, cl[n].build(e))
			}
		}
		for i := 0; i < c.Signature().Results().Len(); i++ {
			t := c.Signature().Results().At(i).Type()
			if ch := w.childRef(t, rs[i]); ch != nil {
				x.assume(st, p.Or(p.Eq(ch, p.Int(0)), x.pub(ch)))
			}
		}
		return rs
	}
	// visitor and other client supplied interfaces
	w.assumption("client-supplied " + shortType(it, w.pkg.Pkg) + " implementations return normally and do not modify the tree")
	return x.resultVals(st, c.Signature(), name)
}

// unwrap resolves a promotion wrapper to the method it forwards to.
func (w *World) unwrap(f *ssa.Function) *ssa.Function {
	for wrapper(f) {
		var g *ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil && w.inPkg(t) {
						g = t
					}
				}
			}
		}
		if g == nil {
			return f
		}
		f = g
	}
	return f
}

func (w *World) havoc(x *Exec, st *State, mods map[string]bool) {
	p := x.p
	var ks []string
	for k := range mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "G:") {
			continue
		}
		old := x.heapGet(st, k)
		nw := p.Fresh("hv."+k, old.sort)
		x.arrKey[nw] = k
		for _, a := range x.allocsWithKey(k) {
			if !st.mpub[a.id] {
				nw = p.Store(nw, a, p.Select(old, a))
			}
		}
		st.heap[k] = nw
	}
	nx := p.Fresh("next", SInt)
	x.ass = append(x.ass, p.Le(st.next, nx))
	st.next = nx
}

func (w *World) dynCall0(x *Exec, st *State, c *ssa.CallCommon, fv Val, args []Val) []Val {
	w.assumption("client-supplied function values return normally and do not modify the tree")
	for i, a := range args {
		if i < c.Signature().Params().Len() {
			x.publish(st, c.Signature().Params().At(i).Type(), a, x.p.T, "passed to a function value")
		}
	}
	// a closure of this package may write captured cells
	mods := map[string]bool{}
	for k := range w.keySorts {
		if strings.HasPrefix(k, "cell<") && !strings.Contains(k, "[") {
			mods[k] = true
		}
	}
	if x.plug == nil || !x.plug.keepCells {
		w.havoc(x, st, mods)
	}
	rs := x.resultVals(st, c.Signature(), "dyn")
	for i, r := range rs {
		if ch := w.childRef(c.Signature().Results().At(i).Type(), r); ch != nil {
			x.assume(st, x.p.Or(x.p.Eq(ch, x.p.Int(0)), x.pub(ch)))
		}
	}
	return rs
}

func (w *World) errorsAs(x *Exec, st *State, args []Val, ok *Term) {
	// target: interface holding **T; the cell receives a non-nil *T when ok
	p := x.p
	box := args[1].leaves[1]
	cell := box
	t, isAlloc := x.allocs[cell.id]
	if !isAlloc {
		x.unsupported("errors.As target")
	}
	for _, k := range x.objKeys(t, "", t) {
		h := x.heapGet(st, k)
		if x.keySort(k) != SInt {
			x.unsupported("errors.As target type")
		}
		f := p.Fresh("astarget", SInt)
		if pt := w.perrType(); pt != nil && types.Identical(t, types.NewPointer(pt)) {
			f = x.chain(args[0])
			x.assume(st, p.Eq(ok, p.Not(p.Eq(f, p.Int(0)))))
		}
		x.assume(st, p.Implies(ok, p.Lt(p.Int(0), f)))
		st.heap[k] = p.Store(h, cell, p.Ite(ok, f, p.Select(h, cell)))
	}
	w.assumption("errors.As stores a non-nil pointer when it reports true (no typed-nil error is ever wrapped; the r.ntn postconditions show the package returns none)")
}

type fnConst struct {
	id, s string
	kind  bool
}

// fnConsts: the keywords and token kinds fn names, used to specialise its postconditions.
func (w *World) fnConsts(fn *ssa.Function) []fnConst {
	if r, ok := w.fnConstMemo[fn]; ok {
		return r
	}
	out := w.allConsts(fn)
	if len(out) > 8 {
		out = nil
	}
	w.fnConstMemo[fn] = out
	return out
}

func (w *World) allConsts(fn *ssa.Function) []fnConst {
	seen := map[string]bool{}
	var out []fnConst
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				s, ok := constStr(*op)
				if !ok || seen[s] {
					continue
				}
				seen[s] = true
				if n, ok := types.Unalias((*op).Type()).(*types.Named); ok && n.Obj().Name() == "TokenKind" {
					out = append(out, fnConst{"<" + s + ">", s, true})
				} else if w.setMembers["G.keywords"][strings.ToUpper(s)] {
					out = append(out, fnConst{s, s, false})
				}
			}
		}
	}
	return out
}

// headConsts: the token constants fn tests against the lookahead before it
// consumes anything, following the branches on which no test succeeded.
func (w *World) headConsts(fn *ssa.Function) []fnConst {
	return w.headConsts1(fn, 4)
}

func (w *World) headConsts1(fn *ssa.Function, depth int) []fnConst {
	all := map[string]fnConst{}
	for _, k := range w.fnConsts(fn) {
		all[k.s] = k
	}
	if len(fn.Blocks) == 0 || depth == 0 {
		return nil
	}
	var out []fnConst
	have := map[string]bool{}
	add := func(v ssa.Value) {
		if s, ok := constStr(v); ok {
			if k, ok := all[s]; ok && !have[s] {
				have[s] = true
				out = append(out, k)
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	b := fn.Blocks[0]
	for b != nil && !seen[b] {
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if c, ok := ia.Index.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
						add(in.Val)
					}
				}
			case *ssa.Call:
				n := len(out)
				for _, a := range in.Call.Args {
					add(a)
				}
				// the first thing it does is call another parse function
				if g := in.Call.StaticCallee(); g != nil && len(out) == 0 && n == 0 && w.inPkg(g) && w.lexParam(g) >= 0 && w.touchesLexer(g) {
					return w.headConsts1(g, depth-1)
				}
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return out
		}
		next := 1
		switch c := iff.Cond.(type) {
		case *ssa.BinOp:
			if c.Op == token.EQL {
				next = 0
			}
		case *ssa.UnOp:
			next = 0
		}
		b = b.Succs[next]
	}
	return out
}

// curIs: the lookahead token has the kind k / is the keyword k.
func (x *Exec) curIs(st *State, lex *Term, k fnConst) *Term {
	return x.curIsTerm(st, lex, x.p.Str(k.s), k.kind)
}

func (x *Exec) curIsTerm(st *State, lex, s *Term, isKind bool) *Term {
	p := x.p
	cur := x.lexField(st, lex, "currentToken")
	kind := p.Select(x.heapGet(st, x.w.tokKey("Kind")), cur)
	if isKind {
		return p.And(p.Not(p.Eq(cur, p.Int(0))), p.Eq(kind, s))
	}
	str := p.Select(x.heapGet(st, x.w.tokKey("String")), cur)
	return p.And(p.Not(p.Eq(cur, p.Int(0))), p.Eq(kind, p.Str("<keyword>")), p.Eq(x.upper(str), x.upper(s)))
}

// tokenParam: a parameter naming a keyword or token kind (or a list of them).
func (w *World) tokenParam(t types.Type) (kind, one, ok bool) {
	if s, isS := t.Underlying().(*types.Slice); isS {
		k, o, ok := w.tokenParam(s.Elem())
		return k, false, ok && o
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Kind() != types.String {
		return false, false, false
	}
	n, isN := types.Unalias(t).(*types.Named)
	return isN && n.Obj().Name() == "TokenKind", true, !isN || n.Obj().Name() == "TokenKind"
}

func (w *World) tokKey(f string) string {
	k := "Token." + f
	if _, ok := w.keySorts[k]; !ok {
		o := w.pkg.Pkg.Scope().Lookup("Token")
		for _, l := range w.L.leaves(o.Type()) {
			w.keySorts["Token"+l.path] = l.sort
		}
	}
	return k
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

type valueRel struct {
	name  string
	build func(x *Exec, v Val) *Term
}

// valueRels: candidate relations between the fields of a struct passed by value.
func (w *World) valueRels(t types.Type) []valueRel {
	if isNamed(t, "strings.Builder") {
		return nil
	}
	var out []valueRel
	fs := w.walkFields(t)
	for _, f := range fs {
		f := f
		if !isSlice(f.typ) {
			continue
		}
		sl := func(x *Exec, v Val) *Term {
			lo, hi := x.leafRange(t, f.path)
			_, ln, _, _ := sliceParts(Val{leaves: v.leaves[lo:hi]})
			return ln
		}
		out = append(out, valueRel{f.path + ".nonempty", func(x *Exec, v Val) *Term { return x.p.Lt(x.p.Int(0), sl(x, v)) }})
		for _, g := range fs {
			g := g
			if isIntT(g.typ) {
				out = append(out, valueRel{g.path + ".le.len" + f.path, func(x *Exec, v Val) *Term {
					lo, _ := x.leafRange(t, g.path)
					return x.p.Le(v.leaves[lo], sl(x, v))
				}})
			}
		}
	}
	return out
}
