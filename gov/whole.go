package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading a whole text (C04): statements up to the end of the input, with
// nothing but semicolons between them, and one result for each.

// stmtReaders: what the entry point reads statements with.
func (w *World) stmtReaders(entry *ssa.Function) []*ssa.Function {
	core, peek := w.lexCore()
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, g := range w.callees[f] {
			if seen[g] || g == core || g == peek {
				continue
			}
			seen[g] = true
			if w.inlinable(g) || w.tokenHelper(g) {
				rec(g)
				continue
			}
			if w.lexParam(g) >= 0 && w.touchesLexer(g) && w.hasErr(g) >= 0 {
				out = append(out, g)
			}
		}
	}
	rec(entry)
	return out
}

func isSemi(x *Exec, st *State, lex *Term) *Term {
	p := x.p
	cur := x.lexField(st, lex, "currentToken")
	return p.Or(p.Eq(cur, p.Int(0)), p.Eq(x.tokField(st, "Kind", cur), p.Str(";")))
}

func (w *World) entryFns() (parse, newp *ssa.Function) {
	return w.fnByKey("(*Parser).ParseStmts"), w.fnByKey("NewParser")
}

func wholeJobs(w *World) []Job {
	out := lexJobs(w)
	entry, newp := w.entryFns()
	core, _ := w.lexCore()
	if entry == nil || newp == nil || core == nil {
		return nil
	}
	w.extraPosts[w.fnKey(core)] = append(w.extraPosts[w.fnKey(core)], Clause{id: "prop|whole|" + w.fnKey(core) + "|end", name: "no token only at the end", build: func(e *Env) *Term {
		x, p := e.x, e.x.p
		in := x.lexField(e.post, e.lex(), "input")
		return p.Implies(p.And(e.errNil(), p.Eq(x.lexField(e.post, e.lex(), "currentToken"), p.Int(0))), p.Eq(x.lexField(e.post, e.lex(), "offset"), x.slen(in)))
	}})
	for _, f := range w.stmtReaders(entry) {
		f := f
		w.extraPosts[w.fnKey(f)] = append(w.extraPosts[w.fnKey(f)], Clause{id: "prop|whole|" + w.fnKey(f) + "|semi", name: "stops at a semicolon or at the end", build: func(e *Env) *Term {
			return e.x.p.Implies(e.errNil(), isSemi(e.x, e.post, e.lex()))
		}})
		for _, g := range w.callees[f] {
			g := g
			rs := g.Signature.Results()
			if w.inlinable(g) || w.lexParam(g) < 0 || w.hasErr(g) < 0 || rs.Len() != 2 || w.active(w.fnKey(g)+"|post|r0.nonnil|ok") || !isIface(rs.At(0).Type()) && !isPtr(rs.At(0).Type()) {
				continue
			}
			mine := map[string]bool{}
			for _, k := range w.allConsts(f) {
				mine[k.id] = true
			}
			var cs []Clause
			for _, k := range w.allConsts(g) {
				k := k
				if !mine[k.id] {
					continue
				}
				cs = append(cs, Clause{id: "prop|whole|" + w.fnKey(g) + "|some|" + k.id, name: "gives a node at " + k.id, build: func(e *Env) *Term {
					p := e.x.p
					return p.Implies(p.And(e.errNil(), e.x.curIs(e.pre, e.lex(), k)), p.Not(p.Eq(e.res[0].leaves[0], p.Int(0))))
				}})
			}
			if len(cs) == 0 {
				continue
			}
			w.extraPosts[w.fnKey(g)] = append(w.extraPosts[w.fnKey(g)], cs...)
			out = append(out, Job{name: w.fnKey(g) + " gives a node", fn: g, setup: func(x *Exec) { x.propMode, x.proveExtra = true, true }})
		}
		out = append(out, Job{name: w.fnKey(f) + " reads a statement", fn: f, must: true, setup: func(x *Exec) { installStmt(x, f) }})
	}
	out = append(out, Job{name: w.fnKey(entry) + " reads everything", fn: entry, must: true, setup: func(x *Exec) { installWhole(x, entry) }})
	out = append(out, Job{name: w.fnKey(newp) + " starts at the beginning", fn: newp, must: true, setup: func(x *Exec) { installNew(x, newp) }})
	return out
}

func installStmt(x *Exec, fn *ssa.Function) {
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	p, w := x.p, x.w
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ok := p.Eq(vals[w.hasErr(fn)].leaves[0], p.Int(0))
		lex := x.lexOf(x.entry, fn.Params[w.lexParam(fn)].Type(), fr.args[w.lexParam(fn)])
		x.oblige2(st, "prop", "a statement ends at a semicolon or at the end of the input", p.Implies(ok, isSemi(x, st, lex)))
		for i, v := range vals {
			if i != w.hasErr(fn) && (isIface(fn.Signature.Results().At(i).Type()) || isPtr(fn.Signature.Results().At(i).Type())) {
				x.oblige2(st, "prop", "a statement that was read is returned", p.Implies(ok, p.Not(p.Eq(v.leaves[len(v.leaves)-1], p.Int(0)))))
			}
		}
	}
}

func installNew(x *Exec, fn *ssa.Function) {
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	p := x.p
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		lex := x.lexOf(st, fn.Signature.Results().At(0).Type(), vals[0])
		x.oblige2(st, "prop", "a new parser stands before the text it is given", p.And(
			p.Eq(x.lexField(st, lex, "offset"), p.Int(0)), p.Eq(x.lexField(st, lex, "currentToken"), p.Int(0)), p.Eq(x.lexField(st, lex, "input"), fr.args[0].leaves[0])))
	}
}

func installWhole(x *Exec, fn *ssa.Function) {
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	p, w := x.p, x.w
	core, _ := w.lexCore()
	x.mode.inlineAll = w.tokenHelper
	ob := func(st *State, what string, c *Term, cands ...string) { x.oblige2(st, "prop", what, c, cands...) }
	readers := w.stmtReaders(fn)
	var lex, in *Term
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		lex = x.lexOf(st, fn.Params[w.lexParam(fn)].Type(), args[w.lexParam(fn)])
		in = x.lexField(st, lex, "input")
		x.ass = append(x.ass, p.Eq(x.lexField(st, lex, "currentToken"), p.Int(0))) // a new parser
		st.ghost["n"] = p.Int(0)
		st.ghost["bad"] = p.F
	}
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		switch {
		case f == core:
			ob(st, "only semicolons are passed over between statements", isSemi(x, st, lex))
		case isIn(readers, f):
			ob(st, "a statement is read only after the one before it was kept", p.Not(st.ghost["bad"]))
		}
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		i := w.hasErr(f)
		if f != core && !isIn(readers, f) || i < 0 {
			return
		}
		bad := p.Not(p.Eq(rs[i].leaves[0], p.Int(0)))
		st.ghost["bad"] = p.Or(st.ghost["bad"], bad)
		if f != core {
			st.ghost["n"] = p.Add(st.ghost["n"], p.Ite(bad, p.Int(0), p.Int(1)))
		}
	}
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		add := func(name string, b func(st *State, phis, entry []Val) *Term) {
			id := "prop|whole|" + x.jobName + "|" + lc.id + "|" + name
			if w.active(id) {
				out = append(out, LoopInv{name: name, cand: id, build: b})
			}
		}
		for i, ph := range lc.phis {
			i := i
			if !isSlice(ph.Type()) {
				continue
			}
			add("n.len."+phiName(ph, i), func(st *State, phis, _ []Val) *Term {
				_, ln, _, _ := sliceParts(phis[i])
				return p.Eq(st.ghost["n"], ln)
			})
		}
		add("semi", func(st *State, _, _ []Val) *Term { return isSemi(x, st, lex) })
		add("good", func(st *State, _, _ []Val) *Term { return p.Not(st.ghost["bad"]) })
		add("n.same", func(st *State, _, _ []Val) *Term { return p.Eq(st.ghost["n"], lc.entry.ghost["n"]) })
		return out
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ok := p.Eq(vals[w.hasErr(fn)].leaves[0], p.Int(0))
		ob(st, "a text is accepted only when no part of it failed", p.Implies(ok, p.Not(st.ghost["bad"])))
		ob(st, "a text is rejected only when a part of it failed", p.Implies(p.Not(ok), st.ghost["bad"]))
		ob(st, "a text is accepted only when it was read to its end", p.Implies(ok, p.And(p.Eq(x.lexField(st, lex, "currentToken"), p.Int(0)), p.Eq(x.lexField(st, lex, "offset"), x.slen(in)))))
		for i, v := range vals {
			if isSlice(fn.Signature.Results().At(i).Type()) {
				_, ln, _, _ := sliceParts(v)
				ob(st, "every statement read is returned, in one place", p.Implies(ok, p.Eq(ln, st.ghost["n"])))
			}
		}
	}
}

var _ = strings.HasPrefix
