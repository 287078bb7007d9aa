package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: a refusal says where reading stopped. The error found in an error
// value's chain by errors.As is chain(err); every function that reads the
// text and fails gives an error whose chain holds either no parse error or one
// that is well placed (perrOK); the entry point always gives a parse error,
// with its line and column resolved.

func (w *World) perrType() types.Type {
	o := w.pkg.Pkg.Scope().Lookup("ParseError")
	if o == nil {
		return nil
	}
	return o.Type()
}

// chain: the parse error that errors.As finds in an error value, 0 if none.
func (x *Exec) chain(v Val) *Term {
	p := x.p
	t := x.w.perrType()
	tag := p.Int(int64(x.w.typeTag(types.NewPointer(t))))
	return p.Ite(p.Eq(v.leaves[0], tag), v.leaves[1], p.Ite(p.Eq(v.leaves[0], p.Int(0)), p.Int(0), p.App("chain", SInt, v.leaves[0], v.leaves[1])))
}

func (x *Exec) perrField(st *State, f string, ref *Term) *Term {
	t := x.w.perrType()
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return x.p.Select(x.heapGet(st, x.objKeys(t, "."+f, s.Field(i).Type())[0]), ref)
		}
	}
	x.unsupported("a parse error has no %s", f)
	return nil
}

// placed: line and column are those of the offset k in s.
func (x *Exec) placed(s, k, line, col *Term) *Term {
	p := x.p
	one := p.Int(1)
	ls := p.Add(p.Sub(k, col), one) // where the line begins
	return p.And(
		p.Eq(line, p.Add(x.nl(s, k), one)),
		p.Le(p.Int(0), ls), p.Le(ls, k),
		p.Eq(x.nl(s, ls), x.nl(s, k)), // no newline between
		p.Or(p.Eq(ls, p.Int(0)), p.Eq(p.App("sat", SInt, s, p.Sub(ls, one)), p.Int(10))))
}

// stands: the lexer stands at a token read from its text, or at a place where
// no token can be read (end of the text, or a piece that is no token).
func (x *Exec) stands(st *State, lex *Term) *Term {
	p := x.p
	in := x.lexField(st, lex, "input")
	off := x.lexField(st, lex, "offset")
	cur := x.lexField(st, lex, "currentToken")
	P, E := x.tokField(st, "Pos", cur), x.tokField(st, "End", cur)
	return p.And(
		p.Le(p.Int(0), off), p.Le(off, x.slen(in)),
		p.Implies(p.Eq(cur, p.Int(0)), p.App("stop", SBool, in, off)),
		p.Implies(p.Not(p.Eq(cur, p.Int(0))), p.And(p.App("read", SBool, in, cur), p.Le(p.Int(0), P), p.Le(P, E), p.Le(E, x.slen(in)))))
}

// perrOK: the parse error ref is well placed in the text s.
func (x *Exec) perrOK(st *State, ref, s *Term, placed bool) *Term {
	p := x.p
	pos, got := x.perrField(st, "Pos", ref), x.perrField(st, "Got", ref)
	line, col := x.perrField(st, "Line", ref), x.perrField(st, "Column", ref)
	at := x.placed(s, pos, line, col)
	if !placed {
		at = p.Or(p.Eq(line, p.Int(0)), at)
	}
	return p.And(
		p.Le(p.Int(0), pos), p.Le(pos, x.slen(s)),
		p.Implies(p.Eq(got, p.Int(0)), p.App("stop", SBool, s, pos)),
		p.Implies(p.Not(p.Eq(got, p.Int(0))), p.And(p.App("read", SBool, s, got), p.Eq(x.tokField(st, "Pos", got), pos))),
		at)
}

func errClauses(w *World, f *ssa.Function) []Clause {
	id := "prop|err|" + w.fnKey(f)
	none := Clause{id: id + "|none", name: "gives no parse error", build: func(e *Env) *Term {
		return e.x.p.Eq(e.x.chain(e.res[w.hasErr(f)]), e.x.p.Int(0))
	}}
	if w.lexParam(f) < 0 {
		return []Clause{none}
	}
	return []Clause{none, {id: id + "|placed", name: "a parse error is well placed", build: func(e *Env) *Term {
		x, p := e.x, e.x.p
		c := x.chain(e.res[w.hasErr(f)])
		return p.Implies(p.Not(p.Eq(c, p.Int(0))), x.perrOK(e.post, c, x.lexField(e.post, e.lex(), "input"), false))
	}}}
}

func (w *World) lexerMethod(f *ssa.Function) bool {
	lp := w.lexParam(f)
	return lp >= 0 && w.ptrName(f.Params[lp].Type()) == "Lexer"
}

func errJobs(w *World) []Job {
	if w.perrType() == nil {
		return nil
	}
	out := lexJobs(w)
	entry, _ := w.entryFns()
	for _, f := range w.fns {
		f := f
		if w.hasErr(f) < 0 || len(f.Blocks) == 0 || f.Parent() != nil || wrapper(f) || w.inlinable(f) || f == entry {
			continue
		}
		w.extraPosts[w.fnKey(f)] = append(w.extraPosts[w.fnKey(f)], errClauses(w, f)...)
		out = append(out, Job{name: w.fnKey(f) + " fails in place", fn: f, setup: func(x *Exec) { installErr(x, f, false) }})
	}
	if entry != nil {
		out = append(out, Job{name: w.fnKey(entry) + " says where it stopped", fn: entry, must: true, setup: func(x *Exec) { installErr(x, entry, true) }})
	}
	return out
}

func installErr(x *Exec, fn *ssa.Function, entry bool) {
	p, w := x.p, x.w
	x.propMode, x.proveExtra = true, true
	pl := &Plug{}
	x.plug = pl
	lp := w.lexParam(fn)
	if lp < 0 || w.lexerMethod(fn) {
		return
	}
	var lex *Term
	read := !entry
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		lex = x.lexOf(st, fn.Params[lp].Type(), args[lp])
		if read {
			x.assume(st, x.stands(st, lex))
		} else {
			st.ghost["read"] = p.F
		}
	}
	good := func(st *State) {
		g := x.stands(st, lex)
		if !read {
			g = p.Implies(st.ghost["read"], g)
		}
		x.assume(st, g)
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		if i := w.lexParam(f); i < 0 || !w.touchesLexer(f) {
			return
		}
		if !read {
			st.ghost["read"] = p.T
		}
		good(st)
	}
	pl.onHead = good
	if entry {
		pl.loopInvs = func(lc *LoopCtx) []LoopInv {
			id := "prop|err|" + x.jobName + "|" + lc.id + "|read"
			if !w.active(id) {
				return nil
			}
			return []LoopInv{{name: "read", cand: id, build: func(st *State, _, _ []Val) *Term { return st.ghost["read"] }}}
		}
		pl.onReturn = func(fr *Frame, st *State, vals []Val) {
			ev := vals[w.hasErr(fn)]
			bad := p.Not(p.Eq(ev.leaves[0], p.Int(0)))
			t := p.Int(int64(w.typeTag(types.NewPointer(w.perrType()))))
			x.oblige2(st, "prop", "a refusal is a parse error", p.Implies(bad, p.And(p.Eq(ev.leaves[0], t), p.Not(p.Eq(ev.leaves[1], p.Int(0))))))
			x.oblige2(st, "prop", "a refusal is placed where reading stopped: offset, line, column and token agree", p.Implies(bad, x.perrOK(st, ev.leaves[1], x.lexField(x.entry, lex, "input"), true)))
		}
	}
}

// newErr: what a new error's chain holds: nothing, or what the operand of its
// %w holds.
func (x *Exec) newErr(st *State, e Val, args []Val) {
	p := x.p
	if x.w.perrType() == nil || len(args) == 0 {
		return
	}
	in := p.Int(0)
	if len(args) > 1 {
		f := args[0].leaves[0]
		if f.op != "str" {
			return
		}
		verbs := 0
		at := -1
		for i := 0; i+1 < len(f.name); i++ {
			if f.name[i] != '%' {
				continue
			}
			i++
			for i < len(f.name) && strings.IndexByte("+-# 0123456789.", f.name[i]) >= 0 {
				i++
			}
			if i < len(f.name) && (f.name[i] == '[' || f.name[i] == '*') {
				return
			}
			if i < len(f.name) && f.name[i] == '%' {
				continue
			}
			if i < len(f.name) && f.name[i] == 'w' {
				if at >= 0 {
					return
				}
				at = verbs
			}
			verbs++
		}
		if at >= 0 {
			es, _, _, ok := sliceParts(args[1])
			if ok == nil || len(es) != 2 {
				return
			}
			k := p.Int(int64(at))
			in = x.chain(Val{leaves: []*Term{p.Select(es[0], k), p.Select(es[1], k)}})
		}
	}
	x.assume(st, p.Eq(x.chain(e), in))
}
