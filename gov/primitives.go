package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Printing primitives: methods of the formatter that are given a text or a byte
// and write it. What a node prints is the sequence of texts it hands to them.
func (w *World) printer(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || len(f.Params) != 2 || f.Signature.Results().Len() != 0 || w.ptrName(r.Type()) != "Formatter" {
		return false
	}
	b, ok := f.Params[1].Type().Underlying().(*types.Basic)
	return ok && (b.Info()&types.IsString != 0 || b.Kind() == types.Uint8)
}

// layouter: the formatter's other methods that write: they may write white
// space only.
func (w *World) layouter(f *ssa.Function) bool {
	r := f.Signature.Recv()
	return r != nil && len(f.Params) == 1 && w.ptrName(r.Type()) == "Formatter" && f.Signature.Results().Len() == 0
}

// printerJobs: every primitive writes the bytes of its text, each once, in
// order, and nothing else but white space; layout methods write white space.
func printerJobs(w *World, engine string) []Job {
	var out []Job
	for _, f := range w.fns {
		f := f
		if f.Parent() != nil || wrapper(f) || len(f.Blocks) == 0 || !(w.printer(f) || w.layouter(f)) {
			continue
		}
		out = append(out, Job{name: w.fnKey(f) + " writes", fn: f, must: true, setup: func(x *Exec) { installPrinter(x, f, engine) }})
	}
	return out
}

func installPrinter(x *Exec, fn *ssa.Function, engine string) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	var text *Term // nil: nothing but white space
	isByte := false
	var recv *Term
	ob := func(st *State, what string, c *Term, cands ...string) {
		x.oblige2(st, "prop", engine+" "+what, c, cands...)
	}
	n := func(st *State) *Term { return st.ghost["n"] }
	length := func() *Term {
		if isByte {
			return p.Int(1)
		}
		return x.slen(text)
	}
	blank := func(c *Term) *Term { return p.Or(p.Eq(c, p.Int(' ')), p.Eq(c, p.Int('\n')), p.Eq(c, p.Int('\t'))) }
	wrote := func(st *State, c *Term) { // one byte
		if text == nil {
			ob(st, "writes white space only", blank(c))
			return
		}
		var want *Term
		if isByte {
			want = p.And(p.Eq(n(st), p.Int(0)), p.Eq(c, text))
		} else {
			want = p.And(p.Lt(n(st), x.slen(text)), p.Eq(c, x.sat(text, n(st))))
		}
		ob(st, "writes the text's next byte, or white space", p.Or(want, blank(c)))
		st.ghost["n"] = p.Ite(want, p.Add(n(st), p.Int(1)), n(st))
	}
	wroteText := func(st *State, s *Term) {
		if x.indentText(st, recv, s) {
			return
		}
		if s.op == "str" {
			for i := 0; i < len(s.name); i++ {
				wrote(st, p.Int(int64(s.name[i])))
			}
			return
		}
		if text == nil || isByte {
			ob(st, "writes white space only", p.F)
			return
		}
		ob(st, "writes the whole text at once", p.And(p.Eq(n(st), p.Int(0)), p.Eq(s, text)))
		st.ghost["n"] = x.slen(text)
	}
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		recv = args[0].leaves[0]
		st.ghost["n"] = p.Int(0)
		if w.printer(fn) {
			text = args[1].leaves[0]
			isByte = !isStringT(fn.Params[1].Type())
		}
	}
	skip := 0
	pl.onExtern = func(st *State, name string, args, rs []Val) {
		if skip > 0 {
			return
		}
		if name == "(*strings.Builder).WriteByte" {
			wrote(st, args[1].leaves[0])
		} else {
			wroteText(st, args[1].leaves[0])
		}
	}
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		if !w.printer(f) || len(x.stack) == 0 {
			return
		}
		if isStringT(f.Params[1].Type()) {
			wroteText(st, args[1].leaves[0])
		} else {
			wrote(st, args[1].leaves[0])
		}
	}
	// what a primitive does is its own job
	pl.opaque = func(f *ssa.Function) bool { return w.printer(f) || w.layouter(f) }
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		add := func(name string, b func(st *State, phis, entry []Val) *Term) {
			id := "prop|" + engine + "|" + x.jobName + "|" + lc.id + "|" + name
			if w.active(id) {
				out = append(out, LoopInv{name: name, cand: id, build: b})
			}
		}
		e := lc.entry.ghost["n"]
		add("n.same", func(st *State, _, _ []Val) *Term { return p.Eq(n(st), e) })
		for i, ph := range lc.phis {
			if i := i; isIntT(ph.Type()) {
				add("n.is."+phiName(ph, i), func(st *State, phis, _ []Val) *Term { return p.Eq(n(st), phis[i].leaves[0]) })
				add("n.next."+phiName(ph, i), func(st *State, phis, _ []Val) *Term {
					return p.Eq(n(st), p.Add(phis[i].leaves[0], p.Int(1)))
				})
			}
		}
		if text != nil {
			add("n.le", func(st *State, _, _ []Val) *Term { return p.Le(n(st), length()) })
		}
		return out
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		if text != nil {
			ob(st, "has written the whole text", p.Eq(n(st), length()))
		}
	}
}

// indentText: the indentation unit, blank by the caller's promise (WithIndent).
func (x *Exec) indentText(st *State, recv, s *Term) bool {
	for _, k := range x.strFields("Formatter") {
		if p := x.p; s == p.Select(x.heapGet(st, k), recv) {
			return true
		}
	}
	return false
}

// strFields: the heap keys of a struct's string fields.
func (x *Exec) strFields(name string) []string {
	o := x.w.pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); isStringT(f.Type()) {
			out = append(out, x.objKeys(o.Type(), "."+f.Name(), f.Type())...)
		}
	}
	return out
}
