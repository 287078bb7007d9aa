package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: searching agrees with walking, and the default visitor hands every node
// to its function. A walk calls the function on the nodes of the tree, node(0)
// = the root, node(1), ... node(count-1), one after the other, until it answers
// false, and answers whether it got to the end; that is the contract of every
// function with Walk's signature, assumed for Walk (C13 shows the sequence to be
// the nodes, each once) and shown for the others. The call of a walk with a
// function literal is a loop over that sequence with inferred invariants.

// searchKind: what a function from a node and a predicate gives back.
func (w *World) searchKind(f *ssa.Function) string {
	s := f.Signature
	if f.Parent() != nil || s.Recv() != nil || s.Params().Len() != 2 || !w.isASTIface(s.Params().At(0).Type()) || !isWalkFn(w, s.Params().At(1).Type()) {
		return ""
	}
	r := s.Results()
	switch {
	case r.Len() == 1 && isBool(r.At(0).Type()):
		return "walk"
	case r.Len() == 2 && w.isASTIface(r.At(0).Type()) && isBool(r.At(1).Type()):
		return "first"
	case r.Len() == 1 && isSlice(r.At(0).Type()) && w.isASTIface(r.At(0).Type().Underlying().(*types.Slice).Elem()):
		return "all"
	}
	return ""
}

// handsOn: for a method of a client-facing visitor with a function field: the
// field, when the method is one of the visitor interface's.
func (w *World) visitField(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name := ""
	for i := 0; i < st.NumFields(); i++ {
		s, ok := st.Field(i).Type().Underlying().(*types.Signature)
		if ok && s.Params().Len() == 1 && w.isASTIface(s.Params().At(0).Type()) && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type()) {
			if name != "" {
				return ""
			}
			name = st.Field(i).Name()
		}
	}
	return name
}

func findJobs(w *World) []Job {
	var out []Job
	for _, f := range w.fns {
		f := f
		if len(f.Blocks) == 0 {
			continue
		}
		if k := w.searchKind(f); k != "" && !engWalk.isRoot(w, f) && token.IsExported(f.Name()) {
			out = append(out, Job{name: w.fnKey(f) + " searches the nodes in order", fn: f, must: true, setup: func(x *Exec) { installSearch(x, f, k) }})
		}
		rv := f.Signature.Recv()
		if rv == nil || wrapper(f) || f.Parent() != nil {
			continue
		}
		t := derefType(rv.Type())
		if t == nil {
			continue
		}
		s := f.Signature
		if fd := w.visitField(t); fd != "" && s.Params().Len() == 1 && isExprT(w, s.Params().At(0).Type()) && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type()) && strings.HasPrefix(f.Name(), "Visit") {
			out = append(out, Job{name: w.fnKey(f) + " hands the node on", fn: f, must: true, setup: func(x *Exec) { installHand(x, f, t, fd) }})
		}
	}
	return out
}

func installHand(x *Exec, fn *ssa.Function, t types.Type, fd string) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	x.mode.inlineAll = func(f *ssa.Function) bool { return len(w.analyze(f).loops) == 0 && !w.recursive(f) && !w.dispatched(f) }
	var fun *Term
	var rt, rv *Term
	pl.onStart = func(_ *ssa.Function, args []Val, st *State) {
		st.ghost["calls"] = p.Int(0)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == fd {
				fun = p.Select(x.heapGet(st, x.objKeys(t, "."+fd, s.Field(i).Type())[0]), args[0].leaves[0])
			}
		}
		x.ass = append(x.ass, p.Not(p.Eq(args[1].leaves[0], p.Int(0))))
		st.ghost["rt"], st.ghost["rv"] = p.Int(0), p.Int(0)
	}
	pl.onDyn = func(st *State, c *ssa.CallCommon, fv Val, args, rs []Val) {
		if len(fv.leaves) == 0 {
			x.unsupported("call of a function value")
		}
		tag := p.Int(int64(w.typeTag(fn.Params[1].Type())))
		x.oblige2(st, "prop", "the visitor's function is given the node itself", p.And(p.Eq(fv.leaves[0], fun), p.Eq(args[0].leaves[0], tag), p.Eq(args[0].leaves[1], x.topFr.args[1].leaves[0])))
		st.ghost["calls"] = p.Add(st.ghost["calls"], p.Int(1))
		st.ghost["rt"], st.ghost["rv"] = rs[0].leaves[0], rs[0].leaves[1]
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		rt, rv = st.ghost["rt"], st.ghost["rv"]
		has := p.Not(p.Eq(fun, p.Int(0)))
		x.oblige2(st, "prop", "the visitor's function is called exactly once, if there is one", p.Eq(st.ghost["calls"], p.Ite(has, p.Int(1), p.Int(0))))
		x.oblige2(st, "prop", "what the visitor's function answers is returned", p.And(p.Eq(vals[0].leaves[0], rt), p.Implies(p.Not(p.Eq(rt, p.Int(0))), p.Eq(vals[0].leaves[1], rv))))
	}
}

func installSearch(x *Exec, fn *ssa.Function, kind string) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{keepCells: true}
	x.plug = pl
	ob := func(st *State, what string, c *Term, cands ...string) { x.oblige2(st, "prop", what, c, cands...) }
	zero, one := p.Int(0), p.Int(1)
	cnt := p.Fresh("count", SInt)
	J := p.Fresh("j", SInt)
	ntag := func(i *Term) *Term { return p.App("nodetag", SInt, i) }
	nref := func(i *Term) *Term { return p.App("noderef", SInt, i) }
	var fun *Term
	var root Val
	gset := func(st *State, k string, v *Term) { st.ghost[k] = v }
	gget := func(st *State, k string) *Term { return st.ghost[k] }
	pl.onStart = func(_ *ssa.Function, args []Val, st *State) {
		root, fun = args[0], args[1].leaves[0]
		none := p.Eq(root.leaves[0], zero)
		x.ass = append(x.ass, p.Implies(p.Not(none), p.Not(p.Eq(root.leaves[1], zero))))
		x.ass = append(x.ass, p.Ite(none, p.Eq(cnt, zero), p.And(p.Le(one, cnt), p.Eq(ntag(zero), root.leaves[0]), p.Eq(nref(zero), root.leaves[1]))))
		x.ass = append(x.ass, p.Le(zero, J))
		x.ass = append(x.ass, p.Not(p.Eq(fun, zero)))
		for _, k := range []string{"n", "ntrue", "cj"} {
			gset(st, k, zero)
		}
		gset(st, "stopped", p.F)
		gset(st, "hit", p.F)
	}
	isNode := func(v Val, i *Term) *Term {
		return p.And(p.Eq(v.leaves[0], ntag(i)), p.Eq(v.leaves[1], nref(i)))
	}
	event := func(st *State, fv *Term, arg Val, r *Term) {
		n := gget(st, "n")
		ob(st, "the function is called on the next node of the walk, and only until it stops the search", p.And(p.Eq(fv, fun), p.Not(gget(st, "stopped")), p.Lt(n, cnt), isNode(arg, n)))
		switch kind {
		case "walk":
			gset(st, "stopped", p.Or(gget(st, "stopped"), p.Not(r)))
		case "first":
			gset(st, "stopped", p.Or(gget(st, "stopped"), r))
		}
		atJ := p.And(r, p.Eq(n, J))
		gset(st, "cj", p.Ite(atJ, gget(st, "ntrue"), gget(st, "cj")))
		gset(st, "hit", p.Or(gget(st, "hit"), atJ))
		gset(st, "ntrue", p.Add(gget(st, "ntrue"), p.Ite(r, one, zero)))
		gset(st, "n", p.Add(n, one))
	}
	pl.onDyn = func(st *State, c *ssa.CallCommon, fv Val, args, rs []Val) {
		if !isWalkFn(w, c.Value.Type()) || len(fv.leaves) == 0 {
			x.unsupported("call of a function value")
		}
		event(st, fv.leaves[0], args[0], rs[0].leaves[0])
	}
	walks := 0
	pl.replace = func(st *State, f *ssa.Function, args []Val) ([]Val, bool) {
		if w.searchKind(f) != "walk" {
			return nil, false
		}
		walks++
		wid := fmt.Sprintf("prop|find|%s|walk%d|", x.jobName, walks)
		ob(st, "the tree that was given is walked", p.And(p.Eq(args[0].leaves[0], root.leaves[0]), p.Eq(args[0].leaves[1], root.leaves[1])))
		cl := args[1]
		// the literal's variables
		type cell struct {
			ref *Term
			t   types.Type
		}
		var cells []cell
		if cl.fn != nil {
			for _, b := range cl.binds {
				if len(b.leaves) != 1 {
					x.unsupported("captured value")
				}
				t, ok := x.allocs[b.leaves[0].id]
				if !ok {
					x.unsupported("captured variable of a caller")
				}
				cells = append(cells, cell{b.leaves[0], t})
			}
		}
		val := func(s *State, c cell) []*Term {
			var out []*Term
			for _, k := range x.objKeys(c.t, "", c.t) {
				out = append(out, p.Select(x.heapGet(s, k), c.ref))
			}
			return out
		}
		type inv struct {
			id    string
			build func(s *State, i *Term) *Term
		}
		var invs []inv
		entry := st.clone()
		add := func(name string, b func(s *State, i *Term) *Term) {
			if w.active(wid + name) {
				invs = append(invs, inv{wid + name, b})
				x.deps[wid+name] = true
			}
		}
		add("n=i", func(s *State, i *Term) *Term { return p.Eq(gget(s, "n"), i) })
		add("n=max", func(s *State, i *Term) *Term { return p.Eq(gget(s, "n"), p.Ite(p.Lt(i, one), one, i)) })
		add("going", func(s *State, i *Term) *Term { return p.Not(gget(s, "stopped")) })
		add("count", func(s *State, i *Term) *Term { return p.Le(zero, gget(s, "ntrue")) })
		add("nohit", func(s *State, i *Term) *Term { return p.Implies(gget(s, "hit"), p.Lt(J, gget(s, "n"))) })
		add("cj", func(s *State, i *Term) *Term {
			return p.Implies(gget(s, "hit"), p.And(p.Le(zero, gget(s, "cj")), p.Lt(gget(s, "cj"), gget(s, "ntrue"))))
		})
		add("ntrue", func(s *State, i *Term) *Term { return p.Eq(gget(s, "ntrue"), gget(entry, "ntrue")) })
		for k, c := range cells {
			c := c
			n := len(val(entry, c))
			for l := 0; l < n; l++ {
				l := l
				add(fmt.Sprintf("v%d.%d.same", k, l), func(s *State, i *Term) *Term { return p.Eq(val(s, c)[l], val(entry, c)[l]) })
				if val(entry, c)[l].sort == SBool {
					add(fmt.Sprintf("v%d.%d.going", k, l), func(s *State, i *Term) *Term { return p.Eq(val(s, c)[l], p.Not(gget(s, "stopped"))) })
					add(fmt.Sprintf("v%d.%d.stopped", k, l), func(s *State, i *Term) *Term { return p.Eq(val(s, c)[l], gget(s, "stopped")) })
				}
				if isIntT(c.t) {
					add(fmt.Sprintf("v%d.%d.n", k, l), func(s *State, i *Term) *Term { return p.Eq(val(s, c)[l], gget(s, "n")) })
				}
			}
			if isSlice(c.t) && w.isASTIface(c.t.Underlying().(*types.Slice).Elem()) {
				parts := func(s *State) ([]*Term, *Term) {
					es, ln, _, _ := sliceParts(Val{leaves: val(s, c)})
					return es, ln
				}
				add(fmt.Sprintf("v%d.len", k), func(s *State, i *Term) *Term { _, ln := parts(s); return p.Eq(ln, gget(s, "ntrue")) })
				add(fmt.Sprintf("v%d.kept", k), func(s *State, i *Term) *Term {
					es, _ := parts(s)
					c := gget(s, "cj")
					return p.Implies(gget(s, "hit"), isNode(Val{leaves: []*Term{p.Select(es[0], c), p.Select(es[1], c)}}, J))
				})
			}
		}
		check := func(s *State, i *Term, when string) {
			for _, v := range invs {
				x.oblige2(s, "inv", "invariant of the walk "+when, v.build(s, i), v.id)
			}
		}
		check(st, zero, "holds before it")
		// one step, from any state the walk can reach
		i := p.Fresh("step", SInt)
		h := st.clone()
		for _, c := range cells {
			for _, k := range x.objKeys(c.t, "", c.t) {
				f := p.Fresh("wc."+k, x.keySort(k))
				x.leafFact(k, f)
				h.heap[k] = p.Store(x.heapGet(h, k), c.ref, f)
			}
		}
		for _, k := range sortedKeys(entry.ghost) {
			h.ghost[k] = p.Fresh("g."+k, entry.ghost[k].sort)
		}
		nx := p.Fresh("next", SInt)
		x.assume(h, p.Le(h.next, nx))
		h.next = nx
		x.assume(h, p.And(p.Le(zero, i), p.Le(i, cnt)))
		for _, v := range invs {
			x.assume(h, v.build(h, i))
		}
		b := h.clone()
		b.reach = p.And(b.reach, p.Lt(i, cnt))
		// nodes are met once each, and none is nil
		x.assume(b, p.And(p.Not(p.Eq(ntag(i), zero)), p.Not(p.Eq(nref(i), zero)), p.Implies(p.Lt(zero, i), p.Not(p.And(p.Eq(ntag(i), ntag(zero)), p.Eq(nref(i), nref(zero)))))))
		arg := Val{leaves: []*Term{ntag(i), nref(i)}, set: true}
		var r *Term
		if cl.fn != nil {
			rs, ok := x.inline(b, cl.fn, cl.binds, []Val{arg})
			if !ok {
				x.unsupported("recursive function literal")
			}
			r = rs[0].leaves[0]
		} else {
			r = p.Fresh("answer", SBool)
			event(b, cl.leaves[0], arg, r)
		}
		on := b.clone()
		on.reach = p.And(on.reach, r)
		check(on, p.Add(i, one), "is kept by a step")
		end := h.clone()
		end.reach = p.And(end.reach, p.Eq(i, cnt))
		stop := b.clone()
		stop.reach = p.And(stop.reach, p.Not(r))
		env, defers := st.env, st.defers
		m, vals := x.merge([]edge{{nil, end, []Val{{leaves: []*Term{p.T}, set: true}}}, {nil, stop, []Val{{leaves: []*Term{p.F}, set: true}}}})
		*st = *m
		st.env, st.defers = env, defers
		return vals, true
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		n, stopped := gget(st, "n"), gget(st, "stopped")
		ob(st, "the search goes on to the last node unless stopped", p.Or(stopped, p.Eq(n, cnt)))
		switch kind {
		case "walk":
			ob(st, "the answer is whether the walk got to its end", p.Eq(vals[0].leaves[0], p.Not(stopped)))
		case "first":
			ob(st, "the answer is whether a node was found", p.Eq(vals[1].leaves[0], stopped))
			ob(st, "the node found is the first that fits", p.And(p.Implies(stopped, isNode(vals[0], p.Sub(n, one))), p.Implies(p.Not(stopped), p.Eq(vals[0].leaves[0], zero))))
		case "all":
			es, ln, _, _ := sliceParts(vals[0])
			c := gget(st, "cj")
			ob(st, "there are as many results as nodes that fit", p.Eq(ln, gget(st, "ntrue")))
			ob(st, "every node that fits is a result, in the order of the walk", p.Implies(gget(st, "hit"), p.And(p.Le(zero, c), p.Lt(c, ln), isNode(Val{leaves: []*Term{p.Select(es[0], c), p.Select(es[1], c)}}, J))))
		}
	}
}
