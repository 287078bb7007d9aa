package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopMod struct {
	key   string
	bases []*Term
}

func (w *World) loopInvs(lc *LoopCtx) []LoopInv {
	x, p := lc.x, lc.x.p
	var out []LoopInv
	add := func(name string, b func(st *State, phis, entry []Val) *Term) {
		id := lc.id + "|inv|" + name
		if w.active(id) {
			out = append(out, LoopInv{name: name, cand: id, build: b})
		}
	}
	// lexer state
	if lex, fr := x.curLex(); lex != nil {
		add("wf", func(st *State, _, _ []Val) *Term { return x.lexWF(st, lex) })
		if fr != nil {
			add("M.le.entry", func(st *State, _, _ []Val) *Term {
				return p.Le(x.measure(st, lex), x.measure(fr.entry, lex))
			})
			add("M.lt.entry", func(st *State, _, _ []Val) *Term {
				return p.Lt(x.measure(st, lex), x.measure(fr.entry, lex))
			})
			add("same.entry", func(st *State, _, _ []Val) *Term { return x.sameLex(st, fr.entry, lex) })
		}
		add("M.le.loop", func(st *State, _, _ []Val) *Term {
			return p.Le(x.measure(st, lex), x.measure(lc.entry, lex))
		})
		add("same.loop", func(st *State, _, _ []Val) *Term { return x.sameLex(st, lc.entry, lex) })
		add("cur", func(st *State, _, _ []Val) *Term {
			return p.Not(p.Eq(x.lexField(st, lex, "currentToken"), p.Int(0)))
		})
		add("off.le.loop", func(st *State, _, _ []Val) *Term {
			return p.Le(x.lexField(lc.entry, lex, "offset"), x.lexField(st, lex, "offset"))
		})
		for i, ph := range lc.phis {
			i := i
			if isIntT(ph.Type()) {
				if fr != nil && hasVariadic(fr.fn) {
					add(phiName(ph, i)+".first.same", func(st *State, phis, entry []Val) *Term {
						return p.Implies(p.Eq(phis[i].leaves[0], entry[i].leaves[0]), x.sameLex(st, fr.entry, lex))
					})
					add(phiName(ph, i)+".later.M.lt", func(st *State, phis, entry []Val) *Term {
						return p.Implies(p.Not(p.Eq(phis[i].leaves[0], entry[i].leaves[0])), p.Lt(x.measure(st, lex), x.measure(fr.entry, lex)))
					})
					for j, t := range paramTypes(fr.fn) {
						kind, one, ok := w.tokenParam(t)
						if !ok || one {
							continue
						}
						es, _, _, _ := sliceParts(fr.args[j])
						add(fmt.Sprintf("%s.later.cur=p%d", phiName(ph, i), j), func(st *State, phis, entry []Val) *Term {
							return p.Implies(p.Not(p.Eq(phis[i].leaves[0], entry[i].leaves[0])), x.curIsTerm(fr.entry, lex, p.Select(es[0], p.Int(0)), kind))
						})
					}
				}
				add("off+"+phiName(ph, i)+".le.len", func(st *State, phis, _ []Val) *Term {
					return p.Le(p.Add(x.lexField(st, lex, "offset"), phis[i].leaves[0]), x.slen(x.lexField(st, lex, "input")))
				})
			}
		}
	}
	// bounds available outside the loop
	lens := lc.outerLens()
	for i, ph := range lc.phis {
		i, ph := i, ph
		t := ph.Type()
		n := phiName(ph, i)
		switch {
		case isPtr(t):
			add(n+".nonnil", func(st *State, phis, _ []Val) *Term { return p.Not(p.Eq(phis[i].leaves[0], p.Int(0))) })
		case isIface(t):
			add(n+".nonnil", func(st *State, phis, _ []Val) *Term { return p.Not(p.Eq(phis[i].leaves[0], p.Int(0))) })
			add(n+".ntn", func(st *State, phis, _ []Val) *Term {
				return p.Or(p.Eq(phis[i].leaves[0], p.Int(0)), p.Not(p.Eq(phis[i].leaves[1], p.Int(0))))
			})
		case isSlice(t):
			if w.elemOKType(t.Underlying().(*types.Slice).Elem()) {
				add(n+".elems", func(st *State, phis, _ []Val) *Term { _, _, _, ok := sliceParts(phis[i]); return ok })
			}
			if isIntSlice(t) {
				for j, qh := range lc.phis {
					if j := j; isIntT(qh.Type()) {
						for k, pt := range paramTypes(lc.fr.fn) {
							if k := k; isStringT(pt) {
								add(fmt.Sprintf("%s.lines.p%d.%s", n, k, phiName(qh, j)), func(st *State, phis, _ []Val) *Term {
									return x.lineTable(phis[i], lc.fr.args[k].leaves[0], phis[j].leaves[0])
								})
							}
						}
					}
				}
			}
			add(n+".nonempty", func(st *State, phis, _ []Val) *Term {
				_, ln, _, _ := sliceParts(phis[i])
				return p.Lt(p.Int(0), ln)
			})
		case isIntT(t):
			add(n+".ge.entry", func(st *State, phis, entry []Val) *Term { return p.Le(entry[i].leaves[0], phis[i].leaves[0]) })
			add(n+".ge0", func(st *State, phis, entry []Val) *Term { return p.Le(p.Int(0), phis[i].leaves[0]) })
			for k, l := range lens {
				l := l
				add(fmt.Sprintf("%s.lt.len%d", n, k), func(st *State, phis, _ []Val) *Term { return p.Lt(phis[i].leaves[0], l) })
				add(fmt.Sprintf("%s.le.len%d", n, k), func(st *State, phis, _ []Val) *Term { return p.Le(phis[i].leaves[0], l) })
			}
		}
		// AST values carried by the loop are published (or nil)
		if w.childRef(t, Val{leaves: make([]*Term, 2)}) != nil || (isPtr(t) && w.isASTish(t)) || (isIface(t) && w.isASTIface(t)) {
			id := lc.id + "|inv|" + n + ".pub"
			if w.active(id) {
				out = append(out, LoopInv{name: n + ".pub", cand: id, pubIdx: i + 1,
					build: func(st *State, phis, _ []Val) *Term {
						return x.couldPublish(st, w.childRef(t, phis[i]), map[int]bool{}, 0)
					}})
			}
		}
	}
	// fields of locally allocated nodes that the loop modifies
	for _, m := range lc.mods {
		for bi, b := range m.bases {
			b := b
			bt, local := x.allocs[b.id]
			if !local || !w.isAST(bt) {
				continue
			}
			for _, f := range w.walkFields(bt) {
				f := f
				keys := x.objKeys(bt, f.path, f.typ)
				if len(keys) == 0 || !contains(keys, m.key) || keys[0] != m.key {
					continue
				}
				get := func(st *State) Val {
					var v Val
					for _, k := range keys {
						v.leaves = append(v.leaves, p.Select(x.heapGet(st, k), b))
					}
					return v
				}
				for _, c := range w.invs(bt, f) {
					c := c
					add(fmt.Sprintf("obj%d%s.%s", bi, f.path, c.kind), func(st *State, _, _ []Val) *Term { return x.invTerm(c, get(st)) })
				}
				if w.childRef(f.typ, get(lc.entry)) != nil {
					id := lc.id + "|inv|" + fmt.Sprintf("obj%d%s.pub", bi, f.path)
					if w.active(id) {
						out = append(out, LoopInv{name: "field " + f.path + " pub", cand: id, pubOf: func(st *State) *Term { return w.childRef(f.typ, get(st)) },
							build: func(st *State, _, _ []Val) *Term {
								return x.couldPublish(st, w.childRef(f.typ, get(st)), map[int]bool{}, 0)
							}})
					}
				}
			}
		}
	}
	return out
}

func contains(ss []string, s string) bool {
	for _, t := range ss {
		if t == s {
			return true
		}
	}
	return false
}

func phiName(ph *ssa.Phi, i int) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return fmt.Sprintf("phi%d", i)
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// curLex: the lexer of the innermost frame that has one.
func (x *Exec) curLex() (*Term, *Frame) {
	for i := len(x.frames) - 1; i >= 0; i-- {
		fr := x.frames[i]
		if lp := x.w.lexParam(fr.fn); lp >= 0 {
			return x.lexOf(fr.entry, fr.fn.Params[lp].Type(), fr.args[lp]), x.frames[0].withLex(x)
		}
		for k, fv := range fr.fn.FreeVars {
			_ = k
			_ = fv
		}
	}
	return nil, nil
}

func (fr *Frame) withLex(x *Exec) *Frame {
	if x.w.lexParam(fr.fn) >= 0 {
		return fr
	}
	return nil
}

// outerLens: integer values that bound indices: lengths of slices/strings that do not change in the loop.
func (lc *LoopCtx) outerLens() []*Term {
	x := lc.x
	var out []*Term
	seen := map[int]bool{}
	add := func(t *Term) {
		if t != nil && !seen[t.id] && t.sort == SInt && len(out) < 4 {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	for b := range lc.l.blocks {
		_ = b
	}
	// comparisons in the loop against values defined outside
	for _, b := range lc.fr.rpo {
		if !lc.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isIntT(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			default:
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if i, ok := v.(ssa.Instruction); ok && lc.l.blocks[i.Block()] {
					// len(x) of an outer x recomputed in the loop
					if c, ok := v.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							if val, ok := lc.entry.env[c.Call.Args[0]]; ok && val.addr == nil && len(val.leaves) > 0 {
								if isSlice(c.Call.Args[0].Type()) {
									add(x.lenOf(val, c.Call.Args[0].Type()))
								} else if isBasic(c.Call.Args[0].Type()) {
									add(x.slen(val.leaves[0]))
								}
							}
						}
					}
					continue
				}
				if val, ok := lc.entry.env[v]; ok && len(val.leaves) == 1 && val.addr == nil {
					add(val.leaves[0])
				}
			}
		}
	}
	return out
}

func (w *World) loopVariant(lc *LoopCtx, head *State, hv []Val, back edge, x *Exec) {
	p := x.p
	x.loopsSeen[lc.id] = true
	try := func(name string, cond *Term) {
		id := lc.id + "|var|" + name
		if !w.active(id) {
			return
		}
		x.loopVars[lc.id] = append(x.loopVars[lc.id], id)
		x.oblige2(back.st, "variant", "loop variant "+name+" of "+lc.id+" decreases", cond, id)
	}
	if lex, _ := x.curLex(); lex != nil {
		m0, m1 := x.measure(head, lex), x.measure(back.st, lex)
		try("M", p.And(p.Lt(m1, m0), p.Le(p.Int(0), m0)))
		for i, ph := range lc.phis {
			if isBool(ph.Type()) {
				// a flag that ends the loop: (M, flag) decreases lexicographically
				b := func(t *Term) *Term { return p.Ite(t, p.Int(1), p.Int(0)) }
				try("M,"+phiName(ph, i), p.And(p.Le(p.Int(0), m0), p.Or(p.Lt(m1, m0), p.And(p.Eq(m1, m0), p.Lt(b(back.phis[i].leaves[0]), b(hv[i].leaves[0]))))))
				try("M,!"+phiName(ph, i), p.And(p.Le(p.Int(0), m0), p.Or(p.Lt(m1, m0), p.And(p.Eq(m1, m0), p.Lt(b(hv[i].leaves[0]), b(back.phis[i].leaves[0]))))))
			}
		}
		for i, ph := range lc.phis {
			if isIntT(ph.Type()) {
				in := x.slen(x.lexField(head, lex, "input"))
				o0, o1 := x.lexField(head, lex, "offset"), x.lexField(back.st, lex, "offset")
				s0, s1 := p.Add(o0, hv[i].leaves[0]), p.Add(o1, back.phis[i].leaves[0])
				try("len-off-"+phiName(ph, i), p.And(p.Lt(s0, s1), p.Le(s1, in)))
			}
		}
	}
	lens := lc.outerLens()
	for i, ph := range lc.phis {
		if !isIntT(ph.Type()) {
			continue
		}
		a, b := hv[i].leaves[0], back.phis[i].leaves[0]
		for k, l := range lens {
			try(fmt.Sprintf("%s.up.len%d", phiName(ph, i), k), p.And(p.Lt(a, b), p.Le(b, l)))
		}
		// a bound re-read from a field of an object outside the loop
		for _, in := range lc.l.header.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !isIntT(u.Type()) {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			bv, ok := lc.entry.env[fa.X]
			if !ok || bv.addr != nil || len(bv.leaves) != 1 {
				continue
			}
			t := derefType(fa.X.Type())
			path := "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
			k := x.objKeys(t, path, u.Type())[0]
			t0, t1 := p.Select(x.heapGet(head, k), bv.leaves[0]), p.Select(x.heapGet(back.st, k), bv.leaves[0])
			try(phiName(ph, i)+".up"+path, p.And(p.Eq(t0, t1), p.Lt(a, b), p.Le(b, t0)))
		}
		try(phiName(ph, i)+".down", p.And(p.Lt(b, a), p.Le(p.Int(0), a)))
	}
	_ = strings.Join
}

func (w *World) loopTraceInfo(lc *LoopCtx, hv []Val, l *TrLoop) {}
