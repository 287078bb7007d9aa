package main

// Ghost bookkeeping for traversals: which children of a node were walked,
// visited or printed on the way to a return. One job is one function together
// with one concrete type of the node it is given; the clauses proved are
// collected in deliver and used at the calls of that function.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Plug is the property-specific part of a run.
type Plug struct {
	onInvoke func(st *State, c *ssa.CallCommon, args, rs []Val)
	onAnyCall func(st *State, fn *ssa.Function, args []Val) // before the callee is looked at
	onCall   func(st *State, fn *ssa.Function, args, rs []Val)
	onDyn    func(st *State, c *ssa.CallCommon, fv Val, args, rs []Val)
	loopInvs func(lc *LoopCtx) []LoopInv
	onReturn func(fr *Frame, st *State, vals []Val)
	onStart  func(fn *ssa.Function, args []Val, st *State)
	onStore  func(st *State, a *Addr, v Val, in ssa.Instruction)
	onMap    func(st *State, in ssa.Instruction, m *Term)
	onAppend func(st *State, list ssa.Value)
	onPub    func(st *State, t types.Type, ref *Term) // a node made here is handed on
	onBin    func(st *State, in *ssa.BinOp, a, b Val)
	onLook   func(st *State, of types.Type, key ssa.Value, v Val)
	onLib    func(st *State, name string, args []Val) // before a library call
	onAlloc    func(st *State, t types.Type, ref *Term)
	onAppended func(st *State, call *ssa.CallCommon, a, b, out Val)
	onLit      func(st *State, et types.Type, elems []Val, t types.Type, out Val)
	onCopy     func(st *State, t types.Type, ref *Term, v Val) // a whole struct is read
	onLoopIn   func(lc *LoopCtx, st *State, vals []Val)        // before a loop
	onLoopHead func(lc *LoopCtx, entry, st *State, vals []Val) // in any iteration
	onBack     func(lc *LoopCtx, n int, st *State, vals []Val) // after it; n records at its head
	onHead   func(st *State) // at a loop head, after the invariants are assumed
	opaque   func(f *ssa.Function) bool // not looked into
	keepCells bool // a client's function cannot reach this function's variables
	replace  func(st *State, f *ssa.Function, args []Val) ([]Val, bool) // the call's meaning
	onExtern func(st *State, name string, args, rs []Val) // builder writes
}

// Job: one verification unit of a property layered over the base contracts.
type Job struct {
	name  string
	fn    *ssa.Function
	setup func(x *Exec) // installs x.plug, specialises arguments
	must  bool          // carries the property itself; the rest are helpers
}

type target struct {
	name  string
	chain []*Term // objects whose delivery delivers the target (helpers outside in, the child last)
	sls   []*Term // element arrays of the slices it is drawn from
	idxs  []*Term // and the index in each, one arbitrary number
	via   bool    // the child is a struct stored in the innermost slice itself
	off   int     // where in the element
	guard *Term   // the child exists
	typ   types.Type
	apart bool // its parent's parent delivers it
	vals  [][]*Term // the element arrays of each slice in full
	subs  []target // its own children
	leaf  *Term    // a text or a flag of the node
	flag  bool
}

// targets: the children of the node ref of struct type t, as it is in state st.
// Slice elements are represented by one arbitrary index each.
func (x *Exec) targets(st *State, t types.Type, ref *Term, leaf func(t types.Type) bool, refine int, detached map[string]string) []target {
	p := x.p
	var out []target
	seenT := map[string]bool{}
	var fields func(get func(f fieldInfo) Val, t types.Type, pre target)
	var value func(v Val, ft types.Type, pre target)
	var scalar func(get func(f fieldInfo) Val, f fieldInfo, t types.Type, pre target)
	value = func(v Val, ft types.Type, pre target) {
		switch {
		case isPtr(ft) && x.w.isAST(derefType(ft)):
			r := v.leaves[0]
			n := pre
			n.chain = append(append([]*Term{}, pre.chain...), r)
			n.guard = p.And(pre.guard, p.Not(p.Eq(r, p.Int(0))))
			n.typ = ft
			et := derefType(ft)
			if leaf(ft) {
				if len(n.chain) < refine && !seenT[et.String()] {
					keep := out
					out = nil
					seenT[et.String()] = true
					fields(func(f fieldInfo) Val { return x.loadHeap(st, et, f.path, f.typ, r) }, et, n)
					delete(seenT, et.String())
					for _, s := range out {
						if s.apart {
							keep = append(keep, s)
						} else {
							n.subs = append(n.subs, s)
						}
					}
					out = keep
				}
				out = append(out, n)
				return
			}
			if seenT[et.String()] || len(n.chain) > 5 {
				return
			}
			seenT[et.String()] = true
			fields(func(f fieldInfo) Val { return x.loadHeap(st, et, f.path, f.typ, r) }, et, n)
			delete(seenT, et.String())
		case isIface(ft) && x.w.isASTIface(ft):
			n := pre
			n.chain = append(append([]*Term{}, pre.chain...), v.leaves[1])
			n.guard = p.And(pre.guard, p.Not(p.Eq(v.leaves[0], p.Int(0))), p.Not(p.Eq(v.leaves[1], p.Int(0))))
			n.typ = ft
			out = append(out, n)
		case isSlice(ft):
			et := ft.Underlying().(*types.Slice).Elem()
			if !x.holdsNodes(et, map[string]bool{}) {
				return
			}
			k := p.Fresh("k", SInt)
			es, ln, _, ok := sliceParts(v)
			n := pre
			n.name += "[k]"
			n.idxs = append(append([]*Term{}, pre.idxs...), k)
			n.sls = append(append([]*Term{}, pre.sls...), es[0])
			n.vals = append(append([][]*Term{}, pre.vals...), es)
			n.guard = p.And(pre.guard, p.Le(p.Int(0), k), p.Lt(k, ln))
			ev := Val{set: true}
			for _, e := range es {
				ev.leaves = append(ev.leaves, p.Select(e, k))
			}
			x.ass = append(x.ass, p.Implies(p.And(ok, n.guard), x.elemOKFor(et, ev)))
			if isStructT(et) && !leaf(types.NewPointer(et)) { // nodes kept inside the element
				for _, f := range x.nestedStructs(et) {
					if !leaf(types.NewPointer(f.typ)) {
						continue
					}
					lo, hi := x.leafRange(et, f.path)
					m := n
					m.name += f.path
					m.via, m.off, m.typ = true, lo, types.NewPointer(f.typ)
					m.vals = append(append([][]*Term{}, pre.vals...), es[lo:hi])
					keep := out
					out = nil
					if refine > 0 {
						value(Val{leaves: ev.leaves[lo:hi], set: true}, f.typ, m)
						for i := range out {
							out[i].via, out[i].off = true, lo
						}
						m.subs = out
					}
					out = append(keep, m)
				}
			}
			if isStructT(et) && leaf(types.NewPointer(et)) {
				n.via = true
				n.typ = types.NewPointer(et)
				if refine == 0 {
					out = append(out, n)
					return
				}
				keep := out
				out = nil
				value(ev, et, n)
				for i := range out {
					out[i].via = true
				}
				n.subs = out
				out = append(keep, n)
				return
			}
			value(ev, et, n)
		case isStructT(ft):
			for _, f := range x.w.walkFields(ft) {
				lo, hi := x.leafRange(ft, f.path)
				n := pre
				n.name += f.path
				value(Val{leaves: v.leaves[lo:hi], set: true}, f.typ, n)
			}
		}
	}
	scalar = func(get func(f fieldInfo) Val, f fieldInfo, t types.Type, pre target) {
		n := pre
		n.name += f.path
		n.typ = f.typ
		switch {
		case isStringT(f.typ):
			n.leaf = get(f).leaves[0]
			n.guard = p.And(n.guard, p.Lt(p.Int(0), x.slen(n.leaf)))
			out = append(out, n)
		case isBool(f.typ):
			n.leaf, n.flag = get(f).leaves[0], true
			out = append(out, n)
		case isSlice(f.typ) && isStringT(f.typ.Underlying().(*types.Slice).Elem()):
			k := p.Fresh("k", SInt)
			es, ln, _, _ := sliceParts(get(f))
			n.name += "[k]"
			n.idxs = append(append([]*Term{}, pre.idxs...), k)
			n.sls = append(append([]*Term{}, pre.sls...), es[0])
			n.vals = append(append([][]*Term{}, pre.vals...), es)
			n.leaf = p.Select(es[0], k)
			n.guard = p.And(pre.guard, p.Le(p.Int(0), k), p.Lt(k, ln), p.Lt(p.Int(0), x.slen(n.leaf)))
			out = append(out, n)
		}
	}
	fields = func(get func(f fieldInfo) Val, t types.Type, pre target) {
		for _, f := range x.w.walkFields(t) {
			if refine > 0 {
				scalar(get, f, t, pre)
			}
			if !x.holdsNodes(f.typ, map[string]bool{}) {
				continue
			}
			n := pre
			n.name += f.path
			if detached[x.L.typeKey(t)+f.path] != "" {
				if len(pre.chain) == 0 {
					continue
				}
				n.chain = nil // not delivered with its parent
				n.apart = true
			}
			value(get(f), f.typ, n)
		}
	}
	fields(func(f fieldInfo) Val { return x.loadHeap(st, t, f.path, f.typ, ref) }, t, target{name: x.L.typeKey(t), guard: p.T})
	return out
}

// listed: the elements of a slice written out in the program (a composite
// literal or the arguments of a variadic call).
func (x *Exec) listed(v Val) ([]Val, bool) {
	if len(v.leaves) < 4 {
		return nil, false
	}
	es, ln, _, _ := sliceParts(v)
	if ln.op != "int" || ln.n == 0 || ln.n > 64 || len(es) == 0 || es[0].op != "store" {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < ln.n; i++ {
		e := Val{set: true}
		for _, l := range es {
			e.leaves = append(e.leaves, x.p.Select(l, x.p.Int(i)))
		}
		out = append(out, e)
	}
	return out, true
}

// nestedStructs: the struct-valued fields of a struct.
func (x *Exec) nestedStructs(t types.Type) []fieldInfo {
	var out []fieldInfo
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); isStructT(f.Type()) && !f.Anonymous() {
			out = append(out, fieldInfo{"." + f.Name(), f.Type()})
		}
	}
	return out
}

func (x *Exec) elemOKFor(et types.Type, v Val) *Term {
	if x.elemNeedsOK(et) {
		return x.elemOK(et, v)
	}
	return x.p.T
}

// holdsNodes: can a value of the type lead to a node?
func (x *Exec) holdsNodes(t types.Type, seen map[string]bool) bool {
	if seen[t.String()] {
		return false
	}
	seen[t.String()] = true
	switch {
	case isPtr(t):
		return x.w.isAST(derefType(t))
	case isIface(t):
		return x.w.isASTIface(t)
	case isSlice(t):
		return x.holdsNodes(t.Underlying().(*types.Slice).Elem(), seen)
	case isStructT(t):
		for _, f := range x.w.walkFields(t) {
			if x.holdsNodes(f.typ, seen) {
				return true
			}
		}
	}
	return false
}

// sameRef: a and b denote the same child. Children at different places of a
// tree are different objects (stated as an assumption of the properties).
func (x *Exec) sameRef(a, b *Term) *Term {
	p := x.p
	if a == b {
		return p.T
	}
	if a.op == "ite" {
		return p.Ite(a.args[0], x.sameRef(a.args[1], b), x.sameRef(a.args[2], b))
	}
	if a.op == "select" && b.op == "const" || a.op == "const" && b.op == "select" {
		return p.F // a part of a node is not the node
	}
	if a.op == "select" && b.op == "select" {
		ra, rb := a.args[0], b.args[0]
		if ra == rb {
			return x.sameAt(a.args[1], b.args[1])
		}
		if ra.op == "const" && rb.op == "const" {
			return p.F // different fields
		}
		if ra.op == "select" && rb.op == "select" {
			if ra.args[0].op == "const" && rb.args[0].op == "const" && ra.args[0] != rb.args[0] {
				return p.F
			}
			if ra.args[0] == rb.args[0] {
				return p.And(x.sameAt(ra.args[1], rb.args[1]), x.sameAt(a.args[1], b.args[1]))
			}
		}
		if (ra.op == "select") != (rb.op == "select") && (ra.op == "const" || rb.op == "const") {
			return p.F
		}
	}
	return p.Eq(a, b)
}

// sameAt: the same object (a place in the heap) or the same index.
func (x *Exec) sameAt(a, b *Term) *Term {
	isRef := func(t *Term) bool { return t.op == "select" || t.op == "ite" }
	if isRef(a) && isRef(b) {
		return x.sameRef(a, b)
	}
	return x.p.Eq(a, b)
}

// ---------------------------------------------------------------- the three engines

type engine struct {
	prop, name string
	isTool   func(w *World, t types.Type) bool // the callback, visitor or formatter handed down
	isRoot   func(w *World, f *ssa.Function) bool
	leaf     func(w *World, t types.Type) bool
	node     func(w *World, fn *ssa.Function) int
	except   map[string]string // target name -> why it is not required
	words    map[string]string // target name -> the words that stand for it
	detached map[string]string // target name -> why its parent's parent delivers it
	assume   map[string][]string // node type -> clauses taken on trust
}

func hasMethod(w *World, t types.Type, name string) bool {
	return w.prog.MethodSets.MethodSet(t).Lookup(w.pkg.Pkg, name) != nil
}

func isExprT(w *World, t types.Type) bool {
	return types.Implements(t, w.exprIface.Underlying().(*types.Interface))
}

func isWalkFn(w *World, t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 1 && isBool(s.Results().At(0).Type()) && w.isASTIface(s.Params().At(0).Type())
}

var engWalk = &engine{prop: "C13", name: "walk",
	isTool: isWalkFn,
	isRoot: func(w *World, f *ssa.Function) bool { return f.Name() == "Walk" && f.Signature.Recv() == nil },
}

var engAccept = &engine{prop: "C14", name: "accept",
	isTool: func(w *World, t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && isIface(t) && n.Obj().Pkg() == w.pkg.Pkg && n.Obj().Name() == "ASTVisitor"
	},
	isRoot: func(w *World, f *ssa.Function) bool { return f.Name() == "Accept" && w.dispatched(f) },
}

var engFormat = &engine{prop: "C17", name: "format",
	isTool: func(w *World, t types.Type) bool { return w.ptrName(t) == "Formatter" },
	isRoot: func(w *World, f *ssa.Function) bool { return f.Name() == "FormatSQL" && w.dispatched(f) },
	except: map[string]string{
		"NotNullLiteral.NullLiteral": "the literal is printed as the words NOT NULL",
		"JoinConstraintClause.Using": "the parser builds no such node (ON and USING have their own)",
		"(*JoinExpr).FormatSQL|JoinExpr.Constraints": "only joined tables have constraints: writeJoinSQL prints them",
		"(*JoinExpr).FormatSQL|JoinExpr.Modifiers": "only joined tables have modifiers: writeJoinSQL prints them",
		"CastExpr.Separator":         "tells which of the equivalent spellings of a cast was used; the separator printed is AS or a comma",
		"SettingPair.Operation":      "an equals sign or nothing",
		"CreateLiveView.Destination.TableSchema": "a live view takes its columns from its own table schema",
		"JSONOptions.Items":          "the options are sorted into three groups first",
	},
	words: map[string]string{
		"ColumnDef.NotNull":  " NOT NULL",
		"ColumnDef.Nullable": " NULL",
	},
	detached: map[string]string{"DestinationClause.TableSchema": "printed by the statement the destination belongs to"},
	assume: map[string][]string{
		"SelectQuery": {"!UnionAll !UnionDistinct", "!UnionAll !Except", "!UnionAll !Intersect", "!UnionDistinct !Except", "!UnionDistinct !Intersect", "!Except !Intersect"},
	},
}

// exempt: is a child (or the place it is under) excused?
func (g *engine) exempt(name string, m map[string]string) bool {
	if m[name] != "" {
		return true
	}
	for e := range m {
		if strings.HasPrefix(name, e+".") || strings.HasPrefix(name, e+"[") {
			return true
		}
	}
	return false
}

func (g *engine) excused(w *World, fn *ssa.Function, name string) bool {
	return g.exempt(name, g.except) || g.exempt(w.fnKey(fn)+"|"+name, g.except)
}

// flagWords: what stands for an option in the text.
var flagWords = map[string]string{
	"CreateUser.DefaultDbNone": "DEFAULT DATABASE NONE",
	"SubQuery.HasParen": "(",
	"TableProjection.IncludeProjectionKeyword": "PROJECTION",
	"NamedCollectionParam.NotOverridable": "NOT OVERRIDABLE",
	"SelectQuery.WithTotal": "WITH TOTALS",
	"DictionaryAttribute.IsObjectId": "IS_OBJECT_ID",
	"AuthenticationClause.NotIdentified": "NOT IDENTIFIED",
	"ShowStmt.NotLike": "NOT",
	"InsertStmt.HasTableKeyword": "TABLE",
	"AuthenticationClause.IsKerberos": "KERBEROS",
}

func (g *engine) says(lit, name string) bool {
	w := flagWords[name]
	if w == "" {
		f := name[strings.LastIndex(name, ".")+1:]
		for _, pre := range []string{"Has", "Is"} {
			f = strings.TrimPrefix(f, pre)
		}
		for i, c := range f {
			if i > 0 && c >= 'A' && c <= 'Z' {
				w += " "
			}
			w += strings.ToUpper(string(c))
		}
	}
	lit = strings.ToUpper(lit)
	i := strings.Index(lit, w)
	if i < 0 {
		return false
	}
	word := func(b byte) bool { return b == '_' || b >= 'A' && b <= 'Z' }
	if word(w[0]) && (i > 0 && word(lit[i-1]) || i+len(w) < len(lit) && word(lit[i+len(w)])) {
		return false
	}
	return !strings.Contains(lit, "NOT "+w) && !strings.Contains(lit, "UNION "+w)
}

// tool and node parameters of a traversal function
func (g *engine) params(w *World, f *ssa.Function) (tool int, nodes []int) {
	tool = -1
	for i, p := range f.Params {
		if tool < 0 && g.isTool(w, p.Type()) {
			tool = i
			continue
		}
		if w.isASTish(p.Type()) || isSlice(p.Type()) && w.isASTish(p.Type().Underlying().(*types.Slice).Elem()) {
			nodes = append(nodes, i)
		}
	}
	if tool < 0 {
		nodes = nil
	}
	return
}

func (g *engine) cand(w *World, f *ssa.Function, i int, how string) string {
	return fmt.Sprintf("prop|%s|%s|p%d|%s", g.name, w.fnKey(f), i, how)
}

// concrete: the concrete types a parameter can have.
func (w *World) concrete(t types.Type) []types.Type {
	if isIface(t) {
		return w.implementers(t)
	}
	return []types.Type{t}
}

func (g *engine) jobs(w *World) []Job {
	var out []Job
	for _, f := range w.fns {
		f := f
		if f.Parent() != nil || wrapper(f) || len(f.Blocks) == 0 {
			continue
		}
		tool, nodes := g.params(w, f)
		if tool < 0 || len(nodes) == 0 {
			continue
		}
		if g == engWalk && len(f.AnonFuncs) > 0 {
			continue // WalkWithBreak, Find, FindAll, Transform: see C15
		}
		for _, i := range nodes {
			i := i
			t := f.Params[i].Type()
			if isSlice(t) {
				out = append(out, Job{name: fmt.Sprintf("%s p%d", w.fnKey(f), i), fn: f, setup: func(x *Exec) { g.install(x, f, tool, i, t) }})
				continue
			}
			for _, ct := range w.concrete(t) {
				ct := ct
				if !isPtr(ct) {
					continue
				}
				out = append(out, Job{name: fmt.Sprintf("%s p%d=%s", w.fnKey(f), i, w.L.typeKey(derefType(ct))), fn: f, must: g.isRoot(w, f), setup: func(x *Exec) { g.install(x, f, tool, i, ct) }})
			}
		}
	}
	return out
}

func (g *engine) install(x *Exec, fn *ssa.Function, tool, node int, ct types.Type) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	isRoot := g.isRoot(w, fn)
	var tgs, all []target
	var self, toolRef, dead *Term
	sliceParam := isSlice(ct)
	T, F := p.T, p.F
	gset := func(st *State, k string, v *Term) { st.ghost[k] = v }
	gget := func(st *State, k string) *Term { return st.ghost[k] }
	inc := func(st *State, k string, c *Term) {
		gset(st, k, p.Add(gget(st, k), p.Ite(c, p.Int(1), p.Int(0))))
	}
	ob := func(st *State, what string, c *Term, cands ...string) {
		x.oblige2(st, "prop", g.name+" "+what, c, cands...)
	}
	x.specialise = func(fn *ssa.Function, args []Val) {
		if fn != x.top || sliceParam {
			return
		}
		if isIface(fn.Params[node].Type()) {
			args[node] = Val{leaves: []*Term{p.Int(int64(w.typeTag(ct))), args[node].leaves[1]}, set: true}
			if dead == nil {
				dead = p.Not(p.Eq(args[node].leaves[1], p.Int(0)))
			}
			x.ass = append(x.ass, dead)
		} else {
			x.ass = append(x.ass, p.Not(p.Eq(args[node].leaves[0], p.Int(0))))
		}
	}
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		leaf := func(t types.Type) bool { return isExprT(w, t) }
		if sliceParam {
			et := ct.Underlying().(*types.Slice).Elem()
			k := p.Fresh("k", SInt)
			es, ln, _, _ := sliceParts(args[node])
			ref := p.Select(es[len(es)-1], k)
			tgs = []target{{name: "p[k]", chain: []*Term{ref}, sls: []*Term{es[0]}, idxs: []*Term{k}, guard: p.And(p.Le(p.Int(0), k), p.Lt(k, ln), p.Not(p.Eq(ref, p.Int(0)))), typ: et}}
			self = p.Int(-1)
		} else {
			self = args[node].leaves[len(args[node].leaves)-1]
			refine := 0
			if g == engFormat {
				refine = 3
			}
			tgs = x.targets(st, derefType(ct), self, leaf, refine, g.detached)
			all = flatten(tgs)
		}
		if !sliceParam {
			for _, cl := range g.assume[x.L.typeKey(derefType(ct))] {
				if o, ok := w.clause(derefType(ct), cl); ok {
					x.ass = append(x.ass, x.orTerm(o, func(f fieldInfo) Val { return x.fieldOf(st, derefType(ct), f, self) }))
				}
			}
		}
		toolRef = args[tool].leaves[len(args[tool].leaves)-1]
		if sliceParam {
			all = tgs
		}
		for _, t := range all {
			gset(st, "n:"+t.name, p.Int(0))
		}
		for _, k := range []string{"self", "enter", "leave", "visit"} {
			gset(st, k, p.Int(0))
		}
		gset(st, "stop", F)
		gset(st, "errt", p.Int(0))
		gset(st, "errv", p.Int(0))
	}
	x.onTargets = func() []target { return tgs }
	var viaRef func(st *State, t target, r *Term) *Term
	var done func(st *State, t target) *Term
	done = func(st *State, t target) *Term {
		c := p.Eq(gget(st, "n:"+t.name), p.Int(1))
		if t.flag { // shown when set, absent when not
			c = p.Eq(gget(st, "n:"+t.name), p.Ite(t.leaf, p.Int(1), p.Int(0)))
		}
		if len(t.subs) > 0 {
			sub := p.Eq(gget(st, "n:"+t.name), p.Int(0))
			for _, s := range t.subs {
				if g.excused(w, fn, s.name) {
					continue
				}
				sub = p.And(sub, done(st, s))
			}
			c = p.Or(c, sub)
		}
		return p.Implies(t.guard, c)
	}
	// delivered: an object (or slice) reached the engine in full at this point
	var deliver func(st *State, v Val, isSl bool)
	deliver = func(st *State, v Val, isSl bool) {
		if isSl {
			if es, ok := x.listed(v); ok {
				for _, e := range es {
					deliver(st, e, false)
				}
				return
			}
		}
		for _, t := range all {
			m := F
			if isSl {
				for _, sl := range t.sls {
					if len(v.leaves) > 0 && v.leaves[0] == sl {
						m = T
					}
				}
			} else {
				r := v.leaves[len(v.leaves)-1]
				for _, o := range t.chain {
					m = p.Or(m, x.sameRef(r, o))
				}
				m = p.Or(m, viaRef(st, t, r))
			}
			inc(st, "n:"+t.name, p.And(m, t.guard))
		}
		if !isSl {
			inc(st, "self", x.sameRef(v.leaves[len(v.leaves)-1], self))
		}
	}
	viaRef = func(st *State, t target, r *Term) *Term {
		if !t.via {
			return F
		}
		if r.op == "ite" {
			return p.Ite(r.args[0], viaRef(st, t, r.args[1]), viaRef(st, t, r.args[2]))
		}
		for _, m := range x.mats {
			if m.ref == r && m.off == t.off && types.Identical(types.NewPointer(m.t), t.typ) {
				for i, sl := range t.sls {
					if m.sl[0] == sl {
						return p.Eq(m.idx, t.idxs[i])
					}
				}
			}
		}
		// a local copy of the element
		if et, ok := x.allocs[r.id]; ok && g == engFormat && types.Identical(types.NewPointer(et), t.typ) {
			v := x.loadHeap(st, et, "", et, r)
			for i := range t.sls {
				if len(v.leaves) != len(t.vals[i]) || len(v.leaves) == 0 {
					continue
				}
				same := true
				for j, l := range v.leaves {
					same = same && l.op == "select" && l.args[0] == t.vals[i][j] && l.args[1] == v.leaves[0].args[1]
				}
				if same {
					return p.Eq(v.leaves[0].args[1], t.idxs[i])
				}
			}
		}
		return F
	}
	kids := func(st *State, v Val) { // the children of v were delivered, not v itself
		r := v.leaves[len(v.leaves)-1]
		m := x.sameRef(r, self)
		for _, t := range all {
			mm := m
			for i, o := range t.chain {
				if i < len(t.chain)-1 {
					mm = p.Or(mm, x.sameRef(r, o))
				}
			}
			if len(t.chain) > 0 {
				mm = p.Or(mm, viaRef(st, t, r))
			}
			inc(st, "n:"+t.name, p.And(mm, t.guard))
		}
	}
	toolOK := func(v Val) *Term { return x.sameRef(v.leaves[len(v.leaves)-1], toolRef) }
	before := func(st *State, what string) {
		ob(st, "goes on only while nothing asked it to stop ("+what+")", p.Not(gget(st, "stop")), "prop|"+g.name+"|"+w.fnKey(x.top)+"|quiet")
	}
	after := func(st *State, rs []Val) {
		switch g {
		case engWalk:
			if len(rs) > 0 && len(rs[0].leaves) == 1 {
				gset(st, "stop", p.Or(gget(st, "stop"), p.Not(rs[0].leaves[0])))
			}
		case engAccept:
			if len(rs) == 1 && len(rs[0].leaves) == 2 {
				bad := p.Not(p.Eq(rs[0].leaves[0], p.Int(0)))
				gset(st, "errt", p.Ite(bad, rs[0].leaves[0], gget(st, "errt")))
				gset(st, "errv", p.Ite(bad, rs[0].leaves[1], gget(st, "errv")))
				gset(st, "stop", p.Or(gget(st, "stop"), bad))
			}
		}
	}
	childEvent := func(st *State) {
		if g == engWalk && isRoot && !sliceParam {
			ob(st, "calls the function on the node before its children", p.Eq(gget(st, "self"), p.Int(1)))
		}
		if g == engAccept && isRoot {
			ob(st, "children are visited after Enter and before Visit and Leave", p.And(p.Eq(gget(st, "enter"), p.Int(1)), p.Eq(gget(st, "visit"), p.Int(0)), p.Eq(gget(st, "leave"), p.Int(0))))
		}
		before(st, "child")
	}
	printed := map[*Term]Val{} // strings made by Format
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		if g != engFormat || !w.printer(f) || x.sameRef(args[0].leaves[0], toolRef) != T {
			return
		}
		a := args[1].leaves[0]
		if v, ok := printed[a]; ok {
			deliver(st, v, false)
		}
		var texts func(a, c *Term)
		texts = func(a, c *Term) {
			switch {
			case a.op == "app" && (a.name == "scat" || a.name == "upper"):
				for _, b := range a.args {
					texts(b, c)
				}
				return
			case a.op == "ite":
				texts(a.args[1], p.And(c, a.args[0]))
				texts(a.args[2], p.And(c, p.Not(a.args[0])))
				return
			case a.op == "str" || a.op == "int":
				lit := a.name
				if a.op == "int" {
					lit = string(rune(a.n))
				}
				for _, t := range all {
					if t.flag && g.says(lit, t.name) {
						inc(st, "n:"+t.name, p.And(c, t.guard))
					}
				}
				return
			}
			jl := x.joins[a]
			for _, t := range all {
				if t.leaf == nil || t.flag {
					continue
				}
				if a == t.leaf {
					inc(st, "n:"+t.name, p.And(c, t.guard))
				} else if i := len(t.idxs) - 1; i >= 0 && t.leaf.op == "select" && t.leaf.args[0] == t.sls[i] {
					if jl == t.sls[i] {
						inc(st, "n:"+t.name, p.And(c, t.guard))
					} else if a.op == "select" && a.args[0] == t.sls[i] {
						inc(st, "n:"+t.name, p.And(c, t.guard, p.Eq(a.args[1], t.idxs[i])))
					}
				}
			}
		}
		texts(a, T)
		if a.op == "select" && a.args[0].op == "const" && len(a.args) == 2 { // the text of a node
			for _, t := range all {
				if len(t.chain) > 0 {
					inc(st, "n:"+t.name, p.And(x.sameRef(a.args[1], t.chain[len(t.chain)-1]), t.guard))
				}
			}
		}
		if a.op == "str" {
			for _, t := range all {
				if g.words[t.name] != "" && strings.Contains(a.name, g.words[t.name]) && (g.words[t.name] != " NULL" || !strings.Contains(a.name, "NOT")) {
					inc(st, "n:"+t.name, t.guard)
				}
			}
		}
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		if g == engFormat && f.Name() == "Format" && len(args) == 1 && len(rs) == 1 {
			printed[rs[0].leaves[0]] = args[0]
		}
		tl, nodes := g.params(w, f)
		if tl < 0 || len(nodes) == 0 {
			return
		}
		if g == engWalk && len(f.AnonFuncs) > 0 {
			return
		}
		if toolOK(args[tl]) != T {
			return
		}
		childEvent(st)
		for _, i := range nodes {
			full, kd := g.cand(w, f, i, "full"), g.cand(w, f, i, "kids")
			isSl := isSlice(f.Params[i].Type())
			switch {
			case g.isRoot(w, f):
				if g == engWalk {
					deliver(st, args[i], isSl)
				} else { // a static call of Accept or FormatSQL
					deliver(st, args[i], isSl)
				}
			case w.active(full):
				x.deps[full] = true
				deliver(st, args[i], isSl)
			case w.active(kd) && !isSl:
				x.deps[kd] = true
				kids(st, args[i])
			}
		}
		after(st, rs)
	}
	pl.onDyn = func(st *State, c *ssa.CallCommon, fv Val, args, rs []Val) {
		if g != engWalk || len(fv.leaves) == 0 || x.sameRef(fv.leaves[0], toolRef) != T {
			return
		}
		before(st, "function")
		ob(st, "calls the function on the node itself only", x.sameRef(args[0].leaves[1], self))
		inc(st, "self", x.sameRef(args[0].leaves[1], self))
		after(st, rs)
	}
	pl.onInvoke = func(st *State, c *ssa.CallCommon, args, rs []Val) {
		name := c.Method.Name()
		switch g {
		case engFormat:
			if name == "FormatSQL" && toolOK(args[1]) == T {
				deliver(st, args[0], false)
			}
		case engAccept:
			if g.isTool(w, c.Value.Type()) {
				if !isRoot {
					return
				}
				r := args[1].leaves[len(args[1].leaves)-1]
				ob(st, name+" is given the node itself", x.sameRef(r, self))
				switch {
				case name == "Enter":
					ob(st, "Enter comes first", p.And(p.Eq(gget(st, "enter"), p.Int(0)), p.Eq(gget(st, "visit"), p.Int(0)), p.Eq(gget(st, "leave"), p.Int(0))))
					inc(st, "enter", T)
				case name == "Leave":
					ob(st, "Leave comes last", p.And(p.Eq(gget(st, "enter"), p.Int(1)), p.Eq(gget(st, "leave"), p.Int(0))))
					inc(st, "leave", T)
				default:
					ob(st, "Visit comes after Enter and before Leave", p.And(p.Eq(gget(st, "enter"), p.Int(1)), p.Eq(gget(st, "visit"), p.Int(0)), p.Eq(gget(st, "leave"), p.Int(0))))
					before(st, "Visit")
					for _, t := range tgs {
						if g.excused(w, fn, t.name) {
							continue
						}
						ob(st, "child "+t.name+" is visited before its parent", done(st, t))
					}
					inc(st, "visit", T)
					after(st, rs)
				}
				return
			}
			if name == "Accept" {
				if toolOK(args[1]) != T {
					return
				}
				childEvent(st)
				deliver(st, args[0], false)
				after(st, rs)
			}
		}
	}
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		// everything the bookkeeping says may change in the loop
		add := func(name string, b func(st *State, phis, entry []Val) *Term) {
			id := "prop|" + g.name + "|" + x.jobName + "|" + lc.id + "|" + name
			if w.active(id) {
				out = append(out, LoopInv{name: name, cand: id, build: b})
			}
		}
		for _, k := range sortedKeys(lc.entry.ghost) {
			k := k
			e := lc.entry.ghost[k]
			add(k+".same", func(st *State, _, _ []Val) *Term { return p.Eq(gget(st, k), e) })
		}
		// the loop carries the answer of the last call
		for i, ph := range lc.phis {
			i := i
			switch {
			case isBool(ph.Type()):
				add("stop.isnot."+phiName(ph, i), func(st *State, phis, _ []Val) *Term { return p.Eq(gget(st, "stop"), p.Not(phis[i].leaves[0])) })
				add("stop.is."+phiName(ph, i), func(st *State, phis, _ []Val) *Term { return p.Eq(gget(st, "stop"), phis[i].leaves[0]) })
			case isIface(ph.Type()) && len(lc.entryPhis[i].leaves) == 2:
				add("stop.err."+phiName(ph, i), func(st *State, phis, _ []Val) *Term {
					return p.Eq(gget(st, "stop"), p.Not(p.Eq(phis[i].leaves[0], p.Int(0))))
				})
				add("errt."+phiName(ph, i), func(st *State, phis, _ []Val) *Term { return p.Eq(gget(st, "errt"), phis[i].leaves[0]) })
				add("errv."+phiName(ph, i), func(st *State, phis, _ []Val) *Term {
					return p.Implies(p.Not(p.Eq(phis[i].leaves[0], p.Int(0))), p.Eq(gget(st, "errv"), phis[i].leaves[1]))
				})
			}
		}
		// loops over the nodes listed in a slice literal
		var lists [][]Val
		for _, v := range sortedEnv(lc.entry.env) {
			if t := v.Type(); isSlice(t) && w.isASTish(t.Underlying().(*types.Slice).Elem()) {
				if es, ok := x.listed(lc.entry.env[v]); ok && len(lists) < 4 {
					lists = append(lists, es)
				}
			}
		}
		for li, es := range lists {
			es := es
			for _, t := range all {
				t := t
				k := "n:" + t.name
				e := lc.entry.ghost[k]
				for i, ph := range lc.phis {
					i := i
					if !isIntT(ph.Type()) {
						continue
					}
					for _, le := range []bool{true, false} {
						le := le
						add(fmt.Sprintf("%s.list%d.%v.%s", k, li, le, phiName(ph, i)), func(st *State, phis, entry []Val) *Term {
							sum := e
							for j, el := range es {
								r := el.leaves[len(el.leaves)-1]
								m := viaRef(st, t, r)
								for _, o := range t.chain {
									m = p.Or(m, x.sameRef(r, o))
								}
								in := p.Lt(p.Int(int64(j)), phis[i].leaves[0])
								if le {
									in = p.Le(p.Int(int64(j)), phis[i].leaves[0])
								}
								sum = p.Add(sum, p.Ite(p.And(m, t.guard, in), p.Int(1), p.Int(0)))
							}
							return p.Eq(gget(st, k), sum)
						})
					}
				}
			}
		}
		for _, t := range all {
			t := t
			k := "n:" + t.name
			e := lc.entry.ghost[k]
			for j, idx := range t.idxs {
				idx := idx
				for i, ph := range lc.phis {
					i := i
					if !isIntT(ph.Type()) {
						continue
					}
					add(fmt.Sprintf("%s.%d.done.%s", k, j, phiName(ph, i)), func(st *State, phis, entry []Val) *Term {
						return p.Eq(gget(st, k), p.Add(e, p.Ite(p.And(t.guard, p.Le(idx, phis[i].leaves[0])), p.Int(1), p.Int(0))))
					})
					add(fmt.Sprintf("%s.%d.upto.%s", k, j, phiName(ph, i)), func(st *State, phis, entry []Val) *Term {
						return p.Eq(gget(st, k), p.Add(e, p.Ite(p.And(t.guard, p.Lt(idx, phis[i].leaves[0])), p.Int(1), p.Int(0))))
					})
				}
			}
		}
		return out
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ok := T
		switch g {
		case engWalk:
			if len(vals) == 1 && len(vals[0].leaves) == 1 {
				ok = vals[0].leaves[0]
				c := []string{}
				if !isRoot {
					c = append(c, g.cand(w, fn, node, "full")+"", "")
					c = c[:0]
				}
				ob(st, "returns false exactly when the function asked to stop", p.Eq(ok, p.Not(gget(st, "stop"))), c...)
			}
		case engAccept:
			if isRoot {
				r := vals[0]
				ok = p.Eq(r.leaves[0], p.Int(0))
				ob(st, "Enter and Leave are each called exactly once", p.And(p.Eq(gget(st, "enter"), p.Int(1)), p.Eq(gget(st, "leave"), p.Int(1))))
				ob(st, "the first error is returned as it is", p.And(p.Eq(r.leaves[0], gget(st, "errt")), p.Implies(p.Not(ok), p.Eq(r.leaves[1], gget(st, "errv")))))
				ob(st, "Visit is called exactly once", p.Implies(ok, p.Eq(gget(st, "visit"), p.Int(1))))
			} else if len(vals) == 1 && len(vals[0].leaves) == 2 {
				ok = p.Eq(vals[0].leaves[0], p.Int(0))
				ob(st, "the first error is returned as it is", p.And(p.Eq(vals[0].leaves[0], gget(st, "errt")), p.Implies(p.Not(ok), p.Eq(vals[0].leaves[1], gget(st, "errv")))), g.cand(w, fn, node, "full"))
			}
		}
		clauses := func(how string, root bool) {
			var cs []string
			if !root {
				cs = []string{g.cand(w, fn, node, how)}
				if !w.active(cs[0]) {
					return
				}
			}
			for _, t := range tgs {
				if g.excused(w, fn, t.name) {
					continue
				}
				c := p.Implies(ok, done(st, t))
				if how == "full" && g != engWalk {
					// handed over as a whole, or child by child
					c = p.Or(p.Eq(gget(st, "self"), p.Int(1)), c)
				}
				ob(st, "reaches child "+t.name+" exactly once", c, cs...)
			}
			if how == "full" && !sliceParam && !(root && g != engWalk) {
				c := p.Eq(gget(st, "self"), p.Int(1))
				if g != engWalk {
					if len(tgs) > 0 {
						return
					}
				}
				ob(st, "the function is called on the node exactly once", c, cs...)
			}
		}
		if isRoot {
			if g == engWalk {
				clauses("full", true)
			} else {
				clauses("kids", true)
			}
			return
		}
		clauses("full", false)
		if !sliceParam {
			clauses("kids", false)
		}
	}
}

func flatten(ts []target) []target {
	var out []target
	for _, t := range ts {
		out = append(append(out, t), flatten(t.subs)...)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- running jobs

type JobResult struct {
	job  Job
	res  *FnResult
}

// RunJobs: Houdini over the jobs' own candidates; the base contracts are fixed.
func (w *World) RunJobs(jobs []Job) []JobResult {
	results := make([]JobResult, len(jobs))
	todo := make([]int, len(jobs))
	for i := range jobs {
		todo[i] = i
	}
	for round := 0; len(todo) > 0 && round < 40; round++ {
		var wg sync.WaitGroup
		ch := make(chan int, len(todo))
		for _, i := range todo {
			ch <- i
		}
		close(ch)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					wf := w.fork()
					j := jobs[i]
					results[i] = JobResult{j, wf.Verify(j.fn, func(x *Exec) { x.jobName = j.name; j.setup(x) })}
				}
			}()
		}
		wg.Wait()
		newly := map[string]bool{}
		for _, i := range todo {
			r := results[i].res
			if r.unsup != "" { // nothing was shown about this job's candidates
				for c := range jobCands(w, jobs[i]) {
					if !w.dropped[c] {
						w.dropped[c], newly[c] = true, true
						w.why[c] = r.unsup
					}
				}
			}
			for _, o := range r.obls {
				if o.status == "failed" || o.status == "unknown" {
					for _, c := range o.cands {
						if strings.HasPrefix(c, "prop|") && !w.dropped[c] {
							w.dropped[c], newly[c] = true, true
							w.why[c] = o.pos + " " + o.name
						}
					}
				}
			}
		}
		todo = todo[:0]
		for i := range jobs {
			hit := false
			r := results[i].res
			for c := range newly {
				if r.deps[c] {
					hit = true
				}
			}
			for _, o := range r.obls {
				for _, c := range o.cands {
					if newly[c] {
						o.status = "dropped"
						hit = true
					}
				}
			}
			if hit {
				todo = append(todo, i)
			}
		}
	}
	return results
}

// jobCands: the clauses the job establishes for its function.
func jobCands(w *World, j Job) map[string]bool {
	out := map[string]bool{}
	for _, g := range []*engine{engWalk, engAccept, engFormat} {
		_, nodes := g.params(w, j.fn)
		for _, i := range nodes {
			out[g.cand(w, j.fn, i, "full")] = true
			out[g.cand(w, j.fn, i, "kids")] = true
		}
	}
	for _, c := range w.extraPosts[w.fnKey(j.fn)] {
		out[c.id] = true
	}
	return out
}

func jobsCmd(args []string) {
	w, err := LoadWorld(filepath.Join(repoDir(), "parser"))
	must(err)
	cs, err := readContracts()
	must(err)
	w.onlyCands = cs
	var jobs []Job
	p := props()[args[0]]
	jobs = p.jobs(w)
	if len(args) > 1 {
		re := regexp.MustCompile(args[1])
		var sel []Job
		for _, j := range jobs {
			if re.MatchString(j.name) {
				sel = append(sel, j)
			}
		}
		jobs = sel
	}
	t0 := time.Now()
	rs := w.RunJobs(jobs)
	n, bad := 0, 0
	for _, r := range rs {
		if r.res.unsup != "" {
			fmt.Println("UNSUPPORTED", r.job.name, r.res.unsup)
		}
		if r.res.vacuous {
			fmt.Println("VACUOUS", r.job.name)
		}
		for _, o := range r.res.obls {
			live := len(o.cands) == 0
			for _, c := range o.cands {
				live = live || w.active(c)
			}
			if !live {
				continue
			}
			n++
			if o.status != "proved" {
				bad++
				fmt.Printf("%s %s [%s] %s\n", o.status, r.job.name, o.pos, o.name)
			}
		}
	}
	fmt.Printf("%d jobs, %d obligations, %d not proved, %.1fs\n", len(jobs), n, bad, time.Since(t0).Seconds())
	if os.Getenv("GOVV") != "" {
		for c, why := range w.why {
			fmt.Println("dropped", c, why)
		}
	}
}

func sortedEnv(m map[ssa.Value]Val) []ssa.Value {
	var out []ssa.Value
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
