package main

import (
	"fmt"
	"strings"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C18: nothing read is dropped. Ownership contract of the functions that read:
// every node that a function makes, is given or gets from another function is,
// when it returns without an error, part of a node or a list, returned, or given
// to a function that keeps it; and no place in a node that holds one is written
// over. "held" is a ghost set of nodes (and, by their identity, lists).

type keptRec struct {
	guard *Term
	ref   *Term
	list  bool
	texts bool // a list of texts
	text  bool // ref is the identity of a text
	of    *Term // the text
	tok   *Term // the token it was read from
	what  string
	param int // 1 + index
	typ   types.Type // of the node, when it is known
}

type keeper struct {
	x    *Exec
	fn   *ssa.Function
	recs []keptRec
	base int
	words []string
	lex   *Term
	pre   *State // before the call that is being made
}

func frameID(w *World, f *ssa.Function) string { return "prop|kept|" + w.fnKey(f) + "|frame" }

// nodeParams: the nodes that a function is given.
func (x *Exec) nodeParams(f *ssa.Function, args []Val) []*Term {
	var out []*Term
	for i, t := range paramTypes(f) {
		if i < len(args) && args[i].addr == nil && args[i].fn == nil {
			for _, r := range x.nodeRefs(t, args[i]) {
				if !r.list {
					out = append(out, r.ref)
				}
			}
		}
	}
	return out
}

// own: made during the call, or given to the function.
func (k *keeper) own(ref *Term) *Term {
	x, p := k.x, k.x.p
	c := p.Or(p.Eq(ref, p.Int(0)), p.Lt(x.topFr.entry.next, ref))
	for _, a := range x.nodeParams(k.fn, x.topFr.args) {
		c = p.Or(c, p.Eq(ref, a))
	}
	return c
}

func (w *World) modsNodes(f *ssa.Function) bool {
	for k := range w.mods[f] {
		if i := strings.IndexByte(k, '.'); i > 0 && w.nodeTypes[k[:i]] {
			return true
		}
	}
	return false
}

// watched: the places in a node that may be filled later, or are looked into.
func (k *keeper) watched(t types.Type) []string {
	w := k.x.w
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n := w.L.typeKey(t)
	var out []string
	all := s.NumFields() <= 5
	for i := 0; i < s.NumFields(); i++ {
		all = all && !isBool(s.Field(i).Type())
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if all || has(w.lateFields()[n], f.Name()) {
			out = append(out, k.x.objKeys(t, "."+f.Name(), f.Type())...)
		}
	}
	return out
}

type nodeRef struct {
	ref  *Term
	text *Term
	some *Term
	list bool
	texts bool
	copy bool
	what string
	typ  types.Type
}

// nodeRefs: the nodes and lists of nodes that a value of type t consists of.
func (x *Exec) nodeRefs(t types.Type, v Val) []nodeRef {
	p, w := x.p, x.w
	switch {
	case v.addr != nil || v.fn != nil:
		return nil
	case isPtr(t) && w.isASTish(t):
		r := v.leaves[0]
		return []nodeRef{{ref: r, some: p.Not(p.Eq(r, p.Int(0))), what: w.ptrName(t), typ: derefType(t)}}
	case isIface(t) && w.isASTIface(t):
		return []nodeRef{{ref: v.leaves[1], some: p.Not(p.Eq(v.leaves[0], p.Int(0))), what: "node"}}
	case isSlice(t):
		et := t.Underlying().(*types.Slice).Elem()
		if !w.isASTish(et) && !w.isAST(et) && !isStringT(et) {
			return nil
		}
		es, n, _, _ := sliceParts(v)
		id := p.App("list.id."+shortType(et, w.pkg.Pkg), SInt, append(append([]*Term{}, es...), n)...)
		return []nodeRef{{ref: id, some: p.Lt(p.Int(0), n), list: true, texts: isStringT(et), what: "list of " + shortType(et, w.pkg.Pkg)}}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !isNamed(t, "strings.Builder") {
		var out []nodeRef
		if w.treeStruct(t) { // a copy of a node
			return []nodeRef{{ref: p.App("copy.id."+w.L.typeKey(t), SInt, v.leaves...), some: p.T, list: true, copy: true, what: w.L.typeKey(t)}}
		}
		at := 0
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			n := len(x.L.leaves(ft))
			out = append(out, x.nodeRefs(ft, Val{leaves: v.leaves[at : at+n]})...)
			at += n
		}
		return out
	}
	return nil
}

func (k *keeper) key(list bool) string {
	if list {
		return "held.lists"
	}
	return "held"
}

func (k *keeper) mark(st *State, r nodeRef, when *Term) {
	p := k.x.p
	if r.text != nil {
		k.text(st, r.text, when)
		return
	}
	h := st.ghost[k.key(r.list)]
	if h == nil {
		return
	}
	st.ghost[k.key(r.list)] = p.Store(h, r.ref, p.Or(when, p.Select(h, r.ref)))
}

func (k *keeper) markAll(st *State, t types.Type, v Val, when *Term) {
	if isStringT(t) && v.addr == nil && v.fn == nil {
		k.text(st, v.leaves[0], when)
	}
	for _, r := range k.x.nodeRefs(t, v) {
		k.mark(st, r, when)
	}
}

func (k *keeper) got(st *State, t types.Type, v Val, when *Term, param int, from string) {
	p := k.x.p
	for _, r := range k.x.nodeRefs(t, v) {
		if g := p.And(st.reach, when, r.some); g != p.F {
			what := r.what + " from " + from
			if r.what == "FormatClause" && param == 0 && !k.hasFormat() {
				what = "FORMAT clause after a whole statement, " + what
			}
			k.recs = append(k.recs, keptRec{guard: g, ref: r.ref, list: r.list, texts: r.texts, what: what, param: param, typ: r.typ})
		}
	}
}

// hasFormat: the function gives a node that has a place for a FORMAT clause.
func (k *keeper) hasFormat() bool {
	rs := k.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if s, ok := structOf(derefType(rs.At(i).Type())); ok {
			for j := 0; j < s.NumFields(); j++ {
				if k.x.w.ptrName(s.Field(j).Type()) == "FormatClause" {
					return true
				}
			}
		}
	}
	return false
}

func (k *keeper) kept(st *State, r keptRec) *Term {
	p := k.x.p
	if r.text {
		return p.Implies(r.guard, k.told(st, r.of))
	}
	c := p.Select(st.ghost[k.key(r.list)], r.ref)
	if r.typ != nil {
		c = p.Or(c, k.spent(st, r.typ, r.ref, 2))
	}
	return p.Implies(r.guard, c)
}

// spent: everything in the node is in other nodes, or fixed by what was asked.
func (k *keeper) spent(st *State, t types.Type, ref *Term, depth int) *Term {
	x, p, w := k.x, k.x.p, k.x.w
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth == 0 {
		return p.F
	}
	c := p.T
	field := func(ft types.Type, v Val) *Term {
		if isStringT(ft) {
			return k.told(st, v.leaves[0])
		}
		if isBool(ft) {
			return p.F
		}
		f := p.T
		for _, r := range x.nodeRefs(ft, v) {
			h := p.Or(p.Not(r.some), p.Select(st.ghost[k.key(r.list)], r.ref))
			if r.typ != nil {
				h = p.Or(h, k.spent(st, r.typ, r.ref, depth-1))
			}
			f = p.And(f, h)
		}
		return f
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		v := x.nodeField(st, w.L.typeKey(t), s.Field(i).Name(), ref)
		f := field(ft, v)
		if sl, is := ft.Underlying().(*types.Slice); is && w.isASTish(sl.Elem()) && isPtr(sl.Elem()) {
			es, n, _, _ := sliceParts(v)
			e := Val{}
			for _, l := range es {
				e.leaves = append(e.leaves, p.Select(l, p.Int(0)))
			}
			f = p.Or(f, p.And(p.Eq(n, p.Int(1)), k.spent(st, derefType(sl.Elem()), e.leaves[0], depth-1)))
		}
		c = p.And(c, f)
	}
	return c
}

// told: the text is in a node, or it is one that the function asked for.
func (k *keeper) told(st *State, t *Term) *Term {
	p := k.x.p
	f := p.Select(st.ghost["held.texts"], p.App("text.id", SInt, t))
	for _, s := range k.consts() {
		f = p.Or(f, p.Eq(t, p.Str(s)), p.Eq(k.x.upper(t), p.Str(s)))
	}
	return f
}

// wrote: a text that was read.
func (k *keeper) wrote(st *State, t *Term, when *Term, what string) {
	p := k.x.p
	if t.op == "str" {
		return
	}
	if g := p.And(st.reach, when); g != p.F {
		k.recs = append(k.recs, keptRec{guard: g, ref: p.App("text.id", SInt, t), text: true, of: t, what: what})
	}
}

// telling: the current token is one whose text says something.
func (x *Exec) telling(st *State, lex *Term) *Term {
	p, w := x.p, x.w
	cur := x.lexField(st, lex, "currentToken")
	kind := x.tokField(st, "Kind", cur)
	val := p.F
	for _, n := range []string{"TokenKindIdent", "TokenKindString", "TokenKindInt", "TokenKindFloat"} {
		if c, ok := w.pkg.Members[n].(*ssa.NamedConst); ok {
			val = p.Or(val, p.Eq(kind, p.Str(constant.StringVal(c.Value.Value))))
		}
	}
	return p.And(p.Not(p.Eq(cur, p.Int(0))), val)
}

// passed: the token that is current in at is read past.
func (k *keeper) passed(st, at *State, when *Term, what string) {
	x, p := k.x, k.x.p
	cur := x.lexField(at, k.lex, "currentToken")
	n := len(k.recs)
	k.wrote(st, x.tokField(at, "String", cur), p.And(when, x.telling(at, k.lex)), "text of the "+what)
	for i := n; i < len(k.recs); i++ {
		k.recs[i].tok = cur
	}
}

// textless: a function that reads and gives back neither nodes nor texts.
func (w *World) textless(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isStringT(t) || isSlice(t) || w.isASTish(t) || w.isAST(t) || isIface(t) && !isErrorType(t) {
			return false
		}
	}
	return w.reads(f)
}

func plainID(w *World, f *ssa.Function) string { return "prop|kept|" + w.fnKey(f) + "|plain" }

func aheadID(w *World, f *ssa.Function) string { return "prop|kept|" + w.fnKey(f) + "|ahead" }

func rootKeys(w *World) []string {
	var out []string
	for _, f := range parseRoots(w) {
		out = append(out, w.fnKey(f))
	}
	return out
}

// consts: the words that the function compares texts with.
func (k *keeper) consts() []string {
	if k.words != nil {
		return k.words
	}
	k.words = []string{}
	seen := map[string]bool{}
	for _, b := range k.fn.Blocks {
		for _, in := range b.Instrs {
			var of []ssa.Value
			switch in := in.(type) {
			case *ssa.BinOp:
				of = []ssa.Value{in.X, in.Y}
			case *ssa.Call:
				of = in.Common().Args // strings.EqualFold and the like
			}
			for _, v := range of {
				if c, ok := v.(*ssa.Const); ok && c.Value != nil && isStringT(c.Type()) {
					if s := constant.StringVal(c.Value); s != "" && !seen[s] {
						seen[s] = true
						k.words = append(k.words, s)
					}
				}
			}
		}
	}
	return k.words
}

// text: s is stored in a node or returned.
func (k *keeper) text(st *State, s, when *Term) {
	p := k.x.p
	switch {
	case s.op == "str" || when == p.F:
	case s.op == "ite":
		k.text(st, s.args[1], p.And(when, s.args[0]))
		k.text(st, s.args[2], p.And(when, p.Not(s.args[0])))
	case s.op == "select" && s.args[0].op == "ite":
		a := s.args[0]
		k.text(st, p.Select(a.args[1], s.args[1]), p.And(when, a.args[0]))
		k.text(st, p.Select(a.args[2], s.args[1]), p.And(when, p.Not(a.args[0])))
	case s.op == "select" && s.args[0].op == "store":
		a := s.args[0]
		is := p.Eq(a.args[1], s.args[1])
		k.text(st, a.args[2], p.And(when, is))
		k.text(st, p.Select(a.args[0], s.args[1]), p.And(when, p.Not(is)))
	case s.op == "app" && s.name == "scat":
		k.text(st, s.args[0], when)
		k.text(st, s.args[1], when)
	default:
		h, id := st.ghost["held.texts"], p.App("text.id", SInt, s)
		st.ghost["held.texts"] = p.Store(h, id, p.Or(when, p.Select(h, id)))
	}
}

func keepsID(w *World, f *ssa.Function, i int) string {
	return fmt.Sprintf("prop|kept|%s|p%d", w.fnKey(f), i)
}

// isNode: a struct type that trees are made of.
func (w *World) treeStruct(t types.Type) bool {
	if !w.isAST(t) {
		return false
	}
	if w.nodeTypes == nil {
		w.nodeTypes = map[string]bool{}
		var add func(t types.Type)
		add = func(t types.Type) {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				add(u.Elem())
				return
			case *types.Slice:
				add(u.Elem())
				return
			}
			if !w.isAST(t) || w.nodeTypes[w.L.typeKey(t)] {
				return
			}
			w.nodeTypes[w.L.typeKey(t)] = true
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					add(s.Field(i).Type())
				}
			}
		}
		for _, t := range w.astTypes {
			if types.Implements(types.NewPointer(t), w.exprIface.Underlying().(*types.Interface)) {
				add(t)
			}
		}
	}
	return w.nodeTypes[w.L.typeKey(t)]
}

func (w *World) reads(f *ssa.Function) bool {
	return w.lexParam(f) >= 0 && !w.lexerMethod(f) && !w.lexerInternal(f)
}

func keptJobs(w *World) []Job {
	var out []Job
	for _, f := range w.closure(parseRoots(w)) {
		f := f
		if wrapper(f) || len(f.Blocks) == 0 || w.isInit(f) || f.Parent() != nil || !w.reads(f) || w.inlinable(f) && w.hasCaller(f) {
			continue
		}
		w.extraPosts[w.fnKey(f)] = append(w.extraPosts[w.fnKey(f)], keptPosts(w, f)...)
		out = append(out, Job{name: w.fnKey(f) + " keeps what it reads", fn: f, must: true, setup: func(x *Exec) { installKept(x, f) }})
	}
	return out
}

func installKept(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode, x.proveExtra = true, true
	pl := &Plug{}
	x.plug = pl
	k := &keeper{x: x, fn: fn}
	x.keep = k
	errNil := func(sig *types.Signature, rs []Val) *Term {
		for i := 0; i < sig.Results().Len(); i++ {
			if isErrorType(sig.Results().At(i).Type()) {
				return p.Eq(rs[i].leaves[0], p.Int(0))
			}
		}
		return p.T
	}
	pl.onStart = func(f *ssa.Function, args []Val, st *State) {
		st.ghost["held"] = p.Fresh("held", arrSort(SBool))
		st.ghost["held.texts"] = p.Fresh("held.texts", arrSort(SBool))
		st.ghost["held.lists"] = p.Fresh("held.lists", arrSort(SBool))
		if lp := w.lexParam(f); lp >= 0 {
			k.lex = x.lexOf(st, f.Params[lp].Type(), args[lp])
			if id := aheadID(w, f); w.active(id) && w.hasCaller(f) && !w.dispatched(f) && !w.addressTaken(f) && !w.isAPI(f) {
				x.deps[id] = true
				x.assume(st, p.Not(x.telling(st, k.lex)))
			}
		}
		for i, a := range args {
			if i < len(f.Params) {
				k.got(st, f.Params[i].Type(), a, p.T, i+1, "the caller ("+f.Params[i].Name()+")")
			}
		}
	}
	pl.onAlloc = func(st *State, t types.Type, ref *Term) {
		if w.treeStruct(t) {
			k.recs = append(k.recs, keptRec{guard: st.reach, ref: ref, what: w.L.typeKey(t) + " made here", typ: t})
		}
	}
	core, peek := w.lexCore()
	root := has(rootKeys(w), w.fnKey(fn))
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		k.pre = st.clone()
		if id := aheadID(w, f); f != core && w.lexParam(f) >= 0 && w.lexParam(f) < len(args) && w.active(id) {
			x.oblige2(st, "pre", "no name, string or number is next when "+w.fnKey(f)+" begins", p.Not(x.telling(st, x.lexOf(st, paramTypes(f)[w.lexParam(f)], args[w.lexParam(f)]))), id)
		}
		if f == core && k.lex != nil && !root {
			k.passed(st, st, p.T, "token passed over")
		}
	}
	pl.onDyn = func(st *State, c *ssa.CallCommon, fv Val, args, rs []Val) {
		if id := frameID(w, fn); w.active(id) {
			x.oblige2(st, "frame", "the function called changes only nodes of its own", p.F, id)
		}
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		if k.lex != nil && k.pre != nil && (f == core || f == peek) { // C05
			have, _, nt := x.ahead(k.pre, k.lex)
			tok := x.lexField(st, k.lex, "currentToken")
			if f == peek {
				tok = rs[0].leaves[0]
			}
			good, some := errNil(f.Signature, rs), p.Not(p.Eq(tok, p.Int(0)))
			if f == core {
				x.assume(st, p.And(p.Eq(some, p.And(have, good)), p.Implies(have, good)))
			}
			x.assume(st, p.Implies(p.And(good, some), p.And(have, p.Eq(x.tokField(st, "String", tok), nt))))
		}
		if k.lex != nil && !root && f != core && k.pre != nil && w.textless(f) && w.touchesLexer(f) && !w.active(w.fnKey(f)+"|post|lex.same") {
			if id := plainID(w, f); w.active(id) {
				x.deps[id] = true
			} else {
				moved := p.Not(p.Eq(x.lexField(st, k.lex, "currentToken"), x.lexField(k.pre, k.lex, "currentToken")))
				k.passed(st, k.pre, p.And(errNil(f.Signature, rs), moved), "token read by "+w.fnKey(f))
			}
		}
		if w.modsNodes(f) {
			fid, own := frameID(w, f), frameID(w, fn)
			framed := w.reads(f) && w.active(fid)
			if w.active(own) {
				c := p.F
				if framed {
					x.deps[fid] = true
					c = p.T
					for _, a := range x.nodeParams(f, args) {
						c = p.And(c, k.own(a))
					}
				}
				x.oblige2(st, "frame", w.fnKey(f)+" changes only nodes made here", c, own)
			}
			if framed && k.pre != nil {
				x.deps[fid] = true
				as := x.nodeParams(f, args)
				for _, r := range k.recs {
					if r.typ == nil {
						continue
					}
					other := p.Le(r.ref, k.pre.next)
					for _, a := range as {
						other = p.And(other, p.Not(p.Eq(r.ref, a)))
					}
					for _, key := range k.watched(r.typ) {
						if w.mods[f][key] {
							x.assume(st, p.Implies(other, p.Eq(p.Select(x.heapGet(st, key), r.ref), p.Select(x.heapGet(k.pre, key), r.ref))))
						}
					}
				}
			}
		}
		sig := f.Signature
		ok := errNil(sig, rs)
		for i, prm := range f.Params {
			if i >= len(args) {
				break
			}
			if len(x.nodeRefs(prm.Type(), args[i])) == 0 {
				continue
			}
			if id := keepsID(w, f, i); w.reads(f) && w.active(id) {
				x.deps[id] = true
				k.markAll(st, prm.Type(), args[i], ok)
			}
		}
		if !w.reads(f) && !(w.inPkg(f) && sig.Recv() == nil) {
			return
		}
		for i, r := range rs {
			if isStringT(sig.Results().At(i).Type()) {
				k.wrote(st, r.leaves[0], ok, "text from "+w.fnKey(f))
			}
			k.got(st, sig.Results().At(i).Type(), r, ok, 0, w.fnKey(f))
		}
	}
	pl.onAppended = func(st *State, call *ssa.CallCommon, a, b, out Val) {
		t := call.Args[0].Type()
		k.markAll(st, t, a, p.T)
		if bt := call.Args[1].Type(); isSlice(bt) {
			k.markAll(st, bt, b, p.T)
			et := bt.Underlying().(*types.Slice).Elem()
			be, bl, _, _ := sliceParts(b)
			if bl.op == "int" && bl.n <= 64 {
				for i := int64(0); i < bl.n; i++ {
					v := Val{}
					for _, l := range be {
						v.leaves = append(v.leaves, p.Select(l, p.Int(i)))
					}
					k.markAll(st, et, v, p.T)
				}
			}
		}
		k.got(st, t, out, p.T, 0, "append")
	}
	pl.onLit = func(st *State, et types.Type, elems []Val, t types.Type, out Val) {
		for _, e := range elems {
			k.markAll(st, et, e, p.T)
		}
		if !isStringT(et) {
			k.got(st, t, out, p.T, 0, "a literal")
		}
	}
	pl.onCopy = func(st *State, t types.Type, ref *Term, v Val) {
		if w.treeStruct(t) {
			k.mark(st, nodeRef{ref: ref}, p.T)
			k.got(st, t, v, p.T, 0, "a copy")
		}
	}
	pl.onStore = func(st *State, a *Addr, v Val, in ssa.Instruction) {
		if a.kind != "heap" {
			return
		}
		if !w.isAST(a.root) {
			return
		}
		if id := frameID(w, fn); w.treeStruct(a.root) && w.active(id) {
			x.oblige2(st, "frame", "changes only nodes made here", k.own(a.base), id)
		}
		if s, ok := in.(*ssa.Store); ok && a.path != "" {
			if c, is := s.Val.(*ssa.Const); !is || c.Value != nil {
				old := Val{}
				for _, key := range x.objKeys(a.root, a.path, a.typ) {
					old.leaves = append(old.leaves, p.Select(x.heapGet(st, key), a.base))
				}
				os, ns := x.nodeRefs(a.typ, old), x.nodeRefs(a.typ, v)
				for i := range os {
					if os[i].copy {
						continue
					}
					c := p.Or(p.Not(os[i].some), p.Eq(os[i].ref, ns[i].ref))
					if os[i].list {
						c = p.Or(c, p.Select(st.ghost["held.lists"], os[i].ref))
					}
					x.oblige2(st, "prop", "writes over no "+os[i].what+" in "+w.L.typeKey(a.root)+a.path, c)
				}
			}
		}
		k.markAll(st, a.typ, v, p.T)
		if isStringT(a.typ) {
			k.text(st, v.leaves[0], p.T)
		}
	}
	pl.onLoopIn = func(lc *LoopCtx, st *State, vals []Val) {
		for i, ph := range lc.phis {
			if !sameLoopPhi(ph, lc.l) {
				k.markAll(st, ph.Type(), vals[i], p.T)
			}
		}
	}
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		for i, ph := range lc.phis {
			i, t := i, ph.Type()
			id := fmt.Sprintf("prop|kept|%s|%s.own", lc.id, ph.Comment)
			if !(isPtr(t) && w.isASTish(t) || isIface(t) && w.isASTIface(t)) || sameLoopPhi(ph, lc.l) || !w.active(id) {
				continue
			}
			out = append(out, LoopInv{name: ph.Comment + " is made here or given", cand: id, build: func(_ *State, phis, _ []Val) *Term {
				return k.own(phis[i].leaves[len(phis[i].leaves)-1])
			}})
		}
		changed := map[string]bool{}
		for _, m := range lc.mods {
			changed[m.key] = m.bases == nil
		}
		for i, r := range k.recs[:k.base] {
			if r.typ == nil {
				continue
			}
			ref := r.ref
			for _, key := range k.watched(r.typ) {
				key := key
				id := fmt.Sprintf("prop|kept|%s|%d.%s", lc.id, i, key)
				if !changed[key] || !w.active(id) {
					continue
				}
				old := p.Select(x.heapGet(lc.entry, key), ref)
				out = append(out, LoopInv{name: key + " of a node is as before", cand: id, build: func(s *State, _, _ []Val) *Term {
					return p.Eq(p.Select(x.heapGet(s, key), ref), old)
				}})
			}
		}
		return out
	}
	pl.onLoopHead = func(lc *LoopCtx, entry, st *State, vals []Val) {
		for _, r := range k.recs {
			h := k.key(r.list)
			if r.text {
				h = "held.texts"
			}
			x.addFact(p.Implies(p.Select(entry.ghost[h], r.ref), p.Select(st.ghost[h], r.ref)))
			if s, ok := structOf(r.typ); ok {
				for i := 0; i < s.NumFields(); i++ {
					if isStringT(s.Field(i).Type()) {
						t := p.App("text.id", SInt, x.nodeField(entry, w.L.typeKey(r.typ), s.Field(i).Name(), r.ref).leaves[0])
						x.addFact(p.Implies(p.Select(entry.ghost["held.texts"], t), p.Select(st.ghost["held.texts"], t)))
					}
				}
			}
		}
		k.base = len(k.recs)
		for i, ph := range lc.phis {
			if !sameLoopPhi(ph, lc.l) {
				k.got(st, ph.Type(), vals[i], p.T, 0, "the loop ("+ph.Comment+")")
			}
		}
	}
	pl.onBack = func(lc *LoopCtx, n int, st *State, vals []Val) {
		ok := p.T
		for i, ph := range lc.phis {
			if isErrorType(ph.Type()) {
				ok = p.And(ok, p.Eq(vals[i].leaves[0], p.Int(0)))
			}
		}
		s := st.clone()
		for i, ph := range lc.phis {
			if !sameLoopPhi(ph, lc.l) {
				k.markAll(s, ph.Type(), vals[i], p.T)
			}
		}
		for _, r := range k.recs[n:] {
			x.oblige2(s, "prop", "keeps the "+r.what+" when it goes round", p.Implies(ok, k.kept(s, r)))
		}
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ok := errNil(fn.Signature, vals)
		if ok == p.F {
			return
		}
		s := st.clone()
		for i := range vals {
			k.markAll(s, fn.Signature.Results().At(i).Type(), vals[i], p.T)
			if isStringT(fn.Signature.Results().At(i).Type()) {
				k.text(s, vals[i].leaves[0], p.T)
			}
		}
		same := p.F
		if k.lex != nil {
			same = p.Eq(x.lexField(st, k.lex, "currentToken"), x.lexField(x.topFr.entry, k.lex, "currentToken"))
		}
		for _, r := range k.recs {
			c := p.Implies(ok, k.kept(s, r))
			if r.text || r.texts {
				c = p.Or(same, c)
			}
			if r.text {
				if w.textless(fn) && r.tok != nil {
					if id := plainID(w, fn); w.active(id) {
						x.oblige2(s, "prop", "keeps the "+r.what, p.Or(same, p.Implies(ok, p.Not(r.guard))), id)
						continue
					}
					c = p.Or(c, p.Eq(r.tok, x.lexField(x.topFr.entry, k.lex, "currentToken")))
				}
			}
			if r.param > 0 {
				if id := keepsID(w, fn, r.param-1); w.active(id) {
					x.oblige2(s, "prop", "keeps the "+r.what, c, id)
				}
				continue
			}
			x.oblige2(s, "prop", "keeps the "+r.what, c)
		}
	}
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (k *keeper) len() int {
	if k == nil {
		return 0
	}
	return len(k.recs)
}

func (k *keeper) trunc(n int) {
	if k != nil {
		k.recs = k.recs[:n]
	}
}

// loopBase: where the records of the loop entered last begin (its phis' included).
func (k *keeper) loopBase(int) int {
	if k == nil {
		return 0
	}
	return k.base
}

// keptPosts: what the results of a function still lack, and what they can be.
func keptPosts(w *World, f *ssa.Function) []Clause {
	var out []Clause
	rs := f.Signature.Results()
	if lp := w.lexParam(f); lp >= 0 && w.textless(f) && w.touchesLexer(f) {
		for i, t := range paramTypes(f) {
			if i := i; isStringT(t) {
				out = append(out, Clause{id: fmt.Sprintf("prop|kept|%s|kind.p%d", w.fnKey(f), i), name: "reads past no token but one of the kind asked for", build: func(e *Env) *Term {
					x, p := e.x, e.x.p
					l := e.lex()
					c0, c1 := x.lexField(e.pre, l, "currentToken"), x.lexField(e.post, l, "currentToken")
					kind := e.args[i].leaves[0]
					ident := p.F
					if c, ok := w.pkg.Members["TokenKindIdent"].(*ssa.NamedConst); ok {
						ident = p.Eq(kind, p.Str(constant.StringVal(c.Value.Value)))
					}
					return p.Or(p.Eq(c0, c1), p.Eq(c0, p.Int(0)), p.Not(e.errNil()), ident, p.Eq(x.tokField(e.pre, "Kind", c0), kind))
				}})
			}
		}
	}
	for i := 0; i < rs.Len(); i++ {
		i, t := i, rs.At(i).Type()
		if isPtr(t) && w.isASTish(t) || isIface(t) && w.isASTIface(t) {
			out = append(out, Clause{id: fmt.Sprintf("prop|kept|%s|r%d.new", w.fnKey(f), i), name: "gives a node made during the call, or one it was given", build: func(e *Env) *Term {
				p := e.x.p
				ref := e.res[i].leaves[len(e.res[i].leaves)-1]
				c := p.Or(p.Eq(ref, p.Int(0)), p.Lt(e.pre.next, ref))
				for _, a := range e.x.nodeParams(f, e.args) {
					c = p.Or(c, p.Eq(ref, a))
				}
				return p.Implies(e.errNil(), c)
			}})
		}
		if n := w.ptrName(t); n != "" && w.treeStruct(derefType(t)) {
			for _, fl := range w.lateFields()[n] {
				fl := fl
				out = append(out, Clause{id: fmt.Sprintf("prop|kept|%s|r%d.no.%s", w.fnKey(f), i, fl), name: "leaves " + n + "." + fl + " empty", build: func(e *Env) *Term {
					x, p := e.x, e.x.p
					v := x.nodeField(e.post, n, fl, e.res[i].leaves[0])
					c := p.T
					for _, r := range x.nodeRefs(x.fieldType(n, fl), v) {
						c = p.And(c, p.Not(r.some))
					}
					return p.Implies(p.And(e.errNil(), p.Not(p.Eq(e.res[i].leaves[0], p.Int(0)))), c)
				}})
			}
		}
		if isIface(t) && w.isASTIface(t) {
			if ts, ok := w.resultTypes(f, i, map[*ssa.Function]bool{}); ok && len(ts) <= 8 {
				out = append(out, Clause{id: fmt.Sprintf("prop|kept|%s|r%d.types", w.fnKey(f), i), name: "gives one of a few kinds of nodes", build: func(e *Env) *Term {
					p := e.x.p
					c := p.Eq(e.res[i].leaves[0], p.Int(0))
					for _, k := range sortedKeys(ts) {
						c = p.Or(c, p.Eq(e.res[i].leaves[0], p.Int(int64(w.typeTag(ts[k])))))
					}
					return p.Implies(e.errNil(), c)
				}})
			}
		}
	}
	return out
}

func (x *Exec) fieldType(typ, field string) types.Type {
	s := x.w.pkg.Pkg.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	return nil
}

// lateFields: the fields that are filled in a node made elsewhere.
func (w *World) lateFields() map[string][]string {
	if w.lateFlds != nil {
		return w.lateFlds
	}
	w.lateFlds = map[string][]string{}
	seen := map[string]bool{}
	for _, f := range w.fns {
		if w.lexParam(f) < 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, own := fa.X.(*ssa.Alloc); own {
					continue
				}
				t := derefType(fa.X.Type())
				if t == nil || !w.treeStruct(t) {
					continue
				}
				fl := t.Underlying().(*types.Struct).Field(fa.Field)
				ft := fl.Type()
				if isSlice(ft) {
					ft = ft.Underlying().(*types.Slice).Elem()
				}
				k := w.L.typeKey(t)
				if w.isASTish(ft) && !seen[k+"."+fl.Name()] {
					seen[k+"."+fl.Name()] = true
					w.lateFlds[k] = append(w.lateFlds[k], fl.Name())
				}
			}
		}
	}
	return w.lateFlds
}

// resultTypes: the kinds of nodes that a function's text shows it to return.
func (w *World) resultTypes(f *ssa.Function, i int, busy map[*ssa.Function]bool) (map[string]types.Type, bool) {
	out := map[string]types.Type{}
	if busy[f] || len(f.Blocks) == 0 {
		return nil, false
	}
	busy[f] = true
	defer delete(busy, f)
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value == nil
		case *ssa.MakeInterface:
			out[v.X.Type().String()] = v.X.Type()
			return true
		case *ssa.ChangeInterface:
			return look(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !look(e) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			c, ok := v.Tuple.(*ssa.Call)
			if !ok || c.Common().StaticCallee() == nil {
				return false
			}
			ts, ok := w.resultTypes(c.Common().StaticCallee(), v.Index, busy)
			for k, t := range ts {
				out[k] = t
			}
			return ok
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !look(r.Results[i]) {
			return nil, false
		}
	}
	return out, true
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
