package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) set(st *State, v ssa.Value, val Val) {
	val.set = true
	st.env[v] = val
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	p := x.p
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefType(in.Type())
		r := p.FreshRef(x.L.typeKey(t))
		x.assume(st, p.Lt(st.next, r))
		st.next = r
		x.allocs[r.id] = t
		tk := x.L.typeKey(t)
		x.allocsByType[tk] = append(x.allocsByType[tk], r)
		x.storeHeap(st, t, "", t, r, x.zero(t))
		x.set(st, in, Val{leaves: []*Term{r}})
		if x.plug != nil && x.plug.onAlloc != nil {
			x.plug.onAlloc(st, t, r)
		}
	case *ssa.FieldAddr:
		x.set(st, in, x.fieldAddr(st, in))
	case *ssa.Field:
		v := x.value(st, in.X)
		lo, hi := x.L.fieldRange(in.X.Type(), in.Field)
		x.set(st, in, Val{leaves: v.leaves[lo:hi]})
	case *ssa.IndexAddr:
		x.set(st, in, x.indexAddr(st, in))
	case *ssa.Index:
		v := x.value(st, in.X)
		idx := x.value(st, in.Index).leaves[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Basic: // string
			if x.plug != nil && x.plug.onLook != nil {
				x.plug.onLook(st, in.X.Type(), in.Index, x.value(st, in.Index))
			}
			x.oblige(st, "bounds", "string index in range", p.And(p.Le(p.Int(0), idx), p.Lt(idx, x.slen(v.leaves[0]))))
			b := x.sat(v.leaves[0], idx)
			x.assume(st, p.And(p.Le(p.Int(0), b), p.Le(b, p.Int(255))))
			x.set(st, in, Val{leaves: []*Term{b}})
		case *types.Array:
			x.oblige(st, "bounds", "array index in range", p.And(p.Le(p.Int(0), idx), p.Lt(idx, p.Int(t.Len()))))
			var ls []*Term
			for _, a := range v.leaves {
				ls = append(ls, p.Select(a, idx))
			}
			x.set(st, in, Val{leaves: ls})
		default:
			x.unsupported("index of %s", in.X.Type())
		}
	case *ssa.Lookup:
		v := x.value(st, in.X)
		if x.plug != nil && x.plug.onLook != nil {
			x.plug.onLook(st, in.X.Type(), in.Index, x.value(st, in.Index))
		}
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			idx := x.value(st, in.Index).leaves[0]
			x.oblige(st, "bounds", "string index in range", p.And(p.Le(p.Int(0), idx), p.Lt(idx, x.slen(v.leaves[0]))))
			bb := x.sat(v.leaves[0], idx)
			x.assume(st, p.And(p.Le(p.Int(0), bb), p.Le(bb, p.Int(255))))
			x.set(st, in, Val{leaves: []*Term{bb}})
			return
		}
		// map read: unknown contents, apart from what init's map literal determines
		mv := x.freshVal("mapread", in.Type())
		if ld, ok := in.X.(*ssa.UnOp); ok && in.CommaOk {
			if g, ok := ld.X.(*ssa.Global); ok {
				et := in.X.Type().Underlying().(*types.Map).Elem()
				n := len(x.L.leaves(et))
				x.assume(st, p.Implies(mv.leaves[n], x.w.mapFacts(x, g, et, Val{leaves: mv.leaves[:n]})))
			}
		}
		x.set(st, in, mv)
	case *ssa.MapUpdate:
		m := x.value(st, in.Map)
		x.oblige(st, "nil", "write to a non-nil map", p.Not(p.Eq(m.leaves[0], p.Int(0))))
		if x.plug != nil && x.plug.onMap != nil {
			x.plug.onMap(st, in, m.leaves[0])
		}
	case *ssa.MakeMap:
		r := p.FreshRef("map")
		x.assume(st, p.Lt(st.next, r))
		st.next = r
		x.set(st, in, Val{leaves: []*Term{r}})
	case *ssa.MakeSlice:
		ln := x.value(st, in.Len).leaves[0]
		x.oblige(st, "bounds", "make slice length non-negative", p.Le(p.Int(0), ln))
		z := x.zero(in.Type())
		n := len(z.leaves)
		z.leaves[n-3] = ln
		z.leaves[n-2] = p.T
		et := in.Type().Underlying().(*types.Slice).Elem()
		if x.elemNeedsOK(et) {
			z.leaves[n-1] = p.Eq(ln, p.Int(0))
		}
		x.set(st, in, z)
	case *ssa.MakeClosure:
		v := Val{fn: in.Fn.(*ssa.Function), leaves: []*Term{p.Fresh("closure", SInt)}}
		for _, b := range in.Bindings {
			v.binds = append(v.binds, x.value(st, b))
		}
		x.assume(st, p.Lt(p.Int(0), v.leaves[0]))
		x.set(st, in, v)
	case *ssa.MakeInterface:
		x.set(st, in, x.makeIface(st, in))
	case *ssa.ChangeInterface:
		x.set(st, in, x.value(st, in.X))
	case *ssa.ChangeType:
		x.set(st, in, x.value(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, in))
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	case *ssa.Extract:
		tup := x.value(st, in.Tuple)
		lo, hi := x.L.tupleRange(in.Tuple.Type().(*types.Tuple), in.Index)
		if tup.leaves == nil {
			x.unsupported("extract from empty tuple")
		}
		v := Val{leaves: tup.leaves[lo:hi]}
		x.set(st, in, v)
	case *ssa.UnOp:
		x.unop(st, in)
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in))
	case *ssa.Store:
		x.store(st, in)
	case *ssa.Slice:
		x.set(st, in, x.sliceOp(st, in))
	case *ssa.Call:
		rs := x.call(st, in.Common(), in)
		v := Val{set: true}
		for _, r := range rs {
			v.leaves = append(v.leaves, r.leaves...)
		}
		if len(rs) == 1 {
			v = rs[0]
		}
		x.set(st, in, v)
	case *ssa.Defer:
		d := Defer{cond: p.T, call: in.Common(), in: in}
		d.fn = x.calleeVal(st, in.Common())
		for _, a := range in.Common().Args {
			d.args = append(d.args, x.value(st, a))
		}
		if in.Common().IsInvoke() {
			d.args = append([]Val{x.value(st, in.Common().Value)}, d.args...)
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			if d.cond == p.T {
				x.callArgs(st, d.call, d.fn, d.args, nil)
				continue
			}
			s1 := st.clone()
			s1.reach = p.And(st.reach, d.cond)
			s2 := st.clone()
			s2.reach = p.And(st.reach, p.Not(d.cond))
			x.callArgs(s1, d.call, d.fn, d.args, nil)
			m, _ := x.merge([]edge{{nil, s1, nil}, {nil, s2, nil}})
			env := st.env
			*st = *m
			st.env = env
		}
	case *ssa.Range, *ssa.Next, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		x.unsupported("instruction %T", in)
	default:
		x.unsupported("instruction %T", in)
	}
}

func (x *Exec) nilOblige(st *State, ref *Term, what string) {
	x.oblige(st, "nil", what, x.p.Not(x.p.Eq(ref, x.p.Int(0))))
}

func (x *Exec) fieldAddr(st *State, in *ssa.FieldAddr) Val {
	xv := x.value(st, in.X)
	stt := derefType(in.X.Type())
	f := stt.Underlying().(*types.Struct).Field(in.Field)
	if xv.addr != nil {
		a := *xv.addr
		switch a.kind {
		case "heap":
			a.path += "." + f.Name()
			a.typ = f.Type()
			return Val{addr: &a}
		case "elem", "arr":
			lo, _ := x.L.fieldRange(stt, in.Field)
			a.off += lo
			a.typ = f.Type()
			return Val{addr: &a}
		}
		x.unsupported("field address of %s address", a.kind)
	}
	x.nilOblige(st, xv.leaves[0], fmt.Sprintf("field access %s.%s on a non-nil pointer", x.L.typeKey(stt), f.Name()))
	return Val{addr: &Addr{kind: "heap", base: xv.leaves[0], root: stt, path: "." + f.Name(), typ: f.Type()}}
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) Val {
	p := x.p
	xv := x.value(st, in.X)
	idx := x.value(st, in.Index).leaves[0]
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		_, ln, _, _ := sliceParts(xv)
		x.oblige(st, "bounds", "slice index in range", p.And(p.Le(p.Int(0), idx), p.Lt(idx, ln)))
		return Val{addr: &Addr{kind: "elem", sl: xv.leaves, elemT: t.Elem(), typ: t.Elem(), idx: idx}}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		if xv.addr != nil {
			x.unsupported("index of interior array")
		}
		x.oblige(st, "bounds", "array index in range", p.And(p.Le(p.Int(0), idx), p.Lt(idx, p.Int(at.Len()))))
		return Val{addr: &Addr{kind: "arr", base: xv.leaves[0], root: t.Elem(), elemT: at.Elem(), typ: at.Elem(), idx: idx}}
	}
	x.unsupported("index address of %s", in.X.Type())
	return Val{}
}

func (x *Exec) elemNeedsOK(et types.Type) bool {
	if isIface(et) {
		return true
	}
	if t := derefType(et); t != nil {
		return x.w.isAST(t)
	}
	return isStructT(et) && x.w.isAST(et)
}

func (x *Exec) load(st *State, v Val, t types.Type) Val {
	p := x.p
	if v.addr == nil {
		// pointer to whole object
		x.nilOblige(st, v.leaves[0], "dereference of a non-nil pointer")
		r := x.loadHeap(st, t, "", t, v.leaves[0])
		if x.plug != nil && x.plug.onCopy != nil {
			x.plug.onCopy(st, t, v.leaves[0], r)
		}
		return r
	}
	a := v.addr
	switch a.kind {
	case "heap":
		return x.loadHeap(st, a.root, a.path, a.typ, a.base)
	case "elem":
		es, ln, _, ok := sliceParts(Val{leaves: a.sl})
		n := len(x.L.leaves(a.typ))
		out := Val{set: true}
		for i := 0; i < n; i++ {
			out.leaves = append(out.leaves, p.Select(es[a.off+i], a.idx))
		}
		x.typeFacts(a.typ, out)
		if isStringT(a.typ) {
			x.elemText(st, es[a.off], out.leaves[0])
		}
		if x.elemNeedsOK(a.elemT) {
			g := p.And(ok, p.Le(p.Int(0), a.idx), p.Lt(a.idx, ln))
			whole := Val{}
			for i := range x.L.leaves(a.elemT) {
				whole.leaves = append(whole.leaves, p.Select(es[i], a.idx))
			}
			x.assume(st, p.Implies(g, x.elemOK(a.elemT, whole)))
			// every slice of nodes holds published nodes or nil: they are
			// published when they are put there
			if ch := x.w.childRef(a.elemT, whole); ch != nil {
				x.assume(st, p.Implies(p.And(p.Le(p.Int(0), a.idx), p.Lt(a.idx, ln)), p.Or(p.Eq(ch, p.Int(0)), x.pub(ch))))
			}
		}
		return out
	case "arr":
		out := Val{set: true}
		ks := x.objKeys(a.root, "", a.root)
		n := len(x.L.leaves(a.typ))
		for i := 0; i < n; i++ {
			arr := p.Select(x.heapGet(st, ks[a.off+i]), a.base)
			out.leaves = append(out.leaves, p.Select(arr, a.idx))
		}
		return out
	case "global":
		return x.loadGlobal(st, a.glob)
	}
	x.unsupported("load from %s", a.kind)
	return Val{}
}

// elemOK: what a slice's ok bit promises of each element.
func (x *Exec) elemOK(et types.Type, v Val) *Term {
	p := x.p
	if isIface(et) {
		return p.And(p.Not(p.Eq(v.leaves[0], p.Int(0))), p.Not(p.Eq(v.leaves[1], p.Int(0))), x.pub(v.leaves[1]))
	}
	if isStructT(et) {
		r := p.T
		for _, f := range x.w.walkFields(et) {
			lo, hi := x.leafRange(et, f.path)
			fv := Val{leaves: v.leaves[lo:hi]}
			for _, c := range x.w.invs(et, f) {
				x.deps[c.id] = true
				r = p.And(r, x.invTerm(c, fv))
			}
			if ch := x.w.childRef(f.typ, fv); ch != nil {
				r = p.And(r, p.Or(p.Eq(ch, p.Int(0)), x.pub(ch)))
			}
		}
		return r
	}
	return p.And(p.Not(p.Eq(v.leaves[0], p.Int(0))), x.pub(v.leaves[0]))
}

func (x *Exec) pub(r *Term) *Term { return x.p.App("Pub", SBool, r) }

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	if v, ok := x.w.globalVal(x, g); ok {
		return v
	}
	t := derefType(g.Type())
	v := Val{set: true}
	for _, l := range x.L.leaves(t) {
		v.leaves = append(v.leaves, x.p.Const("G."+g.Name()+sanitize(l.path), l.sort))
	}
	x.typeFacts(t, v)
	if isPtr(t) {
		x.ass = append(x.ass, x.p.Lt(x.p.Int(0), v.leaves[0]))
		x.w.assumption("package variable " + g.Name() + " is initialised to a non-nil value and never reassigned (checked: no store outside init)")
	}
	return v
}

func (x *Exec) store(st *State, in *ssa.Store) {
	p := x.p
	av := x.value(st, in.Addr)
	vv := x.value(st, in.Val)
	t := in.Val.Type()
	if vv.addr != nil {
		x.unsupported("store of an interior address")
	}
	if vv.leaves == nil {
		x.unsupported("store of %s", in.Val)
	}
	if av.addr == nil {
		x.nilOblige(st, av.leaves[0], "store through a non-nil pointer")
		x.checkStore(st, &Addr{kind: "heap", base: av.leaves[0], root: t, typ: t}, vv, in)
		x.noteTabled(st, &Addr{kind: "heap", base: av.leaves[0], root: t, typ: t})
		x.storeHeap(st, t, "", t, av.leaves[0], vv)
		if vv.fn != nil {
			x.w.cellFns[av.leaves[0].id] = vv
		}
		return
	}
	a := av.addr
	switch a.kind {
	case "heap":
		x.checkStore(st, a, vv, in)
		x.noteTabled(st, a)
		x.storeHeap(st, a.root, a.path, a.typ, a.base, vv)
	case "arr":
		if x.plug != nil && x.plug.onStore != nil {
			x.plug.onStore(st, a, vv, in)
		}
		ks := x.objKeys(a.root, "", a.root)
		for i := range vv.leaves {
			h := x.heapGet(st, ks[a.off+i])
			arr := p.Select(h, a.base)
			st.heap[ks[a.off+i]] = p.Store(h, a.base, p.Store(arr, a.idx, vv.leaves[i]))
		}
	case "elem":
		if !x.writeOnlySlice(in.Addr) {
			x.unsupported("store to a slice element")
		}
	case "global":
		if x.plug != nil && x.plug.onStore != nil {
			x.plug.onStore(st, a, vv, in)
		}
		x.unsupported("store to package variable %s", a.glob.Name())
	default:
		x.unsupported("store to %s", a.kind)
	}
}

// writeOnlySlice: the address is an element of a slice made here whose content
// is never read by the package (only stored to and handed to library code).
func (x *Exec) writeOnlySlice(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	mk, ok := ia.X.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	for _, r := range *mk.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || s.Addr != r {
					return false
				}
			}
		case ssa.CallInstruction:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if f := r.Common().StaticCallee(); f == nil || x.w.inPkg(f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) makeIface(st *State, in *ssa.MakeInterface) Val {
	v := x.value(st, in.X)
	t := in.X.Type()
	tag := x.p.Int(int64(x.w.typeTag(t)))
	if v.addr != nil {
		if et := derefType(t); et != nil && x.w.isAST(et) {
			v = x.materialize(st, v, et)
			return Val{leaves: []*Term{tag, v.leaves[0]}}
		}
		return Val{leaves: []*Term{tag, x.p.Fresh("boxaddr", SInt)}}
	}
	if isPtr(t) {
		return Val{leaves: []*Term{tag, v.leaves[0]}}
	}
	if len(v.leaves) == 0 {
		return Val{leaves: []*Term{tag, x.p.Int(1)}}
	}
	b := x.p.App("box_"+sanitize(shortType(t, x.w.pkg.Pkg)), SInt, v.leaves...)
	return Val{leaves: []*Term{tag, b}}
}

func (x *Exec) convert(st *State, in *ssa.Convert) Val {
	v := x.value(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if sizeOf(tb) < sizeOf(fb) && v.leaves[0].op != "int" {
				r := x.freshVal("conv", in.Type())
				return r
			}
			return v
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			if v.leaves[0].op == "int" {
				return Val{leaves: []*Term{x.p.Str(string(rune(v.leaves[0].n)))}}
			}
			return x.freshVal("runestr", in.Type())
		}
	}
	return x.freshVal("conv", in.Type())
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	p := x.p
	v := x.value(st, in.X)
	tag, val := v.leaves[0], v.leaves[1]
	var okc *Term
	var res Val
	if isIface(in.AssertedType) {
		var alts []*Term
		for _, t := range x.w.implementers(in.AssertedType) {
			alts = append(alts, p.Eq(tag, p.Int(int64(x.w.typeTag(t)))))
		}
		okc = p.Or(alts...)
		res = v
	} else {
		okc = p.Eq(tag, p.Int(int64(x.w.typeTag(in.AssertedType))))
		if isPtr(in.AssertedType) {
			res = Val{leaves: []*Term{val}}
		} else {
			res = x.freshVal("unbox", in.AssertedType)
			if len(res.leaves) == 1 {
				x.assume(st, p.Implies(okc, p.Eq(val, p.App("box_"+sanitize(shortType(in.AssertedType, x.w.pkg.Pkg)), SInt, res.leaves...))))
			}
		}
	}
	if in.CommaOk {
		z := x.zero(in.AssertedType)
		out := Val{}
		for i := range res.leaves {
			out.leaves = append(out.leaves, p.Ite(okc, res.leaves[i], z.leaves[i]))
		}
		out.leaves = append(out.leaves, okc)
		x.set(st, in, out)
		return
	}
	x.oblige(st, "typeassert", "type assertion to "+shortType(in.AssertedType, x.w.pkg.Pkg)+" succeeds", okc)
	x.set(st, in, res)
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	p := x.p
	switch in.Op {
	case token.MUL:
		v := x.value(st, in.X)
		if v.fn == nil && v.addr == nil {
			if fv, ok := x.w.cellFns[v.leaves[0].id]; ok && isSig(in.Type()) {
				x.set(st, in, fv)
				return
			}
		}
		x.set(st, in, x.load(st, v, in.Type()))
	case token.NOT:
		x.set(st, in, Val{leaves: []*Term{p.Not(x.value(st, in.X).leaves[0])}})
	case token.SUB:
		x.set(st, in, Val{leaves: []*Term{p.Sub(p.Int(0), x.value(st, in.X).leaves[0])}})
	default:
		x.set(st, in, x.freshVal("unop", in.Type()))
	}
}

func isSig(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	p := x.p
	a, b := x.value(st, in.X), x.value(st, in.Y)
	if x.plug != nil && x.plug.onBin != nil {
		x.plug.onBin(st, in, a, b)
	}
	one := func(t *Term) Val { return Val{leaves: []*Term{t}} }
	switch in.Op {
	case token.EQL, token.NEQ:
		t := x.eqVals(st, in.X.Type(), a, b, in)
		if in.Op == token.NEQ {
			t = p.Not(t)
		}
		return one(t)
	}
	bt, ok := in.X.Type().Underlying().(*types.Basic)
	if ok && bt.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			r := x.scat(a.leaves[0], b.leaves[0])
			return one(r)
		}
		return x.freshVal("strcmp", in.Type())
	}
	if ok && bt.Info()&types.IsInteger != 0 {
		u, v := a.leaves[0], b.leaves[0]
		switch in.Op {
		case token.ADD:
			return one(p.Add(u, v))
		case token.SUB:
			return one(p.Sub(u, v))
		case token.MUL:
			return one(p.Mul(u, v))
		case token.LSS:
			return one(p.Lt(u, v))
		case token.LEQ:
			return one(p.Le(u, v))
		case token.GTR:
			return one(p.Lt(v, u))
		case token.GEQ:
			return one(p.Le(v, u))
		case token.QUO, token.REM:
			x.oblige(st, "bounds", "division by a non-zero value", p.Not(p.Eq(v, p.Int(0))))
			return x.freshVal("quo", in.Type())
		}
	}
	return x.freshVal("binop", in.Type())
}

func (x *Exec) eqVals(st *State, t types.Type, a, b Val, in *ssa.BinOp) *Term {
	p := x.p
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil
		if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
			_, _, nn, _ := sliceParts(a)
			return p.Not(nn)
		}
		if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
			_, _, nn, _ := sliceParts(b)
			return p.Not(nn)
		}
	case *types.Interface:
		if isNilConst(in.Y) {
			return p.Eq(a.leaves[0], p.Int(0))
		}
		if isNilConst(in.X) {
			return p.Eq(b.leaves[0], p.Int(0))
		}
		if isIface(in.Y.Type()) && isIface(in.X.Type()) {
			return p.And(p.Eq(a.leaves[0], b.leaves[0]), p.Eq(a.leaves[1], b.leaves[1]))
		}
	}
	if a.addr != nil || b.addr != nil {
		if isNilConst(in.Y) || isNilConst(in.X) {
			return p.F
		}
		x.unsupported("comparison of interior addresses")
	}
	if a.fn != nil && isNilConst(in.Y) {
		return p.F
	}
	if len(a.leaves) != len(b.leaves) {
		x.unsupported("comparison of %s", t)
	}
	var cs []*Term
	for i := range a.leaves {
		cs = append(cs, x.eqLeaf(a.leaves[i], b.leaves[i]))
	}
	return p.And(cs...)
}

func (x *Exec) eqLeaf(a, b *Term) *Term {
	e := x.p.Eq(a, b)
	return e
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isBasic(c.Type())
}
func isBasic(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() != types.UntypedNil
}

func (x *Exec) sliceOp(st *State, in *ssa.Slice) Val {
	p := x.p
	v := x.value(st, in.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return x.value(st, s).leaves[0]
	}
	lo, hi := get(in.Low), get(in.High)
	if lo == nil {
		lo = p.Int(0)
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := v.leaves[0]
		ln := x.slen(s)
		if hi == nil {
			hi = ln
		}
		x.oblige(st, "bounds", "string slice in range", p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, ln)))
		if lo.op == "int" && lo.n == 0 && hi == ln {
			return v
		}
		r := p.App("ssub", SStr, s, lo, hi)
		x.assume(st, p.Eq(p.App("slen", SInt, r), p.Sub(hi, lo)))
		return Val{leaves: []*Term{r}}
	case *types.Pointer: // array
		at := t.Elem().Underlying().(*types.Array)
		n := p.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if lo.op != "int" || hi.op != "int" || lo.n != 0 || hi.n > at.Len() {
			x.unsupported("array slicing")
		}
		out := Val{set: true}
		for _, k := range x.objKeys(t.Elem(), "", t.Elem()) {
			out.leaves = append(out.leaves, p.Select(x.heapGet(st, k), v.leaves[0]))
		}
		ok := p.T
		if x.elemNeedsOK(at.Elem()) && hi.n > 64 {
			x.unsupported("long array of nodes")
		}
		if x.elemNeedsOK(at.Elem()) {
			for i := int64(0); i < hi.n; i++ {
				ev := Val{}
				for _, l := range out.leaves {
					ev.leaves = append(ev.leaves, p.Select(l, p.Int(i)))
				}
				if isStructT(at.Elem()) {
					for _, f := range x.w.walkFields(at.Elem()) {
						lo, hi := x.leafRange(at.Elem(), f.path)
						x.publish(st, f.typ, Val{leaves: ev.leaves[lo:hi]}, p.T, "append")
					}
				} else if x.w.isASTish(at.Elem()) {
					x.publish(st, at.Elem(), ev, p.T, "append")
				}
				ok = p.And(ok, x.elemOK(at.Elem(), ev))
			}
		}
		out.leaves = append(out.leaves, hi, p.T, ok)
		if x.plug != nil && x.plug.onLit != nil && hi.n <= 64 {
			var evs []Val
			for i := int64(0); i < hi.n; i++ {
				ev := Val{}
				for _, l := range out.leaves[:len(out.leaves)-3] {
					ev.leaves = append(ev.leaves, p.Select(l, p.Int(i)))
				}
				evs = append(evs, ev)
			}
			x.plug.onLit(st, at.Elem(), evs, in.Type(), out)
		}
		return out
	case *types.Slice:
		es, ln, nn, ok := sliceParts(v)
		if hi == nil {
			hi = ln
		}
		x.oblige(st, "bounds", "slice expression in range", p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, ln)))
		if lo.op == "int" && lo.n == 0 {
			out := Val{leaves: append([]*Term{}, es...)}
			out.leaves = append(out.leaves, hi, nn, ok)
			return out
		}
		f := x.freshVal("subslice", in.Type())
		fes, _, _, _ := sliceParts(f)
		_ = fes
		n := len(f.leaves)
		f.leaves[n-3] = p.Sub(hi, lo)
		f.leaves[n-2] = nn
		f.leaves[n-1] = ok
		return f
	}
	x.unsupported("slice of %s", in.X.Type())
	return Val{}
}

// append
func (x *Exec) appendOp(st *State, call *ssa.CallCommon) Val {
	v := x.appendOp0(st, call)
	if x.plug != nil && x.plug.onAppended != nil {
		x.plug.onAppended(st, call, x.value(st, call.Args[0]), x.value(st, call.Args[1]), v)
	}
	return v
}

func (x *Exec) appendOp0(st *State, call *ssa.CallCommon) Val {
	p := x.p
	if x.plug != nil && x.plug.onAppend != nil {
		x.plug.onAppend(st, call.Args[0])
	}
	a := x.value(st, call.Args[0])
	b := x.value(st, call.Args[1])
	t := call.Args[0].Type()
	et := t.Underlying().(*types.Slice).Elem()
	if bb, ok := call.Args[1].Type().Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
		return x.freshVal("appendstr", t)
	}
	ae, al, ann, aok := sliceParts(a)
	be, bl, _, bok := sliceParts(b)
	out := Val{set: true}
	_ = et
	if bl.op == "int" && bl.n <= 64 {
		cur := append([]*Term{}, ae...)
		for i := int64(0); i < bl.n; i++ {
			for k := range cur {
				cur[k] = p.Store(cur[k], p.Add(al, p.Int(i)), p.Select(be[k], p.Int(i)))
			}
		}
		out.leaves = cur
		nn := p.T
		if bl.n == 0 {
			nn = ann
		}
		out.leaves = append(out.leaves, p.Add(al, bl), nn, p.And(aok, bok))
		return out
	}
	f := x.freshVal("append", t)
	n := len(f.leaves)
	f.leaves[n-3] = p.Add(al, bl)
	f.leaves[n-2] = p.Or(ann, p.Lt(p.Int(0), bl))
	f.leaves[n-1] = p.And(aok, bok)
	return f
}

func (x *Exec) calleeVal(st *State, c *ssa.CallCommon) Val {
	if c.IsInvoke() {
		return Val{}
	}
	return x.value(st, c.Value)
}

func (x *Exec) call(st *State, c *ssa.CallCommon, in ssa.Instruction) []Val {
	var args []Val
	if c.IsInvoke() {
		args = append(args, x.value(st, c.Value))
	}
	fv := x.calleeVal(st, c)
	if fv.builtin == "append" {
		return []Val{x.appendOp(st, c)}
	}
	for _, a := range c.Args {
		args = append(args, x.value(st, a))
	}
	return x.callArgs(st, c, fv, args, in)
}

func (x *Exec) callArgs(st *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []Val {
	p := x.p
	if c.IsInvoke() {
		return x.w.invoke(x, st, c, args)
	}
	if fv.builtin != "" {
		switch fv.builtin {
		case "len":
			v := args[0]
			switch t := c.Args[0].Type().Underlying().(type) {
			case *types.Basic:
				l := x.slen(v.leaves[0])
				x.ass = append(x.ass, p.Le(p.Int(0), l))
				return []Val{{leaves: []*Term{l}}}
			case *types.Slice:
				return []Val{{leaves: []*Term{x.lenOf(v, t)}}}
			case *types.Map:
				r := p.Fresh("maplen", SInt)
				x.ass = append(x.ass, p.Le(p.Int(0), r))
				return []Val{{leaves: []*Term{r}}}
			}
		case "cap":
			r := p.Fresh("cap", SInt)
			x.ass = append(x.ass, p.Le(p.Int(0), r))
			return []Val{{leaves: []*Term{r}}}
		case "min", "max":
			r := args[0].leaves[0]
			for _, a := range args[1:] {
				c := p.Le(r, a.leaves[0])
				if fv.builtin == "min" {
					r = p.Ite(c, r, a.leaves[0])
				} else {
					r = p.Ite(c, a.leaves[0], r)
				}
			}
			return []Val{{leaves: []*Term{r}}}
		case "ssa:wrapnilchk":
			x.nilOblige(st, args[0].leaves[0], "method call through a non-nil pointer")
			return []Val{args[0]}
		case "delete":
			return nil
		}
		x.unsupported("builtin %s", fv.builtin)
	}
	if fv.fn == nil {
		x.nilOblige(st, fv.leaves[0], "call of a non-nil function value")
		return x.w.dynCall(x, st, c, fv, args)
	}
	return x.callFn(st, fv.fn, fv.binds, args, in)
}

// materialize: a pointer to a struct that lives inside a slice or another
// object, seen as a pointer to a fresh object with the same content. Sound as
// long as nobody writes through it (checked by the caller).
func (x *Exec) materialize(st *State, v Val, t types.Type) Val {
	p := x.p
	if v.addr.kind == "elem" {
		// the object may be reached again: remember it per element address
		for _, m := range x.mats {
			if m.idx == v.addr.idx && m.sl[0] == v.addr.sl[0] && m.off == v.addr.off && m.t == t && st.mpub[m.ref.id] {
				return Val{leaves: []*Term{m.ref}}
			}
		}
	}
	content := x.load(st, v, t)
	r := p.FreshRef(x.L.typeKey(t))
	x.assume(st, p.Lt(st.next, r))
	st.next = r
	x.allocs[r.id] = t
	tk := x.L.typeKey(t)
	x.allocsByType[tk] = append(x.allocsByType[tk], r)
	x.storeHeap(st, t, "", t, r, content)
	if v.addr.kind == "elem" {
		x.mats = append(x.mats, mat{v.addr.sl, v.addr.idx, v.addr.off, t, r})
	}
	return Val{leaves: []*Term{r}}
}

type mat struct {
	sl  []*Term
	idx *Term
	off int
	t   types.Type
	ref *Term
}

func (x *Exec) resultVals(st *State, sig *types.Signature, hint string) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.freshVal(fmt.Sprintf("%s_r%d", hint, i), sig.Results().At(i).Type()))
	}
	return out
}

func (x *Exec) callFn(st *State, fn *ssa.Function, binds []Val, args []Val, in ssa.Instruction) []Val {
	w := x.w
	if !w.inPkg(fn) {
		return w.external(x, st, fn, args)
	}
	if x.mode.traceFn != nil && x.mode.traceFn(x, st, w.fnKey(fn), args) {
		return x.resultVals(st, fn.Signature, fn.Name())
	}
	if x.plug != nil && x.plug.onAnyCall != nil {
		x.plug.onAnyCall(st, fn, args)
	}
	if x.plug != nil && x.plug.replace != nil {
		if rs, ok := x.plug.replace(st, fn, args); ok {
			return rs
		}
	}
	for i, a := range args {
		if a.addr == nil {
			continue
		}
		et := derefType(paramTypes(fn)[i])
		if et == nil || !w.isAST(et) {
			continue
		}
		for _, k := range w.keysOf(et, "", et) {
			if w.mods[fn][k] {
				x.unsupported("%s may write through an interior pointer", w.fnKey(fn))
			}
		}
		args = append([]Val{}, args...)
		args[i] = x.materialize(st, a, et)
	}
	if w.shouldInline(x, fn) && !(x.plug != nil && x.plug.opaque != nil && x.plug.opaque(fn)) {
		if rs, ok := x.inline(st, fn, binds, args); ok {
			return rs
		}
	}
	return w.applyContract(x, st, fn, args)
}

func (x *Exec) inline(st *State, fn *ssa.Function, binds, args []Val) (rs []Val, ok bool) {
	for _, f := range x.stack {
		if f == fn {
			return nil, false
		}
	}
	savePos := x.curPos
	n, vals, _ := x.runBody(fn, args, binds, st)
	x.curPos = savePos
	env, defers := st.env, st.defers
	*st = *n
	st.env, st.defers = env, defers
	return vals, true
}

// ---------------------------------------------------------------- externals

func (w *World) external(x *Exec, st *State, fn *ssa.Function, args []Val) []Val {
	p := x.p
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	x.usedExt[name] = true
	errVal := func() Val {
		r := p.FreshRef("err")
		x.assume(st, p.Lt(st.next, r))
		st.next = r
		return Val{leaves: []*Term{p.Int(int64(w.extTag("error:" + name))), r}}
	}
	if x.plug != nil && x.plug.onLib != nil {
		x.plug.onLib(st, name, args)
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		e := errVal()
		x.newErr(st, e, args)
		return []Val{e}
	case "strings.ToUpper":
		return []Val{{leaves: []*Term{x.upper(args[0].leaves[0])}}}
	case "strings.ToLower":
		if s := args[0].leaves[0]; s.op == "str" {
			return []Val{{leaves: []*Term{p.Str(strings.ToLower(s.name))}}}
		}
		return []Val{{leaves: []*Term{p.App("lower", SStr, args[0].leaves[0])}}}
	case "strings.EqualFold":
		return []Val{{leaves: []*Term{p.Eq(x.upper(args[0].leaves[0]), x.upper(args[1].leaves[0]))}}}
	case "strings.Repeat":
		x.oblige(st, "bounds", "strings.Repeat count is non-negative", p.Le(p.Int(0), args[1].leaves[0]))
		return x.resultVals(st, fn.Signature, "repeat")
	case "strings.Join":
		rs := x.resultVals(st, fn.Signature, "str")
		if es, _, _, ok := sliceParts(args[0]); ok != nil && len(es) > 0 {
			x.joins[rs[0].leaves[0]] = es[0]
		}
		return rs
	case "fmt.Sprintf", "(*strings.Builder).String":
		return x.resultVals(st, fn.Signature, "str")
	case "fmt.Fprintf":
		return x.resultVals(st, fn.Signature, "fprintf")
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString":
		rs := x.resultVals(st, fn.Signature, "wr")
		if x.plug != nil && x.plug.onExtern != nil {
			x.plug.onExtern(st, name, args, rs)
		}
		return rs
	case "errors.As":
		// second argument: pointer to the target cell, boxed
		rs := x.resultVals(st, fn.Signature, "as")
		w.errorsAs(x, st, args, rs[0].leaves[0])
		return rs
	case "sort.Search":
		n := args[0].leaves[0]
		r := p.Fresh("search", SInt)
		x.assume(st, p.And(p.Le(p.Int(0), r), p.Or(p.Le(r, n), p.Le(n, p.Int(0)))))
		x.assume(st, p.Implies(p.Le(n, p.Int(0)), p.Eq(r, p.Int(0))))
		if args[1].fn != nil {
			// the predicate is called only on indices in [0,n): check its safety there
			at := func(i *Term, g *Term) *Term {
				s := st.clone()
				s.reach = p.And(s.reach, g)
				vals, ok := x.inline(s, args[1].fn, args[1].binds, []Val{{leaves: []*Term{i}, set: true}})
				if !ok {
					return nil
				}
				return vals[0].leaves[0]
			}
			i := p.Fresh("si", SInt)
			at(i, p.And(p.Le(p.Int(0), i), p.Lt(i, n)))
			no := len(x.obls)
			if f := at(r, p.Lt(r, n)); f != nil {
				x.assume(st, p.Implies(p.Lt(r, n), f))
			}
			if f := at(p.Sub(r, p.Int(1)), p.Lt(p.Int(0), r)); f != nil {
				x.assume(st, p.Implies(p.Lt(p.Int(0), r), p.Not(f)))
			}
			x.obls = x.obls[:no]
		}
		return []Val{{leaves: []*Term{r}}}
	case "slices.Contains":
		return x.resultVals(st, fn.Signature, "contains")
	case "slices.ContainsFunc":
		if args[1].fn != nil {
			s := st.clone()
			e := x.freshVal("el", args[1].fn.Signature.Params().At(0).Type())
			x.inline(s, args[1].fn, args[1].binds, []Val{e})
			// effects of the predicate on the state: keep only if it is pure on the lexer
			for k, t := range s.heap {
				if x.heapGet(st, k) != t && !strings.HasPrefix(k, "cell<") {
					st.heap[k] = x.havocKey(st, k)
				}
			}
			x.assume(st, p.Le(st.next, s.next))
			st.next = s.next
		}
		return x.resultVals(st, fn.Signature, "containsfn")
	case "unicode.IsSpace":
		r := args[0].leaves[0]
		ascii := p.Or(p.And(p.Le(p.Int(9), r), p.Le(r, p.Int(13))), p.Eq(r, p.Int(32)))
		res := p.App("isSpace", SBool, r)
		x.assume(st, p.Implies(p.Lt(r, p.Int(128)), p.Eq(res, ascii)))
		return []Val{{leaves: []*Term{res}}}
	case "unicode/utf8.DecodeRuneInString":
		s := args[0].leaves[0]
		base, at := s, p.Int(0)
		if s.op == "app" && s.name == "ssub" && s.args[2] == x.slen(s.args[0]) {
			base, at = s.args[0], s.args[1]
		}
		r, sz := p.App("rune", SInt, base, at), p.App("rsz", SInt, base, at)
		rs := []Val{{leaves: []*Term{r}, set: true}, {leaves: []*Term{sz}, set: true}}
		ln := x.slen(s)
		x.assume(st, p.Implies(p.Lt(p.Int(0), ln), p.And(p.Le(p.Int(1), sz), p.Le(sz, ln), p.Le(sz, p.Int(4)))))
		x.assume(st, p.Implies(p.Eq(ln, p.Int(0)), p.Eq(sz, p.Int(0))))
		b := x.sat(s, p.Int(0))
		x.assume(st, p.Implies(p.And(p.Lt(p.Int(0), ln), p.Lt(b, p.Int(128))), p.And(p.Eq(r, b), p.Eq(sz, p.Int(1)))))
		x.assume(st, p.Implies(p.And(p.Lt(p.Int(0), ln), p.Le(p.Int(128), b)), p.Le(p.Int(128), r)))
		return rs
	case "reflect.ValueOf":
		return []Val{{leaves: []*Term{args[0].leaves[1]}}}
	case "(reflect.Value).IsNil":
		return []Val{{leaves: []*Term{p.Eq(args[0].leaves[0], p.Int(0))}}}
	case "(*github.com/AfterShip/clickhouse-sql-parser/parser.Set[T]).Contains":
		return []Val{{leaves: []*Term{w.setContains(x, args[0].leaves[0], args[1].leaves[0])}}}
	}
	if strings.HasSuffix(name, ".init") {
		return nil
	}
	x.unsupported("external function %s", name)
	return nil
}

func (w *World) setContains(x *Exec, set, k *Term) *Term {
	if members, ok := w.setMembers[set.name]; ok && set.op == "const" {
		if k.op == "str" {
			return x.p.Bool(members[k.name])
		}
	}
	return x.p.App("contains", SBool, set, k)
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}
