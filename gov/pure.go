package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame (C12): what a function may change. Tree functions (no parser among
// their parameters) change no node: every store goes to something allocated in
// the call, to the formatter, or to a variable of the caller's own. No function
// changes a package variable or a map it did not make, and nothing consulted
// depends on addresses, iteration order, time or other state.

func (w *World) treeSide(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if w.lexParam(f) >= 0 {
			return false
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if n := w.ptrName(f.Signature.Results().At(i).Type()); n == "Parser" || n == "Lexer" {
				return false
			}
		}
	}
	return true
}

// writes: instructions that can change something others can see.
func writesMemory(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, local := in.Addr.(*ssa.Alloc); !local {
					return true
				}
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append", "copy", "delete", "clear":
						return true
					}
				}
				if g := in.Common().StaticCallee(); g != nil && (g.Pkg == nil || g.Pkg != f.Pkg) {
					return true // library code: only what has a contract is known to write nothing
				}
			}
		}
	}
	return false
}

func frameJobs(w *World) []Job {
	var out []Job
	for _, f := range w.closure(allRoots(w)) {
		f := f
		if wrapper(f) || len(f.Blocks) == 0 || w.isInit(f) || !w.writesDeep(f, map[*ssa.Function]bool{}) {
			continue
		}
		out = append(out, Job{name: w.fnKey(f) + " changes nothing else", fn: f, must: true, setup: func(x *Exec) { installFrame(x, f) }})
	}
	return out
}

func (w *World) isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// writesDeep: also through the helpers that are looked into.
func (w *World) writesDeep(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if writesMemory(f) {
		return true
	}
	for _, g := range w.callees[f] {
		if (!w.underContract(g) || w.inlinable(g)) && w.writesDeep(g, seen) {
			return true
		}
	}
	for _, g := range f.AnonFuncs {
		if w.writesDeep(g, seen) {
			return true
		}
	}
	return false
}

func installFrame(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	tree := w.treeSide(fn)
	ob := func(st *State, what string, c *Term) { x.oblige2(st, "prop", what, c) }
	fresh := func(b *Term) *Term {
		if _, ok := x.allocs[b.id]; ok {
			return p.T
		}
		return p.Lt(x.entry.next, b)
	}
	pl.onStore = func(st *State, a *Addr, v Val, in ssa.Instruction) {
		switch a.kind {
		case "global":
			ob(st, "leaves package variables as they are", p.F)
		case "heap", "arr":
			if tree && w.nodeData(a.root) {
				ob(st, "changes only nodes it made itself", fresh(a.base))
			}
		}
	}
	pl.onMap = func(st *State, in ssa.Instruction, m *Term) {
		c := fresh(m)
		if mu, ok := in.(*ssa.MapUpdate); ok && w.ownMap(mu.Map) {
			c = p.T
		}
		ob(st, "changes only maps it made itself", c)
	}
	if !tree {
		return
	}
	pl.onAppend = func(st *State, arg ssa.Value) {
		ob(st, "appends only to lists it made itself", p.Bool(ownSlice(arg, map[ssa.Value]bool{})))
	}
}

// nodeData: a node, or something stored inside nodes.
func (w *World) nodeData(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == w.pkg.Pkg {
		switch n.Obj().Name() {
		case "Formatter":
			return false
		}
		_, str := n.Underlying().(*types.Struct)
		return str
	}
	return false
}

// ownMap: a map kept in a field of the parser that only ever holds maps made for it.
func (w *World) ownMap(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if n := w.ptrName(fa.X.Type()); n != "Parser" && n != "Lexer" {
		return false
	}
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := s.Addr.(*ssa.FieldAddr); ok && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type()) {
					if _, mk := s.Val.(*ssa.MakeMap); !mk {
						if c, cok := s.Val.(*ssa.Const); !cok || !c.IsNil() {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// ownSlice: the slice's backing array was made in this function (or there is none).
func ownSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !ownSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ownSlice(v.Call.Args[0], seen)
		}
		return false
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			_, arr := derefType(a.Type()).Underlying().(*types.Array)
			return arr
		}
		// s[:n:n] leaves no room to write into
		if v.Max != nil && v.Max == v.High {
			return true
		}
		return isSlice(v.X.Type()) && ownSlice(v.X, seen)
	case *ssa.ChangeType:
		return ownSlice(v.X, seen)
	case *ssa.UnOp: // a variable: everything stored in it is own
		switch a := v.X.(type) {
		case *ssa.Alloc:
			return ownVar(a, seen)
		case *ssa.FreeVar:
			return ownFree(a, seen)
		}
	}
	return false
}

func ownVar(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a && !ownSlice(r.Val, seen) || r.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == a && !ownVar(r.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func ownFree(v *ssa.FreeVar, seen map[ssa.Value]bool) bool {
	f := v.Parent()
	k := -1
	for i, fv := range f.FreeVars {
		if fv == v {
			k = i
		}
	}
	if k < 0 || f.Parent() == nil {
		return false
	}
	found := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				found = true
				switch a := mc.Bindings[k].(type) {
				case *ssa.Alloc:
					if !ownVar(a, seen) {
						return false
					}
				case *ssa.FreeVar:
					if !ownFree(a, seen) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return found
}

// frameExtra: what the symbolic execution does not look at.
func frameExtra(w *World, fns []*ssa.Function, res map[*ssa.Function]*FnResult) []Failure {
	var out []Failure
	// no node or parser can be reached through a package variable
	for _, m := range w.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if t := w.reachesNode(derefType(g.Type()), map[types.Type]bool{}); t != "" {
			out = append(out, Failure{g.Name(), "frame", "", "package variable " + g.Name() + " leads to no node, formatter or parser", "it reaches " + t})
		}
	}
	// what is printed by fmt is determined by values
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" {
					continue
				}
				for _, a := range c.Common().Args {
					for _, v := range variadicArgs(a) {
						if addressy(v.Type(), map[types.Type]bool{}) {
							out = append(out, Failure{w.fnKey(f), "frame", w.posStr(in.Pos()), fmt.Sprintf("%s prints values, not addresses", g.Name()), "argument of type " + v.Type().String()})
						}
					}
				}
			}
		}
	}
	return out
}

func (w *World) reachesNode(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == w.pkg.Pkg {
		if w.isNode(t) || w.isASTIface(t) || n.Obj().Name() == "Parser" || n.Obj().Name() == "Lexer" || n.Obj().Name() == "Formatter" || n.Obj().Name() == "Token" {
			return n.Obj().Name()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return w.reachesNode(u.Elem(), seen)
	case *types.Slice:
		return w.reachesNode(u.Elem(), seen)
	case *types.Array:
		return w.reachesNode(u.Elem(), seen)
	case *types.Map:
		if s := w.reachesNode(u.Key(), seen); s != "" {
			return s
		}
		return w.reachesNode(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := w.reachesNode(u.Field(i).Type(), seen); s != "" {
				return s
			}
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "anything (" + t.String() + ")"
		}
	}
	return ""
}

// isNode: the type, or a pointer to it, is an expression.
func (w *World) isNode(t types.Type) bool {
	if !w.isAST(t) {
		return false
	}
	o := w.pkg.Pkg.Scope().Lookup("Expr")
	if o == nil {
		return true
	}
	i, ok := o.Type().Underlying().(*types.Interface)
	return ok && (types.Implements(t, i) || types.Implements(types.NewPointer(t), i))
}

// variadicArgs: the values stored into the array behind a variadic argument.
func variadicArgs(a ssa.Value) []ssa.Value {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
				v := s.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				out = append(out, v)
			}
		}
	}
	return out
}

// addressy: formatting a value of this type can print an address.
func addressy(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, m := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Slice:
		return addressy(u.Elem(), seen)
	case *types.Array:
		return addressy(u.Elem(), seen)
	case *types.Map:
		return addressy(u.Key(), seen) || addressy(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addressy(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Interface:
		return false
	}
	return true
}
