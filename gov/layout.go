package main

import (
	"fmt"
	"go/types"
	"strings"
)

type Leaf struct {
	path string
	sort string
}

type Layout struct {
	memo map[types.Type][]Leaf
	pkg  *types.Package
}

func isNamed(t types.Type, path string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == path
}

func (l *Layout) leaves(t types.Type) []Leaf {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.compute(t)
	l.memo[t] = r
	return r
}

func (l *Layout) compute(t types.Type) []Leaf {
	if isNamed(t, "strings.Builder") || isNamed(t, "reflect.Value") {
		return []Leaf{{"", SInt}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt}}
		default:
			return []Leaf{{"", SInt}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt}}
	case *types.Interface:
		return []Leaf{{".t", SInt}, {".v", SInt}}
	case *types.Slice:
		var out []Leaf
		for _, e := range l.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + e.path, arrSort(e.sort)})
		}
		return append(out, Leaf{".len", SInt}, Leaf{".nn", SBool}, Leaf{".ok", SBool})
	case *types.Array:
		var out []Leaf
		for _, e := range l.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + e.path, arrSort(e.sort)})
		}
		return out
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, e := range l.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + e.path, e.sort})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, e := range l.leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d%s", i, e.path), e.sort})
			}
		}
		return out
	}
	panic(fmt.Sprintf("layout: unsupported type %s", t))
}

// fieldRange returns the leaf index range of field i inside struct type t.
func (l *Layout) fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	lo := 0
	for k := 0; k < i; k++ {
		lo += len(l.leaves(st.Field(k).Type()))
	}
	return lo, lo + len(l.leaves(st.Field(i).Type()))
}

func (l *Layout) tupleRange(t *types.Tuple, i int) (int, int) {
	lo := 0
	for k := 0; k < i; k++ {
		lo += len(l.leaves(t.At(k).Type()))
	}
	return lo, lo + len(l.leaves(t.At(i).Type()))
}

// typeKey is the heap-key prefix for objects of type t.
func (l *Layout) typeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil || n.Obj().Pkg() == l.pkg {
			s := n.Obj().Name()
			if n.TypeArgs().Len() > 0 {
				s += "<" + n.TypeArgs().At(0).String() + ">"
			}
			return s
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return "cell<" + types.TypeString(t, types.RelativeTo(l.pkg)) + ">"
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func isPtr(t types.Type) bool   { _, ok := t.Underlying().(*types.Pointer); return ok }
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func shortType(t types.Type, pkg *types.Package) string {
	return strings.ReplaceAll(types.TypeString(t, types.RelativeTo(pkg)), " ", "")
}
