package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const pkgPath = "github.com/AfterShip/clickhouse-sql-parser/parser"

type World struct {
	fset     *token.FileSet
	pkg      *ssa.Package
	prog     *ssa.Program
	files    []*ast.File
	L        *Layout
	keySorts map[string]string
	fns      []*ssa.Function
	byKey    map[string]*ssa.Function
	scc      map[*ssa.Function]int
	sccSize  map[int]int
	callees  map[*ssa.Function][]*ssa.Function
	mods     map[*ssa.Function]map[string]bool
	astTypes map[string]types.Type // typeKey -> named struct type
	tags     map[string]int
	tagList  []types.Type
	extTags  map[string]int
	cellFns  map[int]Val
	setMembers map[string]map[string]bool
	globals  map[*ssa.Global]*globalInfo
	dropped  map[string]bool
	assumed  map[string]bool
	impl     map[types.Type][]types.Type
	exprIface types.Type
	inlineMemo map[*ssa.Function]bool
	baseline map[string]bool
	parent  *World
	lexKeys map[string]string
	why map[string]string
	taken map[*ssa.Function]bool
	initKeys map[string]bool
	propSetup func(x *Exec)
	onlyCands map[string]bool
	helperMemo map[*ssa.Function]bool
	extraPosts map[string][]Clause
	nodeTypes map[string]bool
	lateFlds  map[string][]string
	opLv *opLevels
	tabTexts map[string][]string
	ifaceMethods map[string]bool
	fieldMemo map[types.Type][]fieldInfo
	orMemo map[types.Type][]orInv
	fnConstMemo map[*ssa.Function][]fnConst
}

type globalInfo struct {
	entries []map[string]ssa.Value // map of structs: constant field values per entry
	lens    []map[string]int64     // lengths of the slice fields
	strs []string // for []string / []TokenKind globals initialised with constants
	ok   bool
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gov:", err)
		os.Exit(3)
	}
}

func LoadWorld(dir string) (*World, error) {
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	var files []*ast.File
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	tp := types.NewPackage(pkgPath, "parser")
	sp, _, err := ssautil.BuildPackage(&types.Config{Importer: importer.ForCompiler(fset, "source", nil)}, fset, tp, files, ssa.InstantiateGenerics)
	if err != nil {
		return nil, err
	}
	w := &World{fset: fset, pkg: sp, prog: sp.Prog, files: files,
		L:        &Layout{memo: map[types.Type][]Leaf{}, pkg: tp},
		keySorts: map[string]string{}, byKey: map[string]*ssa.Function{},
		astTypes: map[string]types.Type{}, tags: map[string]int{}, extTags: map[string]int{},
		cellFns: map[int]Val{}, setMembers: map[string]map[string]bool{}, globals: map[*ssa.Global]*globalInfo{},
		dropped: map[string]bool{}, assumed: map[string]bool{}, impl: map[types.Type][]types.Type{}, inlineMemo: map[*ssa.Function]bool{}, why: map[string]string{}, lexKeys: map[string]string{}, extraPosts: map[string][]Clause{}, fieldMemo: map[types.Type][]fieldInfo{}, fnConstMemo: map[*ssa.Function][]fnConst{}, orMemo: map[types.Type][]orInv{}}
	w.collect()
	return w, nil
}

// fork gives a private view for one worker (terms and caches are not shared).
func (w *World) fork() *World {
	n := *w
	n.L = &Layout{memo: map[types.Type][]Leaf{}, pkg: w.L.pkg}
	n.keySorts = map[string]string{}
	for k, v := range w.keySorts {
		n.keySorts[k] = v
	}
	n.cellFns = map[int]Val{}
	n.assumed = map[string]bool{}
	n.impl = map[types.Type][]types.Type{}
	n.helperMemo = nil
	n.inlineMemo = map[*ssa.Function]bool{}
	n.extTags = map[string]int{}
	n.tags = map[string]int{}
	for k, v := range w.tags {
		n.tags[k] = v
	}
	n.parent = w
	n.lexKeys = map[string]string{}
	n.fieldMemo = map[types.Type][]fieldInfo{}
	n.orMemo = map[types.Type][]orInv{}
	n.fnConstMemo = map[*ssa.Function][]fnConst{}
	n.ifaceMethods = nil
	return &n
}

func (w *World) newPool() *Pool { return NewPool() }

func (w *World) setKeySort(k, s string) { w.keySorts[k] = s }

func (w *World) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (w *World) inPkg(fn *ssa.Function) bool {
	if strings.Contains(fn.String(), "parser.Set[") || strings.Contains(fn.String(), "parser.NewSet[") {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg == w.pkg || f.Origin() != nil && f.Origin().Pkg == w.pkg {
			return true
		}
	}
	return false
}

// wrapper: made by the compiler to forward to another function (instances of
// generic functions are not).
func wrapper(fn *ssa.Function) bool { return fn.Synthetic != "" && fn.Origin() == nil }

func (w *World) fnKey(fn *ssa.Function) string {
	return fn.RelString(w.pkg.Pkg)
}

func (w *World) collect() {
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // only its instances run
		}
		if w.inPkg(fn) && len(fn.Blocks) > 0 && !wrapper(fn) || (w.inPkg(fn) && len(fn.Blocks) > 0 && fn.Name() == "init") {
			w.fns = append(w.fns, fn)
			w.byKey[w.fnKey(fn)] = fn
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fnKey(w.fns[i]) < w.fnKey(w.fns[j]) })
	sc := w.pkg.Pkg.Scope()
	notAST := map[string]bool{"Parser": true, "Lexer": true, "lexerState": true, "Token": true, "Formatter": true, "ParseError": true, "Set": true, "DefaultASTVisitor": true}
	w.exprIface = sc.Lookup("Expr").Type()
	var named []*types.TypeName
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			named = append(named, tn)
		}
	}
	exprI := w.exprIface.Underlying().(*types.Interface)
	for _, tn := range named {
		if _, ok := tn.Type().Underlying().(*types.Struct); ok && !notAST[tn.Name()] {
			nt, isN := tn.Type().(*types.Named)
			if isN && nt.TypeParams().Len() > 0 {
				continue
			}
			w.astTypes[tn.Name()] = tn.Type()
		}
	}
	_ = exprI
	for _, tn := range named {
		nt := tn.Type()
		if n, ok := nt.(*types.Named); ok && n.TypeParams().Len() > 0 {
			continue
		}
		w.regTag(types.NewPointer(nt))
		w.regTag(nt)
	}
	for _, tn := range named {
		if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok {
			w.keysOf(tn.Type(), "", tn.Type())
		}
	}
	w.callgraph()
	w.computeMods()
	w.initGlobals()
}

func (w *World) regTag(t types.Type) int {
	k := types.TypeString(t, types.RelativeTo(w.pkg.Pkg))
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tags) + 1
	w.tags[k] = n
	return n
}
func (w *World) typeTag(t types.Type) int { return w.regTag(types.Unalias(t)) }
func (w *World) tagName(n int) string {
	for k, v := range w.tags {
		if v == n {
			return k
		}
	}
	return "?"
}
func (w *World) extTag(s string) int {
	if n, ok := w.extTags[s]; ok {
		return n
	}
	n := 100000 + len(w.extTags)
	w.extTags[s] = n
	return n
}

func (w *World) implementers(it types.Type) []types.Type {
	if r, ok := w.impl[it]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	sc := w.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || isIface(tn.Type()) {
			continue
		}
		if nn, ok := tn.Type().(*types.Named); ok && nn.TypeParams().Len() > 0 {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if types.Implements(tn.Type(), iface) {
			out = append(out, tn.Type())
		}
		if types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	w.impl[it] = out
	return out
}

func (w *World) isAST(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == w.pkg.Pkg {
		_, ok := w.astTypes[n.Obj().Name()]
		return ok
	}
	return false
}

// isASTish: pointer to AST struct or AST interface
func (w *World) isASTish(t types.Type) bool {
	if e := derefType(t); e != nil {
		return w.isAST(e)
	}
	return w.isASTIface(t)
}

func (w *World) isASTIface(t types.Type) bool {
	if !isIface(t) {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == w.pkg.Pkg && types.Implements(t, w.exprIface.Underlying().(*types.Interface))
}

func (w *World) assumption(s string) { w.assumed[s] = true }

// ---------------------------------------------------------------- call graph

func (w *World) invokeTargets(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it := c.Value.Type()
	if !isIface(it) {
		return nil
	}
	for _, t := range w.implementers(it) {
		sel := w.prog.MethodSets.MethodSet(t).Lookup(w.pkg.Pkg, c.Method.Name())
		if sel == nil {
			continue
		}
		f := w.prog.MethodValue(sel)
		if f != nil && w.inPkg(f) {
			// promoted wrappers: resolve to synthetic function; use its body's callee
			out = append(out, f)
		}
	}
	return out
}

func (w *World) callgraph() {
	w.callees = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range w.fns {
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if f != nil && w.inPkg(f) && len(f.Blocks) > 0 && !seen[f] {
				seen[f] = true
				w.callees[fn] = append(w.callees[fn], f)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, f := range w.invokeTargets(cc) {
							add(f)
						}
					} else {
						add(cc.StaticCallee())
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					add(m.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if f, ok := (*op).(*ssa.Function); ok {
							add(f)
						}
					}
				}
			}
		}
	}
	// Tarjan
	w.scc = map[*ssa.Function]int{}
	w.sccSize = map[int]int{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, id := 0, 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range w.callees[f] {
			if index[g] == 0 {
				dfs(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			id++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				w.scc[g] = id
				w.sccSize[id]++
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range w.fns {
		if index[f] == 0 {
			dfs(f)
		}
	}
}

func (w *World) recursive(fn *ssa.Function) bool {
	if w.sccSize[w.scc[fn]] > 1 {
		return true
	}
	for _, g := range w.callees[fn] {
		if g == fn {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- frames

func rootStore(addr ssa.Value) (base ssa.Value, root types.Type, path string, ok bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := derefType(a.X.Type())
		f := st.Underlying().(*types.Struct).Field(a.Field)
		b, r, p, ok := rootStore(a.X)
		if !ok {
			return nil, nil, "", false
		}
		if r == nil {
			return b, st, "." + f.Name(), true
		}
		return b, r, p + "." + f.Name(), true
	case *ssa.IndexAddr:
		return a, nil, "", false
	}
	return addr, nil, "", true
}

func (w *World) keysOf(root types.Type, path string, t types.Type) []string {
	pre := w.L.typeKey(root) + path
	var out []string
	for _, l := range w.L.leaves(t) {
		k := pre + l.path
		if _, ok := w.keySorts[k]; !ok {
			w.keySorts[k] = l.sort
		}
		out = append(out, k)
	}
	return out
}

func (w *World) directMods(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*strings.Builder).Write") {
						base, root, path, ok := rootStore(c.Common().Args[0])
						if ok && root != nil {
							if _, isA := base.(*ssa.Alloc); !isA {
								for _, k := range w.keysOf(root, path, derefType(c.Common().Args[0].Type())) {
									out[k] = true
								}
							}
						}
					}
				}
				continue
			}
			base, root, path, ok := rootStore(st.Addr)
			if !ok {
				ia := base.(*ssa.IndexAddr)
				if al, ok := ia.X.(*ssa.Alloc); ok {
					_ = al
					continue
				}
				continue
			}
			if _, ok := base.(*ssa.Alloc); ok {
				continue
			}
			if _, ok := base.(*ssa.Global); ok {
				out["G:"+base.Name()] = true
				continue
			}
			t := derefType(st.Addr.Type())
			if root == nil {
				root = t
			}
			for _, k := range w.keysOf(root, path, t) {
				out[k] = true
			}
		}
	}
	return out
}

func (w *World) computeMods() {
	w.mods = map[*ssa.Function]map[string]bool{}
	all := map[*ssa.Function]bool{}
	for _, f := range w.fns {
		all[f] = true
		for _, g := range w.callees[f] {
			all[g] = true
		}
	}
	for f := range all {
		w.mods[f] = w.directMods(f)
	}
	for changed := true; changed; {
		changed = false
		for f := range all {
			cs := w.callees[f]
			if len(cs) == 0 && !isIn(w.fns, f) { // synthetic wrappers
				cs = w.synthCallees(f)
			}
			for _, g := range cs {
				for k := range w.mods[g] {
					if !w.mods[f][k] {
						w.mods[f][k] = true
						changed = true
					}
				}
			}
		}
	}
}

func isIn(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

func (w *World) synthCallees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (w *World) callMods(c *ssa.CallCommon, x *Exec, st *State) map[string]bool {
	out := map[string]bool{}
	if c.IsInvoke() {
		for _, f := range w.invokeTargets(c) {
			for k := range w.mods[f] {
				out[k] = true
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if strings.HasPrefix(f.String(), "(*strings.Builder).Write") {
			if _, root, path, ok := rootStore(c.Args[0]); ok {
				if root == nil {
					root = derefType(c.Args[0].Type())
				}
				for _, k := range x.objKeys(root, path, derefType(c.Args[0].Type())) {
					out[k] = true
				}
			}
			return out
		}
		for k := range w.mods[f] {
			out[k] = true
		}
		return out
	}
	// closure value known?
	if v, ok := st.env[c.Value]; ok && v.fn != nil {
		for k := range w.mods[v.fn] {
			out[k] = true
		}
		return out
	}
	if ld, ok := c.Value.(*ssa.UnOp); ok {
		if v, ok := st.env[ld.X]; ok && v.addr == nil && len(v.leaves) == 1 {
			if fv, ok := w.cellFns[v.leaves[0].id]; ok && fv.fn != nil {
				for k := range w.mods[fv.fn] {
					out[k] = true
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- globals

func (w *World) initGlobals() {
	init := w.pkg.Func("init")
	stored := map[*ssa.Global]int{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if fn != init {
							stored[g] = 100
						} else {
							stored[g]++
						}
					}
				}
			}
		}
	}
	if init == nil {
		return
	}
	arr := map[ssa.Value]map[int64]string{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if s, ok := constStr(st.Val); ok {
					if ic, ok := ia.Index.(*ssa.Const); ok {
						if arr[ia.X] == nil {
							arr[ia.X] = map[int64]string{}
						}
						arr[ia.X][ic.Int64()] = s
					}
				}
			}
		}
	}
	listOf := func(v ssa.Value) ([]string, bool) {
		sl, ok := v.(*ssa.Slice)
		if !ok {
			return nil, false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || sl.Low != nil || sl.High != nil {
			return nil, false
		}
		n := derefType(al.Type()).Underlying().(*types.Array).Len()
		m := arr[al]
		if int64(len(m)) != n {
			return nil, false
		}
		out := make([]string, n)
		for i, s := range m {
			out[i] = s
		}
		return out, true
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || stored[g] != 1 {
				continue
			}
			if mm, ok := st.Val.(*ssa.MakeMap); ok {
				if gi := w.mapEntries(mm, listOf); gi != nil {
					w.globals[g] = gi
				}
				continue
			}
			if l, ok := listOf(st.Val); ok {
				w.globals[g] = &globalInfo{strs: l, ok: true}
				continue
			}
			if c, ok := st.Val.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "NewSet") && len(c.Call.Args) == 1 {
					if l, ok := listOf(c.Call.Args[0]); ok {
						m := map[string]bool{}
						for _, s := range l {
							m[s] = true
						}
						w.setMembers["G."+g.Name()] = m
					}
				}
			}
		}
	}
}

func (w *World) globalVal(x *Exec, g *ssa.Global) (Val, bool) {
	gi, ok := w.globals[g]
	if !ok || !gi.ok {
		return Val{}, false
	}
	arr := x.p.ConstArr(x.p.Str(""))
	for i, s := range gi.strs {
		arr = x.p.Store(arr, x.p.Int(int64(i)), x.p.Str(s))
	}
	return Val{leaves: []*Term{arr, x.p.Int(int64(len(gi.strs))), x.p.T, x.p.T}, set: true}, true
}

// mapEntries evaluates a package-level map literal with struct values from init's code.
func (w *World) mapEntries(mm *ssa.MakeMap, listOf func(ssa.Value) ([]string, bool)) *globalInfo {
	gi := &globalInfo{}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val != mm {
				return nil
			}
		case *ssa.DebugRef:
		case *ssa.MapUpdate:
			ld, ok := r.Value.(*ssa.UnOp)
			if !ok || r.Map != mm {
				return nil
			}
			al, ok := ld.X.(*ssa.Alloc)
			if !ok {
				return nil
			}
			st, ok := derefType(al.Type()).Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			vals, lens := map[string]ssa.Value{}, map[string]int64{}
			for _, u := range *al.Referrers() {
				switch u := u.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr:
					n := "." + st.Field(u.Field).Name()
					for _, s := range *u.Referrers() {
						sv, ok := s.(*ssa.Store)
						if !ok || sv.Addr != u || vals[n] != nil {
							return nil
						}
						vals[n] = sv.Val
						if isSlice(st.Field(u.Field).Type()) {
							l, ok := listOf(sv.Val)
							if !ok {
								return nil
							}
							lens[n] = int64(len(l))
						} else if _, ok := sv.Val.(*ssa.Const); !ok {
							return nil
						}
					}
				default:
					return nil
				}
			}
			gi.entries = append(gi.entries, vals)
			gi.lens = append(gi.lens, lens)
		default:
			return nil
		}
	}
	return gi
}

// mapFacts: the field relations every entry of a package-level map satisfies.
func (w *World) mapFacts(x *Exec, g *ssa.Global, et types.Type, v Val) *Term {
	gi := w.globals[g]
	p := x.p
	if gi == nil || gi.ok || len(gi.entries) == 0 || !isStructT(et) {
		return p.T
	}
	out := p.T
	for _, r := range w.valueRels(et) {
		all := true
		for i, e := range gi.entries {
			cv := x.zero(et)
			cv.leaves = append([]*Term{}, cv.leaves...)
			for _, f := range w.walkFields(et) {
				lo, hi := x.leafRange(et, f.path)
				val := e[f.path]
				if val == nil {
					continue
				}
				if isSlice(f.typ) {
					cv.leaves[hi-3] = p.Int(gi.lens[i][f.path])
				} else {
					copy(cv.leaves[lo:hi], x.constVal(val.(*ssa.Const)).leaves)
				}
			}
			if r.build(x, cv) != p.T {
				all = false
			}
		}
		if all {
			out = p.And(out, r.build(x, v))
		}
	}
	return out
}
