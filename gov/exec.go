package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	kind  string // nil, bounds, slice, typeassert, panic, pre, post, inv, publish, term, frame, prop...
	name  string // stable name: function + what
	pos   string
	guard *Term
	cond  *Term
	nAss  int
	cands []string // candidate annotations that justify this obligation (dropped when it fails)
	status string  // "", "proved", "failed", "unknown"
	detail string
	taut  bool
}

type unsup struct{ msg string }

type Exec struct {
	mats []mat
	tabled []tabledObj
	joins map[*Term]*Term // result of strings.Join -> its slice
	retGuards []*Term
	w      *World
	p      *Pool
	L      *Layout
	top    *ssa.Function
	ass    []*Term
	obls   []*Obligation
	initH  map[string]*Term
	entry  *State
	allocs map[int]types.Type // local alloc refs -> struct type
	depth  int
	stack  []*ssa.Function
	curPos token.Pos
	noObl  bool
	mode   ExecMode
	topFr  *Frame
	steps  int
	factsSeen map[string]bool
	termEdges []*TermEdge
	calls  []*CallRec
	elemTexts map[int][]string
	keep      *keeper
	arrKey map[*Term]string // the field an array of values stands for
	upText map[int]string // texts with a fact of their own
	deps   map[string]bool // contracts / candidates used
	onStore func(x *Exec, st *State, a *Addr, v Val, in ssa.Instruction)
	usedExt map[string]bool
	assSeen map[int]bool
	allocsByType map[string][]*Term
	callDeps map[*ssa.Function]bool
	edges map[string]bool
	frames []*Frame
	loopsSeen map[string]bool
	lemmaN map[string]int
	lemmaSeen map[int]bool
	loopVars map[string][]string
	onReturn func(x *Exec, fr *Frame, st *State, vals []Val, in ssa.Instruction)
	plug *Plug
	propMode bool // base obligations are proved elsewhere: assume them
	proveExtra bool // show the clauses a property adds to the contract
	jobName string
	specialise func(fn *ssa.Function, args []Val)
	onTargets func() []target
}

func propObl(kind string, cands []string) bool {
	if kind == "prop" {
		return true
	}
	for _, c := range cands {
		if strings.HasPrefix(c, "prop|") {
			return true
		}
	}
	return false
}

type ExecMode struct {
	trace     bool // record formatter / visitor traces instead of plain contracts
	traceFn   func(x *Exec, st *State, callee string, args []Val) bool
	loopTrace bool
	inlineAll func(fn *ssa.Function) bool
	traceInvoke func(x *Exec, st *State, c *ssa.CallCommon, args []Val) ([]Val, bool)
	onBuilder func(x *Exec, st *State, name string, args []Val)
	noPost bool
	noLemmas bool
}

type CallRec struct {
	fn    *ssa.Function
	guard *Term
	mPre  *Term
}

type TermEdge struct {
	callee *ssa.Function
	obl    *Obligation
}

type Frame struct {
	fn      *ssa.Function
	args    []Val
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*Loop // by header
	inner   map[*ssa.BasicBlock]*Loop // innermost loop of block
	rets    []retRec
	entry   *State
	parent  *Frame
	loopOrd map[*ssa.BasicBlock]int
}

type retRec struct {
	st   *State
	vals []Val
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func (x *Exec) unsupported(f string, a ...any) {
	panic(unsup{fmt.Sprintf(f, a...) + " at " + x.w.posStr(x.curPos)})
}

func NewExec(w *World, top *ssa.Function) *Exec {
	return &Exec{elemTexts: map[int][]string{}, arrKey: map[*Term]string{}, upText: map[int]string{}, joins: map[*Term]*Term{}, w: w, p: w.newPool(), L: w.L, top: top, initH: map[string]*Term{}, allocs: map[int]types.Type{}, factsSeen: map[string]bool{}, deps: map[string]bool{}, usedExt: map[string]bool{}, assSeen: map[int]bool{}, allocsByType: map[string][]*Term{}, callDeps: map[*ssa.Function]bool{}, edges: map[string]bool{}, loopsSeen: map[string]bool{}, lemmaN: map[string]int{}, lemmaSeen: map[int]bool{}, loopVars: map[string][]string{}}
}

// ---------------------------------------------------------------- heap

func (x *Exec) keySort(key string) string { return x.w.keySorts[key] }

func (x *Exec) heapGet(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.initH[key]; ok {
		return t
	}
	s, ok := x.w.keySorts[key]
	if !ok {
		x.unsupported("unknown heap key %s", key)
	}
	t := x.p.Const("H."+sanitize(key), arrSort(s))
	x.initH[key] = t
	x.arrKey[t] = key
	return t
}

func (x *Exec) objKeys(root types.Type, path string, t types.Type) []string {
	pre := x.L.typeKey(root) + path
	var out []string
	for _, l := range x.L.leaves(t) {
		k := pre + l.path
		if _, ok := x.w.keySorts[k]; !ok {
			x.w.setKeySort(k, l.sort)
		}
		out = append(out, k)
	}
	return out
}

func (x *Exec) loadHeap(st *State, root types.Type, path string, t types.Type, base *Term) Val {
	v := Val{set: true}
	for _, k := range x.objKeys(root, path, t) {
		v.leaves = append(v.leaves, x.p.Select(x.heapGet(st, k), base))
	}
	x.loadFacts(st, root, path, t, base, v)
	return v
}

func (x *Exec) storeHeap(st *State, root types.Type, path string, t types.Type, base *Term, v Val) {
	for i, k := range x.objKeys(root, path, t) {
		st.heap[k] = x.p.Store(x.heapGet(st, k), base, v.leaves[i])
	}
}

func (x *Exec) assume(st *State, t *Term) { x.assumeG(st.reach, t) }
func (x *Exec) assumeG(g, t *Term) {
	f := x.p.Implies(g, t)
	if f == x.p.T {
		return
	}
	x.ass = append(x.ass, f)
}

func (x *Exec) oblige(st *State, kind, what string, cond *Term, cands ...string) *Obligation {
	if x.noObl {
		return nil
	}
	if x.propMode && !propObl(kind, cands) {
		x.assume(st, cond)
		return nil
	}
	name := x.w.fnKey(x.top) + ": " + what
	if len(x.stack) > 1 {
		name += " (via " + x.stack[len(x.stack)-1].Name() + ")"
	}
	o := &Obligation{kind: kind, name: name, pos: x.w.posStr(x.curPos), guard: st.reach, cond: cond, nAss: len(x.ass), cands: cands}
	if cond == x.p.T || st.reach == x.p.F || x.p.Implies(st.reach, cond) == x.p.T {
		o.status = "proved"
		o.taut = true
	}
	x.obls = append(x.obls, o)
	if !o.taut {
		x.assume(st, cond)
		for _, c := range cands { // what follows relies on it
			x.deps[c] = true
		}
	}
	return o
}

// ---------------------------------------------------------------- values

func (x *Exec) zero(t types.Type) Val {
	v := Val{set: true}
	for _, l := range x.L.leaves(t) {
		v.leaves = append(v.leaves, x.zeroLeaf(l))
	}
	return v
}

func (x *Exec) zeroLeaf(l Leaf) *Term {
	if strings.HasSuffix(l.path, ".ok") && l.sort == SBool {
		return x.p.T
	}
	return x.zeroSort(l.sort)
}
func (x *Exec) zeroSort(s string) *Term {
	switch s {
	case SBool:
		return x.p.F
	case SInt:
		return x.p.Int(0)
	case SStr:
		return x.p.Str("")
	}
	return x.p.ConstArr(x.zeroSort(elemSort(s)))
}

func (x *Exec) freshVal(hint string, t types.Type) Val {
	v := Val{set: true}
	for _, l := range x.L.leaves(t) {
		c := x.p.Fresh(hint+l.path, l.sort)
		v.leaves = append(v.leaves, c)
	}
	x.typeFacts(t, v)
	return v
}

// typeFacts: facts true of any value of the type (lengths are non-negative, nil slices are empty).
func (x *Exec) typeFacts(t types.Type, v Val) {
	ls := x.L.leaves(t)
	for i, l := range ls {
		if strings.HasSuffix(l.path, ".len") && l.sort == SInt {
			x.ass = append(x.ass, x.p.Le(x.p.Int(0), v.leaves[i]))
			if i+1 < len(ls) && strings.HasSuffix(ls[i+1].path, ".nn") {
				x.ass = append(x.ass, x.p.Or(v.leaves[i+1], x.p.Eq(v.leaves[i], x.p.Int(0))))
			}
		}
	}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{leaves: []*Term{x.p.Bool(constant.BoolVal(c.Value))}, set: true}
	case constant.String:
		return Val{leaves: []*Term{x.p.Str(constant.StringVal(c.Value))}, set: true}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return Val{leaves: []*Term{x.p.Int(n)}, set: true}
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return Val{leaves: []*Term{x.p.Int(int64(n))}, set: true}
		}
	case constant.Float:
		return x.freshVal("float", t)
	}
	x.unsupported("constant %s", c)
	return Val{}
}

func (x *Exec) value(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Val{addr: &Addr{kind: "global", glob: c, typ: derefType(c.Type())}, set: true}
	case *ssa.Function:
		return Val{fn: c, leaves: []*Term{x.p.Const("fn."+sanitize(c.String()), SInt)}, set: true}
	case *ssa.Builtin:
		return Val{builtin: c.Name(), set: true}
	}
	r, ok := st.env[v]
	if !ok {
		x.unsupported("no value for %s (%T) in %s", v.Name(), v, v.Parent())
	}
	return r
}

func (x *Exec) lenOf(v Val, t types.Type) *Term {
	ls := x.L.leaves(t)
	return v.leaves[len(ls)-3]
}

func sliceParts(v Val) (elems []*Term, ln, nn, ok *Term) {
	n := len(v.leaves)
	return v.leaves[:n-3], v.leaves[n-3], v.leaves[n-2], v.leaves[n-1]
}

func (x *Exec) slen(s *Term) *Term {
	if s.op == "str" {
		return x.p.Int(int64(len(s.name)))
	}
	if s.op == "app" && s.name == "ssub" {
		// valid whenever 0<=i<=j<=slen(base): guaranteed by the slice obligation; encode through axiom
	}
	if s.op == "ite" {
		return x.p.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	return x.p.App("slen", SInt, s)
}

func (x *Exec) sat(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.n >= 0 && i.n < int64(len(s.name)) {
		return x.p.Int(int64(s.name[i.n]))
	}
	if s.op == "app" && s.name == "ssub" && i.op == "int" && i.n == 0 {
		return x.p.App("sat", SInt, s.args[0], s.args[1])
	}
	return x.p.App("sat", SInt, s, i)
}

func (x *Exec) upper(s *Term) *Term {
	if s.op == "str" {
		return x.p.Str(strings.ToUpper(s.name))
	}
	if s.op == "ite" {
		return x.p.Ite(s.args[0], x.upper(s.args[1]), x.upper(s.args[2]))
	}
	if s.op == "app" && s.name == "upper" {
		return s
	}
	return x.p.App("upper", SStr, s)
}

func (x *Exec) scat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return x.p.Str(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	return x.p.App("scat", SStr, a, b)
}

// ---------------------------------------------------------------- CFG

func (w *World) analyze(fn *ssa.Function) *Frame {
	fr := &Frame{fn: fn, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, loopOrd: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpo = append(fr.rpo, post[i])
	}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				// add natural loop body
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range n.Preds {
						if !l.blocks[pr] && seen[pr] {
							l.blocks[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range fr.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // big to small
		if p := fr.inner[l.header]; p != nil && p.blocks[l.header] {
			l.parent = p
		}
		for b := range l.blocks {
			fr.inner[b] = l
		}
	}
	n := 0
	for _, b := range fr.rpo {
		if _, ok := fr.loops[b]; ok {
			fr.loopOrd[b] = n
			n++
		}
	}
	return fr
}

// runBody executes fn's body from st; returns merged results.
func (x *Exec) runBody(fn *ssa.Function, args []Val, binds []Val, st *State) (*State, []Val, *Frame) {
	if len(fn.Blocks) == 0 {
		x.unsupported("function without body %s", fn)
	}
	fr := x.w.analyze(fn)
	fr.args = args
	callerEnv, callerDefers := st.env, st.defers
	s := st.clone()
	s.env = map[ssa.Value]Val{}
	s.defers = nil
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = binds[i]
	}
	fr.entry = s.clone()
	x.stack = append(x.stack, fn)
	x.frames = append(x.frames, fr)
	if len(x.stack) == 1 {
		x.topFr = fr
	}
	if len(x.stack) > 40 {
		x.unsupported("inline depth")
	}
	x.region(fr, nil, fn.Blocks[0], []edge{{nil, s, nil}})
	x.stack = x.stack[:len(x.stack)-1]
	x.frames = x.frames[:len(x.frames)-1]
	if len(fr.rets) == 0 {
		// never returns
		s := st.clone()
		s.reach = x.p.F
		var vals []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			vals = append(vals, x.zero(fn.Signature.Results().At(i).Type()))
		}
		return s, vals, fr
	}
	return x.mergeRets(fr, callerEnv, callerDefers)
}

func (x *Exec) mergeRets(fr *Frame, callerEnv map[ssa.Value]Val, callerDefers []Defer) (*State, []Val, *Frame) {
	var es []edge
	for _, r := range fr.rets {
		r.st.env = map[ssa.Value]Val{}
		r.st.defers = nil
		es = append(es, edge{nil, r.st, r.vals})
	}
	st, vals := x.merge(es)
	st.env = callerEnv
	st.defers = callerDefers
	if len(es) > 1 && len(x.stack) > 0 {
		x.joinLemmas(st, fr.fn.Name()+".ret")
	}
	return st, vals, fr
}

func (x *Exec) isBack(fr *Frame, from, to *ssa.BasicBlock) bool {
	return fr.loops[to] != nil && to.Dominates(from)
}

// region executes blocks of loop L (nil: whole function) acyclically.
func (x *Exec) region(fr *Frame, L *Loop, start *ssa.BasicBlock, in []edge) (back []edge, exits map[*ssa.BasicBlock][]edge) {
	pending := map[*ssa.BasicBlock][]edge{start: in}
	exits = map[*ssa.BasicBlock][]edge{}
	route := func(t *ssa.BasicBlock, e []edge) {
		if L != nil && t == L.header {
			back = append(back, e...)
		} else if L == nil || L.blocks[t] {
			pending[t] = append(pending[t], e...)
		} else {
			exits[t] = append(exits[t], e...)
		}
	}
	for _, b := range fr.rpo {
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && l != L {
			ex := x.loop(fr, l, es)
			var ts []*ssa.BasicBlock
			for t := range ex {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].Index < ts[j].Index })
			for _, t := range ts {
				route(t, ex[t])
			}
			continue
		}
		x.steps++
		if x.steps > 60000 {
			x.unsupported("too many blocks")
		}
		st, phis := x.merge(es)
		if st.reach == x.p.F {
			continue
		}
		if len(es) > 1 {
			x.joinLemmas(st, fmt.Sprintf("b%d", b.Index))
		}
		for _, o := range x.block(fr, b, st, phis) {
			route(o.to, []edge{o.e})
		}
	}
	return
}

type outEdge struct {
	to *ssa.BasicBlock
	e  edge
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, phis []Val) []outEdge {
	np := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if np < len(phis) {
			st.env[phi] = phis[np]
		}
		np++
	}
	for _, in := range b.Instrs[np:] {
		if in.Pos().IsValid() {
			x.curPos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.If:
			c := x.value(st, in.Cond).leaves[0]
			s2 := st.clone()
			st.reach = x.p.And(st.reach, c)
			s2.reach = x.p.And(s2.reach, x.p.Not(c))
			var out []outEdge
			if st.reach != x.p.F {
				out = append(out, outEdge{b.Succs[0], x.mkEdge(b, b.Succs[0], 0, st)})
			}
			if s2.reach != x.p.F {
				out = append(out, outEdge{b.Succs[1], x.mkEdge(b, b.Succs[1], 1, s2)})
			}
			return out
		case *ssa.Jump:
			return []outEdge{{b.Succs[0], x.mkEdge(b, b.Succs[0], 0, st)}}
		case *ssa.Return:
			var vals []Val
			for _, r := range in.Results {
				vals = append(vals, x.value(st, r))
			}
			if fr == x.topFr {
				x.atReturn(fr, st, vals, in)
			}
			fr.rets = append(fr.rets, retRec{st, vals})
			return nil
		case *ssa.Panic:
			x.oblige(st, "panic", "explicit panic is unreachable", x.p.F)
			return nil
		default:
			x.instr(fr, st, in)
			if st.reach == x.p.F {
				return nil
			}
		}
	}
	return nil
}

func (x *Exec) mkEdge(from, to *ssa.BasicBlock, succIdx int, st *State) edge {
	e := edge{from: from, st: st}
	pi := -1
	cnt := 0
	// which pred index (handles duplicate edges: both successors the same block)
	want := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			want++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if cnt == want {
				pi = i
				break
			}
			cnt++
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, x.value(st, phi.Edges[pi]))
	}
	return e
}

// joinLemmas cuts the proof at a join point: the lexer facts that hold on every
// path so far are established once and assumed afterwards.
func (x *Exec) joinLemmas(st *State, where string) {
	if x.noObl || x.topFr == nil || x.mode.noLemmas {
		return
	}
	w, p := x.w, x.p
	top := x.topFr
	lp := w.lexParam(top.fn)
	if lp < 0 || !w.touchesLexer(top.fn) {
		return
	}
	lex := x.lexOf(top.entry, top.fn.Params[lp].Type(), top.args[lp])
	off, cur := x.lexField(st, lex, "offset"), x.lexField(st, lex, "currentToken")
	if off.op != "ite" && cur.op != "ite" {
		return
	}
	if x.lemmaSeen[off.id] && x.lemmaSeen[cur.id] {
		return
	}
	x.lemmaSeen[off.id], x.lemmaSeen[cur.id] = true, true
	base := "lemma|" + w.fnKey(x.top) + "|" + where
	x.lemmaN[base]++
	id := fmt.Sprintf("%s#%d", base, x.lemmaN[base])
	try := func(name string, c *Term) {
		cid := id + "|" + name
		if w.active(cid) {
			x.deps[cid] = true
			x.oblige(st, "lemma", "join lemma "+name, c, cid)
		}
	}
	m, m0 := x.measure(st, lex), x.measure(top.entry, lex)
	try("wf", x.lexWF(st, lex))
	try("M.lt", p.Lt(m, m0))
	if !w.active(id + "|M.lt") {
		try("M.le", p.Le(m, m0))
	}
}

// ---------------------------------------------------------------- loops

const unrollLimit = 48

func (x *Exec) loop(fr *Frame, l *Loop, in []edge) map[*ssa.BasicBlock][]edge {
	if ex, ok := x.tryUnroll(fr, l, in); ok {
		return ex
	}
	return x.cutLoop(fr, l, in)
}

// headerCond evaluates whether the header's branch is decided for entry edge e.
func (x *Exec) headerCond(fr *Frame, l *Loop, e []edge) (decided bool) {
	h := l.header
	n := len(h.Instrs)
	iff, ok := h.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range h.Instrs[:n-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp:
		case *ssa.UnOp:
			if in.Op == token.MUL {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	st, phis := x.merge(e)
	na, no := len(x.ass), len(x.obls)
	defer func() { x.truncAss(na); x.obls = x.obls[:no] }()
	np := 0
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			st.env[phi] = phis[np]
			np++
			continue
		}
		if in == h.Instrs[n-1] {
			break
		}
		x.instr(fr, st, in)
	}
	c := x.value(st, iff.Cond).leaves[0]
	return c == x.p.T || c == x.p.F
}

func (x *Exec) tryUnroll(fr *Frame, l *Loop, in []edge) (map[*ssa.BasicBlock][]edge, bool) {
	if !x.headerCond(fr, l, in) {
		return nil, false
	}
	na, no, nr := len(x.ass), len(x.obls), len(fr.rets)
	nte, nc := len(x.termEdges), len(x.calls)
	nk := x.keep.len()
	acc := map[*ssa.BasicBlock][]edge{}
	cur := in
	for i := 0; i < unrollLimit; i++ {
		if !x.headerCond(fr, l, cur) {
			break
		}
		back, ex := x.region(fr, l, l.header, cur)
		for t, e := range ex {
			acc[t] = append(acc[t], e...)
		}
		live := back[:0]
		for _, e := range back {
			if e.st.reach != x.p.F {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			return acc, true
		}
		st, phis := x.merge(live)
		cur = []edge{{live[0].from, st, phis}}
	}
	x.truncAss(na)
	x.obls, fr.rets = x.obls[:no], fr.rets[:nr]
	x.termEdges, x.calls = x.termEdges[:nte], x.calls[:nc]
	x.keep.trunc(nk)
	return nil, false
}

func (x *Exec) cutLoop(fr *Frame, l *Loop, in []edge) map[*ssa.BasicBlock][]edge {
	entrySt, entryPhis := x.merge(in)
	var phis []*ssa.Phi
	for _, i := range l.header.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	lid := fmt.Sprintf("%s#loop%d", x.w.fnKey(fr.fn), fr.loopOrd[l.header])
	if len(x.stack) > 1 { // inlined: qualify by the stack
		var ss []string
		for _, f := range x.stack[1:] {
			ss = append(ss, f.Name())
		}
		lid = x.w.fnKey(x.top) + "/" + strings.Join(ss, "/") + fmt.Sprintf("#loop%d", fr.loopOrd[l.header])
	}
	st := entrySt.clone()
	var hv []Val
	for i, ph := range phis {
		if sameLoopPhi(ph, l) {
			hv = append(hv, entryPhis[i])
			continue
		}
		if entryPhis[i].addr != nil || entryPhis[i].fn != nil {
			x.unsupported("loop phi with address/closure")
		}
		hv = append(hv, x.freshVal("phi_"+ph.Comment, ph.Type()))
	}
	nx := x.p.Fresh("next", SInt)
	x.assume(st, x.p.Le(st.next, nx))
	st.next = nx
	mods := x.loopMods(fr, l, st)
	var mk []string
	for k := range mods {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		bases := mods[k]
		old := x.heapGet(st, k)
		if bases == nil {
			st.heap[k] = x.havocKey(st, k)
			continue
		}
		cur := old
		for _, b := range bases {
			f := x.p.Fresh("lh."+k, x.keySort(k))
			x.leafFact(k, f)
			cur = x.p.Store(cur, b, f)
		}
		st.heap[k] = cur
	}
	preTrace := st.trace
	lc := &LoopCtx{x: x, fr: fr, l: l, id: lid, phis: phis, entryPhis: entryPhis, entry: entrySt, preNext: entrySt.next}
	for _, k := range mk {
		lc.mods = append(lc.mods, loopMod{k, mods[k]})
	}
	x.curPos = l.header.Instrs[0].Pos()
	if !x.curPos.IsValid() && len(l.header.Instrs) > 0 {
		for _, in := range l.header.Instrs {
			if in.Pos().IsValid() {
				x.curPos = in.Pos()
				break
			}
		}
	}
	invs := x.w.loopInvs(lc)
	if x.plug != nil {
		for _, k := range sortedKeys(entrySt.ghost) {
			st.ghost[k] = x.p.Fresh("g."+k, entrySt.ghost[k].sort)
		}
		if x.plug.onLoopHead != nil {
			x.plug.onLoopIn(lc, entrySt, entryPhis)
			x.plug.onLoopHead(lc, entrySt, st, hv)
		}
		if x.plug.loopInvs != nil {
			invs = append(invs, x.plug.loopInvs(lc)...)
		}
	}
	pubPhi := func(s *State, iv LoopInv, phis []Val) {
		if iv.pubIdx > 0 {
			i := iv.pubIdx - 1
			if ch := x.w.childRef(lc.phis[i].Type(), phis[i]); ch != nil {
				x.markPublished(s, ch, x.p.T, 0)
			}
		}
		if iv.pubOf != nil {
			x.markPublished(s, iv.pubOf(s), x.p.T, 0)
		}
	}
	for _, iv := range invs {
		x.oblige2(entrySt, "inv", "loop invariant '"+iv.name+"' holds on entry of "+lid, iv.build(entrySt, entryPhis, entryPhis), iv.cand)
	}
	for _, iv := range invs {
		pubPhi(entrySt, iv, entryPhis)
	}
	for id := range entrySt.mpub {
		st.mpub[id] = true
	}
	for id := range entrySt.pub {
		st.pub[id] = true
	}
	// anything the loop may publish counts as shared from the first iteration on
	for _, as := range x.allocsByType {
		for _, a := range as {
			st.mpub[a.id] = true
		}
	}
	for _, iv := range invs {
		x.assume(st, iv.build(st, hv, entryPhis))
		x.deps[iv.cand] = true
	}
	if x.plug != nil && x.plug.onHead != nil {
		x.plug.onHead(st)
	}
	if x.mode.loopTrace {
		st.trace = nil
	}
	head := st.clone()
	nk := x.keep.loopBase(len(phis))
	back, ex := x.region(fr, l, l.header, []edge{{nil, st, hv}})
	var bodyTrace Trace
	for _, b := range back {
		for _, iv := range invs {
			x.oblige2(b.st, "inv", "loop invariant '"+iv.name+"' preserved by "+lid, iv.build(b.st, b.phis, entryPhis), iv.cand)
		}
		x.w.loopVariant(lc, head, hv, b, x)
		if x.plug != nil && x.plug.onBack != nil {
			x.plug.onBack(lc, nk, b.st, b.phis)
		}
	}
	if x.mode.loopTrace {
		if len(back) > 0 {
			bst, _ := x.merge(back)
			bodyTrace = bst.trace
		}
		node := &TrNode{kind: "loop", loop: &TrLoop{body: bodyTrace, tag: lid}}
		x.w.loopTraceInfo(lc, hv, node.loop)
		for t := range ex {
			for i := range ex[t] {
				e := ex[t][i]
				if len(e.st.trace) > 0 {
					x.unsupported("events on the exit path of a loop")
				}
				e.st.trace = preTrace.add(node)
			}
		}
		// returns from inside the loop
	}
	return ex
}

func sameLoopPhi(ph *ssa.Phi, l *Loop) bool {
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] && e != ph {
			return false
		}
	}
	return true
}

func (x *Exec) havocKey(st *State, k string) *Term {
	f := x.p.Fresh("hv."+k, arrSort(x.keySort(k)))
	x.arrKey[f] = k
	// objects allocated locally and not yet published cannot be reached by others
	return f
}

func (x *Exec) leafFact(k string, f *Term) {
	if strings.HasSuffix(k, ".len") && f.sort == SInt {
		x.ass = append(x.ass, x.p.Le(x.p.Int(0), f))
	}
}

// loopMods computes heap keys written in the loop on objects older than the
// iteration: key -> base terms (nil slice = unknown bases).
func (x *Exec) loopMods(fr *Frame, l *Loop, st *State) map[string][]*Term {
	out := map[string][]*Term{}
	addAll := func(k string) { out[k] = nil }
	addBase := func(k string, b *Term) {
		if ex, ok := out[k]; ok && ex == nil {
			return
		}
		for _, e := range out[k] {
			if e == b {
				return
			}
		}
		out[k] = append(out[k], b)
	}
	var rootOf func(v ssa.Value) (ssa.Value, types.Type, string, bool)
	rootOf = func(v ssa.Value) (ssa.Value, types.Type, string, bool) {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			st := derefType(a.X.Type())
			f := st.Underlying().(*types.Struct).Field(a.Field)
			b, root, path, ok := rootOf(a.X)
			if !ok {
				return nil, nil, "", false
			}
			if root == nil {
				return b, st, "." + f.Name(), true
			}
			return b, root, path + "." + f.Name(), true
		case *ssa.IndexAddr:
			return nil, nil, "", false
		}
		return v, nil, "", true
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && l.blocks[al.Block()] {
						continue // varargs array allocated in this iteration
					}
					if pt := derefType(ia.X.Type()); pt != nil { // array object
						for _, k := range x.objKeys(pt, "", pt) {
							addAll(k)
						}
						continue
					}
					if isSlice(ia.X.Type()) {
						continue // handled as unsupported at execution
					}
				}
				base, root, path, ok := rootOf(in.Addr)
				if !ok {
					x.unsupported("store through an element address in a loop")
				}
				if g, isG := base.(*ssa.Global); isG {
					_ = g
					x.unsupported("store to a package variable in a loop")
				}
				t := derefType(in.Addr.Type())
				if root == nil {
					root = t
				}
				keys := x.objKeys(root, path, t)
				if al, ok := base.(*ssa.Alloc); ok && l.blocks[al.Block()] {
					continue
				}
				if bi, ok := base.(ssa.Instruction); ok && l.blocks[bi.Block()] {
					if v, ok2 := x.loopInvariantBase(base, st, l); ok2 {
						for _, k := range keys {
							addBase(k, v)
						}
						continue
					}
					for _, k := range keys {
						addAll(k)
					}
					continue
				}
				v := x.value(st, base)
				if v.addr != nil {
					if v.addr.kind == "heap" {
						for _, k := range x.objKeys(v.addr.root, v.addr.path+path, t) {
							addBase(k, v.addr.base)
						}
						continue
					}
					x.unsupported("loop store through address kind %s", v.addr.kind)
				}
				for _, k := range keys {
					addBase(k, v.leaves[0])
				}
			case ssa.CallInstruction:
				for k := range x.w.callMods(in.Common(), x, st) {
					addAll(k)
				}
			case *ssa.MapUpdate:
			}
		}
	}
	return out
}

// loopInvariantBase resolves *(p.f) style bases whose value cannot change in the loop (e.g. p.lexer).
func (x *Exec) loopInvariantBase(v ssa.Value, st *State, l *Loop) (*Term, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	if x.L.typeKey(derefType(fa.X.Type())) == "Parser" && derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "lexer" {
		if b, ok := st.env[fa.X]; ok && b.addr == nil {
			return x.p.Select(x.heapGet(st, "Parser.lexer"), b.leaves[0]), true
		}
	}
	return nil, false
}

type LoopCtx struct {
	x         *Exec
	fr        *Frame
	l         *Loop
	id        string
	phis      []*ssa.Phi
	entryPhis []Val
	entry     *State
	preNext   *Term
	mods      []loopMod
}

type LoopInv struct {
	name  string
	cand  string
	pubIdx int                    // 1+index of the phi published by this invariant
	pubOf  func(st *State) *Term  // object field published by this invariant
	build func(st *State, phis []Val, entry []Val) *Term
}

func dbg(f string, a ...any) {
	if os.Getenv("GOVDBG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
