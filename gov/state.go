package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of one SSA value.
type Val struct {
	leaves []*Term
	addr   *Addr         // interior address (not first-class)
	fn     *ssa.Function // known function value
	binds  []Val         // closure bindings
	slen   int           // statically known slice length + 1 (0 = unknown); only for convenience
	set    bool
	builtin string
}

type Addr struct {
	kind  string // "heap", "elem", "arr", "global"
	base  *Term  // heap: object ref; arr: array object ref
	root  types.Type
	path  string
	typ   types.Type // pointee type
	sl    []*Term    // elem: leaves of the slice
	elemT types.Type // elem/arr
	off   int        // elem/arr: leaf offset inside the element
	idx   *Term
	glob  *ssa.Global
}

type Defer struct {
	cond *Term
	call *ssa.CallCommon
	fn   Val
	args []Val
	in   *ssa.Defer
}

type State struct {
	reach  *Term
	heap   map[string]*Term
	next   *Term
	env    map[ssa.Value]Val
	trace  Trace
	defers []Defer
	pub    map[int]bool // local allocations definitely published (term ids)
	mpub   map[int]bool // local allocations possibly published
	pubIn  map[int]*Term // published under this condition
	ghost  map[string]*Term
}

func (s *State) clone() *State {
	n := &State{reach: s.reach, next: s.next, trace: s.trace}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]Defer{}, s.defers...)
	n.pub = make(map[int]bool, len(s.pub))
	for k, v := range s.pub {
		n.pub[k] = v
	}
	n.mpub = make(map[int]bool, len(s.mpub))
	for k, v := range s.mpub {
		n.mpub[k] = v
	}
	n.pubIn = make(map[int]*Term, len(s.pubIn))
	for k, v := range s.pubIn {
		n.pubIn[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
	phis []Val
}

func sameVal(a, b Val) bool {
	if len(a.leaves) != len(b.leaves) || a.fn != b.fn || len(a.binds) != len(b.binds) || a.builtin != b.builtin {
		return false
	}
	for i := range a.leaves {
		if a.leaves[i] != b.leaves[i] {
			return false
		}
	}
	for i := range a.binds {
		if !sameVal(a.binds[i], b.binds[i]) {
			return false
		}
	}
	if (a.addr == nil) != (b.addr == nil) {
		return false
	}
	if a.addr != nil {
		x, y := a.addr, b.addr
		if x == y {
			return true
		}
		if x.kind != y.kind || x.base != y.base || x.path != y.path || x.off != y.off || x.idx != y.idx || x.glob != y.glob || len(x.sl) != len(y.sl) {
			return false
		}
		for i := range x.sl {
			if x.sl[i] != y.sl[i] {
				return false
			}
		}
	}
	return true
}

// splitConds strips conjuncts common to all reach conditions.
func (x *Exec) splitConds(edges []edge) (common *Term, conds []*Term) {
	p := x.p
	if len(edges) == 1 {
		return edges[0].st.reach, []*Term{p.T}
	}
	cnt := map[int]int{}
	byID := map[int]*Term{}
	for _, e := range edges {
		for _, c := range conjuncts(e.st.reach) {
			cnt[c.id]++
			byID[c.id] = c
		}
	}
	var com []*Term
	var ids []int
	for id, n := range cnt {
		if n == len(edges) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		com = append(com, byID[id])
	}
	for _, e := range edges {
		var rest []*Term
		for _, c := range conjuncts(e.st.reach) {
			if cnt[c.id] != len(edges) {
				rest = append(rest, c)
			}
		}
		conds = append(conds, p.And(rest...))
	}
	return p.And(com...), conds
}

// orSimplify combines complementary pairs.
func (x *Exec) orSimplify(cs []*Term) *Term {
	p := x.p
	work := append([]*Term{}, cs...)
	for changed := true; changed && len(work) > 1; {
		changed = false
	outer:
		for i := 0; i < len(work); i++ {
			for j := i + 1; j < len(work); j++ {
				if r := p.resolve(work[i], work[j]); r != nil && r.op != "or" {
					// only accept true reductions
					if len(conjuncts(r)) <= len(conjuncts(work[i])) || len(conjuncts(r)) <= len(conjuncts(work[j])) {
						work[i] = r
						work = append(work[:j], work[j+1:]...)
						changed = true
						break outer
					}
				}
			}
		}
	}
	return p.Or(work...)
}

func (x *Exec) merge(edges []edge) (*State, []Val) {
	if len(edges) == 1 {
		st := edges[0].st.clone()
		return st, edges[0].phis
	}
	p := x.p
	// drop unreachable
	var live []edge
	for _, e := range edges {
		if e.st.reach != p.F {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		live = edges[:1]
	}
	if len(live) == 1 {
		st := live[0].st.clone()
		return st, live[0].phis
	}
	edges = live
	common, conds := x.splitConds(edges)
	st := edges[0].st.clone()
	st.reach = p.And(common, x.orSimplify(conds))
	// heap
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	for k := range keys {
		vs := make([]*Term, len(edges))
		for i, e := range edges {
			vs[i] = x.heapGet(e.st, k)
		}
		st.heap[k] = x.iteChain(conds, vs)
	}
	nx := make([]*Term, len(edges))
	for i, e := range edges {
		nx[i] = e.st.next
	}
	st.next = x.iteChain(conds, nx)
	gk := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.ghost {
			gk[k] = true
		}
	}
	for k := range gk {
		vs := make([]*Term, len(edges))
		ok := true
		for i, e := range edges {
			vs[i] = e.st.ghost[k]
			if vs[i] == nil {
				ok = false
			}
		}
		if ok {
			st.ghost[k] = x.iteChain(conds, vs)
		} else {
			delete(st.ghost, k)
		}
	}
	// env
	for v, a := range edges[0].st.env {
		same := true
		vals := []Val{a}
		okAll := true
		for _, e := range edges[1:] {
			b, ok := e.st.env[v]
			if !ok {
				okAll = false
				break
			}
			vals = append(vals, b)
			if !sameVal(a, b) {
				same = false
			}
		}
		if !okAll {
			delete(st.env, v)
			continue
		}
		if !same {
			m, ok := x.mergeVals(conds, vals)
			if !ok {
				delete(st.env, v)
				continue
			}
			st.env[v] = m
		}
	}
	// pub: intersection
	for id := range st.pub {
		for _, e := range edges[1:] {
			if !e.st.pub[id] {
				delete(st.pub, id)
				break
			}
		}
	}
	for _, e := range edges[1:] {
		for id := range e.st.mpub {
			st.mpub[id] = true
		}
	}
	// published on some branches: remember under which condition
	ids := map[int]bool{}
	for _, e := range edges {
		for id := range e.st.pub {
			if !st.pub[id] {
				ids[id] = true
			}
		}
		for id := range e.st.pubIn {
			ids[id] = true
		}
	}
	for id := range ids {
		if st.pub[id] {
			continue
		}
		c := p.F
		for _, e := range edges {
			if e.st.pub[id] {
				c = p.Or(c, e.st.reach)
			} else if q, ok := e.st.pubIn[id]; ok {
				c = p.Or(c, q)
			}
		}
		st.pubIn[id] = c
	}
	// defers: union, guarded
	st.defers = x.mergeDefers(edges, conds)
	// trace
	trs := make([]Trace, len(edges))
	for i, e := range edges {
		trs[i] = e.st.trace
	}
	st.trace = mergeTraces(p, conds, trs)
	// phis
	var phis []Val
	for i := range edges[0].phis {
		vals := make([]Val, len(edges))
		for k, e := range edges {
			vals[k] = e.phis[i]
		}
		m, ok := x.mergeVals(conds, vals)
		if !ok {
			x.unsupported("cannot merge phi operands (interior addresses or closures)")
		}
		phis = append(phis, m)
	}
	return st, phis
}

func (x *Exec) mergeDefers(edges []edge, conds []*Term) []Defer {
	var out []Defer
	same := true
	for _, e := range edges[1:] {
		if len(e.st.defers) != len(edges[0].st.defers) {
			same = false
			break
		}
		for i := range e.st.defers {
			if e.st.defers[i].in != edges[0].st.defers[i].in || e.st.defers[i].cond != edges[0].st.defers[i].cond {
				same = false
			}
		}
	}
	if same {
		return append([]Defer{}, edges[0].st.defers...)
	}
	idx := map[*ssa.Defer]int{}
	for i, e := range edges {
		for _, d := range e.st.defers {
			c := x.p.And(conds[i], d.cond)
			if j, ok := idx[d.in]; ok {
				out[j].cond = x.p.Or(out[j].cond, c)
			} else {
				idx[d.in] = len(out)
				d.cond = c
				out = append(out, d)
			}
		}
	}
	return out
}

func (x *Exec) iteChain(conds []*Term, vs []*Term) *Term {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = x.p.Ite(conds[i], vs[i], r)
	}
	return r
}

func (x *Exec) mergeVals(conds []*Term, vals []Val) (Val, bool) {
	same := true
	for _, v := range vals[1:] {
		if !sameVal(vals[0], v) {
			same = false
		}
	}
	if same {
		return vals[0], true
	}
	n := len(vals[0].leaves)
	for _, v := range vals {
		if v.addr != nil || v.fn != nil || len(v.leaves) != n || v.builtin != "" {
			return Val{}, false
		}
	}
	out := Val{set: true}
	for i := 0; i < n; i++ {
		ts := make([]*Term, len(vals))
		for k, v := range vals {
			ts[k] = v.leaves[i]
		}
		out.leaves = append(out.leaves, x.iteChain(conds, ts))
	}
	return out, true
}
