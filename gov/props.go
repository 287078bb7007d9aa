package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *World) fnByKey(k string) *ssa.Function { return w.byKey[k] }

// parse entry points
func parseRoots(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.fns {
		if !w.isAPI(f) {
			continue
		}
		r := f.Signature.Recv()
		if r == nil {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if w.ptrName(f.Signature.Results().At(i).Type()) == "Parser" {
					out = append(out, f)
				}
			}
			continue
		}
		if w.ptrName(r.Type()) == "Parser" {
			out = append(out, f)
		}
	}
	return out
}

// everything else exported: nodes, formatter, traversal
func treeRoots(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.fns {
		if !w.isAPI(f) && !w.dispatched(f) {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			if n := w.ptrName(r.Type()); n == "Parser" || n == "Lexer" || n == "ParseError" {
				continue
			}
		} else if isIn(parseRoots(w), f) {
			continue
		}
		out = append(out, f)
	}
	return out
}

func allRoots(w *World) []*ssa.Function { return append(treeRoots(w), parseRoots(w)...) }

var treeAssumptions = []string{
	"nodes form a tree: children at different places of a node are different objects, and no node is its own descendant",
}

func set(fs []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return m
}

func isTerm(o *Obligation) bool { return o.kind == "term" || o.kind == "variant" }

func props() map[string]*Prop {
	ps := []*Prop{
		{
			id: "C01", roots: parseRoots, witness: true,
			counts: func(w *World, cl map[*ssa.Function]bool) func(*ssa.Function, *Obligation) bool {
				return func(f *ssa.Function, o *Obligation) bool { return !isTerm(o) }
			},
		},
		{
			id: "C02", roots: parseRoots, witness: true,
			counts: func(w *World, cl map[*ssa.Function]bool) func(*ssa.Function, *Obligation) bool {
				return func(f *ssa.Function, o *Obligation) bool {
					// the contracts the measures rest on are part of the argument
					return isTerm(o) || o.kind == "post" || o.kind == "pre" && len(o.cands) > 0 || o.kind == "inv" || o.kind == "lemma"
				}
			},
			extra: terminationExtra,
			trusted: []string{"node trees are finite and acyclic (Pos/End recursion is structural, checked)"},
		},
		{
			id: "C03", witness: true,
			roots: func(w *World) []*ssa.Function { return append(treeRoots(w), parseRoots(w)...) },
			counts: func(w *World, cl map[*ssa.Function]bool) func(*ssa.Function, *Obligation) bool {
				tree := set(w.closure(treeRoots(w)))
				return func(f *ssa.Function, o *Obligation) bool {
					return !isTerm(o) && (tree[f] || o.kind == "publish" || o.kind == "post" || o.kind == "inv" || o.kind == "lemma")
				}
			},
		},
	}
	ps = append(ps,
		&Prop{id: "C13", jobs: engWalk.jobs, roots: allRoots, witness: true, minRoots: 100, assume: append([]string{
			"the function given to Walk returns and does not change the tree",
		}, treeAssumptions...)},
		&Prop{id: "C14", jobs: engAccept.jobs, roots: allRoots, witness: true, minRoots: 100, assume: append([]string{
			"the visitor's methods return and do not change the tree",
		}, treeAssumptions...)},
		&Prop{id: "C17", jobs: func(w *World) []Job { return append(engFormat.jobs(w), printerJobs(w, "format")...) }, roots: allRoots, witness: true, minRoots: 100, assume: append([]string{
			"SelectQuery: at most one of UnionAll, UnionDistinct, Except, Intersect is set (the parser's four branches)",
		}, treeAssumptions...)},
	)
	ps = append(ps,
		&Prop{id: "C12", jobs: frameJobs, extra: frameExtra, roots: allRoots, witness: true, minRoots: 100, assume: []string{
			"visitors, walk functions and predicates given by a client change nothing the package can see",
		}},
		&Prop{id: "C05", jobs: lexJobs, roots: parseRoots, witness: true, minRoots: 2},
		&Prop{id: "C15", jobs: findJobs, roots: allRoots, witness: true, minRoots: 100, assume: []string{
			"Walk calls its function on the nodes of the tree, the root first, each once, until it answers false, and answers whether it never did (C13)",
			"the predicates and functions given by a client return, do not change the tree and do not keep the arguments to call back",
			"the root is a node or nil, not an interface holding a nil pointer",
		}},
		&Prop{id: "C06", jobs: errJobs, roots: parseRoots, witness: true, minRoots: 5},
		&Prop{id: "C18", jobs: keptJobs, roots: parseRoots, witness: true, minRoots: 100, assume: []string{
			"paths that panic are left to C01: what follows an operation assumes that it did not panic",
			"peeking shows the token that consuming then reads (C05)",
			"a node that is stored in a field of a node, appended or returned counts as kept; that the holder itself is kept is the same obligation one step up",
		}},
		&Prop{id: "C08", jobs: precJobs, roots: parseRoots, witness: true, minRoots: 5, assume: []string{
			"the function that gives the operator's level answers the same for the same lexer state (C12)",
			"peeking shows the token that consuming then reads, and an operator token's kind is its text (C05)",
			"lists of words in package tables are those written when the package starts (C12)",
			"the separators of TRIM, SUBSTRING and OVERLAY and column modifiers are no operators",
		}},
		&Prop{id: "C09", jobs: caseJobs, roots: allRoots, witness: true, minRoots: 100},
		&Prop{id: "C04", jobs: wholeJobs, roots: parseRoots, witness: true, minRoots: 5},
	)
	out := map[string]*Prop{}
	for _, p := range ps {
		out[p.id] = p
	}
	return out
}

// terminationExtra: every loop has a surviving variant; every recursive call
// keeps or decreases the measure; calls that only keep it do not form a cycle;
// recursion over trees is structural.
func terminationExtra(w *World, fns []*ssa.Function, res map[*ssa.Function]*FnResult) []Failure {
	var out []Failure
	// a function is split by the value of its first flag parameter
	type node struct {
		f   *ssa.Function
		ctx string
	}
	keep := map[node][]node{}
	for _, f := range fns {
		r := res[f]
		for l := range r.loops {
			ok := false
			for _, v := range r.vars[l] {
				ok = ok || !w.dropped[v]
			}
			if !ok {
				why := "no candidate measure"
				for _, v := range r.vars[l] {
					why = v + " refuted: " + w.why[v]
				}
				out = append(out, Failure{w.fnKey(f), "variant", "", "loop " + l + " has a decreasing measure", why})
			}
		}
		for ek := range r.edges {
			gk, ctx, _ := strings.Cut(ek, "#")
			g := w.byKey[gk]
			e := "edge|" + w.fnKey(f) + "|" + gk
			if w.active(e + "|lt") {
				continue
			}
			if w.active(e + "|le") {
				for _, from := range []string{"T", "F"} {
					if w.boolParam(f) >= 0 && w.active(e+"|lt|"+from) {
						continue
					}
					for _, to := range []string{"T", "F"} {
						if ctx == "" || ctx == to {
							keep[node{f, from}] = append(keep[node{f, from}], node{g, to})
						}
					}
				}
				continue
			}
			out = append(out, Failure{w.fnKey(f), "term", "", "recursive call of " + gk + " does not increase the measure", w.why[e+"|le"]})
		}
		// recursion outside the parser: structural
		for _, g := range w.callees[f] {
			if w.scc[g] != w.scc[f] || !w.recursive(f) {
				continue
			}
			if w.lexParam(f) >= 0 && w.lexParam(g) >= 0 {
				continue
			}
			if !w.structural(f, g) {
				out = append(out, Failure{w.fnKey(f), "term", "", "recursive call of " + w.fnKey(g) + " is on a child of the argument", "not structural"})
			}
		}
	}
	// cycles among measure-keeping calls
	state := map[node]int{}
	var stack []node
	name := func(n node) string { return w.fnKey(n.f) + n.ctx }
	var dfs func(f node)
	dfs = func(f node) {
		state[f] = 1
		stack = append(stack, f)
		sort.Slice(keep[f], func(i, j int) bool { return name(keep[f][i]) < name(keep[f][j]) })
		for _, g := range keep[f] {
			if state[g] == 0 {
				dfs(g)
			} else if state[g] == 1 {
				var names []string
				for i := len(stack) - 1; i >= 0; i-- {
					names = append([]string{w.fnKey(stack[i].f)}, names...)
					if stack[i] == g {
						break
					}
				}
				out = append(out, Failure{w.fnKey(f.f), "term", "", "the call cycle " + strings.Join(names, " -> ") + " consumes input", "no call in the cycle decreases the measure"})
			}
		}
		stack = stack[:len(stack)-1]
		state[f] = 2
	}
	for _, f := range fns {
		for _, c := range []string{"T", "F"} {
			if state[node{f, c}] == 0 {
				dfs(node{f, c})
			}
		}
	}
	return out
}

// structural: every call of g inside f is made on something reached from f's
// parameters by at least one field or element step.
func (w *World) structural(f, g *ssa.Function) bool {
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, isC := in.(ssa.CallInstruction)
			if !isC {
				continue
			}
			cc := c.Common()
			var target ssa.Value
			if cc.IsInvoke() {
				if !isIn(w.invokeTargets(cc), g) {
					continue
				}
				target = cc.Value
			} else {
				if cc.StaticCallee() != g {
					continue
				}
				if len(cc.Args) == 0 {
					return false
				}
				target = cc.Args[0]
				if !w.isASTish(target.Type()) && len(cc.Args) > 1 {
					target = cc.Args[1]
				}
			}
			if !w.childOf(target, map[ssa.Value]bool{}) {
				// forwarding the whole node to a helper is fine when the helper is not the caller
				ok = false
			}
		}
	}
	return ok
}

func (w *World) childOf(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			_ = a
			return true
		}
		return false
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.MakeInterface:
		return w.childOf(v.X, seen)
	case *ssa.ChangeInterface:
		return w.childOf(v.X, seen)
	case *ssa.TypeAssert:
		return w.childOf(v.X, seen)
	case *ssa.Extract:
		return w.childOf(v.Tuple, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !w.childOf(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

var _ = fmt.Sprint
var _ types.Type
