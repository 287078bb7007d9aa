package main

// Trace is a persistent sequence of ghost events with structured merges.
type Trace []*TrNode

type TrNode struct {
	kind string // "ev", "ite", "loop"
	// ev
	name string
	args []*Term
	str  string
	// ite
	cond *Term
	a, b Trace
	// loop
	loop *TrLoop
}

type TrLoop struct {
	body Trace
	idx  *Term
	n    *Term
	slice []*Term
	tag  string
}

func (t Trace) add(n *TrNode) Trace { return append(t[:len(t):len(t)], n) }

func mergeTraces(p *Pool, conds []*Term, trs []Trace) Trace {
	// common prefix
	k := 0
	for {
		if k >= len(trs[0]) {
			break
		}
		ok := true
		for _, t := range trs[1:] {
			if k >= len(t) || t[k] != trs[0][k] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		k++
	}
	allSame := true
	for _, t := range trs {
		if len(t) != k {
			allSame = false
		}
	}
	if allSame {
		return trs[0]
	}
	suf := trs[len(trs)-1][k:]
	for i := len(trs) - 2; i >= 0; i-- {
		a := trs[i][k:]
		if len(a) == 0 && len(suf) == 0 {
			continue
		}
		suf = Trace{&TrNode{kind: "ite", cond: conds[i], a: a, b: suf}}
	}
	out := append(Trace{}, trs[0][:k]...)
	return append(out, suf...)
}
