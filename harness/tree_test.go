package parser

// Independent views of a tree, by reflection: which nodes it holds and where.

import (
	"fmt"
	"reflect"
	"strings"
)

var wExprType = reflect.TypeOf((*Expr)(nil)).Elem()

type wPlace struct {
	node   Expr
	path   string // field of the parent, with the parent's type
	parent int
	via    bool // a struct stored in a slice: identified by value
}

// wNodes lists every node of the tree with its parent, root first.
func wNodes(root Expr) []wPlace {
	out := []wPlace{{node: root, parent: -1}}
	var into func(v reflect.Value, path string, me, depth int)
	node := func(p reflect.Value, path string, me, depth int, via bool) {
		out = append(out, wPlace{p.Interface().(Expr), path, me, via})
		i := len(out) - 1
		into(p.Elem(), p.Elem().Type().Name(), i, depth+1)
	}
	into = func(v reflect.Value, path string, me, depth int) {
		if depth > 2000 {
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() && !f.Anonymous {
					continue
				}
				if e := v.Field(i); !f.Anonymous && e.Kind() == reflect.Struct && e.CanAddr() && e.Addr().Type().Implements(wExprType) {
					node(e.Addr(), path+"."+f.Name, me, depth, false)
					continue
				}
				into(v.Field(i), path+"."+f.Name, me, depth+1)
			}
		case reflect.Pointer:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			if v.Type().Implements(wExprType) {
				node(v, path, me, depth, false)
				return
			}
			into(v.Elem(), path, me, depth+1)
		case reflect.Interface:
			if v.IsNil() || !v.Elem().Type().Implements(wExprType) || v.Elem().Kind() != reflect.Pointer || v.Elem().IsNil() {
				return
			}
			node(v.Elem(), path, me, depth, false)
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if e.Kind() == reflect.Struct && e.CanAddr() && e.Addr().Type().Implements(wExprType) {
					node(e.Addr(), path, me, depth, false)
					continue
				}
				into(e, path, me, depth+1)
			}
		}
	}
	rv := reflect.ValueOf(root)
	into(rv.Elem(), rv.Elem().Type().Name(), 0, 0)
	return out
}

// wSame: does an event's node denote the place (or, for structs kept by value, a copy of it)?
func wSame(p wPlace, n Expr) bool {
	if p.node == n {
		return true
	}
	if !p.via || reflect.TypeOf(p.node) != reflect.TypeOf(n) {
		return false
	}
	return reflect.DeepEqual(p.node, n)
}

func wName(n Expr) string { return strings.TrimPrefix(fmt.Sprintf("%T", n), "*parser.") }

// wMatch assigns each event the place it denotes; a detail when that fails.
func wMatch(places []wPlace, events []Expr, verb string) ([]int, string) {
	at := map[Expr][]int{}
	var vias []int
	for i, p := range places {
		at[p.node] = append(at[p.node], i)
		if p.via {
			vias = append(vias, i)
		}
	}
	used := make([]bool, len(places))
	out := make([]int, len(events))
	for k, e := range events {
		out[k] = -1
		for _, i := range at[e] {
			if !used[i] {
				out[k] = i
				break
			}
		}
		if out[k] < 0 {
			for _, i := range vias {
				if !used[i] && wSame(places[i], e) {
					out[k] = i
					break
				}
			}
		}
		if out[k] < 0 {
			if len(at[e]) > 0 {
				return nil, fmt.Sprintf("%s is %s more than once (at %s)", wName(e), verb, places[at[e][0]].path)
			}
			return nil, fmt.Sprintf("a %s that is not part of the tree is %s", wName(e), verb)
		}
		used[out[k]] = true
	}
	for i, u := range used {
		if !u {
			return nil, fmt.Sprintf("the node at %s (%s) is never %s", places[i].path, wName(places[i].node), verb)
		}
	}
	return out, ""
}

func wStops(n int) []int {
	if n <= 120 {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	return []int{0, 1, 2, n / 5, n / 4, n / 3, n / 2, 2 * n / 3, 3 * n / 4, n - 3, n - 2, n - 1}
}

func wEach(s string, f func(x Expr) string) string {
	st, err := wParse(s)
	if err != nil {
		return ""
	}
	if len(st) > 0 {
		wNontriv++
	}
	for _, x := range st {
		if d := wQuiet(func() string { return f(x) }); d != "" {
			return d
		}
	}
	return ""
}

// wQuiet: a panic of the tree functions is C03's business.
func wQuiet(f func() string) (d string) {
	defer func() {
		if r := recover(); r != nil {
			d = ""
		}
	}()
	return f()
}

func init() {
	wOracles["C13"] = func(s string) string { return wEach(s, wWalk) }
	wOracles["C14"] = func(s string) string { return wEach(s, wAccept) }
	wOracles["C15"] = func(s string) string { return wEach(s, wFind) }
}

func wWalk(x Expr) string {
	places := wNodes(x)
	var ev []Expr
	if !Walk(x, func(n Expr) bool { ev = append(ev, n); return len(ev) < 200000 }) {
		return "Walk answers false although nothing asked it to stop"
	}
	m, d := wMatch(places, ev, "walked")
	if d != "" {
		return d
	}
	at := make([]int, len(places))
	for k, i := range m {
		at[i] = k
	}
	for i, p := range places {
		if p.parent >= 0 && at[p.parent] > at[i] {
			return fmt.Sprintf("the node at %s is walked before its parent", p.path)
		}
	}
	for _, k := range wStops(len(ev)) {
		n := 0
		if Walk(x, func(Expr) bool { n++; return n <= k }) {
			return fmt.Sprintf("Walk answers true although the function asked it to stop at node %d (%s)", k, wName(ev[k]))
		}
		if n != k+1 {
			return fmt.Sprintf("Walk goes on after the function asked it to stop at node %d (%s)", k, wName(ev[k]))
		}
	}
	return ""
}

type wVisitor struct {
	DefaultASTVisitor
	enter, leave func(Expr)
}

func (v *wVisitor) Enter(e Expr) { v.enter(e) }
func (v *wVisitor) Leave(e Expr) { v.leave(e) }

type wErr struct{}

func (*wErr) Error() string { return "stop" }

func wAccept(x Expr) (detail string) {
	places := wNodes(x)
	type ev struct {
		k byte
		n Expr
	}
	var evs []ev
	limit, visits := -1, 0
	stop := &wErr{}
	v := &wVisitor{}
	v.enter = func(e Expr) { evs = append(evs, ev{'E', e}) }
	v.leave = func(e Expr) { evs = append(evs, ev{'L', e}) }
	v.Visit = func(e Expr) error {
		evs = append(evs, ev{'V', e})
		visits++
		if limit >= 0 && visits > limit {
			return stop
		}
		return nil
	}
	if err := x.Accept(v); err != nil {
		return "Accept returns an error no visitor method returned"
	}
	sel := func(k byte) []Expr {
		var out []Expr
		for _, e := range evs {
			if e.k == k {
				out = append(out, e.n)
			}
		}
		return out
	}
	m, d := wMatch(places, sel('V'), "visited")
	if d != "" {
		return d
	}
	if _, d := wMatch(places, sel('E'), "entered"); d != "" {
		return d
	}
	if _, d := wMatch(places, sel('L'), "left"); d != "" {
		return d
	}
	_ = m
	var stack []ev
	for _, e := range evs {
		switch e.k {
		case 'E':
			if len(stack) > 0 && stack[len(stack)-1].k == 'V' {
				return fmt.Sprintf("%s is entered after its parent was visited", wName(e.n))
			}
			stack = append(stack, e)
		case 'V':
			if len(stack) == 0 || stack[len(stack)-1].n != e.n {
				return fmt.Sprintf("%s is visited outside its Enter and Leave", wName(e.n))
			}
			stack[len(stack)-1].k = 'V'
		case 'L':
			if len(stack) == 0 || stack[len(stack)-1].n != e.n {
				return fmt.Sprintf("Leave of %s does not match the last Enter", wName(e.n))
			}
			if stack[len(stack)-1].k != 'V' {
				return fmt.Sprintf("%s is left before it is visited", wName(e.n))
			}
			stack = stack[:len(stack)-1]
		}
	}
	if len(stack) != 0 {
		return fmt.Sprintf("%s is never left", wName(stack[len(stack)-1].n))
	}
	for _, k := range wStops(visits) {
		evs, visits, limit = nil, 0, k
		if err := x.Accept(v); err != error(stop) {
			return fmt.Sprintf("the error of visitor call %d is not returned", k)
		}
		if visits != k+1 {
			return fmt.Sprintf("visiting goes on after the error of visitor call %d (%s)", k, wName(sel('V')[k]))
		}
		depth, nv := 0, 0
		failed := false
		for _, e := range evs {
			switch e.k {
			case 'E':
				if failed {
					return fmt.Sprintf("%s is entered after an error", wName(e.n))
				}
				depth++
			case 'L':
				depth--
			case 'V':
				nv++
				failed = nv > k
			}
		}
		if depth != 0 {
			return "Enter and Leave do not match after an error"
		}
	}
	return ""
}

// wHand: each method of the default visitor hands its node to the function.
func wHand() string {
	stop := &wErr{}
	var got []Expr
	v := &DefaultASTVisitor{}
	rv := reflect.ValueOf(v)
	for i := 0; i < rv.NumMethod(); i++ {
		m := rv.Type().Method(i)
		if !strings.HasPrefix(m.Name, "Visit") || m.Type.NumIn() != 2 || m.Type.NumOut() != 1 || m.Type.In(1).Kind() != reflect.Ptr {
			continue
		}
		arg := reflect.New(m.Type.In(1).Elem())
		n, ok := arg.Interface().(Expr)
		if !ok {
			continue
		}
		v.Visit = nil
		if out := rv.Method(i).Call([]reflect.Value{arg}); !out[0].IsNil() {
			return m.Name + " fails although there is no function to call"
		}
		got = nil
		v.Visit = func(e Expr) error { got = append(got, e); return stop }
		out := rv.Method(i).Call([]reflect.Value{arg})
		if len(got) != 1 || got[0] != n {
			return m.Name + " does not hand its node to the function, once"
		}
		if err, _ := out[0].Interface().(error); err != error(stop) {
			return m.Name + " does not return what the function answers"
		}
		got = nil
		v.Visit = func(e Expr) error { got = append(got, e); return nil }
		if out := rv.Method(i).Call([]reflect.Value{arg}); !out[0].IsNil() || len(got) != 1 {
			return m.Name + " does not return what the function answers"
		}
	}
	no := func(Expr) bool { got = append(got, nil); return false }
	got = nil
	if !WalkWithBreak(nil, no) || len(got) > 0 {
		return "WalkWithBreak on no tree calls the function or answers false"
	}
	if e, ok := Find(nil, no); e != nil || ok || len(FindAll(nil, no)) > 0 || len(got) > 0 {
		return "something is found in no tree"
	}
	return ""
}

func wFind(x Expr) string {
	if d := wHand(); d != "" {
		return d
	}
	var seen []Expr
	if err := x.Accept(&DefaultASTVisitor{Visit: func(e Expr) error { seen = append(seen, e); return nil }}); err != nil {
		return "a default visitor fails although its function does not"
	}
	if _, d := wMatch(wNodes(x), seen, "handed to the default visitor's function"); d != "" {
		return d
	}
	var ev []Expr
	Walk(x, func(n Expr) bool { ev = append(ev, n); return true })
	var bk []Expr
	if !WalkWithBreak(x, func(n Expr) bool { bk = append(bk, n); return true }) {
		return "WalkWithBreak answers false although nothing asked it to stop"
	}
	if len(bk) != len(ev) {
		return fmt.Sprintf("WalkWithBreak calls the function %d times, Walk %d times", len(bk), len(ev))
	}
	for i := range bk {
		if bk[i] != ev[i] && !reflect.DeepEqual(bk[i], ev[i]) {
			return "WalkWithBreak and Walk disagree on the order"
		}
	}
	for _, k := range wStops(len(ev)) {
		n := 0
		if WalkWithBreak(x, func(Expr) bool { n++; return n <= k }) {
			return fmt.Sprintf("WalkWithBreak answers true although the function asked it to stop at node %d", k)
		}
		if n != k+1 {
			return fmt.Sprintf("WalkWithBreak goes on after the function asked it to stop at node %d", k)
		}
		n = 0
		got, ok := Find(x, func(Expr) bool { n++; return n > k })
		if !ok || got != ev[k] && !reflect.DeepEqual(got, ev[k]) || n != k+1 {
			return fmt.Sprintf("Find does not return the first match (node %d, %s)", k, wName(ev[k]))
		}
		i := -1
		all := FindAll(x, func(Expr) bool { i++; return i%2 == k%2 })
		want := 0
		for j := range ev {
			if j%2 == k%2 {
				if want >= len(all) || all[want] != ev[j] && !reflect.DeepEqual(all[want], ev[j]) {
					return "FindAll does not return the matches in order"
				}
				want++
			}
		}
		if want != len(all) {
			return "FindAll returns too many nodes"
		}
	}
	if got, ok := Find(x, func(Expr) bool { return false }); ok || got != nil {
		return "Find finds something although nothing matches"
	}
	if got := FindAll(x, func(Expr) bool { return false }); len(got) != 0 {
		return "FindAll finds something although nothing matches"
	}
	return ""
}
