package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the case of keywords does not matter. What is decided on a text comes
// out the same whichever case a keyword in it is written in: for any two
// spellings of one keyword, every comparison, look-up and look at a letter
// gives the same answer. Texts that hold no keyword are left out: two texts
// are compared alike when both, in capitals, are in the keyword list.

func (w *World) addressTaken(f *ssa.Function) bool {
	if w.taken == nil {
		w.taken = map[*ssa.Function]bool{}
		for _, g := range w.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Function)
						if ok && (*op != callee) {
							w.taken[h] = true
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						for _, a := range c.Common().Args {
							if h, ok := a.(*ssa.Function); ok {
								w.taken[h] = true
							}
						}
					}
				}
			}
		}
	}
	return w.taken[f]
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// hasCaller: some function of the package calls f (so that it is looked into there).
func (w *World) hasCaller(f *ssa.Function) bool {
	for _, g := range w.fns {
		if g != f && isIn(w.callees[g], f) {
			return true
		}
	}
	return false
}

func caseID(w *World, f *ssa.Function, what string, i int) string {
	return fmt.Sprintf("prop|case|%s|%s%d", w.fnKey(f), what, i)
}

func caseJobs(w *World) []Job {
	out := lexJobs(w)
	for _, f := range w.closure(allRoots(w)) {
		f := f
		if wrapper(f) || len(f.Blocks) == 0 || w.isInit(f) || f.Parent() != nil || w.lexerInternal(f) || w.lexerMethod(f) || w.inlinable(f) && w.hasCaller(f) || w.tokenType(f) {
			continue
		}
		w.extraPosts[w.fnKey(f)] = append(w.extraPosts[w.fnKey(f)], tookClauses(w, f)...)
		out = append(out, Job{name: w.fnKey(f) + " does not look at case", fn: f, must: true, setup: func(x *Exec) { installCase(x, f) }})
	}
	return out
}

// tokenType: a method of a set or of another container of the package, which
// compares what it is given with nothing.
func (w *World) tokenType(f *ssa.Function) bool { return len(f.TypeArgs()) > 0 }

// upHyps: what a text may be assumed to be: every place it may come from that
// holds capitals only (texts whose case means nothing), with the names of the
// facts used.
func (x *Exec) upHyps(st *State, t *Term) (*Term, []string) {
	p, w := x.p, x.w
	h := p.T
	var cands []string
	seen := map[int]bool{}
	use := func(id string, t *Term) {
		if w.active(id) {
			h = p.And(h, p.Implies(x.word(t), p.Eq(x.caps(t), t)))
			cands = append(cands, id)
		}
	}
	var arr func(a, at *Term, sel *Term)
	var rec func(t *Term)
	arr = func(a, at *Term, sel *Term) {
		switch a.op {
		case "store":
			rec(a.args[2])
			arr(a.args[0], at, sel)
		case "ite":
			arr(a.args[1], at, sel)
			arr(a.args[2], at, sel)
		case "const":
			k := x.arrKey[a]
			if k == "" {
				return
			}
			s := p.Select(a, at)
			if k == w.tokKey("String") {
				// only a keyword's case may vary; a token stays a keyword or not (onStore)
				word := p.App("keywordToken", SBool, at)
				h = p.And(h, word)
				for _, ks := range x.kindArrs(st) {
					h = p.And(h, p.Eq(word, p.Eq(p.Select(ks, at), p.Str("<keyword>"))))
				}
				return
			}
			if k == w.tokKey("Kind") {
				h = p.And(h, p.Eq(x.caps(s), s)) // a class name or an operator (C05)
				return
			}
			if !w.outsideCase(k) {
				use("prop|case|field|"+k, s)
			}
		}
	}
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case "ite":
			rec(t.args[1])
			rec(t.args[2])
		case "select":
			arr(t.args[0], t.args[1], t)
		case "app":
			if pieced(t) {
				for _, a := range t.args {
					rec(a)
				}
			} else if id := x.upText[t.id]; id != "" {
				use(id, t)
			}
		default:
			if id := x.upText[t.id]; id != "" && !w.outsideCase(strings.TrimPrefix(id, "prop|case|field|")) {
				use(id, t)
			}
		}
	}
	rec(t)
	return h, cands
}

func installCase(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode, x.proveExtra = true, true
	pl := &Plug{}
	x.plug = pl
	// a==b is decided alike for every spelling of a and b
	blind := func(st *State, what string, a, b *Term) {
		if a.op == "str" && b.op == "str" {
			return
		}
		h1, c1 := x.upHyps(st, a)
		h2, c2 := x.upHyps(st, b)
		g := p.And(h1, h2)
		if !pieced(a) && !pieced(b) {
			g = p.And(g, x.word(a), x.word(b))
		}
		x.obligeUsing(st, what, p.Implies(g, p.Eq(p.Eq(a, b), p.Eq(x.caps(a), x.caps(b)))), append(c1, c2...))
	}
	capitals := func(st *State, what string, a *Term, id ...string) {
		h, cs := x.upHyps(st, a)
		x.obligeUsing(st, what, p.Implies(p.And(h, x.word(a)), p.Eq(x.caps(a), a)), cs, id...)
	}
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		if w.dispatched(fn) || w.isAPI(fn) || w.addressTaken(fn) {
			return
		}
		for i, a := range args {
			if i < len(fn.Params) && isText(fn.Params[i].Type()) {
				x.upText[a.leaves[0].id] = caseID(w, fn, "p", i)
			}
		}
	}
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		if !w.underContract(f) || w.inlinable(f) {
			return
		}
		for i, a := range args {
			if i < len(f.Params) && isText(f.Params[i].Type()) {
				if id := caseID(w, f, "p", i); w.active(id) {
					capitals(st, "gives "+w.fnKey(f)+" a text in capitals", a.leaves[0], id)
				}
			}
		}
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		for i, r := range rs {
			if isText(f.Signature.Results().At(i).Type()) {
				x.upText[r.leaves[0].id] = caseID(w, f, "r", i)
			}
		}
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		for i, v := range vals {
			if isText(fn.Signature.Results().At(i).Type()) {
				if id := caseID(w, fn, "r", i); w.active(id) {
					capitals(st, "gives a text in capitals", v.leaves[0], id)
				}
			}
		}
	}
	pl.onStore = func(st *State, a *Addr, v Val, in ssa.Instruction) {
		if a.kind != "heap" {
			return
		}
		for i, k := range x.objKeys(a.root, a.path, a.typ) {
			if k == w.tokKey("Kind") {
				is := func(t *Term) *Term { return p.Eq(t, p.Str("<keyword>")) }
				_, own := x.allocs[a.base.id]
				x.oblige2(st, "prop", "keeps keywords keywords", p.Or(p.Bool(own), p.Eq(is(v.leaves[i]), is(x.tokField(st, "Kind", a.base)))))
				continue
			}
			id := "prop|case|field|" + k
			if x.w.outsideCase(k) {
				continue
			}
			if w.keySorts[k] != SStr || k == w.tokKey("Kind") || !w.active(id) {
				continue
			}
			capitals(st, "keeps "+k+" in capitals", v.leaves[i], id)
		}
	}
	pl.onBin = func(st *State, in *ssa.BinOp, a, b Val) {
		if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			letter := func(a, b *Term) bool {
				ranged := in.Op != token.EQL && in.Op != token.NEQ
				return lettered(a) && (b.op != "int" || ranged || b.n|32 >= 'a' && b.n|32 <= 'z')
			}
			if letter(a.leaves[0], b.leaves[0]) || letter(b.leaves[0], a.leaves[0]) {
				x.oblige2(st, "prop", "compares no single letters", p.F)
			}
			return
		}
		if !isText(in.X.Type()) || in.Op == token.ADD {
			return
		}
		if in.Op == token.EQL || in.Op == token.NEQ {
			blind(st, "compares texts without regard to case", a.leaves[0], b.leaves[0])
			return
		}
		x.oblige2(st, "prop", "orders no texts", p.F)
	}
	pl.onLook = func(st *State, of types.Type, kv ssa.Value, key Val) {
		if !isText(kv.Type()) {
			return
		}
		capitals(st, "looks words up in capitals", key.leaves[0])
	}
	pl.onLib = func(st *State, name string, args []Val) {
		switch name {
		case "slices.Contains":
			if len(args) == 2 && args[1].leaves[0].sort == SStr {
				capitals(st, "looks words up in capitals", args[1].leaves[0])
			}
		case "(*github.com/AfterShip/clickhouse-sql-parser/parser.Set[T]).Contains":
			if args[1].leaves[0].sort == SStr {
				capitals(st, "looks words up in capitals", args[1].leaves[0])
			}
		}
	}
}

// obligeUsing: an obligation that rests on the candidate facts uses, and
// itself establishes ids.
func (x *Exec) obligeUsing(st *State, what string, c *Term, uses []string, ids ...string) {
	for _, u := range uses {
		x.deps[u] = true
	}
	x.oblige2(st, "prop", what, c, ids...)
}

// pieced: a text put together from pieces, or a piece of one.
func pieced(t *Term) bool {
	return t.op == "const" && strings.HasPrefix(t.name, "str_r0!") || t.op == "app" && (t.name == "ssub" || t.name == "scat") || t.op == "ite" && (pieced(t.args[1]) || pieced(t.args[2]))
}

// outsideCase: fields written by the lexer or when the package starts.
func (w *World) outsideCase(key string) bool {
	if strings.HasPrefix(key, "Token.") || strings.HasPrefix(key, "Lexer.") || strings.HasPrefix(key, "cell<") {
		return true
	}
	if w.initKeys == nil {
		w.initKeys = map[string]bool{}
		for _, f := range w.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && w.isInit(f) {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							t := derefType(fa.X.Type())
							w.initKeys[w.L.typeKey(t)+"."+t.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						} else {
							w.initKeys[w.L.typeKey(s.Val.Type())] = true
						}
					}
				}
			}
		}
	}
	typ, _, _ := strings.Cut(key, ".")
	return w.initKeys[key] || w.initKeys[typ]
}

// word: the text, in capitals, is a keyword.
func (x *Exec) word(t *Term) *Term {
	if pieced(t) {
		return x.p.T
	}
	if t.op == "str" {
		return x.p.Bool(x.w.keywordText(strings.ToUpper(t.name)))
	}
	return x.p.App("contains", SBool, x.p.Const(keywordTexts, SInt), x.upper(t))
}

// keywordTexts: the texts, in capitals, made of keywords only.
const keywordTexts = "keyword.texts"

func (w *World) keywordText(s string) bool {
	for name, m := range w.setMembers {
		if name == w.keywordSetName() {
			for _, k := range strings.Split(s, " ") {
				if !m[k] {
					return false
				}
			}
			return true
		}
	}
	return false
}

// lettered: a number that comes from a letter of a text.
func lettered(t *Term) bool {
	switch t.op {
	case "app":
		return t.name == "sat"
	case "ite", "+", "-":
		for _, a := range t.args {
			if lettered(a) {
				return true
			}
		}
	}
	return false
}

// caps: a text in capitals, piece by piece where it is put together from pieces.
func (x *Exec) caps(t *Term) *Term {
	ascii := func(t *Term) bool {
		for i := range t.name {
			if t.name[i] >= 128 {
				return false
			}
		}
		return t.op == "str"
	}
	if t.op == "app" && t.name == "scat" && (ascii(t.args[0]) || ascii(t.args[1])) {
		return x.scat(x.caps(t.args[0]), x.caps(t.args[1]))
	}
	return x.upper(t)
}

// kindArrs: the kinds of all tokens, at each time they may have changed.
func (x *Exec) kindArrs(st *State) []*Term {
	var out []*Term
	for t, k := range x.arrKey {
		if k == x.w.tokKey("Kind") {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return append(out, x.heapGet(st, x.w.tokKey("Kind")))
}

// tookClauses: a function that is given a kind and succeeds has met a token of
// that kind.
func tookClauses(w *World, f *ssa.Function) []Clause {
	if w.lexParam(f) < 0 {
		return nil
	}
	var out []Clause
	ok := func(e *Env) *Term {
		if w.hasErr(f) >= 0 {
			return e.errNil()
		}
		return e.x.p.Not(e.x.p.Eq(e.res[0].leaves[0], e.x.p.Int(0)))
	}
	rs := f.Signature.Results()
	if w.hasErr(f) < 0 && (rs.Len() != 1 || !isPtr(rs.At(0).Type())) {
		return nil
	}
	for i, prm := range f.Params {
		if i := i; isNamed(prm.Type(), w.pkg.Pkg.Path()+".TokenKind") {
			out = append(out, Clause{id: caseID(w, f, "took", i), name: "succeeds only at a token of the kind it is given (a name may be a keyword)", build: func(e *Env) *Term {
				x, p := e.x, e.x.p
				cur := x.lexField(e.pre, e.lex(), "currentToken")
				return p.Implies(ok(e), p.And(p.Not(p.Eq(cur, p.Int(0))), p.Or(p.Eq(e.args[i].leaves[0], p.Str("<ident>")), p.Eq(x.tokField(e.pre, "Kind", cur), e.args[i].leaves[0]))))
			}})
		}
	}
	return out
}
