package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lexical grammar, as inductively generated relations over positions of a
// text s. Only introduction rules are given, so what is derived from them is
// derivable by the rules.
//
//	triv(s,a,b)  s[a:b] is white space and comments
//	run(c,s,a,b) every position of [a,b) is in class c
//	strb(s,a,k)  k is a position between the units of a string's content
//	             that begins at a: a plain character, '' or \x
//	num(s,a,k,dot,exp,dig)
//	             s[a:k] is the beginning of a number that begins at a, with a
//	             dot, an exponent, a digit so far
const (
	clsLine = iota + 1 // no line break
	clsBlock           // no end of a block comment
	clsWord            // may continue a name
	clsBack            // no back tick
	clsDouble          // no double quote
	clsLast = clsDouble
)

func lexPreamble(p *Pool) string {
	word := func(c string) string {
		return strings.ReplaceAll("(or (and (<= 97 C) (<= C 122)) (and (<= 65 C) (<= C 90)) (and (<= 48 C) (<= C 57)) (= C 95) (= C 36))", "C", c)
	}
	cls := []string{
		"(not (or (= (sat s k) 10) (= (sat s k) 13)))",
		"(not (and (< (+ k 1) (slen s)) (= (sat s k) 42) (= (sat s (+ k 1)) 47)))",
		word("(sat s k)"),
		"(not (= (sat s k) 96))",
		"(not (= (sat s k) 34))",
	}
	var b strings.Builder
	decl := func(name, sig string) {
		if name == "sat" && (p.funs["LT"] != "" || p.funs["nl"] != "") {
			return
		}
		fmt.Fprintf(&b, "(declare-fun %s %s)\n", name, sig)
	}
	decl("sat", "(Str Int) Int")
	decl("rune", "(Str Int) Int")
	decl("rsz", "(Str Int) Int")
	decl("isSpace", "(Int) Bool")
	decl("triv", "(Str Int Int) Bool")
	decl("run", "(Int Str Int Int) Bool")
	decl("strb", "(Str Int Int) Bool")
	decl("num", "(Str Int Int Bool Bool Bool) Bool")
	ax := func(vars, pat, body string) {
		fmt.Fprintf(&b, "(assert (forall (%s) (! %s :pattern (%s))))\n", vars, body, pat)
	}
	// white space and comments
	ax("(s Str) (a Int) (b Int)", "(triv s a b)", "(=> (= a b) (triv s a b))")
	ax("(s Str) (a Int) (j Int)", "(triv s a j) (rsz s j)", "(=> (and (triv s a j) (< j (slen s)) (isSpace (rune s j))) (triv s a (+ j (rsz s j))))")
	ax("(s Str) (a Int) (j Int)", "(triv s a j) (sat s j)", "(=> (and (triv s a j) (or (= (sat s j) 10) (= (sat s j) 13))) (triv s a (+ j 1)))")
	ax("(s Str) (a Int) (j Int) (d Int) (k Int)", fmt.Sprintf("(triv s a j) (run %d s d k)", clsLine),
		fmt.Sprintf("(=> (and (triv s a j) (= d (+ j 2)) (= (sat s j) 45) (= (sat s (+ j 1)) 45) (run %d s d k)) (and (=> (= k (slen s)) (triv s a k)) (=> (and (< k (slen s)) (or (= (sat s k) 10) (= (sat s k) 13))) (triv s a (+ k 1)))))", clsLine))
	ax("(s Str) (a Int) (j Int) (d Int) (k Int)", fmt.Sprintf("(triv s a j) (run %d s d k)", clsBlock),
		fmt.Sprintf("(=> (and (triv s a j) (= d (+ j 2)) (= (sat s j) 47) (= (sat s (+ j 1)) 42) (run %d s d k) (= (sat s k) 42) (= (sat s (+ k 1)) 47) (< (+ k 1) (slen s))) (triv s a (+ k 2)))", clsBlock))
	for i, c := range cls {
		n := i + 1
		ax("(s Str) (a Int) (b Int)", fmt.Sprintf("(run %d s a b)", n), fmt.Sprintf("(=> (= a b) (run %d s a b))", n))
		ax("(s Str) (k Int) (b Int)", fmt.Sprintf("(run %d s k b)", n), fmt.Sprintf("(=> (and (= b (+ k 1)) %s) (run %d s k b))", c, n))
		ax("(s Str) (a Int) (k Int) (b Int)", fmt.Sprintf("(run %d s a k) (run %d s a b)", n, n), fmt.Sprintf("(=> (and (run %d s a k) (= b (+ k 1)) %s) (run %d s a b))", n, c, n))
	}
	ax("(s Str) (a Int) (b Int)", "(strb s a b)", "(=> (= a b) (strb s a b))")
	ax("(s Str) (a Int) (k Int) (b Int)", "(strb s a k) (strb s a b)", `(=> (and (strb s a k) (or
  (and (= b (+ k 1)) (not (= (sat s k) 39)) (not (= (sat s k) 92)))
  (and (= b (+ k 2)) (= (sat s k) 39) (= (sat s (+ k 1)) 39))
  (and (= b (+ k 2)) (= (sat s k) 92))
  (and (= b (+ k 1)) (= (sat s k) 92) (>= b (slen s))))) (strb s a b))`)
	sgn := "(ite (or (= (sat s a) 43) (= (sat s a) 45)) 1 0)"
	hex := "(and (< (+ a " + sgn + " 1) (slen s)) (= (sat s (+ a " + sgn + ")) 48) (= (sat s (+ a " + sgn + " 1)) 120))"
	ax("(s Str) (a Int) (k Int) (d Bool) (e Bool) (n Bool)", "(num s a k d e n)",
		"(=> (and (= k (+ a "+sgn+" (ite "+hex+" 2 0))) (not d) (not e) (not n)) (num s a k d e n))")
	dig := func(c string) string { return "(and (<= 48 " + c + ") (<= " + c + " 57))" }
	c := "(sat s k)"
	hexd := "(or " + dig(c) + " (and (<= 97 " + c + ") (<= " + c + " 102)) (and (<= 65 " + c + ") (<= " + c + " 70)))"
	ax("(s Str) (a Int) (k Int) (d Bool) (e Bool) (n Bool) (b Int) (d2 Bool) (e2 Bool) (n2 Bool)", "(num s a k d e n) (num s a b d2 e2 n2)",
		`(=> (and (num s a k d e n) (or
  (and (= b (+ k 1)) (= d d2) (= e e2) n2 (ite `+hex+" "+hexd+" "+dig(c)+`))
  (and (= b (+ k 1)) (not `+hex+`) (= `+c+` 46) (not d) (not e) d2 (not e2) (= n n2))
  (and (not `+hex+`) (or (= `+c+` 101) (= `+c+` 69)) (not e) e2 (= d d2) (= n n2) (< b (slen s)) `+dig("(sat s b)")+`
     (or (= b (+ k 1)) (and (= b (+ k 2)) (or (= (sat s (+ k 1)) 43) (= (sat s (+ k 1)) 45))))))) (num s a b d2 e2 n2))`)
	return b.String()
}

// lexCore: the function that reads the next token, and the one that looks ahead.
func (w *World) lexCore() (consume, peek *ssa.Function) {
	return w.fnByKey("(*Lexer).consumeToken"), w.fnByKey("(*Lexer).peekToken")
}

func (x *Exec) tokField(st *State, f string, ref *Term) *Term {
	return x.p.Select(x.heapGet(st, x.w.tokKey(f)), ref)
}

var (
	operandKinds = []string{"<ident>", "<keyword>", "<int>", "<float>", "<string>", ")", "]", "}"}
	twoCharOps   = []string{"||", "<>", "==", "!=", "<=", ">=", "->", "::"}
)

func lexJobs(w *World) []Job {
	var out []Job
	c, pk := w.lexCore()
	if c != nil {
		out = append(out, Job{name: w.fnKey(c) + " reads a token", fn: c, must: true, setup: func(x *Exec) { installLex(x, c) }})
	}
	if pk != nil {
		out = append(out, Job{name: w.fnKey(pk) + " looks ahead", fn: pk, must: true, setup: func(x *Exec) { installPeek(x, pk) }})
	}
	return append(out, lexFrameJobs(w)...)
}

// lexSpec: what reading one token from state pre guarantees in state post.
func (x *Exec) lexSpec(pre, post *State, lex *Term, ok *Term, each func(what string, c *Term)) {
	p, w := x.p, x.w
	s := x.lexField(pre, lex, "input")
	o := x.lexField(pre, lex, "offset")
	o2 := x.lexField(post, lex, "offset")
	cur := x.lexField(post, lex, "currentToken")
	ln := x.slen(s)
	has := p.And(ok, p.Not(p.Eq(cur, p.Int(0))))
	when := func(what string, g, c *Term) { each(what, p.Implies(g, c)) }
	triv := func(b *Term) *Term { return p.App("triv", SBool, s, o, b) }
	run := func(c int, a, b *Term) *Term { return p.App("run", SBool, p.Int(int64(c)), s, a, b) }
	at := func(i *Term) *Term { return p.App("sat", SInt, s, i) }
	is := func(i *Term, c byte) *Term { return p.And(p.Lt(i, ln), p.Eq(at(i), p.Int(int64(c)))) }
	oneOf := func(i *Term, cs string) *Term {
		r := p.F
		for _, c := range []byte(cs) {
			r = p.Or(r, is(i, c))
		}
		return r
	}
	between := func(i *Term, a, b byte) *Term {
		return p.And(p.Lt(i, ln), p.Le(p.Int(int64(a)), at(i)), p.Le(at(i), p.Int(int64(b))))
	}
	digit := func(i *Term) *Term { return between(i, '0', '9') }
	letter := func(i *Term) *Term { return p.Or(between(i, 'a', 'z'), between(i, 'A', 'Z'), is(i, '_')) }
	wordc := func(i *Term) *Term { return p.Or(letter(i), digit(i), is(i, '$')) }
	one := p.Int(1)
	P, E := x.tokField(post, "Pos", cur), x.tokField(post, "End", cur)
	S, K, Q := x.tokField(post, "String", cur), x.tokField(post, "Kind", cur), x.tokField(post, "QuoteType", cur)
	B := x.tokField(post, "Base", cur)
	kind := func(k string) *Term { return p.Eq(K, p.Str(k)) }
	quoted := p.Or(kind("<string>"), p.Eq(Q, p.Int(2)), p.Eq(Q, p.Int(3)))
	start := p.Ite(quoted, p.Sub(P, one), P)
	fin := p.Ite(quoted, p.Add(E, one), E)
	each("the token is a new one", p.Or(p.Eq(cur, p.Int(0)), p.And(p.Lt(pre.next, cur), p.Le(cur, post.next))))
	each("the text is left as it is", p.Eq(x.lexField(post, lex, "input"), s))
	when("without a token, the rest of the text is white space and comments", p.And(ok, p.Eq(cur, p.Int(0))), p.And(p.Eq(o2, ln), triv(ln)))
	when("after an error there is no token, and nothing but white space and comments is skipped", p.Not(ok), p.And(p.Eq(cur, p.Int(0)), triv(o2), p.Le(o, o2), p.Lt(o2, ln)))
	when("the token begins after white space and comments only", has, p.And(p.Le(o, start), triv(start)))
	when("reading goes on right after the token", has, p.And(p.Eq(o2, fin), p.Lt(start, fin), p.Le(fin, ln)))
	when("the token's text is the text between its positions", has, p.And(p.Le(P, E), p.Eq(S, p.App("ssub", SStr, s, P, E))))
	// strings
	str := p.And(has, kind("<string>"))
	when("a string is between single quotes", str, p.And(is(start, '\''), is(E, '\'')))
	when("a string ends at its first closing quote", str, p.And(p.App("strb", SBool, s, P, E), p.Not(is(p.Add(E, one), '\''))))
	when("a string has no quote type", str, p.Eq(Q, p.Int(0)))
	// quoted names
	for _, q := range []struct {
		q   int64
		c   byte
		cls int
	}{{2, '"', clsDouble}, {3, '`', clsBack}} {
		g := p.And(has, p.Eq(Q, p.Int(q.q)))
		when(fmt.Sprintf("a name quoted with %c is a name between %c", q.c, q.c), g, p.And(kind("<ident>"), is(start, q.c), is(E, q.c), run(q.cls, P, E)))
	}
	// words
	un := p.And(has, p.Eq(Q, p.Int(1)))
	kw := p.App("contains", SBool, x.keywordSet(), x.upper(S))
	when("an unquoted word is a keyword exactly when it is in the keyword list", un, p.And(p.Eq(kind("<keyword>"), kw), p.Eq(kind("<ident>"), p.Not(kw))))
	when("an unquoted word is the longest run of word characters", un, p.And(p.Or(letter(P), is(P, '$')), run(clsWord, P, E), p.Not(wordc(E))))
	when("names and keywords say how they are quoted", p.And(has, p.Or(kind("<ident>"), kind("<keyword>"))), p.And(p.Le(one, Q), p.Le(Q, p.Int(3)), p.Implies(kind("<keyword>"), p.Eq(Q, one))))
	// numbers
	num := p.And(has, p.Or(kind("<int>"), kind("<float>")))
	signed := oneOf(P, "+-")
	np := p.Ite(signed, p.Add(P, one), P)
	hex := p.And(is(np, '0'), is(p.Add(np, one), 'x'))
	reach := func(d, e bool) *Term { return p.App("num", SBool, s, P, E, p.Bool(d), p.Bool(e), p.T) }
	when("an integer is digits only", p.And(has, kind("<int>")), reach(false, false))
	when("a float has a fraction or an exponent", p.And(has, kind("<float>")), p.Or(reach(true, false), reach(false, true), reach(true, true)))
	when("a number ends where no number or name goes on", num, p.And(p.Not(wordc(E)), p.Not(is(E, '.'))))
	when("a number tells its base", num, p.And(p.Eq(B, p.Ite(hex, p.Int(16), p.Int(10))), p.Eq(Q, p.Int(0))))
	c0 := x.lexField(pre, lex, "currentToken")
	k0 := x.tokField(pre, "Kind", c0)
	opd := p.F
	for _, k := range operandKinds {
		opd = p.Or(opd, p.Eq(k0, p.Str(k)))
	}
	opd = p.And(p.Not(p.Eq(c0, p.Int(0))), opd)
	when("a sign is part of a number only where no operand precedes it", p.And(num, signed), p.And(p.Not(opd), digit(np)))
	when("a number begins with a digit or a sign", num, digit(np))
	// operators and punctuation
	rest := has
	for _, k := range []string{"<ident>", "<keyword>", "<string>", "<int>", "<float>"} {
		rest = p.And(rest, p.Not(kind(k)))
	}
	same := p.Eq(K, S)
	for _, o := range append([]string{"."}, twoCharOps...) {
		g := p.And(p.Eq(K, p.Str(o)), p.Eq(E, p.Add(P, p.Int(int64(len(o))))))
		for i := range []byte(o) {
			g = p.And(g, is(p.Add(P, p.Int(int64(i))), o[i]))
		}
		same = p.Or(same, g)
	}
	when("the kind of an operator is its text", rest, p.And(same, p.Eq(Q, p.Int(0))))
	pair := func(i *Term) *Term {
		r := p.F
		for _, o := range twoCharOps {
			r = p.Or(r, p.And(is(i, o[0]), is(p.Add(i, one), o[1])))
		}
		return r
	}
	when("an operator is as long as it can be", rest, p.Or(p.And(p.Eq(E, p.Add(P, p.Int(2))), pair(P)), p.And(p.Eq(E, p.Add(P, one)), p.Not(pair(P)))))
	alone := p.And(p.Not(oneOf(P, "'`\"$")), p.Not(letter(P)), p.Not(digit(P)), p.Lt(at(P), p.Int(128)),
		p.Not(p.And(is(P, '-'), is(p.Add(P, one), '-'))), p.Not(p.And(is(P, '/'), is(p.Add(P, one), '*'))),
		p.Not(p.And(oneOf(P, "+-"), digit(p.Add(P, one)), p.Not(opd))), p.Not(oneOf(P, " \t\r\n\v\f")))
	when("an operator is nothing else", rest, alone)
	_ = w
}

// keywordSet: the set the lexer looks words up in.
func (x *Exec) keywordSet() *Term {
	return x.p.Const(x.w.keywordSetName(), SInt)
}

func (w *World) keywordSetName() string {
	for name := range w.setMembers {
		if strings.HasSuffix(name, "keywords") && !strings.HasSuffix(name, "reservedKeywords") {
			return name
		}
	}
	return "keywords?"
}

func installLex(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	var lex *Term
	ob := func(st *State, what string, c *Term, cands ...string) { x.oblige2(st, "prop", what, c, cands...) }
	var entry *State
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		lex = x.lexOf(st, fn.Params[0].Type(), args[0])
		entry = st.clone()
		p.App("triv", SBool, x.lexField(st, lex, "input"), p.Int(0), p.Int(0))
	}
	pl.loopInvs = func(lc *LoopCtx) []LoopInv {
		var out []LoopInv
		add := func(name string, b func(st *State, phis, entry []Val) *Term) {
			id := "prop|lex|" + x.jobName + "|" + lc.id + "|" + name
			if w.active(id) {
				out = append(out, LoopInv{name: name, cand: id, build: b})
			}
		}
		s := x.lexField(entry, lex, "input")
		o := x.lexField(entry, lex, "offset")
		off := func(st *State) *Term { return x.lexField(st, lex, "offset") }
		e0 := off(lc.entry)
		add("triv", func(st *State, _, _ []Val) *Term { return p.App("triv", SBool, s, o, off(st)) })
		add("stays", func(st *State, _, _ []Val) *Term { // not at white space
			return p.Implies(p.Not(p.App("isSpace", SBool, p.App("rune", SInt, s, e0))), p.Eq(off(st), e0))
		})
		add("triv.loop", func(st *State, _, _ []Val) *Term { return p.App("triv", SBool, s, e0, off(st)) })
		var bools, strs []int
		for i, ph := range lc.phis {
			if isBool(ph.Type()) {
				bools = append(bools, i)
			}
			if isStringT(ph.Type()) {
				strs = append(strs, i)
			}
		}
		span := func(name string, from, to func(st *State, phis, entry []Val) *Term) {
			for c := 1; c <= clsLast; c++ {
				c := c
				add(fmt.Sprintf("run%d.%s", c, name), func(st *State, phis, en []Val) *Term {
					return p.App("run", SBool, p.Int(int64(c)), s, from(st, phis, en), to(st, phis, en))
				})
			}
			for c, q := range map[int]byte{clsBack: '`', clsDouble: '"'} { // after this quote
				c, q := c, q
				add(fmt.Sprintf("run%d.quoted.%s", c, name), func(st *State, phis, en []Val) *Term {
					a := from(st, phis, en)
					return p.Implies(p.Eq(p.App("sat", SInt, s, p.Sub(a, p.Int(1))), p.Int(int64(q))), p.App("run", SBool, p.Int(int64(c)), s, a, to(st, phis, en)))
				})
			}
			add("strb."+name, func(st *State, phis, en []Val) *Term {
				return p.App("strb", SBool, s, from(st, phis, en), to(st, phis, en))
			})
			for _, b := range bools { // a flag that says: the closing quote is found
				b := b
				found := func(phis, en []Val) *Term { return p.Not(p.Eq(phis[b].leaves[0], en[b].leaves[0])) }
				for _, q := range []byte("'`\"") {
					q := q
					body := func(from, to *Term) *Term {
						switch q {
						case '`':
							return p.App("run", SBool, p.Int(clsBack), s, from, to)
						case '"':
							return p.App("run", SBool, p.Int(clsDouble), s, from, to)
						}
						return p.App("strb", SBool, s, from, to)
					}
					add(fmt.Sprintf("found%d.at%c.%s", b, q, name), func(st *State, phis, en []Val) *Term {
						v := to(st, phis, en)
						return p.Implies(found(phis, en), p.And(p.Lt(v, x.slen(s)), p.Eq(p.App("sat", SInt, s, v), p.Int(int64(q)))))
					})
					for k, one := range []int64{1, 0} { // the cursor at the quote, or past it
						one := one
						add(fmt.Sprintf("found%d.alone%c%d.%s", b, q, k, name), func(st *State, phis, en []Val) *Term {
							v := p.Add(to(st, phis, en), p.Int(one))
							return p.Implies(found(phis, en), p.Or(p.Le(x.slen(s), v), p.Not(p.Eq(p.App("sat", SInt, s, v), p.Int(int64(q))))))
						})
					}
					add(fmt.Sprintf("found%d.past%c.%s", b, q, name), func(st *State, phis, en []Val) *Term {
						a, v := from(st, phis, en), p.Sub(to(st, phis, en), p.Int(1))
						return p.Ite(found(phis, en), p.And(p.Le(a, v), p.Lt(v, x.slen(s)), p.Eq(p.App("sat", SInt, s, v), p.Int(int64(q))), body(a, v)), body(a, p.Add(v, p.Int(1))))
					})
				}
			}
		}
		nums := func(name string, from, to func(st *State, phis, entry []Val) *Term) {
			pick := func(phis []Val, i int) *Term {
				if i < 0 {
					return p.F
				}
				return phis[i].leaves[0]
			}
			opts := append([]int{-1}, bools...)
			for _, d := range opts {
				for _, e := range opts {
					for _, n := range bools {
						d, e, n := d, e, n
						if d >= 0 && d == e || d == n || e == n || len(bools) > 4 {
							continue
						}
						add(fmt.Sprintf("num.%s.%d.%d.%d", name, d, e, n), func(st *State, phis, en []Val) *Term {
							return p.App("num", SBool, s, from(st, phis, en), to(st, phis, en), pick(phis, d), pick(phis, e), pick(phis, n))
						})
					}
				}
			}
		}
		span("off", func(st *State, _, _ []Val) *Term { return e0 }, func(st *State, _, _ []Val) *Term { return off(st) })
		for i, ph := range lc.phis {
			i := i
			if !isIntT(ph.Type()) {
				continue
			}
			n := phiName(ph, i)
			span(n, func(st *State, _, en []Val) *Term { return p.Add(e0, en[i].leaves[0]) }, func(st *State, phis, _ []Val) *Term { return p.Add(e0, phis[i].leaves[0]) })
			span(n+".all", func(st *State, _, en []Val) *Term { return e0 }, func(st *State, phis, _ []Val) *Term { return p.Add(e0, phis[i].leaves[0]) })
			span(n+".abs", func(st *State, _, en []Val) *Term { return en[i].leaves[0] }, func(st *State, phis, _ []Val) *Term { return phis[i].leaves[0] })
			nums(n, func(st *State, _, _ []Val) *Term { return e0 }, func(st *State, phis, _ []Val) *Term { return p.Add(e0, phis[i].leaves[0]) })
			nums(n+".abs", func(st *State, _, _ []Val) *Term { return e0 }, func(st *State, phis, _ []Val) *Term { return phis[i].leaves[0] })
			add(n+".ge", func(st *State, phis, en []Val) *Term { return p.Le(en[i].leaves[0], phis[i].leaves[0]) })
		}
		for _, i := range strs {
			for _, a := range bools {
				for _, b := range bools {
					if i, a, b := i, a, b; a < b {
						add(fmt.Sprintf("kind.%d.%d.%d", i, a, b), func(st *State, phis, _ []Val) *Term {
							return p.Eq(phis[i].leaves[0], p.Ite(p.Or(phis[a].leaves[0], phis[b].leaves[0]), p.Str("<float>"), p.Str("<int>")))
						})
					}
				}
			}
		}
		add("text.same", func(st *State, _, _ []Val) *Term { return p.Eq(x.lexField(st, lex, "input"), s) })
		add("cur.nil", func(st *State, _, _ []Val) *Term { return p.Eq(x.lexField(st, lex, "currentToken"), p.Int(0)) })
		return out
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ok := p.T
		if i := w.hasErr(fn); i >= 0 {
			ok = p.Eq(vals[i].leaves[0], p.Int(0))
		}
		x.lexSpec(entry, st, lex, ok, func(what string, c *Term) { ob(st, what, c) })
	}
}

// installPeek: looking ahead leaves the lexer as it was and returns the token
// that reading would have given.
func installPeek(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	core, _ := w.lexCore()
	ob := func(st *State, what string, c *Term, cands ...string) { x.oblige2(st, "prop", what, c, cands...) }
	var lex *Term
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		lex = x.lexOf(st, fn.Params[0].Type(), args[0])
		st.ghost["reads"], st.ghost["err"], st.ghost["cur"] = p.Int(0), p.Int(0), p.Int(0)
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		if f != core {
			return
		}
		ob(st, "looks one token ahead of where the lexer stands", p.And(p.Eq(st.ghost["reads"], p.Int(0))))
		st.ghost["reads"] = p.Add(st.ghost["reads"], p.Int(1))
		st.ghost["err"] = rs[0].leaves[0]
		st.ghost["cur"] = x.lexField(st, lex, "currentToken")
	}
	pl.onReturn = func(fr *Frame, st *State, vals []Val) {
		ob(st, "looking ahead leaves the lexer as it was", x.sameLex(x.entry, st, lex))
		ok := p.Eq(vals[1].leaves[0], p.Int(0))
		ob(st, "looking ahead gives the token that reading would give", p.And(p.Eq(st.ghost["reads"], p.Int(1)), p.Eq(ok, p.Eq(st.ghost["err"], p.Int(0))), p.Implies(ok, p.Eq(vals[0].leaves[0], st.ghost["cur"]))))
	}
}

// lexWrites: does the function, or one of the helpers that are looked into with
// it, write the lexer's state or a token?
func (w *World) lexWrites(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for k := range w.directMods(f) {
		if strings.HasPrefix(k, "Lexer.") || strings.HasPrefix(k, "Token.") || strings.HasPrefix(k, "lexerState.") {
			return true
		}
	}
	for _, g := range w.callees[f] {
		if w.inlinable(g) || g.Parent() != nil {
			if w.lexWrites(g, seen) {
				return true
			}
		}
	}
	return false
}

// lexFrameJobs: outside the lexer's reading, the lexer is only ever put back to
// a state it was in, its text is never replaced, and the token it stands at is
// never changed.
func lexFrameJobs(w *World) []Job {
	var out []Job
	core, _ := w.lexCore()
	for _, f := range w.fns {
		f := f
		if f == core || wrapper(f) || len(f.Blocks) == 0 || !w.lexWrites(f, map[*ssa.Function]bool{}) {
			continue
		}
		if !w.underContract(f) && f.Parent() == nil && w.called(f) {
			continue // looked into with its callers
		}
		if f.Parent() != nil {
			continue
		}
		out = append(out, Job{name: w.fnKey(f) + " keeps the lexer", fn: f, must: true, setup: func(x *Exec) { installLexFrame(x, f) }})
	}
	return out
}

func (w *World) called(f *ssa.Function) bool {
	for _, cs := range w.callees {
		if isIn(cs, f) {
			return true
		}
	}
	return false
}

type lexSnap struct{ off, cur *Term }

func installLexFrame(x *Exec, fn *ssa.Function) {
	p, w := x.p, x.w
	x.propMode = true
	pl := &Plug{}
	x.plug = pl
	ob := func(st *State, what string, c *Term) { x.oblige2(st, "prop", what, c) }
	lp := w.lexParam(fn)
	var lex *Term
	var snaps []lexSnap
	snap := func(st *State) {
		if lp < 0 {
			return
		}
		s := lexSnap{x.lexField(st, lex, "offset"), x.lexField(st, lex, "currentToken")}
		for _, t := range snaps {
			if t == s {
				return
			}
		}
		snaps = append(snaps, s)
	}
	pl.onStart = func(fn *ssa.Function, args []Val, st *State) {
		if lp >= 0 {
			lex = x.lexOf(st, fn.Params[lp].Type(), args[lp])
			snap(st)
		}
	}
	core, _ := w.lexCore()
	var next *Term
	pl.onAnyCall = func(st *State, f *ssa.Function, args []Val) {
		if f == core {
			next = st.next
		}
		snap(st)
	}
	pl.onCall = func(st *State, f *ssa.Function, args, rs []Val) {
		if f == core && lp >= 0 {
			x.assume(st, x.newToken(next, st, lex))
		}
		snap(st)
	}
	x.mode.inlineAll = w.tokenHelper
	local := func(b *Term) bool { _, ok := x.allocs[b.id]; return ok }
	check := func(st *State, what string, off, cur *Term) {
		c := p.F
		for _, s := range snaps {
			c = p.Or(c, p.And(p.Eq(off, s.off), p.Eq(cur, s.cur)))
		}
		ob(st, what, c)
	}
	pl.onStore = func(st *State, a *Addr, v Val, in ssa.Instruction) {
		if a.kind != "heap" || local(a.base) {
			return
		}
		switch x.L.typeKey(a.root) {
		case "Token":
			if lp < 0 {
				ob(st, "leaves tokens as they were read", p.F)
				return
			}
			c := p.And(p.Not(p.Eq(a.base, x.lexField(st, lex, "currentToken"))), p.Lt(x.entry.next, a.base))
			ob(st, "leaves the tokens the lexer stands at or can be put back to as they were read", c)
		case "Lexer":
			ks := x.objKeys(a.root, a.path, a.typ)
			var off, cur *Term
			for i, k := range ks {
				switch k {
				case w.lexKey("offset"):
					off = v.leaves[i]
				case w.lexKey("currentToken"):
					cur = v.leaves[i]
				case w.lexKey("input"):
					ob(st, "leaves the text as it is", p.Eq(v.leaves[i], x.lexField(st, lex, "input")))
				}
			}
			if off == nil && cur == nil {
				return
			}
			if off == nil || cur == nil {
				ob(st, "moves the lexer only to where it stood before", p.F)
				return
			}
			check(st, "moves the lexer only to where it stood before", off, cur)
		}
	}
}

// newToken: the token just read is a new object.
func (x *Exec) newToken(next *Term, st *State, lex *Term) *Term {
	p := x.p
	cur := x.lexField(st, lex, "currentToken")
	return p.Or(p.Eq(cur, p.Int(0)), p.And(p.Lt(next, cur), p.Le(cur, st.next)))
}

// tokenHelper: a straight-line parser function that calls nothing but the
// reading of a token and others of its kind (looked into instead of used
// through its contract).
func (w *World) tokenHelper(f *ssa.Function) bool {
	if w.helperMemo == nil {
		w.helperMemo = map[*ssa.Function]bool{}
	}
	if r, ok := w.helperMemo[f]; ok {
		return r
	}
	w.helperMemo[f] = false // recursion
	core, peek := w.lexCore()
	if f == core || f == peek || len(f.Blocks) == 0 || w.lexParam(f) < 0 || w.recursive(f) || w.dispatched(f) || w.instrCount(f) > 80 {
		return false
	}
	if len(w.analyze(f).loops) > 0 && !hasVariadic(f) {
		return false
	}
	for _, g := range w.callees[f] {
		if g != core && !w.inlinable(g) && !w.tokenHelper(g) {
			return false
		}
	}
	w.helperMemo[f] = true
	return true
}
