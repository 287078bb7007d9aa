package parser

// What reading owes to the text: tokens in order and exact, nothing skipped,
// names and literals kept byte for byte, errors placed where reading stopped.

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// wTrivia returns the end of the blanks and comments that start at i; ok is
// false when a comment is not closed.
func wTrivia(s string, i int) (int, bool) {
	for i < len(s) {
		if r, n := utf8.DecodeRuneInString(s[i:]); unicode.IsSpace(r) {
			i += n
			continue
		}
		switch {
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			k := strings.Index(s[i+2:], "*/")
			if k < 0 {
				return i, false
			}
			i += 2 + k + 2
		default:
			return i, true
		}
	}
	return i, true
}

func wWord(c byte) bool {
	return c == '_' || c == '$' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

type wTok struct {
	kind       string
	start, end int // of its text
	quote      int
	next       int // where reading goes on
}

var (
	wReNum = regexp.MustCompile(`^[+-]?(0x[0-9a-fA-F]+|[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]+)?)`)
	wReName = regexp.MustCompile(`^[A-Za-z_$][A-Za-z_$0-9]*`)
	wReStr = regexp.MustCompile(`^'(?:[^'\\]|''|\\[\s\S])*'`)
	wReTwo    = regexp.MustCompile(`^(\|\||<>|==|!=|<=|>=|->|::)`)
)

// wRef: the token of s at i by the lexical rules; nil when there is none.
func wRef(s string, i int, operand bool) *wTok {
	r := s[i:]
	digit := func(k int) bool { return k < len(r) && r[k] >= '0' && r[k] <= '9' }
	switch c := r[0]; {
	case digit(0), (c == '+' || c == '-') && digit(1) && !operand:
		n := len(wReNum.FindString(r))
		if n == 0 || n < len(r) && (r[n] == '.' || wWord(r[n]) && r[n] != '$') {
			return nil
		}
		if n < len(r) && r[n] == '$' { // left open
			return nil
		}
		k := "<int>"
		if t := strings.TrimLeft(r[:n], "+-"); !strings.HasPrefix(t, "0x") && strings.ContainsAny(t, ".eE") {
			k = "<float>"
		}
		return &wTok{k, i, i + n, 0, i + n}
	case c == '`' || c == '"':
		n := strings.IndexByte(r[1:], c)
		if n < 0 {
			return nil
		}
		q := BackTicks
		if c == '"' {
			q = DoubleQuote
		}
		return &wTok{"<ident>", i + 1, i + 1 + n, q, i + n + 2}
	case c == '\'':
		n := len(wReStr.FindString(r))
		if n == 0 || n < len(r) && r[n] == '\'' {
			return nil
		}
		return &wTok{"<string>", i + 1, i + n - 1, 0, i + n}
	case wWord(c):
		n := len(wReName.FindString(r))
		k := "<ident>"
		if keywords.Contains(strings.ToUpper(r[:n])) {
			k = "<keyword>"
		}
		return &wTok{k, i, i + n, Unquoted, i + n}
	case c >= utf8.RuneSelf:
		return nil
	default:
		n := len(wReTwo.FindString(r))
		if n == 0 {
			n = 1
		}
		return &wTok{r[:n], i, i + n, 0, i + n}
	}
}

// wLex: the tokens of s as the lexer delivers them, compared with the rules.
func wLex(s string) (detail string) {
	l := NewLexer(s)
	at := 0
	operand := false
	for {
		before := l.saveState()
		pk, perr := l.peekToken()
		if after := l.saveState(); after != before {
			return fmt.Sprintf("looking ahead at offset %d moved the lexer", before.offset)
		}
		err := l.consumeToken()
		if (err == nil) != (perr == nil) {
			return fmt.Sprintf("looking ahead at offset %d and reading there disagree: %v, %v", before.offset, perr, err)
		}
		start, ok := wTrivia(s, at)
		if !ok {
			if err == nil {
				return fmt.Sprintf("comment opened at offset %d is never closed, yet no error", start)
			}
			return ""
		}
		if start == len(s) {
			if err != nil || l.currentToken != nil {
				return fmt.Sprintf("something is read after offset %d, where the text ends", at)
			}
			return ""
		}
		want := wRef(s, start, operand)
		if err != nil {
			if want != nil {
				return fmt.Sprintf("error at offset %d before the token %q: %v", start, s[want.start:want.end], err)
			}
			return ""
		}
		t := l.currentToken
		if t == nil {
			return fmt.Sprintf("end of input reported at offset %d of %d", start, len(s))
		}
		if pk == nil || *pk != *t {
			return fmt.Sprintf("looking ahead at offset %d gives another token than reading", before.offset)
		}
		if want == nil {
			if wNumberish(s[start:]) {
				return "" // where a number may end is not settled by the rules
			}
			return fmt.Sprintf("token %q read at offset %d, where there is none", t.String, start)
		}
		if string(t.Kind) != want.kind || int(t.Pos) != want.start || int(t.End) != want.end || t.QuoteType != want.quote || l.offset != want.next || t.String != s[want.start:want.end] {
			return fmt.Sprintf("at offset %d the token %s %q at %d..%d is read (going on at %d), not %s %q at %d..%d", start, t.Kind, t.String, t.Pos, t.End, l.offset, want.kind, s[want.start:want.end], want.start, want.end)
		}
		at = want.next
		switch want.kind {
		case "<ident>", "<keyword>", "<int>", "<float>", "<string>", ")", "]", "}":
			operand = true
		default:
			operand = false
		}
	}
}

func wNumberish(s string) bool {
	n := len(wReNum.FindString(s))
	return n > 0 && n < len(s) && s[n] == '$'
}

var wPieces = []string{"1", "1.5", "1e5", "0x1", "a", "$a", "SELECT", "'s'", "'a''b'", "'\\\\'", "'\\''", "`q`", "\"d\"", "+", "-", "*", "/", "%", "(", ")", "[", "]", "{", "}", ".", ",", ":", "::", "->", ">", "<", "=", "==", "!=", "!", "|", "||", "?", "@", ";", " ", "\n", "\r", "--c\n", "--c", "/*c*/", "/*/ */", "/**/", "/***/", "/*", "'", "`", "é", "\u00a0", "$", "#", "e", "x"}

// wGlue: every short run of pieces.
func wGlue(g *wGen, try func(string) bool) bool {
	for _, a := range wPieces {
		for _, b := range wPieces {
			if !g.mine() {
				continue
			}
			for _, c := range wPieces {
				if !try(a+b+c) || !try("SELECT 1 "+a+b+c) {
					return false
				}
			}
		}
	}
	return true
}

// wWhole: an accepted text has only tokens the lexer accepts, up to its end.
func wWhole(s string) string {
	st, err := wParse(s)
	if err != nil {
		return ""
	}
	if len(st) > 0 {
		wNontriv++
	}
	l := NewLexer(s)
	var toks []*Token
	for {
		if err := l.consumeToken(); err != nil {
			return fmt.Sprintf("accepted although reading it fails: %v", err)
		}
		if l.currentToken == nil {
			break
		}
		toks = append(toks, l.currentToken)
	}
	if i, ok := wTrivia(s, l.offset); !ok || i != len(s) {
		return "accepted although the text goes on"
	}
	n := 0
	for i, t := range toks {
		if t.Kind != ";" && (i == 0 || toks[i-1].Kind == ";") {
			n++
		}
	}
	if n != len(st) {
		return fmt.Sprintf("%d statements between the semicolons, %d returned", n, len(st))
	}
	return ""
}

// wKept: the names, strings and numbers of an accepted text are in its tree.
// Each is replaced by one of its kind that the grammar cannot know.
func wKept(s string) string {
	if st, err := wParse(s); err != nil || len(st) != 1 {
		return ""
	}
	if len(s) > 600 {
		return ""
	}
	type place struct {
		a, e int
		kind TokenKind
	}
	var at []place
	l := NewLexer(s)
	for l.consumeToken() == nil && l.currentToken != nil {
		t := l.currentToken
		switch t.Kind {
		case TokenKindIdent:
			if s[t.Pos] != '`' && s[t.Pos] != '"' {
				at = append(at, place{int(t.Pos), int(t.End), t.Kind})
			}
		case TokenKindString, TokenKindInt:
			at = append(at, place{int(t.Pos), int(t.End), t.Kind})
		}
	}
	for n, p := range at {
		text, want := "qz7x", "qz7x"
		switch {
		case p.kind == TokenKindString && p.e-p.a >= 0 && p.a > 0 && s[p.a-1] == '\'':
		case p.kind == TokenKindString:
			text = "'qz7x'"
		case p.kind == TokenKindInt:
			text, want = "918273", "918273"
		}
		if n > 0 && strings.HasSuffix(strings.ToUpper(strings.TrimRight(s[:p.a], " \t\n\r")), "FORMAT") {
			continue // a known finding: FORMAT behind other statements than queries
		}
		m := s[:p.a] + text + s[p.e:]
		st, err := wParse(m)
		if err != nil {
			continue
		}
		wNontriv++
		found := false
		for _, x := range st {
			for _, f := range wScalars(x) {
				found = found || f.v.Kind() == reflect.String && strings.Contains(f.v.String(), want)
			}
		}
		if !found {
			return fmt.Sprintf("%q: %q is not in the tree", m, text)
		}
	}
	return ""
}

// wExact: names, strings and numbers carry exactly the text at their place.
func wExact(s string) string {
	return wEach(s, func(x Expr) string {
		for _, p := range wNodes(x) {
			var a, e Pos
			var txt string
			q := 0
			switch n := p.node.(type) {
			case *Ident:
				a, e, txt, q = n.NamePos, n.NameEnd, n.Name, n.QuoteType
			case *StringLiteral:
				a, e, txt, q = n.LiteralPos, n.LiteralEnd, n.Literal, SingleQuote
			case *NumberLiteral:
				a, e, txt = n.NumPos, n.NumEnd, n.Literal
			default:
				continue
			}
			if _, name := p.node.(*Ident); !name && int(e) >= len(txt) && a >= 0 && int(a)+len(txt) <= int(e) {
				a = e - Pos(len(txt)) // LiteralPos and NumPos may be where the clause begins
			}
			if txt == "*" && a == e && int(e) < len(s) && s[e] == '*' {
				continue // the asterisk is recorded as a place, not a stretch
			}
			if a < 0 || a > e || int(e) > len(s) || s[a:e] != txt {
				return fmt.Sprintf("%T %q says it is at %d..%d", p.node, txt, a, e)
			}
			w := txt
			switch q {
			case SingleQuote:
				w = "'" + txt + "'"
			case BackTicks:
				w = "`" + txt + "`"
			case DoubleQuote:
				w = `"` + txt + `"`
			}
			if w != txt && (a == 0 || int(e) >= len(s) || s[a-1] != w[0] || s[e] != w[0]) {
				return fmt.Sprintf("%s %T %q is not in quotes in the text", p.path, p.node, txt)
			}
			if g := Format(p.node); g != w {
				return fmt.Sprintf("%T %q is printed as %q", p.node, w, g)
			}
			if g := wBeauty(p.node); g != w {
				return fmt.Sprintf("%T %q is printed as %q when beautified", p.node, w, g)
			}
		}
		return ""
	})
}

func wTokensOf(s string) ([]string, error) {
	l := NewLexer(s)
	var out []string
	for {
		if err := l.consumeToken(); err != nil {
			return out, err
		}
		if l.currentToken == nil {
			return out, nil
		}
		out = append(out, string(l.currentToken.Kind)+" "+l.currentToken.String)
	}
}

// wLayouts: both layouts print the same tokens.
func wLayouts(s string) string {
	return wEach(s, func(x Expr) string {
		a, e1 := wTokensOf(Format(x))
		b, e2 := wTokensOf(wBeauty(x))
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("one layout cannot be read back: %v, %v", e1, e2)
		}
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				return fmt.Sprintf("token %d of the compact layout is %q, of the beautified one %q", i, a[i], append(b, "<none>", "<none>")[min(i, len(b))])
			}
		}
		if len(b) > len(a) {
			return "the beautified layout has more tokens"
		}
		return ""
	})
}

// wErrors: a refusal says where reading stopped.
func wErrors(s string) string {
	_, err := wParse(s)
	if err == nil {
		return ""
	}
	wNontriv++
	var pe *ParseError
	if !errors.As(err, &pe) || error(pe) != err {
		return fmt.Sprintf("the error is a %T", err)
	}
	if pe.Pos < 0 || int(pe.Pos) > len(s) {
		return fmt.Sprintf("the error is at offset %d of %d", pe.Pos, len(s))
	}
	line := 1 + strings.Count(s[:pe.Pos], "\n")
	col := int(pe.Pos) - (strings.LastIndex(s[:pe.Pos], "\n") + 1) + 1
	if pe.Line != line || pe.Column != col {
		return fmt.Sprintf("offset %d is line %d column %d, the error says %d:%d", pe.Pos, line, col, pe.Line, pe.Column)
	}
	if !strings.HasPrefix(err.Error(), fmt.Sprintf("line %d:%d ", line, col)) {
		return fmt.Sprintf("the message %q does not give the place %d:%d", err.Error(), line, col)
	}
	if pe.Got != nil {
		if t := pe.Got; t.Pos != pe.Pos || t.End < t.Pos || int(t.End) > len(s) || s[t.Pos:t.End] != t.String {
			return fmt.Sprintf("the error at %d blames the token %q at %d", pe.Pos, t.String, t.Pos)
		}
	} else if start, ok := wTrivia(s, int(pe.Pos)); ok && start < len(s) {
		if w := wRef(s, start, false); w != nil {
			return fmt.Sprintf("the error at %d names no token, yet %q stands there", pe.Pos, s[w.start:w.end])
		}
	}
	return ""
}

// wSpans: a node starts before it ends, inside the text and around its children.
func wSpans(s string) string {
	return wEach(s, func(x Expr) string {
		ns := wNodes(x)
		for _, p := range ns {
			a, e := p.node.Pos(), p.node.End()
			if a < 0 || e < a || int(e) > len(s) {
				return fmt.Sprintf("%T (%s) is at %d..%d", p.node, p.path, a, e)
			}
		}
		return ""
	})
}

func wNest(s string) string {
	return wEach(s, func(x Expr) string {
		ns := wNodes(x)
		for _, p := range ns {
			if p.parent >= 0 {
				q := ns[p.parent].node
				if q.Pos() > p.node.Pos() || q.End() < p.node.End() {
					return fmt.Sprintf("%s %d..%d inside %T %d..%d", p.path, p.node.Pos(), p.node.End(), q, q.Pos(), q.End())
				}
			}
		}
		return ""
	})
}

// wSep joins the texts of a history.
const wSep = "\n-- then --\n"

type wSeen struct{ text, result string }

var wRecent []wSeen

// wResult: what a text gives, as a text.
func wResult(s string) string {
	st, err := wParse(s)
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, x := range st {
		fmt.Fprintf(&b, "%d %d %s;", x.Pos(), x.End(), wQuiet(func() string { return Format(x) }))
	}
	return b.String()
}

// wPure: neither printing nor walking changes the tree; the same text gives the same tree and print.
func wPure(s string) string {
	if strings.Contains(s, wSep) { // a history: texts parsed one after the other
		seen := map[string]string{}
		for _, t := range strings.Split(s, wSep) {
			r := wResult(t)
			if was, ok := seen[t]; ok && was != r {
				return fmt.Sprintf("%q gives another result after other texts", t)
			}
			seen[t] = r
		}
		return ""
	}
	if len(s) < 2000 {
		if n := len(wRecent); n > 0 {
			for k := 0; k < 2; k++ {
				i := (int(wCount)*7 + k*31) % n
				if r := wResult(wRecent[i].text); r != wRecent[i].result {
					var all []string
					for _, x := range wRecent[i:] {
						all = append(all, x.text)
					}
					wHistory = strings.Join(append(all, wRecent[i].text), wSep)
					return fmt.Sprintf("%q gives another result after other texts", wRecent[i].text)
				}
			}
		}
		if len(wRecent) >= 64 {
			wRecent = append(wRecent[:0:0], wRecent[1:]...)
		}
		wRecent = append(wRecent, wSeen{s, wResult(s)})
	}
	a, e1 := wParse(s)
	b, e2 := wParse(s)
	if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
		return fmt.Sprintf("parsing twice: %v, %v", e1, e2)
	}
	if e1 != nil {
		return ""
	}
	wNontriv++
	if !reflect.DeepEqual(a, b) {
		return "parsing twice gives different trees"
	}
	return wQuiet(func() string {
		for i, x := range a {
			one := Format(x)
			bea := wBeauty(x)
			_ = x.Pos() + x.End()
			Walk(x, func(Expr) bool { return true })
			_ = x.Accept(&DefaultASTVisitor{})
			if !reflect.DeepEqual(x, b[i]) {
				return "printing or walking changed the tree"
			}
			if Format(x) != one || wBeauty(x) != bea {
				return "printing twice gives different texts"
			}
		}
		return ""
	})
}

func init() {
	wFirst["C04"], wFirst["C05"] = wGlue, wGlue
	wOracles["C04"] = wWhole
	wOracles["C05"] = wLex
	wOracles["C06"] = wErrors
	wOracles["C07"] = wExact
	wOracles["C11"] = wLayouts
	wOracles["C12"] = wPure
	wOracles["C18"] = wKept
	wOracles["CSP"] = wSpans
	wOracles["CNE"] = wNest
}
