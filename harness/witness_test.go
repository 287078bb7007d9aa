package parser

// Replay harness: looks for a concrete input on which the real code breaks a
// property whose proof failed. It is laid over the package with
// 'go test -overlay' and never written into the repository.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type witness struct {
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

var (
	wProp     = os.Getenv("GOVW_PROP")
	wOut      = os.Getenv("GOVW_OUT")
	wIdx      *os.File
	wCount    int64
	wNontriv  int64
	wStart    atomic.Int64
	wCur      atomic.Pointer[string]
	wDeadline time.Time
	wKnown    = map[string]bool{}
)

func TestGovWitness(t *testing.T) {
	debug.SetMaxStack(128 << 20)
	secs, _ := strconv.ParseFloat(os.Getenv("GOVW_SECS"), 64)
	if secs == 0 {
		secs = 20
	}
	wDeadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	seed, _ := strconv.ParseInt(os.Getenv("GOVW_SEED"), 10, 64)
	var err error
	wIdx, err = os.OpenFile(wOut+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	if f := os.Getenv("GOVW_KNOWN"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			var ks []string
			_ = json.Unmarshal(b, &ks)
			for _, k := range ks {
				wKnown[k] = true
			}
		}
	}
	patience := 5 * time.Second
	if os.Getenv("GOVW_REPLAY") != "" {
		patience = 30 * time.Second
	}
	go func() { // watchdog: a parse that does not come back
		for {
			time.Sleep(100 * time.Millisecond)
			st := wStart.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > patience {
				s := wCur.Load()
				wReport(witness{*s, fmt.Sprintf("no answer within %v", patience)})
				os.Exit(3)
			}
		}
	}()
	if wOracles[wProp] == nil {
		t.Fatal("no oracle for property " + wProp)
	}
	g := &wGen{}
	_, _ = fmt.Sscanf(os.Getenv("GOVW_SHARD"), "%d/%d", &g.shard, &g.shards)
	g.rnd = rand.New(rand.NewSource(seed*1000 + int64(g.shard)))
	g.load()
	if f := os.Getenv("GOVW_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		if d := wTry(string(b)); d != "" {
			wReport(witness{string(b), d})
		}
		return
	}
	try := func(s string) bool {
		if d := wTry(s); d != "" && !wKnown[wKey(s, d)] {
			if wHistory != "" {
				s = wHistory
			}
			wReport(witness{s, d})
			return false
		}
		return time.Now().Before(wDeadline)
	}
	if f := wFirst[wProp]; f == nil || f(g, try) {
		g.run(try)
	}
	for _, f := range wAtEnd {
		f()
	}
	fmt.Printf("GOVW-COUNT %d %d\n", wCount, wNontriv)
}

var wAtEnd []func()

// wHistory: the texts that together make the failure, when one is not enough.
var wHistory string

// wFirst: inputs of its own that a property is tried on before the others.
var wFirst = map[string]func(*wGen, func(string) bool) bool{}

func wKey(s, d string) string { return d }

func wReport(w witness) {
	b, _ := json.Marshal(w)
	_ = os.WriteFile(wOut, b, 0o644)
}

func wTry(s string) (detail string) {
	wCount++
	_, _ = wIdx.WriteAt([]byte(fmt.Sprintf("%09d", len(s))+s), 0)
	c := s
	wCur.Store(&c)
	wStart.Store(time.Now().UnixNano())
	defer wStart.Store(0)
	defer func() {
		if r := recover(); r != nil {
			detail = fmt.Sprintf("panic: %v at %s", r, wSite(string(debug.Stack())))
		}
	}()
	return wOracles[wProp](s)
}

// wSite: the innermost frame of the package itself.
func wSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/parser/") && strings.Contains(l, ".go:") && !strings.Contains(l, "_verif_test.go") && !strings.Contains(l, "runtime/") {
			l = l[strings.LastIndex(l, "/parser/")+1:]
			if i := strings.IndexByte(l, ' '); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// ---------------------------------------------------------------- inputs

type wGen struct {
	rnd   *rand.Rand
	files []string
	names []string
	toks  [][]string // token texts (with the trivia before each) per file
	words []string
	where map[string][][2]int // trimmed token -> (file, position)
	shard, shards int
	step  int
}

// mine: the systematic part of the search is divided among the processes.
func (g *wGen) mine() bool {
	g.step++
	return g.shards <= 1 || g.step%g.shards == g.shard
}

func (g *wGen) load() {
	var paths []string
	for _, root := range strings.Split(os.Getenv("GOVW_CORPUS"), ":") {
		_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".sql") {
				paths = append(paths, p)
			}
			return nil
		})
	}
	sort.Strings(paths)
	seen := map[string]bool{}
	words := map[string]bool{}
	add := func(name, s string) {
		s = strings.TrimSpace(s)
		if s == "" || seen[s] {
			return
		}
		seen[s] = true
		g.names = append(g.names, name)
		g.files = append(g.files, s)
		ts := wTokens(s)
		g.toks = append(g.toks, ts)
		for _, t := range ts {
			t = strings.TrimSpace(t)
			if len(t) < 30 {
				words[t] = true
			}
		}
	}
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		s := string(b)
		if strings.HasSuffix(p, ".lines.sql") {
			for _, l := range strings.Split(s, "\n") {
				add(p, l)
			}
			continue
		}
		if i := strings.Index(s, "-- Format SQL:"); i >= 0 {
			j := i + len("-- Format SQL:")
			s = s[j:]
			if k := strings.Index(s, "-- Beautify SQL:"); k >= 0 {
				s = s[:k]
			}
		} 
		s = strings.Replace(s, "-- Origin SQL:", "", 1)
		add(p, s)
		for _, st := range wSplit(s) {
			add(p, st)
		}
	}
	for w := range words {
		g.words = append(g.words, w)
	}
	sort.Strings(g.words)
	g.where = map[string][][2]int{}
	for f, ts := range g.toks {
		for i, t := range ts {
			if len(ts) < 400 {
				t = wBare(t)
				g.where[t] = append(g.where[t], [2]int{f, i})
			}
		}
	}
}

func wBare(t string) string { return strings.ToUpper(strings.TrimSpace(t)) }

// wSplit cuts a script at its semicolons (outside quotes and comments).
func wSplit(s string) []string {
	var out []string
	var cur strings.Builder
	for _, t := range wTokens(s) {
		if strings.TrimSpace(t) == ";" {
			out = append(out, cur.String())
			cur.Reset()
			continue
		}
		cur.WriteString(t)
	}
	return append(out, cur.String())
}

// wTokens: an independent splitter; each piece keeps its leading trivia.
func wTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		st := i
		for i < len(s) {
			switch {
			case s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r':
				i++
				continue
			case strings.HasPrefix(s[i:], "--"):
				for i < len(s) && s[i] != '\n' {
					i++
				}
				continue
			case strings.HasPrefix(s[i:], "/*"):
				j := strings.Index(s[i:], "*/")
				if j < 0 {
					i = len(s)
				} else {
					i += j + 2
				}
				continue
			}
			break
		}
		if i >= len(s) {
			if strings.TrimSpace(s[st:]) != "" {
				out = append(out, s[st:])
			}
			break
		}
		c := s[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			i++
			for i < len(s) && s[i] != c {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			i++
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80:
			for i < len(s) && (s[i] == '_' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9' || s[i] >= 0x80 || s[i] == '.' && c >= '0' && c <= '9') {
				i++
			}
		default:
			two := ""
			if i+2 <= len(s) {
				two = s[i : i+2]
			}
			switch two {
			case "!=", "<>", "<=", ">=", "->", "::", "==", "||", "=>":
				i += 2
			default:
				i++
			}
		}
		if i > len(s) {
			i = len(s)
		}
		out = append(out, s[st:i])
	}
	return out
}

var wSmall = []string{"x", "1", "'s'", "1.5", ")", "(", ",", ";", "*", "=", "-", "[", "]", ".", "AS", "NOT", "IN", "FROM", "SELECT", "NULL", "BY", "ALL", "`q`", "{", "}", "'", "`", "/*", "::", "?", ":", "@", "0x1", "->", "INTERVAL", "ON", "TO", "WITH"}

func (g *wGen) run(try func(string) bool) {
	for _, s := range g.files {
		if g.mine() && !try(s) {
			return
		}
	}
	// prefixes
	for _, ts := range g.toks {
		if len(ts) > 400 {
			continue
		}
		for n := range ts {
			if g.mine() && !try(strings.Join(ts[:n], "")) {
				return
			}
		}
	}
	for _, ts := range g.toks {
		if len(ts) > 150 {
			continue
		}
		for n := range ts {
			if !g.mine() {
				continue
			}
			if !try(strings.Join(ts[:n], "") + strings.Join(ts[n+1:], "")) {
				return
			}
			if !try(strings.Join(ts[:n+1], "") + ts[n] + strings.Join(ts[n+1:], "")) {
				return
			}
			if n+1 < len(ts) && !try(strings.Join(ts[:n], "")+" "+ts[n+1]+" "+ts[n]+strings.Join(ts[n+2:], "")) {
				return
			}
		}
	}
	for round := 0; ; round++ {
		for fi, ts := range g.toks {
			if len(ts) == 0 || len(ts) > 150 {
				continue
			}
			for k := 0; k < 4; k++ {
				if !try(g.mutate(fi, ts)) {
					return
				}
			}
		}
	}
}

var wBytes = []string{"'", "\"", "`", "\\", "\n", "\t", "\r", "\x00", "\xff", "\xc3", "é", "-", "/", "*", ".", "{", "}", "$", "#", "0", "x", "e", "_", " ", "--", "/*", "*/", ";"}

func (g *wGen) mutate(fi int, ts []string) string {
	n := g.rnd.Intn(len(ts))
	w := wSmall[g.rnd.Intn(len(wSmall))]
	if g.rnd.Intn(2) == 0 {
		w = g.words[g.rnd.Intn(len(g.words))]
	}
	pre, post := strings.Join(ts[:n], ""), strings.Join(ts[n:], "")
	switch g.rnd.Intn(10) {
	case 0:
		return pre + " " + w
	case 1:
		return pre + " " + w + " " + post
	case 2:
		return pre + " " + w + " " + strings.Join(ts[n+1:], "")
	case 3: // splice with another file
		o := g.toks[g.rnd.Intn(len(g.toks))]
		m := g.rnd.Intn(len(o) + 1)
		return pre + " " + strings.Join(o[m:], "")
	case 4: // insert a run of another file
		o := g.toks[g.rnd.Intn(len(g.toks))]
		m := g.rnd.Intn(len(o) + 1)
		e := m + g.rnd.Intn(6)
		if e > len(o) {
			e = len(o)
		}
		return pre + " " + strings.Join(o[m:e], "") + " " + post
	case 5: // delete a run
		e := n + 1 + g.rnd.Intn(5)
		if e > len(ts) {
			e = len(ts)
		}
		return pre + strings.Join(ts[e:], "")
	case 6: // bytes
		s := strings.Join(ts, "")
		if len(s) > 2000 {
			s = s[:2000]
		}
		i := g.rnd.Intn(len(s) + 1)
		c := wBytes[g.rnd.Intn(len(wBytes))]
		switch g.rnd.Intn(4) {
		case 0:
			return s[:i] + c
		case 1:
			return s[:i] + c + s[i:]
		case 2:
			if i < len(s) {
				return s[:i] + c + s[i+1:]
			}
		}
		return s[:i]
	}
	// continue as another text does after the same word, and come back at a
	// word both have
	at := g.where[wBare(ts[n])]
	if len(at) == 0 {
		return pre
	}
	o := at[g.rnd.Intn(len(at))]
	ot := g.toks[o[0]]
	m := o[1] + 1
	head := strings.Join(ts[:n+1], "")
	for e := m; e < len(ot) && e < m+12; e++ {
		if g.rnd.Intn(3) == 0 {
			continue
		}
		b := wBare(ot[e])
		for q := n + 1; q < len(ts) && q < n+12; q++ {
			if wBare(ts[q]) == b {
				return head + " " + strings.Join(ot[m:e], "") + " " + strings.Join(ts[q:], "")
			}
		}
	}
	e := m + g.rnd.Intn(8)
	if e > len(ot) {
		e = len(ot)
	}
	if g.rnd.Intn(3) == 0 {
		return head + " " + strings.Join(ot[m:], "")
	}
	return head + " " + strings.Join(ot[m:e], "") + " " + strings.Join(ts[n+1:], "")
}

// ---------------------------------------------------------------- oracles

var wOracles = map[string]func(string) string{
	"C01": func(s string) string {
		if st, err := NewParser(s).ParseStmts(); err == nil && len(st) > 0 {
			wNontriv++
		}
		return ""
	},
	"C02": func(s string) string {
		if st, err := NewParser(s).ParseStmts(); err == nil && len(st) > 0 {
			wNontriv++
		}
		return ""
	},
	"C03": func(s string) string {
		st, err := wParse(s)
		if err != nil {
			return ""
		}
		if len(st) > 0 {
			wNontriv++
		}
		for _, x := range st {
			_ = Format(x)
			f := NewFormatter().WithBeautify()
			f.WriteExpr(x)
			_ = f.String()
			_ = x.Accept(&DefaultASTVisitor{})
			Walk(x, func(n Expr) bool {
				if n != nil {
					n.Pos()
					n.End()
					_ = Format(n)
				}
				return true
			})
		}
		return ""
	},
}

// wParse hides panics of the parser itself (they are C01's business).
func wParse(s string) (st []Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return NewParser(s).ParseStmts()
}
