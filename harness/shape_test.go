package parser

// How operators group, and that the case of keywords does not matter.

import (
	"fmt"
	"reflect"
	"strings"
)

// wLevel: how tightly the node's own operator binds, looser first; 0 when the
// node is not an operator written without brackets of its own.
func wLevel(x Expr) int {
	switch n := x.(type) {
	case *TernaryOperation:
		return 2
	case *IsNullExpr, *IsNotNullExpr:
		return 6
	case *BetweenClause:
		return 8
	case *IndexOperation, *ObjectParams:
		return 13
	case *UnaryExpr:
		if strings.EqualFold(string(n.Kind), "NOT") {
			return 5
		}
		return 0
	case *BinaryOperation:
		switch strings.ToUpper(string(n.Operation)) {
		case "->":
			return 1
		case "OR":
			return 3
		case "AND":
			return 4
		case "=", "==", "!=", "<>", "<", "<=", ">", ">=":
			return 7
		case "LIKE", "ILIKE", "REGEXP", "NOT LIKE", "NOT ILIKE":
			return 8
		case "IN", "NOT IN":
			return 9
		case "||":
			return 10
		case "+", "-":
			return 11
		case "*", "/", "%":
			return 12
		case "::":
			return 14
		}
	}
	return 0 // a separator of TRIM, SUBSTRING, OVERLAY
}

// wHolds: how tightly the node binds as an operand of another one.
func wHolds(x Expr) int {
	switch x.(type) {
	case *IndexOperation, *ObjectParams:
		return 0 // complete in themselves
	}
	return wLevel(x)
}

func wShape(x Expr) string {
	for _, p := range wNodes(x) {
		n := wLevel(p.node)
		if u, ok := p.node.(*UnaryExpr); ok && (u.Kind == "-" || u.Kind == "+") && u.Expr != nil && wHolds(u.Expr) != 0 {
			return fmt.Sprintf("the sign holds %s", wOp(u.Expr))
		}
		if n == 0 {
			continue
		}
		var left Expr
		var right []Expr
		switch o := p.node.(type) {
		case *TernaryOperation:
			left = o.Condition
		case *IsNullExpr:
			left = o.Expr
		case *IsNotNullExpr:
			left = o.Expr
		case *BetweenClause:
			left, right = o.Expr, []Expr{o.Between, o.And}
		case *IndexOperation:
			left = o.Object
		case *ObjectParams:
			left = o.Object
		case *UnaryExpr:
			right = []Expr{o.Expr}
		case *BinaryOperation:
			left, right = o.LeftExpr, []Expr{o.RightExpr}
		}
		if left != nil {
			switch left.(type) {
			case *IsNullExpr, *IsNotNullExpr:
			default:
				if l := wHolds(left); l != 0 && (l < n || l == n && n <= 2) {
					return fmt.Sprintf("%s (level %d) holds %s (level %d) on its left", wOp(p.node), n, wOp(left), l)
				}
			}
		}
		for _, r := range right {
			if r == nil || n == 1 {
				continue
			}
			if u, is := r.(*UnaryExpr); is && wLevel(u) == 5 {
				continue // NOT reads on by itself
			}
			if l := wHolds(r); l != 0 && l <= n {
				return fmt.Sprintf("%s (level %d) holds %s (level %d) on its right", wOp(p.node), n, wOp(r), l)
			}
		}
	}
	return ""
}

func wOp(x Expr) string {
	if b, ok := x.(*BinaryOperation); ok {
		return string(b.Operation)
	}
	return wName(x)
}

// wCase: the text with its keywords written in another case gives the same tree.
func wCase(s string) string {
	a, e1 := wParse(s)
	for mode := 0; mode < 3; mode++ {
		b := []byte(s)
		l := NewLexer(s)
		k := 0
		for l.consumeToken() == nil && l.currentToken != nil {
			t := l.currentToken
			if t.Kind != TokenKindKeyword {
				continue
			}
			for i := int(t.Pos); i < int(t.End); i++ {
				k++
				switch {
				case mode == 0 || mode == 2 && k%3 == 0:
					b[i] = strings.ToUpper(s[i : i+1])[0]
				default:
					b[i] = strings.ToLower(s[i : i+1])[0]
				}
			}
		}
		c, e2 := wParse(string(b))
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("%q is read differently: %v, %v", b, e1, e2)
		}
		if e1 != nil {
			continue
		}
		wNontriv++
		if !wFold(reflect.ValueOf(a), reflect.ValueOf(c)) {
			return fmt.Sprintf("%q gives another tree", b)
		}
		for i := range a {
			for _, wide := range []bool{false, true} {
				if x, y := wRender(a[i], wide), wRender(c[i], wide); !strings.EqualFold(x, y) {
					return fmt.Sprintf("%q is printed differently: %q, %q", b, y, x)
				}
			}
		}
	}
	return ""
}

func wRender(x Expr, wide bool) string {
	f := NewFormatter()
	if wide {
		f.WithBeautify()
	}
	f.WriteExpr(x)
	return f.String()
}

func wFold(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() || !a.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.String:
		return strings.EqualFold(a.String(), b.String())
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return wFold(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !wFold(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !wFold(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int64:
		return a.Int() == b.Int()
	}
	return true
}

func init() {
	wFirst["C08"] = wOps
	wOracles["C08"] = func(s string) string { return wEach(s, wShape) }
	wOracles["C09"] = wCase
}

// wOps: expressions of two and three operators, all of them.
func wOps(g *wGen, try func(string) bool) bool {
	ops := []string{"OR", "AND", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "LIKE", "ILIKE", "NOT LIKE", "NOT ILIKE", "REGEXP", "IN", "NOT IN",
		"GLOBAL IN", "GLOBAL NOT IN", "||", "+", "-", "*", "/", "%", "->", "::", "BETWEEN 1 AND", "NOT BETWEEN 1 AND", "IS NULL", "IS NOT NULL", "? u :", "[1]", ".x", "BETWEEN k IS NULL AND", "BETWEEN k + 1 AND"}
	atoms := []string{"a", "NOT b", "- c", "f(d)", "(e)", "g[2]", "4"}
	post := func(op string) bool { return strings.HasSuffix(op, "NULL") || op == "[1]" || op == ".x" }
	add := func(s, op, at string) string {
		if post(op) {
			return s + " " + op
		}
		return s + " " + op + " " + at
	}
	for _, x := range atoms {
		for _, o := range ops {
			if !g.mine() {
				continue
			}
			for _, q := range ops {
				for _, y := range atoms {
					s := add(add("SELECT "+x, o, y), q, "z")
					if !try(s) || !try("SELECT * FROM numbers("+s[7:]+")") {
						return false
					}
				}
			}
		}
	}
	for _, o := range ops {
		for _, q := range ops {
			if !g.mine() {
				continue
			}
			for _, r := range ops {
				if !try(add(add(add("SELECT a", o, "b"), q, "c"), r, "d")) {
					return false
				}
			}
		}
	}
	return true
}
