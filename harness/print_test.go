package parser

// What printing must keep: every text, every flag and every child of the tree.

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
)

// fields that are not printed on their own (see DESIGN.md, C17)
var wUnprinted = map[string]string{
	"CastExpr.Separator":              "which spelling of the cast was used",
	"SettingPair.Operation":           "an equals sign or nothing",
	"DestinationClause.TableSchema":   "printed by the statement",
	"JoinExpr.Constraints":            "printed by the join it belongs to",
	"JoinExpr.Right":                  "printed without its own frame",
	"DictionaryEngineClause.Settings": "printed in parentheses",
	"SetStmt.Settings":                "printed after SET",
}

var wStats map[string][2]int

type wField struct {
	v    reflect.Value
	path string
	n    Expr
}

// wScalars lists the string and bool fields of the tree that carry something.
func wScalars(x Expr) []wField {
	var out []wField
	for _, p := range wNodes(x) {
		var into func(v reflect.Value, path string)
		into = func(v reflect.Value, path string) {
			switch v.Kind() {
			case reflect.String:
				if v.Len() > 0 && v.CanSet() {
					out = append(out, wField{v, path, p.node})
				}
			case reflect.Bool:
				if v.Bool() && v.CanSet() {
					out = append(out, wField{v, path, p.node})
				}
			case reflect.Struct:
				if v.CanAddr() && v.Addr().Type().Implements(wExprType) && path != wName(p.node) {
					return // a node of its own
				}
				for i := 0; i < v.NumField(); i++ {
					if f := v.Type().Field(i); f.IsExported() {
						into(v.Field(i), path+"."+f.Name)
					}
				}
			case reflect.Pointer:
				if !v.IsNil() && !v.Type().Implements(wExprType) && v.Elem().Kind() == reflect.Struct {
					into(v.Elem(), path)
				}
			case reflect.Slice:
				if k := v.Type().Elem().Kind(); k == reflect.String || k == reflect.Struct {
					for i := 0; i < v.Len(); i++ {
						into(v.Index(i), path+"[]")
					}
				}
			}
		}
		into(reflect.ValueOf(p.node).Elem(), wName(p.node))
	}
	return out
}

func wBeauty(x Expr) string {
	f := NewFormatter().WithBeautify()
	f.WriteExpr(x)
	return f.String()
}

func wSqueeze(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', '\r':
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func wPrint(x Expr) (detail string) {
	for _, layout := range []struct {
		name string
		f    func(Expr) string
	}{{"Format", func(e Expr) string { return Format(e) }}, {"beautified Format", wBeauty}} {
		whole := layout.f(x)
		fs := wScalars(x)
		if len(fs) > 150 {
			fs = fs[:150]
		}
		for i, f := range fs {
			if wUnprinted[f.path] != "" {
				continue
			}
			ok := true
			var d string
			switch f.v.Kind() {
			case reflect.String:
				old := f.v.String()
				mark := fmt.Sprintf("q%dz", i)
				f.v.SetString(mark)
				func() {
					defer func() { f.v.SetString(old) }()
					n := strings.Count(layout.f(x), mark)
					ok = n == 1
					d = fmt.Sprintf("%s writes the text at %s (%q) %d times", layout.name, f.path, old, n)
				}()
			case reflect.Bool:
				f.v.SetBool(false)
				func() {
					defer func() { f.v.SetBool(true) }()
					ok = layout.f(x) != whole
					d = fmt.Sprintf("%s does not show the option %s", layout.name, f.path)
				}()
			}
			if wStats != nil {
				st := wStats[f.path]
				st[0]++
				if !ok {
					st[1]++
				}
				wStats[f.path] = st
				continue
			}
			if !ok {
				return d
			}
		}
		places := wNodes(x)
		texts := make([]string, len(places))
		kids := make([][]int, len(places))
		total := 0
		for i, p := range places {
			if total < 200000 {
				texts[i] = wSqueeze(layout.f(p.node))
				total += len(texts[i])
			}
			if p.parent >= 0 {
				kids[p.parent] = append(kids[p.parent], i)
			}
		}
		for i, ks := range kids {
			for _, k := range ks {
				if texts[i] == "" || texts[k] == "" || wUnprinted[places[k].path] != "" {
					continue
				}
				ok := strings.Contains(texts[i], texts[k])
				if wStats != nil {
					st := wStats["child "+places[k].path]
					st[0]++
					if !ok {
						st[1]++
						if st[1] < 3 {
							fmt.Printf("SAMPLE %s %s: %q not in %q\n", layout.name, places[k].path, texts[k], texts[i])
						}
					}
					wStats["child "+places[k].path] = st
				} else if !ok {
					return fmt.Sprintf("%s of %s does not contain its child %s (%q)", layout.name, wName(places[i].node), places[k].path, texts[k])
				}
			}
		}
	}
	return ""
}

func init() {
	wOracles["C17"] = func(s string) string { return wEach(s, wPrint) }
	if os.Getenv("GOVW_STATS") != "" {
		wStats = map[string][2]int{}
		wAtEnd = append(wAtEnd, func() {
			var ks []string
			for k, v := range wStats {
				if v[1] > 0 || os.Getenv("GOVW_STATS") == "all" {
					ks = append(ks, fmt.Sprintf("%s %d/%d", k, v[1], v[0]))
				}
			}
			sort.Strings(ks)
			fmt.Fprintln(os.Stderr, strings.Join(ks, "\n"))
		})
	}
}
