package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Disjunction invariants: "one of these fields is set". Candidates are the
// subsets of the fields a Pos, End or FormatSQL method reads; the weakest
// ones that imply nothing new are left out while a stronger one survives.
type orInv struct {
	id     string
	fields []fieldInfo
	neg    []bool   // the field is unset (nil for none)
	sub    []string // ids of stronger candidates
}

// Hand-written node invariants: each is a disjunction, "!F" says F is unset
// (nil, empty, false or zero).
var nodeClauses = map[string][]string{
	"AuthenticationClause":     {"!NotIdentified !AuthValue", "!NotIdentified !LdapServer", "!NotIdentified !KerberosRealm", "IsKerberos !KerberosRealm", "!NotIdentified !AuthType", "!NotIdentified !IsKerberos"},
	"CreateUser":               {"!DefaultDatabase !DefaultDbNone"},
	"NamedCollectionParam":     {"!NotOverridable !Overridable"},
	"ColumnDef":                {"!CompressionCodec"},
	"CompressionCodec":         {"Type !TypeLevel", "Name !Level"},
	"DefaultRoleClause":        {"!None !Roles"},
	"GranteesClause":           {"!Any !Grantees", "!None !Grantees", "!Any !None"},
	"InsertStmt":               {"!SelectExpr !Values"},
	"JoinExpr":                 {"Modifiers !Constraints"},
	"PartitionClause":          {"!ID !Expr", "!All !Expr", "!All !ID"},
	"SelectQuery":              {"HasDistinct !DistinctOn"},
	"ShowStmt":                 {"LikeType !LikePattern", "!LikeType LikePattern", "!NotLike LikeType"},
	"SystemFlushExpr":          {"!Logs !Distributed"},
	"TTLPolicyRule":            {"!ToVolume !ToDisk", "!ToVolume !Action", "!ToDisk !Action"},
	"WithTimeoutClause":        {"!Number !Expr"},
	"DictionaryArgExpr":        {"!LParenPos !Value", "!Args !Value"},
	"DictionaryLifetimeClause": {"!Value !Min", "!Value !Max", "Min !Max", "Max !Min"},
}

func (w *World) orCands(t types.Type) []orInv {
	if r, ok := w.orMemo[t]; ok {
		return r
	}
	tk := w.L.typeKey(t)
	byPath := map[string]fieldInfo{}
	for _, f := range w.walkFields(t) {
		byPath[f.path] = f
	}
	sets := map[string][]fieldInfo{}
	for _, name := range []string{"Pos", "End", "FormatSQL"} {
		sel := w.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(w.pkg.Pkg, name)
		if sel == nil {
			continue
		}
		fn := w.prog.MethodValue(sel)
		if fn == nil || len(fn.Blocks) == 0 || wrapper(fn) {
			continue
		}
		used := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.X != fn.Params[0] {
					continue
				}
				pt := "." + derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				f, ok := byPath[pt]
				if !ok {
					continue
				}
				if isPtr(f.typ) || isIface(f.typ) || isSlice(f.typ) || isBool(f.typ) {
					used[pt] = true
				}
			}
		}
		var ps []string
		for u := range used {
			ps = append(ps, u)
		}
		sort.Strings(ps)
		if len(ps) < 2 || len(ps) > 5 {
			continue
		}
		for m := 1; m < 1<<len(ps); m++ {
			var fs []fieldInfo
			var ns []string
			for i, pth := range ps {
				if m>>i&1 == 1 {
					fs = append(fs, byPath[pth])
					ns = append(ns, pth)
				}
			}
			if len(fs) >= 2 {
				sets[strings.Join(ns, ",")] = fs
			}
		}
	}
	var names []string
	for n := range sets {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := strings.Count(names[i], ","), strings.Count(names[j], ",")
		if a != b {
			return a < b
		}
		return names[i] < names[j]
	})
	out := []orInv{}
	for _, n := range names {
		o := orInv{id: "inv|" + tk + "|or:" + n, fields: sets[n]}
		for _, f := range o.fields {
			switch {
			case isPtr(f.typ), isIface(f.typ):
				o.sub = append(o.sub, "inv|"+tk+f.path+"|nonnil")
			case isSlice(f.typ):
				o.sub = append(o.sub, "inv|"+tk+f.path+"|nonempty")
			}
		}
		for _, q := range out {
			all := true
			for _, f := range q.fields {
				has := false
				for _, g := range o.fields {
					has = has || g.path == f.path
				}
				all = all && has
			}
			if all {
				o.sub = append(o.sub, q.id)
			}
		}
		out = append(out, o)
	}
	for _, cl := range nodeClauses[tk] {
		if o, ok := w.clause(t, cl); ok {
			out = append(out, o)
		}
	}
	w.orMemo[t] = out
	return out
}

func (w *World) clause(t types.Type, cl string) (orInv, bool) {
	o := orInv{id: "inv|" + w.L.typeKey(t) + "|or:" + cl}
	for _, l := range strings.Fields(cl) {
		ok := false
		for _, f := range w.walkFields(t) {
			if f.path == "."+strings.TrimPrefix(l, "!") {
				o.fields = append(o.fields, f)
				o.neg = append(o.neg, strings.HasPrefix(l, "!"))
				ok = true
			}
		}
		if !ok {
			return o, false // the field is gone: the clause is not there to be used
		}
	}
	return o, true
}

// orInvs: the active disjunctions; a clause is left out while a stronger one
// stands (the reader then depends on that one).
func (x *Exec) orInvs(t types.Type) []orInv {
	var out []orInv
	for _, o := range x.w.orCands(t) {
		stronger := false
		for _, s := range o.sub {
			if x.w.active(s) {
				x.deps[s] = true
				stronger = true
			}
		}
		if !stronger && x.w.active(o.id) {
			out = append(out, o)
		}
	}
	return out
}

func (x *Exec) orTerm(o orInv, get func(f fieldInfo) Val) *Term {
	p := x.p
	r := p.F
	for i, f := range o.fields {
		v := get(f)
		var c *Term
		switch {
		case isBool(f.typ):
			c = v.leaves[0]
		case isSlice(f.typ):
			_, ln, _, _ := sliceParts(v)
			c = p.Lt(p.Int(0), ln)
		case isStringT(f.typ):
			c = p.Lt(p.Int(0), x.slen(v.leaves[0]))
		default:
			c = p.Not(p.Eq(v.leaves[0], p.Int(0)))
		}
		if o.neg != nil && o.neg[i] {
			c = p.Not(c)
		}
		r = p.Or(r, c)
	}
	return r
}

func (x *Exec) fieldOf(st *State, t types.Type, f fieldInfo, ref *Term) Val {
	var fv Val
	for _, k := range x.objKeys(t, f.path, f.typ) {
		fv.leaves = append(fv.leaves, x.p.Select(x.heapGet(st, k), ref))
	}
	return fv
}

func (o orInv) has(path string) bool {
	for _, f := range o.fields {
		if f.path == path || strings.HasPrefix(f.path, path+".") {
			return true
		}
	}
	return false
}

func (o orInv) String() string {
	var ns []string
	for i, f := range o.fields {
		n := strings.TrimPrefix(f.path, ".")
		if o.neg != nil && o.neg[i] {
			n = "not " + n
		}
		ns = append(ns, n)
	}
	return fmt.Sprintf("one of %s is set", strings.Join(ns, ", "))
}
