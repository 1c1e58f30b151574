package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// unwrap strips interface conversions.
func unwrap(t *eng.Term) *eng.Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// varArgs returns the elements of a variadic argument slice, or ok=false if
// they are not known.
func varArgs(st *eng.State, t *eng.Term) (out []*eng.Term, ok bool) {
	if t == eng.Nil {
		return nil, true
	}
	base, lo, hi := t, int64(0), int64(-1)
	if t.Op == "slice" {
		base = t.Args[0]
		if t.Args[1].Op != "int" || t.Args[2].Op != "int" {
			return nil, false
		}
		lo, hi = t.Args[1].K, t.Args[2].K
	} else if n := eng.Len(t); n.Op == "int" {
		hi = n.K
	}
	if hi < 0 {
		return nil, false
	}
	var elem types.Type
	switch u := base.Typ.Underlying().(type) {
	case *types.Pointer:
		a, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		elem = a.Elem()
	case *types.Slice:
		elem = u.Elem()
	default:
		return nil, false
	}
	for i := lo; i < hi; i++ {
		out = append(out, st.Load(eng.Elem(base, eng.Int(i), types.NewPointer(elem)), elem))
	}
	return out, true
}

// isCall reports whether t is the result of calling name (component i of a
// tuple result if i >= 0).
func isCall(t *eng.Term, name string) bool {
	return t != nil && t.Op == "call" && (t.Aux == name || strings.HasPrefix(t.Aux, name+"@"))
}

func isResult(t *eng.Term, name string, i string) bool {
	return t != nil && t.Op == "extract" && t.Aux == i && isCall(t.Args[0], name)
}

// leaves expands phi and join symbols to the values they may have.
func leaves(r *eng.Run, t *eng.Term) []*eng.Term {
	var out []*eng.Term
	seen := map[*eng.Term]bool{}
	var visit func(t *eng.Term)
	visit = func(t *eng.Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if p := r.PhiOf(t); p != nil {
			visit(p.Init)
			for _, b := range p.Backs {
				visit(b)
			}
			return
		}
		if js := r.JoinSources(t); len(js) > 0 {
			for _, j := range js {
				visit(j)
			}
			return
		}
		out = append(out, t)
	}
	visit(t)
	return out
}

// fnLabel names a function without the module path.
func fnLabel(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), "github.com/google/codesearch/", "")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// structOf returns the struct type of a named module type.
func (c *Ctx) structOf(pkg, name string) (types.Type, *types.Struct) {
	sp := c.P.SPkg[pkg]
	if sp == nil {
		return nil, nil
	}
	t, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil, nil
	}
	s, _ := t.Type().Underlying().(*types.Struct)
	return t.Type(), s
}

// fieldAddr returns the address term of base.name (exported field).
func fieldAddr(base *eng.Term, name string) *eng.Term {
	p := base.Typ.Underlying().(*types.Pointer)
	st := p.Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return eng.FieldAddr(base, st, i)
		}
	}
	return nil
}

// isInteger reports whether typ is an integer type.
func isNumeric(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

func nameIn(set ...string) func(string) bool {
	m := map[string]bool{}
	for _, s := range set {
		m[s] = true
	}
	return func(n string) bool { return m[n] }
}

func targetNames(f func(string) bool) func(ssa.Instruction, string) bool {
	return func(in ssa.Instruction, n string) bool { return n != "" && f(n) }
}

func sortFns(fs []*ssa.Function) {
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
}
