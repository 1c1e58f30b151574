package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C15",
		Explanation: "A calculus of covers. What is known of a regexp is sound for a set L of strings if its exact set, when it has one, contains L; if otherwise every string of L has a prefix in the prefix set and a suffix in the suffix set; and if every string of L satisfies the match query. " +
			"Every path of the analysis of each operator, of concatenation and alternation is decided to return something sound for the language the operator stands for, given that what it is computed from is sound: unions, cross products and queries are terms, and the rules of the calculus (a prefix of x is a prefix of xy, every xy contains some suffix of x followed by some prefix of y, …) are applied to them. " +
			"Simplification is decided to keep soundness, by induction over its loops (each string of the old set has a prefix, or suffix, in the new one), folding over subexpressions to cover all of them in order, character classes and case folding to include every rune. " +
			"The primitives (union, cross product, copy, cleaning, minimum length, adding the trigrams of strings to a query) are decided to be what the calculus takes them for. " +
			"The storage of a set or query that is reused is not used again.",
		Assumptions: []string{"combining two queries gives a query that is satisfied wherever their conjunction (disjunction) is (C16)", "regexp/syntax: the meaning of its operators; a literal or class denotes the UTF-8 encoding of its runes"},
		Run:         runCover,
	})
}

const indexPkg = load.Module + "/index."

// coverPrims are the functions the calculus gives a meaning to; each is
// decided to have it on its own.
var coverPrims = map[string]bool{
	"(" + indexPkg + "stringSet).union":      true,
	"(" + indexPkg + "stringSet).cross":      true,
	"(" + indexPkg + "stringSet).copy":       true,
	"(" + indexPkg + "stringSet).minLen":     true,
	"(*" + indexPkg + "stringSet).clean":     true,
	"(*" + indexPkg + "Query).and":           true,
	"(*" + indexPkg + "Query).or":            true,
	"(*" + indexPkg + "Query).andTrigrams":   true,
	"(*" + indexPkg + "regexpInfo).simplify": true,
	indexPkg + "analyze":                     true,
	indexPkg + "concat":                      true,
	indexPkg + "alternate":                   true,
}

// coverModel gives the primitives their meaning as terms.
func coverModel(st *eng.State, ev *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
	res := func() types.Type { return fn.Signature.Results().At(0).Type() }
	if !coverPrims[fn.String()] {
		return nil, false
	}
	a := ev.Args
	switch fn.Name() {
	case "union", "cross":
		return eng.Mk(fn.Name(), lbl, res(), a[0], a[1]), true
	case "copy":
		return eng.Mk("copyset", lbl, res(), a[0]), true
	case "minLen":
		return eng.Mk("minLen", "", res(), a[0]), true
	case "clean":
		typ := fn.Params[0].Type().(*types.Pointer).Elem()
		old := st.Load(a[0], typ)
		if old == eng.Nil || st.Implies(eng.Eq(old, eng.Nil, nil)) {
			st.Set(a[0], eng.Nil)
		} else {
			st.Set(a[0], eng.Mk("cleaned", lbl, typ, old))
		}
		return nil, true
	case "and", "or":
		return eng.Mk("q"+fn.Name(), lbl, res(), a[0], a[1]), true
	case "andTrigrams":
		return eng.Mk("qtri", lbl, res(), a[0], a[1]), true
	case "simplify":
		typ := fn.Params[0].Type().(*types.Pointer).Elem()
		s := typ.Underlying().(*types.Struct)
		pre := st.Load(a[0], typ)
		v := eng.Mk("simplified", lbl, typ, pre)
		for i := 0; i < s.NumFields(); i++ {
			st.Set(eng.FieldAddr(a[0], s, i), eng.FieldVal(v, s, i))
		}
		return nil, true
	case "analyze":
		v := a[0]
		if v.Op == "alloc" {
			v = st.Load(v, fn.Params[0].Type().(*types.Pointer).Elem())
		}
		return eng.Mk("analyze", lbl, res(), v), true
	case "concat", "alternate":
		return eng.Mk(fn.Name(), lbl, res(), a[0], a[1]), true
	}
	return nil, false
}

func (c *Ctx) coverRun(fn *ssa.Function, init func(*eng.State), args ...*eng.Term) *eng.Run {
	return c.Analyze(fn, &eng.Config{
		Opaque:    func(f *ssa.Function) bool { return f != fn && coverPrims[f.String()] },
		Model:     coverModel,
		Init:      init,
		Stores:    func(a *eng.Term) bool { return a.Op == "elem" },
		KeepFacts: true,
	}, args...)
}

// opaqueStruct is the value sym of struct type typ as its fields.
func opaqueStruct(name string, typ types.Type) (whole, parts *eng.Term) {
	whole = eng.Sym(name, typ)
	s := typ.Underlying().(*types.Struct)
	var as []*eng.Term
	for i := 0; i < s.NumFields(); i++ {
		as = append(as, eng.FieldVal(whole, s, i))
	}
	return whole, eng.Mk("struct", types.TypeString(typ, nil), typ, as...)
}

// A lang is a set of strings.
type lang struct {
	k    string // none, eps, any, lit, rune, cc, orbit, atom, cat, alt, plus, seq+, seq|
	a, b *lang
	t    *eng.Term
}

func (l *lang) key() string {
	if l == nil {
		return ""
	}
	id := 0
	if l.t != nil {
		id = l.t.ID
	}
	return fmt.Sprintf("%s%d(%s,%s)", l.k, id, l.a.key(), l.b.key())
}

func (l *lang) is(m *lang) bool { return l.key() == m.key() }

var (
	lNone = &lang{k: "none"}
	lEps  = &lang{k: "eps"}
	lAny  = &lang{k: "any"}
)

func lAtom(t *eng.Term) *lang { return &lang{k: "atom", t: t} }

// A judge applies the rules of the calculus.
type judge struct {
	c    *Ctx
	r    *eng.Run
	asm  map[string]bool
	rng  map[*eng.Term]span // assumed spans of loop-carried values
	busy map[*eng.Term]bool
	deep int
	sty  *types.Struct // regexpInfo
	n    int
}

// A span is the part of a sequence that a value stands for.
type span struct {
	base, lo, hi *eng.Term
	empty        bool
}

func (j *judge) field(v *eng.Term, name string) *eng.Term {
	for i := 0; i < j.sty.NumFields(); i++ {
		if j.sty.Field(i).Name() == name {
			return eng.FieldVal(v, j.sty, i)
		}
	}
	return eng.Nil
}

// collapse turns the fields of a value put together again into the value.
func (j *judge) collapse(v *eng.Term) *eng.Term {
	if v.Op != "struct" || len(v.Args) != j.sty.NumFields() {
		return v
	}
	var w *eng.Term
	for i, a := range v.Args {
		if j.sty.Field(i).Name() == "canEmpty" {
			continue // says nothing about soundness
		}
		if a.Op != "fieldval" || a.Aux != j.sty.Field(i).Name() {
			return v
		}
		if w != nil && a.Args[0] != w {
			return v
		}
		w = a.Args[0]
	}
	return w
}

func (j *judge) isNil(st *eng.State, t *eng.Term) bool {
	for x := range uncleaned(st, t) {
		if x == eng.Nil || st.Implies(eng.Eq(x, eng.Nil, nil)) {
			return true
		}
	}
	return false
}

// uncleaned lists t and the names it has after cleaning, which keeps what
// there is.
func uncleaned(st *eng.State, t *eng.Term) map[*eng.Term]bool {
	for t.Op == "cleaned" {
		t = t.Args[0]
	}
	same := map[*eng.Term]bool{t: true}
	for _, f := range st.Facts {
		f.Walk(func(x *eng.Term) bool {
			y := x
			for y.Op == "cleaned" {
				y = y.Args[0]
			}
			if y == t {
				same[x] = true
			}
			return true
		})
	}
	return same
}

func (j *judge) notNil(st *eng.State, t *eng.Term) bool {
	same := uncleaned(st, t)
	for t.Op == "cleaned" {
		t = t.Args[0]
	}
	for x := range same {
		if x == eng.Nil {
			return false
		}
		if eng.NonNil(x) || st.Implies(eng.Not(eng.Eq(x, eng.Nil, nil))) ||
			st.Implies(eng.Lt(eng.Int(0), eng.Len(x))) ||
			st.Implies(eng.Lt(eng.Int(0), eng.Mk("minLen", "", types.Typ[types.Int], x))) {
			return true
		}
	}
	switch t.Op {
	case "union":
		return j.notNil(st, t.Args[0])
	case "cross", "copyset":
		return true
	}
	return false
}

// inv reports whether the information v is sound for l.
func (j *judge) inv(st *eng.State, v *eng.Term, l *lang) bool {
	if l.k == "none" {
		return true
	}
	j.n++
	if j.n > 200000 || j.deep > 200 {
		return false
	}
	j.deep++
	defer func() { j.deep-- }()
	v = j.collapse(v)
	switch v.Op {
	case "sym":
		if l.k == "atom" && l.t == v {
			return true
		}
	case "simplified":
		return j.inv(st, v.Args[0], l)
	case "analyze":
		if j.analyzed(st, v.Args[0], l) {
			return true
		}
	case "concat":
		if l.k == "cat" && j.inv(st, v.Args[0], l.a) && j.inv(st, v.Args[1], l.b) {
			return true
		}
	case "alternate":
		x, y := v.Args[0], v.Args[1]
		if l.k == "alt" && (j.inv(st, x, l.a) || j.inv(st, y, l.a)) && (j.inv(st, x, l.b) || j.inv(st, y, l.b)) {
			return true
		}
		if l.k != "seq|" && l.k != "alt" && (j.inv(st, x, l) || j.inv(st, y, l)) {
			return true
		}
	}
	if l.k == "plus" && v.Op != "struct" && j.isNil(st, j.field(v, "exact")) && j.inv(st, v, l.a) {
		return true
	}
	if l.k == "seq+" || l.k == "seq|" {
		s, ok := j.spanOf(st, v, l.k)
		n := eng.Len(l.t)
		if ok && s.empty && st.Implies(eng.Le(n, eng.Int(0))) {
			return true
		}
		if ok && s.base == l.t && st.Implies(eng.Le(s.lo, eng.Int(0))) && st.Implies(eng.Le(n, s.hi)) {
			return true
		}
	}
	if v.Op == "struct" {
		e, p, s, m := j.field(v, "exact"), j.field(v, "prefix"), j.field(v, "suffix"), j.field(v, "match")
		if !j.match(st, m, l) {
			return false
		}
		if j.set(st, "E", e, l) || j.isNil(st, e) && j.set(st, "P", p, l) && j.set(st, "S", s, l) {
			return true
		}
		// all three sets of one value
		if e.Op == "fieldval" && e.Aux == "exact" && j.field(e.Args[0], "prefix") == p && j.field(e.Args[0], "suffix") == s {
			return j.inv(st, e.Args[0], l)
		}
	}
	return false
}

// analyzed reports whether the analysis of arg is sound for l.
func (j *judge) analyzed(st *eng.State, arg *eng.Term, l *lang) bool {
	if l.k == "atom" && l.t == arg {
		return true
	}
	if arg.Op != "struct" {
		return false
	}
	op, flags, runes := j.reField(arg, "Op"), j.reField(arg, "Flags"), j.reField(arg, "Rune")
	if !op.IsInt() {
		return false
	}
	switch op.K {
	case j.c.syntaxConst("OpCharClass"):
		if l.k == "cc" && l.t == runes {
			return true
		}
		if l.k == "orbit" {
			return j.orbit(st, runes, l.t)
		}
	case j.c.syntaxConst("OpLiteral"):
		if flags.IsInt() && flags.K&j.c.syntaxConst("FoldCase") != 0 && l.k == "rune" {
			e := j.oneOf(st, runes)
			return e == l.t
		}
	}
	return false
}

func (j *judge) reField(v *eng.Term, name string) *eng.Term {
	s, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		return eng.Nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return eng.FieldVal(v, s, i)
		}
	}
	return eng.Nil
}

// oneOf returns the element of a slice of length one.
func (j *judge) oneOf(st *eng.State, t *eng.Term) *eng.Term {
	if es, ok := varArgs(st, t); ok && len(es) == 1 {
		return es[0]
	}
	return nil
}

// syntaxConst returns a constant of regexp/syntax.
func (c *Ctx) syntaxConst(name string) int64 {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "regexp/syntax" {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				v, _ := constant.Int64Val(constant.ToInt(k.Val()))
				return v
			}
		}
	}
	c.Viol("anchor", "regexp/syntax."+name, 0, "constant regexp/syntax.%s not found", name)
	return -1
}

// spanOf returns the part of the sequence of subexpressions (or of runes to be
// folded) whose concatenation (alternation) v is sound for.
func (j *judge) spanOf(st *eng.State, v *eng.Term, kind string) (span, bool) {
	v = j.collapse(v)
	if s, ok := j.rng[v]; ok {
		return s, true
	}
	if j.busy[v] {
		return span{}, false
	}
	if j.busy == nil {
		j.busy = map[*eng.Term]bool{}
	}
	j.busy[v] = true
	defer delete(j.busy, v)
	same := func(a, b *eng.Term) bool { return a == b || st.Implies(eng.EqInt(a, b)) }
	switch v.Op {
	case "simplified":
		return j.spanOf(st, v.Args[0], kind)
	case "analyze":
		if b, i, ok := elemOf(v.Args[0]); ok {
			return span{base: b, lo: i, hi: eng.AddK(i, 1)}, true
		}
		if a := v.Args[0]; a.Op == "struct" {
			op, flags, runes := j.reField(a, "Op"), j.reField(a, "Flags"), j.reField(a, "Rune")
			if op.IsInt() && op.K == j.c.syntaxConst("OpLiteral") && flags.IsInt() && flags.K&j.c.syntaxConst("FoldCase") != 0 {
				if e := j.oneOf(st, runes); e != nil {
					if b, i, ok := elemOf(e); ok {
						return span{base: b, lo: i, hi: eng.AddK(i, 1)}, true
					}
				}
				if runes.Op == "slice" {
					if d, ok := eng.DiffConst(runes.Args[2], runes.Args[1]); ok && d == 1 {
						return span{base: runes.Args[0], lo: runes.Args[1], hi: runes.Args[2]}, true
					}
				}
			}
		}
	case "concat", "alternate":
		if (v.Op == "concat") != (kind == "seq+") {
			break
		}
		x, ok1 := j.spanOf(st, v.Args[0], kind)
		y, ok2 := j.spanOf(st, v.Args[1], kind)
		if !ok1 || !ok2 {
			break
		}
		switch {
		case x.empty:
			return y, true
		case y.empty:
			return x, true
		case x.base == y.base && same(x.hi, y.lo):
			return span{base: x.base, lo: x.lo, hi: y.hi}, true
		case kind == "seq|" && x.base == y.base && same(y.hi, x.lo):
			return span{base: x.base, lo: y.lo, hi: x.hi}, true
		}
	}
	// a loop
	if l, init, backs := j.carried(v); l != nil {
		s0, ok := j.spanOf(st, init, kind)
		if ok {
			var cands []span
			for _, p := range l.Phis {
				if p.Sym.Typ == nil || !isNumeric(p.Sym.Typ) || len(p.Backs) != len(l.Backs) {
					continue
				}
				if s0.empty {
					for i, b := range backs {
						// the element added tells where the loop is
						b = j.collapse(b)
						if b.Op == "concat" || b.Op == "alternate" {
							for _, x := range b.Args {
								if e, ok := j.spanOf(l.Backs[i], x, kind); ok && !e.empty {
									if k, ok := eng.DiffConst(e.lo, p.Sym); ok {
										at := eng.AddK(p.Init, k)
										cands = append(cands, span{base: e.base, lo: at, hi: eng.AddK(p.Sym, k)})
									}
								}
							}
						}
					}
					continue
				}
				if k, ok := eng.DiffConst(s0.hi, p.Init); ok {
					cands = append(cands, span{base: s0.base, lo: s0.lo, hi: eng.AddK(p.Sym, k)})
				}
				if k, ok := eng.DiffConst(s0.lo, p.Init); ok {
					cands = append(cands, span{base: s0.base, lo: eng.AddK(p.Sym, k), hi: s0.hi})
				}
			}
			for _, s := range cands {
				old := j.rng
				j.rng = map[*eng.Term]span{v: s}
				for k, x := range old {
					j.rng[k] = x
				}
				good := true
				for i, b := range backs {
					s1, ok := j.spanOf(l.Backs[i], b, kind)
					is := func(a, b *eng.Term) bool { return a == b || l.Backs[i].Implies(eng.EqInt(a, b)) }
					if !ok || s1.empty || s1.base != s.base || !is(s1.lo, j.next(l, i, s.lo)) || !is(s1.hi, j.next(l, i, s.hi)) {
						good = false
						break
					}
				}
				j.rng = old
				if good {
					return s, true
				}
			}
		}
	}
	if kind == "seq+" && j.inv(st, v, lEps) {
		return span{empty: true}, true
	}
	if kind == "seq|" && v.Op == "struct" {
		return span{empty: true}, true // sound for no strings at all
	}
	return span{}, false
}

// next is the value of t at the start of the next iteration.
func (j *judge) next(l *eng.Loop, i int, t *eng.Term) *eng.Term {
	for _, p := range l.Phis {
		if k, ok := eng.DiffConst(t, p.Sym); ok && i < len(p.Backs) {
			return eng.AddK(p.Backs[i], k)
		}
	}
	return t
}

// carried splits a loop-carried struct (or value) into its initial value and
// the values the loop gives it.
func (j *judge) carried(v *eng.Term) (l *eng.Loop, init *eng.Term, backs []*eng.Term) {
	if p := j.r.PhiOf(v); p != nil {
		return j.r.LoopOf(v), p.Init, p.Backs
	}
	for _, l := range j.r.Loops {
		if p := l.Phi(v); p != nil {
			return l, p.Init, p.Backs
		}
	}
	if v.Op != "struct" {
		return nil, nil, nil
	}
	for _, a := range v.Args {
		if p := j.r.PhiOf(a); p != nil {
			l = j.r.LoopOf(a)
		}
	}
	if l == nil {
		return nil, nil, nil
	}
	ini := make([]*eng.Term, len(v.Args))
	bk := make([][]*eng.Term, len(l.Backs))
	for i := range bk {
		bk[i] = make([]*eng.Term, len(v.Args))
	}
	for k, a := range v.Args {
		p := l.Phi(a)
		if p == nil {
			if j.r.PhiOf(a) != nil {
				return nil, nil, nil
			}
			ini[k] = a
			for i := range bk {
				bk[i][k] = a
			}
			continue
		}
		ini[k] = p.Init
		for i := range bk {
			bk[i][k] = p.Backs[i]
		}
	}
	mk := func(as []*eng.Term) *eng.Term { return eng.Mk("struct", v.Aux, v.Typ, as...) }
	for i := range bk {
		backs = append(backs, mk(bk[i]))
	}
	return l, mk(ini), backs
}

// set reports whether the set t covers l: it contains l (E), or a prefix (P)
// or suffix (S) of each string of l.
func (j *judge) set(st *eng.State, k string, t *eng.Term, l *lang) bool {
	if l.k == "none" {
		return true
	}
	key := fmt.Sprintf("%s %d %s", k, t.ID, l.key())
	if j.asm[key] {
		return true
	}
	j.n++
	if j.n > 200000 || j.deep > 200 {
		return false
	}
	j.deep++
	defer func() { j.deep-- }()
	if l.k == "alt" {
		return j.set(st, k, t, l.a) && j.set(st, k, t, l.b)
	}
	if k != "E" {
		if l.k == "plus" && j.set(st, k, t, l.a) {
			return true
		}
		if l.k == "cat" && k == "P" && j.set(st, k, t, l.a) {
			return true
		}
		if l.k == "cat" && k == "S" && j.set(st, k, t, l.b) {
			return true
		}
		if j.set(st, "E", t, l) {
			return true
		}
	}
	if l.k == "set" && t == l.t {
		return true
	}
	switch t.Op {
	case "fieldval":
		v := t.Args[0]
		switch {
		case t.Aux == "exact" && k == "E":
			return j.notNil(st, t) && j.inv(st, v, l)
		case t.Aux == "prefix" && k == "P", t.Aux == "suffix" && k == "S":
			return j.isNil(st, j.field(v, "exact")) && j.inv(st, v, l)
		}
		return false
	case "cleaned", "copyset":
		return j.set(st, k, t.Args[0], l)
	case "union":
		return j.set(st, k, t.Args[0], l) || j.set(st, k, t.Args[1], l)
	case "cross":
		a, b := t.Args[0], t.Args[1]
		if l.k != "cat" {
			return false
		}
		switch k {
		case "E":
			return j.set(st, "E", a, l.a) && j.set(st, "E", b, l.b)
		case "P":
			return j.set(st, "E", a, l.a) && j.set(st, "P", b, l.b)
		case "S":
			return j.set(st, "S", a, l.a) && j.set(st, "E", b, l.b)
		}
		return false
	case "append":
		for _, e := range t.Args[1:] {
			if t.Aux == "slice" {
				if j.set(st, k, e, l) {
					return true
				}
			} else if j.element(st, k, e, l) {
				return true
			}
		}
		return j.set(st, k, t.Args[0], l)
	}
	if es, ok := varArgs(st, t); ok {
		for _, e := range es {
			if j.element(st, k, e, l) {
				return true
			}
		}
	}
	if t.Op == "makeslice" {
		src := copiedTo(st, t)
		return src != nil && j.set(st, k, src, l)
	}
	if k == "E" && l.k == "cc" && j.classLoop(st, t, l.t) {
		return true
	}
	// a loop keeps the cover, or makes it of another set
	if p := j.r.PhiOf(t); p != nil {
		lp := j.r.LoopOf(t)
		j.asm[key] = true
		good := j.set(st, k, p.Init, l)
		for i := range p.Backs {
			good = good && j.set(lp.Backs[i], k, p.Backs[i], l)
		}
		delete(j.asm, key)
		if good {
			return true
		}
	}
	for _, src := range j.imageOf(st, k, t) {
		if src != t && j.set(st, k, src, l) {
			return true
		}
	}
	return false
}

// copiedTo returns what the fresh slice t was filled with by copying.
func copiedTo(st *eng.State, t *eng.Term) (src *eng.Term) {
	for _, e := range st.Events(true) {
		switch {
		case e.Kind == "copy" && e.Args[0] == t:
			if eng.Len(t) != eng.Len(e.Args[1]) {
				return nil
			}
			src = e.Args[1]
		case e.Kind == "store" && eng.Root(e.Args[0]) == t, e.Kind == "append" && eng.Root(e.Args[0]) == t:
			return nil
		case e.Kind == "call" && !e.Pure && !coverPrims[e.Name]:
			for _, a := range e.Args {
				if eng.Root(a) == t {
					return nil
				}
			}
		}
	}
	return src
}

// element reports whether the single string e covers l.
func (j *judge) element(st *eng.State, k string, e *eng.Term, l *lang) bool {
	if k != "E" && e == eng.Str("") {
		return true
	}
	switch l.k {
	case "eps":
		return e == eng.Str("")
	case "lit":
		return e.Op == "convstr" && e.Aux == "runes" && e.Args[0] == l.t
	case "cc":
		// a class given as a single rune
		if e.Op == "runestr" && st.Implies(eng.EqInt(eng.Len(l.t), eng.Int(1))) {
			if b, i, ok := elemOf(e.Args[0]); ok && b == l.t && i == eng.Int(0) {
				return true
			}
		}
	}
	return false
}

// match reports whether every string of l satisfies q.
func (j *judge) match(st *eng.State, q *eng.Term, l *lang) bool {
	if l.k == "none" {
		return true
	}
	j.n++
	if j.n > 200000 || j.deep > 200 {
		return false
	}
	j.deep++
	defer func() { j.deep-- }()
	if j.isAll(st, q) {
		return true
	}
	if l.k == "alt" {
		return j.match(st, q, l.a) && j.match(st, q, l.b)
	}
	switch q.Op {
	case "fieldval":
		if q.Aux == "match" && j.inv(st, q.Args[0], l) {
			return true
		}
	case "qand":
		return j.match(st, q.Args[0], l) && j.match(st, q.Args[1], l)
	case "qor":
		if j.match(st, q.Args[0], l) || j.match(st, q.Args[1], l) {
			return true
		}
	case "qtri":
		return j.match(st, q.Args[0], l) && j.contains(st, q.Args[1], l)
	}
	switch l.k {
	case "cat":
		return j.match(st, q, l.a) || j.match(st, q, l.b)
	case "plus":
		return j.match(st, q, l.a)
	}
	return false
}

// contains reports whether every string of l contains a string of t.
func (j *judge) contains(st *eng.State, t *eng.Term, l *lang) bool {
	if l.k == "alt" {
		return j.contains(st, t, l.a) && j.contains(st, t, l.b)
	}
	if j.set(st, "P", t, l) || j.set(st, "S", t, l) {
		return true
	}
	if l.k == "cat" {
		if j.contains(st, t, l.a) || j.contains(st, t, l.b) {
			return true
		}
		x := t
		for x.Op == "cleaned" || x.Op == "copyset" {
			x = x.Args[0]
		}
		if x.Op == "cross" && j.set(st, "S", x.Args[0], l.a) && j.set(st, "P", x.Args[1], l.b) {
			return true
		}
	}
	if l.k == "plus" {
		return j.contains(st, t, l.a)
	}
	switch t.Op {
	case "cleaned", "copyset":
		return j.contains(st, t.Args[0], l)
	case "union":
		return j.contains(st, t.Args[0], l) || j.contains(st, t.Args[1], l)
	}
	return false
}

// isAll reports whether q is the query everything satisfies.
func (j *judge) isAll(st *eng.State, q *eng.Term) bool { return j.queryOp(st, q) == "QAll" }

// queryOp returns the operator of a query that is one of the constants or
// made on the spot.
func (j *judge) queryOp(st *eng.State, q *eng.Term) string {
	var op *eng.Term
	if q.Op == "ld" && q.Args[0].Op == "global" {
		op = j.c.globalOp(q.Args[0].Aux)
	} else if q.Op == "alloc" {
		if fa := fieldAddr(q, "Op"); fa != nil {
			op = st.Load(fa, fa.Typ.(*types.Pointer).Elem())
		}
	}
	if op == nil || !op.IsInt() {
		return ""
	}
	for _, n := range []string{"QAll", "QNone", "QAnd", "QOr"} {
		if k := j.c.constOf("index", n); k == op {
			return n
		}
	}
	return ""
}

// globalOp returns the operator of the query a package variable is
// initialised with (C03: nothing changes it).
func (c *Ctx) globalOp(name string) *eng.Term {
	sp := c.P.SPkg["index"]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name[strings.LastIndex(name, ".")+1:]].(*ssa.Global)
	if g == nil {
		return nil
	}
	var val ssa.Value
	for _, f := range append([]*ssa.Function{sp.Func("init")}, c.P.Funcs()...) {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					if val != nil && val != s.Val {
						return nil
					}
					val = s.Val
				}
			}
		}
	}
	al, ok := val.(*ssa.Alloc)
	if !ok {
		return nil
	}
	op := eng.Int(0)
	for _, in := range *al.Referrers() {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for _, u := range *fa.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Field(fa.Field).Name() != "Op" {
				return nil // a constant with operands
			}
			k, ok := s.Val.(*ssa.Const)
			if !ok {
				return nil
			}
			op = eng.Int(k.Int64())
		}
	}
	return op
}

// piece reports whether e is a prefix (P) or suffix (S) of s, or s (E).
func piece(k string, e, s *eng.Term) bool {
	if e == s {
		return true
	}
	if e.Op != "slice" || e.Args[0] != s || k == "E" {
		return false
	}
	if k == "P" {
		return e.Args[1] == eng.Int(0)
	}
	return e.Args[2] == eng.Len(s)
}

// scans lists the sequences a loop goes over from the first element, with the
// position of the element looked at.
type scan struct {
	seq, at *eng.Term
	first   int64
	phi     *eng.Phi
}

func (j *judge) scansOf(l *eng.Loop, ts []*eng.Term) (out []scan) {
	seen := map[[2]*eng.Term]bool{}
	see := func(t *eng.Term) {
		t.Walk(func(x *eng.Term) bool {
			b, i, ok := elemOf(x)
			if !ok || seen[[2]*eng.Term{b, i}] {
				return true
			}
			seen[[2]*eng.Term{b, i}] = true
			for _, p := range l.Phis {
				k, ok := eng.DiffConst(i, p.Sym)
				if !ok || !p.Init.IsInt() || p.Init.K+k < 0 {
					continue
				}
				step := true
				for _, b := range p.Backs {
					if d, ok := eng.DiffConst(b, p.Sym); !ok || d != 1 {
						step = false
					}
				}
				if step {
					out = append(out, scan{b, i, p.Init.K + k, p})
				}
			}
			return true
		})
	}
	for _, t := range ts {
		see(t)
	}
	return out
}

// inIteration lists the values an iteration deals with.
func inIteration(l *eng.Loop) (ts []*eng.Term) {
	for i, b := range l.Backs {
		ts = append(ts, b.Facts...)
		evs, _ := b.EventsSince(l)
		for _, e := range evs {
			ts = append(ts, e.Args...)
		}
		for _, p := range l.Phis {
			if i < len(p.Backs) {
				ts = append(ts, p.Backs[i])
			}
		}
	}
	return ts
}

// imageOf lists the sets that t is made of by a loop over the set which keeps,
// for each string, a string that is a prefix (suffix) of it.
func (j *judge) imageOf(st *eng.State, k string, t *eng.Term) (out []*eng.Term) {
	var w *eng.Phi
	var base *eng.Term
	if t.Op == "slice" && t.Args[1] == eng.Int(0) {
		base = t.Args[0]
		w = j.r.PhiOf(t.Args[2]) // in place
	} else {
		w = j.r.PhiOf(t) // appended to
	}
	if w == nil {
		return nil
	}
	l := j.r.LoopOf(w.Sym)
	if l == nil {
		return nil
	}
	for _, sc := range j.scansOf(l, inIteration(l)) {
		if base != nil && sc.seq != base || !st.Implies(eng.Le(eng.Len(sc.seq), sc.at)) {
			continue
		}
		reuse := base != nil || w.Init.Op == "slice" && w.Init.Args[0] == sc.seq
		// what comes before the first element looked at stays
		if base != nil && w.Init != eng.Int(sc.first) || base == nil && sc.first != 0 || reuse && base == nil && (w.Init.Args[1] != eng.Int(0) || w.Init.Args[2] != eng.Int(0)) {
			continue
		}
		good := true
		for i := range l.Backs {
			if !j.kept(l, i, k, w, base, sc, reuse) {
				good = false
				break
			}
		}
		if good {
			out = append(out, sc.seq)
		}
	}
	return out
}

// kept decides one iteration of a loop that filters a set.
func (j *judge) kept(l *eng.Loop, i int, k string, w *eng.Phi, base *eng.Term, sc scan, reuse bool) bool {
	b := l.Backs[i]
	evs, ok := b.EventsSince(l)
	if !ok {
		return false
	}
	isCur := func(x *eng.Term) bool {
		bb, ii, ok := elemOf(x)
		return ok && bb == sc.seq && ii == sc.at
	}
	isPiece := func(e *eng.Term) bool {
		if isCur(e) {
			return true
		}
		return e.Op == "slice" && isCur(e.Args[0]) && piece(k, e, e.Args[0])
	}
	var stores []*eng.Event
	for _, e := range evs {
		if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0].Op != "alloc" && e.Args[0].Typ != nil && isString(e.Args[0].Typ.(*types.Pointer).Elem()) {
			stores = append(stores, e)
		}
	}
	var lastIdx *eng.Term // position of the last string kept
	var lastBase *eng.Term
	if base != nil {
		if w.Backs[i] == eng.AddK(w.Sym, 1) {
			return len(stores) == 1 && stores[0].Args[0].Args[0] == base && stores[0].Args[0].Args[1] == w.Sym && isPiece(stores[0].Args[1])
		}
		if w.Backs[i] != w.Sym || len(stores) > 0 {
			return false
		}
		lastIdx, lastBase = eng.AddK(w.Sym, -1), base
	} else {
		n, got := 0, false
		x := w.Backs[i]
		for x != w.Sym {
			if x.Op != "append" {
				return false
			}
			if x.Aux == "elems" {
				for _, e := range x.Args[1:] {
					n++
					if isPiece(e) {
						got = true
					}
				}
			} else {
				n += 2
			}
			x = x.Args[0]
		}
		if reuse && n > 1 || len(stores) > 0 && reuse {
			return false
		}
		if got {
			return true
		}
		if n > 0 {
			return false
		}
		lastIdx, lastBase = eng.AddK(eng.Len(w.Sym), -1), w.Sym
	}
	// left out: what was kept last covers it
	isLast := func(x *eng.Term) bool {
		bb, ii, ok := elemOf(x)
		return ok && bb == lastBase && ii == lastIdx
	}
	for _, f := range b.Facts {
		if f.Op == "eq" && len(f.Args) == 2 {
			x, y := f.Args[0], f.Args[1]
			if isLast(x) && isPiece(y) || isLast(y) && isPiece(x) {
				return true
			}
		}
		if k == "P" && isCall(f, "strings.HasPrefix") && isPiece(f.Args[0]) && isLast(f.Args[1]) {
			return true
		}
		if k == "S" && isCall(f, "strings.HasSuffix") && isPiece(f.Args[0]) && isLast(f.Args[1]) {
			return true
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// classLoop reports whether t is filled with every rune of the ranges runes.
func (j *judge) classLoop(st *eng.State, t, runes *eng.Term) bool {
	p := j.r.PhiOf(t)
	if p == nil {
		return false
	}
	l := j.r.LoopOf(t)
	// outer loop: pairs i, i+1 from 0 in steps of two
	for _, ip := range l.Phis {
		if !ip.Init.IsInt() || len(ip.Backs) != len(l.Backs) {
			continue
		}
		good := len(l.Backs) > 0
		for i, b := range l.Backs {
			if d, ok := eng.DiffConst(ip.Backs[i], ip.Sym); !ok || d != 2 || !j.rangeLoop(b, p.Sym, p.Backs[i], runes, eng.AddK(ip.Sym, -ip.Init.K)) {
				good = false
				break
			}
		}
		// there is an even number of bounds
		if good && st.Implies(eng.Le(eng.Len(runes), eng.AddK(ip.Sym, 1-ip.Init.K))) {
			return true
		}
	}
	return false
}

// rangeLoop reports whether back is from with every rune from runes[at] to
// runes[at+1] added.
func (j *judge) rangeLoop(st *eng.State, from, back, runes, at *eng.Term) bool {
	q := j.r.PhiOf(back)
	if q == nil || q.Init != from {
		return false
	}
	l := j.r.LoopOf(back)
	elem := func(t *eng.Term, at *eng.Term) bool {
		b, i, ok := elemOf(t)
		return ok && b == runes && i == at
	}
	for _, rp := range l.Phis {
		if len(rp.Backs) != len(l.Backs) || !elem(rp.Init, at) {
			continue
		}
		good := len(l.Backs) > 0
		for i := range l.Backs {
			if rp.Backs[i] != eng.AddK(rp.Sym, 1) {
				good = false
			}
			x, got := q.Backs[i], false
			for x != q.Sym && x.Op == "append" && x.Aux == "elems" {
				for _, e := range x.Args[1:] {
					if e.Op == "runestr" && e.Args[0] == rp.Sym {
						got = true
					}
				}
				x = x.Args[0]
			}
			good = good && got && x == q.Sym
		}
		if !good {
			continue
		}
		// it ends after the last rune of the range
		hi := eng.Nil
		for _, f := range st.Facts {
			f.Walk(func(x *eng.Term) bool {
				if elem(x, eng.AddK(at, 1)) {
					hi = x
				}
				return true
			})
		}
		if hi != eng.Nil && st.Implies(eng.Lt(hi, rp.Sym)) {
			return true
		}
	}
	return false
}

// orbit reports whether the ranges runes include r0 and all runes it folds to.
func (j *judge) orbit(st *eng.State, runes, r0 *eng.Term) bool {
	pair := func(from, t *eng.Term, x *eng.Term) (rest *eng.Term, ok bool) {
		if t.Op == "append" && t.Aux == "elems" && len(t.Args) == 3 && t.Args[1] == x && t.Args[2] == x {
			return t.Args[0], true
		}
		return nil, false
	}
	last := runes // left the loop at its end
	if runes.Op == "append" {
		last = runes.Args[0]
	}
	p := j.r.PhiOf(last)
	if p == nil {
		return false
	}
	l := j.r.LoopOf(last)
	for _, rp := range l.Phis {
		if _, ok := pair(nil, runes, rp.Sym); !ok || last == runes || rp.Init != r0 || eng.Len(p.Init) != eng.Int(0) {
			continue
		}
		good := true
		for i := range l.Backs {
			rest, ok := pair(nil, p.Backs[i], rp.Sym)
			if !ok || rest != p.Sym || !isCall(rp.Backs[i], "unicode.SimpleFold") || rp.Backs[i].Args[0] != rp.Sym {
				good = false
			}
		}
		ends := false
		for _, f := range st.Facts {
			f.Walk(func(x *eng.Term) bool {
				if isCall(x, "unicode.SimpleFold") && x.Args[0] == rp.Sym && st.Implies(eng.EqInt(x, r0)) {
					ends = true
				}
				return true
			})
		}
		if good && ends {
			return true
		}
	}
	if last != runes {
		return false
	}
	rest, ok := pair(nil, p.Init, r0)
	if !ok || eng.Len(rest) != eng.Int(0) {
		return false
	}
	for _, rp := range l.Phis {
		if rp.Sym == p.Sym || !isCall(rp.Init, "unicode.SimpleFold") || rp.Init.Args[0] != r0 {
			continue
		}
		good := len(l.Backs) > 0
		for i := range l.Backs {
			rest, ok := pair(p.Sym, p.Backs[i], rp.Sym)
			if !ok || rest != p.Sym || !isCall(rp.Backs[i], "unicode.SimpleFold") || rp.Backs[i].Args[0] != rp.Sym {
				good = false
			}
		}
		if good && st.Implies(eng.EqInt(rp.Sym, r0)) {
			return true
		}
	}
	return false
}
