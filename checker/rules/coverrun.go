package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func runCover(c *Ctx) {
	_, sty := c.structOf("index", "regexpInfo")
	if sty == nil {
		c.Viol("anchor", "index.regexpInfo", 0, "type index.regexpInfo not found")
		return
	}
	mk := func(r *eng.Run) *judge {
		return &judge{c: c, r: r, asm: map[string]bool{}, sty: sty}
	}
	// concatenation and alternation
	for _, n := range []string{"concat", "alternate"} {
		fn := c.Func("index", n)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		x, xs := opaqueStruct("x", fn.Params[0].Type())
		y, ys := opaqueStruct("y", fn.Params[1].Type())
		r := c.coverRun(fn, nil, xs, ys)
		j := mk(r)
		l := &lang{k: map[string]string{"concat": "cat", "alternate": "alt"}[n], a: lAtom(x), b: lAtom(y)}
		c.returnsSound(j, fn, n, func(*eng.State) []*lang { return []*lang{l} })
	}
	c.analysis(mk)
	c.simplification(mk)
	c.theQuery(mk)
	c.primitives(mk)
	c.addsTrigrams(mk)
	c.Min("sound", 40)
	c.Min("primitive", 12)
	c.Min("storage", 10)
}

// returnsSound checks that every return of fn is sound for one of the
// languages that fit its path.
func (c *Ctx) returnsSound(j *judge, fn *ssa.Function, cons string, ls func(*eng.State) []*lang) {
	n := 0
	for _, t := range j.r.Terms {
		if t.Kind != "return" {
			c.Check(t.Kind == "panic" && false, "sound", cons, fn.Pos(), "%s can end in a %s", fn.Name(), t.Kind)
			continue
		}
		n++
		ok := false
		for _, l := range ls(t.St) {
			j.n = 0
			if j.inv(t.St, t.Rets[0], l) {
				ok = true
			}
		}
		c.Check(ok, "sound", cons, fn.Pos(), "a path of %s returns what need not cover the strings %s matches: %s", fn.Name(), cons, j.why(t.St, t.Rets[0], ls(t.St)))
	}
	c.consumption(j, fn, cons)
	c.Check(n > 0, "sound", cons+" returns", fn.Pos(), "%s never returns", fn.Name())
}

// why says which part of v is not sound.
func (j *judge) why(st *eng.State, v *eng.Term, ls []*lang) string {
	v = j.collapse(v)
	for v.Op == "simplified" {
		v = j.collapse(v.Args[0])
	}
	if v.Op != "struct" || len(ls) == 0 {
		return v.String()
	}
	l := ls[0]
	j.n = 0
	e, p, s, m := j.field(v, "exact"), j.field(v, "prefix"), j.field(v, "suffix"), j.field(v, "match")
	switch {
	case !j.match(st, m, l):
		return "the query " + m.String()
	case !j.isNil(st, e):
		return "the exact set " + e.String()
	case !j.set(st, "P", p, l):
		return "the prefixes " + p.String()
	case !j.set(st, "S", s, l):
		return "the suffixes " + s.String()
	}
	return v.String()
}

// analysis checks the analysis of each operator.
func (c *Ctx) analysis(mk func(*eng.Run) *judge) {
	fn := c.Func("index", "analyze")
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	re := eng.Sym(fn.Params[0].Name(), fn.Params[0].Type())
	load := func(st *eng.State, f string) *eng.Term {
		fa := fieldAddr(re, f)
		return st.Load(fa, fa.Typ.(*types.Pointer).Elem())
	}
	sub0 := func(st *eng.State) *lang {
		subs := load(st, "Sub")
		et := subs.Typ.Underlying().(*types.Slice).Elem()
		return lAtom(st.Load(eng.Elem(subs, eng.Int(0), types.NewPointer(et)), et))
	}
	one := func(l *lang) func(*eng.State) []*lang { return func(*eng.State) []*lang { return []*lang{l} } }
	spec := map[string]func(*eng.State) []*lang{
		"OpNoMatch": one(lNone), "OpEmptyMatch": one(lEps), "OpBeginLine": one(lEps), "OpEndLine": one(lEps),
		"OpBeginText": one(lEps), "OpEndText": one(lEps), "OpWordBoundary": one(lEps), "OpNoWordBoundary": one(lEps),
		"OpAnyCharNotNL": one(lAny), "OpAnyChar": one(lAny), "OpStar": one(lAny),
		"OpCapture": func(st *eng.State) []*lang { return []*lang{sub0(st)} },
		"OpQuest": func(st *eng.State) []*lang {
			return []*lang{{k: "alt", a: sub0(st), b: lEps}}
		},
		"OpPlus": func(st *eng.State) []*lang { return []*lang{{k: "plus", a: sub0(st)}} },
		"OpRepeat": func(st *eng.State) []*lang {
			if st.Implies(eng.Not(eng.EqInt(load(st, "Min"), eng.Int(0)))) || st.Implies(eng.Lt(eng.Int(0), load(st, "Min"))) {
				return []*lang{{k: "plus", a: sub0(st)}, lAny}
			}
			return []*lang{lAny}
		},
		"OpConcat":    func(st *eng.State) []*lang { return []*lang{{k: "seq+", t: load(st, "Sub")}} },
		"OpAlternate": func(st *eng.State) []*lang { return []*lang{{k: "seq|", t: load(st, "Sub")}} },
		"OpCharClass": func(st *eng.State) []*lang {
			runes := load(st, "Rune")
			if st.Implies(eng.Le(eng.Len(runes), eng.Int(0))) {
				return []*lang{lNone}
			}
			return []*lang{{k: "cc", t: runes}}
		},
		"OpLiteral": func(st *eng.State) []*lang {
			runes, flags := load(st, "Rune"), load(st, "Flags")
			if f := c.syntaxConst("FoldCase"); flagClear(st, flags, f) {
				return []*lang{{k: "lit", t: runes}}
			}
			ls := []*lang{{k: "seq+", t: runes}}
			if st.Implies(eng.EqInt(eng.Len(runes), eng.Int(0))) {
				ls = append(ls, lEps)
			}
			if st.Implies(eng.EqInt(eng.Len(runes), eng.Int(1))) {
				et := runes.Typ.Underlying().(*types.Slice).Elem()
				ls = append(ls, &lang{k: "orbit", t: st.Load(eng.Elem(runes, eng.Int(0), types.NewPointer(et)), et)})
			}
			return ls
		},
	}
	for _, op := range sortedKeys(spec) {
		k := c.syntaxConst(op)
		r := c.coverRun(fn, func(st *eng.State) { st.Set(fieldAddr(re, "Op"), eng.Int(k)) })
		c.returnsSound(mk(r), fn, op, spec[op])
	}
}

// flagClear reports whether bit f of flags is known to be clear.
func flagClear(st *eng.State, flags *eng.Term, f int64) bool {
	ok := false
	for _, x := range st.Facts {
		x.Walk(func(t *eng.Term) bool {
			if t.Op == "and" && len(t.Args) == 2 && (t.Args[0] == flags && t.Args[1] == eng.Int(f) || t.Args[1] == flags && t.Args[0] == eng.Int(f)) {
				if st.Implies(eng.EqInt(t, eng.Int(0))) {
					ok = true
				}
			}
			return true
		})
	}
	return ok
}

// simplification keeps what is known sound.
func (c *Ctx) simplification(mk func(*eng.Run) *judge) {
	fn := c.Func("index", "regexpInfo.simplify")
	if fn == nil || len(fn.Params) == 0 {
		return
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	pre, _ := opaqueStruct("pre", pt.Elem())
	info := eng.Sym(fn.Params[0].Name(), fn.Params[0].Type())
	s := pt.Elem().Underlying().(*types.Struct)
	r := c.coverRun(fn, func(st *eng.State) {
		for i := 0; i < s.NumFields(); i++ {
			st.Set(eng.FieldAddr(info, s, i), eng.FieldVal(pre, s, i))
		}
	})
	j := mk(r)
	l := lAtom(pre)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			c.Check(false, "sound", "simplify", fn.Pos(), "simplify can end in a %s", t.Kind)
			continue
		}
		n++
		v := t.St.Load(info, pt.Elem())
		j.n = 0
		c.Check(j.inv(t.St, v, l), "sound", "simplify", fn.Pos(), "a path of simplify loses strings: %s", j.why(t.St, v, []*lang{l}))
	}
	c.consumption(j, fn, "simplify")
	c.Check(n > 0, "sound", "simplify returns", fn.Pos(), "simplify never returns")
}

// theQuery checks that the query of a regexp is satisfied by what it matches.
func (c *Ctx) theQuery(mk func(*eng.Run) *judge) {
	fn := c.Func("index", "RegexpQuery")
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	r := c.coverRun(fn, nil)
	j := mk(r)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			c.Check(false, "sound", "query", fn.Pos(), "RegexpQuery can end in a %s", t.Kind)
			continue
		}
		j.n = 0
		c.Check(j.match(t.St, t.Rets[0], lAtom(r.Params[0])), "sound", "query", fn.Pos(), "RegexpQuery returns %s, which a match of the regexp need not satisfy", t.Rets[0])
	}
	c.consumption(j, fn, "query")
}
