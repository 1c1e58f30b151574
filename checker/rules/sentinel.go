package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// fillOnly reports whether a store into an element of a table held in a
// struct field cannot reach the package variable gl of that struct type,
// because it only ever fills an empty slot and gl's table has no empty slot
// that the path leading to the store allows:
//
//   - every slot of gl's table but those of some set X of constant indices is
//     filled by an initialiser with a non-nil value (each iteration of a loop
//     over the whole table stores, or the index is in X);
//   - at the store, the path implies that the slot holds nil, and that either
//     the index is not in X or a boolean field of the struct that gl is
//     initialised to true in is false.
func (c *Ctx) fillOnly(st *ssa.Store, gl *ssa.Global) bool {
	pt, ok := gl.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	sty, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	g := graphOf(c.P)
	// fields of gl initialised to true, and never stored elsewhere in gl.
	isTrue := map[int]bool{}
	for _, f := range append([]*ssa.Function{gl.Pkg.Func("init")}, g.fns...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				note := func(fld int, val ssa.Value) {
					k, ok := val.(*ssa.Const)
					t := ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
					if old, seen := isTrue[fld]; seen {
						t = t && old
					}
					isTrue[fld] = t
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(gl) {
					note(fa.Field, s.Val)
				}
				if s.Addr == ssa.Value(gl) {
					u, ok := s.Val.(*ssa.UnOp)
					if !ok {
						return false
					}
					al, ok := u.X.(*ssa.Alloc)
					if !ok {
						return false
					}
					for _, ref := range *al.Referrers() {
						if fa, ok := ref.(*ssa.FieldAddr); ok {
							for _, r2 := range *fa.Referrers() {
								if s2, ok := r2.(*ssa.Store); ok {
									note(fa.Field, s2.Val)
								}
							}
						}
					}
				}
			}
		}
	}
	// the table: which indices may the initialiser leave empty?
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	tab, ok := ia.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	holes, ok := c.tableHoles(gl, tab.Field)
	if !ok {
		return false
	}
	// the store, seen from its function or from each of its callers
	cls := ""
	var ok1 func(f *ssa.Function, depth int) bool
	ok1 = func(f *ssa.Function, depth int) bool {
		n := 0
		r := c.Analyze(f, &eng.Config{
			Stores:   func(*eng.Term) bool { return true },
			Interest: func(e *eng.Event) bool { return e.Instr == ssa.Instruction(st) },
			Target:   func(in ssa.Instruction, _ string) bool { return in == ssa.Instruction(st) },
		})
		good := true
		for _, e := range r.Events {
			if e.Instr != ssa.Instruction(st) {
				continue
			}
			n++

			addr := e.Args[0]
			cls = e.Name
			// A slot that was seen empty on the path: gl's slots are never
			// emptied, so it does not matter when.
			if !everFact(e.Facts, func(f *eng.Term) bool {
				return f.Op == "eq" && (f.Args[0] == eng.Nil && isLoadOf(f.Args[1], addr) || f.Args[1] == eng.Nil && isLoadOf(f.Args[0], addr))
			}) {
				good = false
				continue
			}
			if addr.Op != "elem" || len(addr.Args) < 2 {
				good = false
				continue
			}
			base, idx := addr.Args[0], addr.Args[1]
			off := false
			for i, t := range isTrue {
				if !t || base.Op != "field" {
					continue
				}
				fa := eng.FieldAddr(base.Args[0], sty, i)
				if everFact(e.Facts, func(f *eng.Term) bool { return f.Op == "not" && isLoadOf(f.Args[0], fa) }) {
					off = true
				}
			}
			if off {
				continue
			}
			for _, h := range holes {
				if !e.St.Implies(eng.Not(eng.EqInt(idx, eng.Int(h)))) {
					good = false
				}
			}
		}
		if n == 0 {
			return false
		}
		if good {
			return true
		}
		if depth == 0 || g.escapes[f] || len(g.calls[f]) == 0 {
			return false
		}
		for _, s := range g.calls[f] {
			if !ok1(s.Parent(), depth-1) {
				return false
			}
		}
		return true
	}
	good := ok1(st.Parent(), 2)
	c.Check(good, "fill-only-store", fnLabel(st.Parent())+":"+gl.Name()+" "+strings.TrimPrefix(cls, "*"), st.Pos(), "a store into a transition table is not limited to the empty slots of states other than the shared %s", gl.Name())
	return good
}

// tableHoles finds the constant indices of the table in field fld of gl that
// its initialisers may leave nil.
func (c *Ctx) tableHoles(gl *ssa.Global, fld int) ([]int64, bool) {
	for _, m := range gl.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		cand := []*ssa.Function{f}
		cand = append(cand, f.AnonFuncs...)
		for _, fn := range cand {
			hit := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
							if fa, ok := ia.X.(*ssa.FieldAddr); ok && fa.X == ssa.Value(gl) && fa.Field == fld {
								hit = true
							}
						}
					}
				}
			}
			if !hit {
				continue
			}
			if h, ok := c.loopHoles(fn, gl, fld); ok {
				return h, true
			}
		}
	}
	return nil, false
}

func (c *Ctx) loopHoles(fn *ssa.Function, gl *ssa.Global, fld int) ([]int64, bool) {
	arr, ok := structElem(gl.Type(), fld).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	fldName := gl.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fld).Name()
	isTab := func(a *eng.Term) bool {
		return a.Op == "elem" && a.Args[0].Op == "field" && a.Args[0].Aux == fldName && a.Args[0].Args[0].Op == "global" && strings.HasSuffix(a.Args[0].Args[0].Aux, gl.Name())
	}
	r := c.Analyze(fn, &eng.Config{
		Stores:   func(a *eng.Term) bool { return isTab(a) },
		Interest: func(e *eng.Event) bool { return e.Kind == "store" },
		Target:   func(in ssa.Instruction, _ string) bool { return false },
	})
	for _, l := range r.Loops {
		// the counter runs over the whole table
		for _, p := range l.Phis {
			if p.Addr != nil || !isNumeric(p.Sym.Typ) {
				continue
			}
			step := len(p.Backs) > 0
			for _, b := range p.Backs {
				if k, ok := eng.DiffConst(b, p.Sym); !ok || k != 1 {
					step = false
				}
			}
			if !step || p.Init.Op != "int" {
				continue
			}
			var holes []int64
			good := true
			for _, s := range l.Backs {
				stored := false
				var idx *eng.Term
				for _, e := range s.Events(true) {
					if e.Kind == "store" && isTab(e.Args[0]) && eng.NonNil(e.Args[1]) {
						stored = true
						idx = e.Args[0].Args[1]
					}
				}
				if stored {
					// index of this iteration: sym or sym+1 with init -1
					if k, ok := eng.DiffConst(idx, p.Sym); !ok || p.Init.K+k != 0 {
						good = false
					}
					continue
				}
				// this iteration stores nothing: which index?
				at := eng.AddK(p.Sym, -p.Init.K)
				lo, hi, a, b := s.Range(at)
				if a && b && lo == hi {
					holes = append(holes, lo)
				} else {
					good = false
				}
			}
			for _, x := range l.Exits {
				if !x.Implies(eng.Le(eng.Int(arr.Len()), eng.AddK(p.Sym, -p.Init.K))) {
					good = false
				}
			}
			if good && len(l.Backs) > 0 {
				return holes, true
			}
		}
	}
	return nil, false
}

func structElem(t types.Type, i int) types.Type {
	return t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i).Type()
}

func everFact(fs []*eng.Term, ok func(*eng.Term) bool) bool {
	for _, f := range fs {
		if ok(f) {
			return true
		}
	}
	return false
}

// isLoadOf reports whether t is the contents of addr at some time.
func isLoadOf(t, addr *eng.Term) bool {
	return t.Op == "ld" && t.Args[0] == addr
}
