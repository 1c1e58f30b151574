package rules

import (
	"math/bits"

	"verif/checker/eng"
)

// A space is a finite set of valuations of some leaf terms, over which
// conditions and values are evaluated exhaustively.
type space struct {
	doms [][]int64
	// leaf gives the meaning of a term: its value in a valuation, and the
	// variables that the bits in mask of it depend on.
	leaf func(t *eng.Term) *leaf
}

type leaf struct {
	get func(env []int64) int64
	sup func(mask uint64) uint
}

// variable is the leaf for variable v.
func variable(v int) *leaf {
	return &leaf{func(env []int64) int64 { return env[v] }, func(uint64) uint { return 1 << uint(v) }}
}

// A fun is a compiled term.
type fun struct {
	eval func(env []int64) int64
	sup  uint
}

// num compiles an integer (or boolean) term; nil if it depends on something
// else than the leaves.
func (s *space) num(t *eng.Term, mask uint64) *fun {
	if l := s.leaf(t); l != nil {
		return &fun{l.get, l.sup(mask)}
	}
	all := ^uint64(0)
	two := func(m0, m1 uint64, op func(a, b int64) int64) *fun {
		x, y := s.num(t.Args[0], m0), s.num(t.Args[1], m1)
		if x == nil || y == nil {
			return nil
		}
		f, g := x.eval, y.eval
		return &fun{func(e []int64) int64 { return op(f(e), g(e)) }, x.sup | y.sup}
	}
	shift := func(i int) (uint, bool) {
		return uint(t.Args[i].K), t.Args[i].Op == "int" && t.Args[i].K >= 0 && t.Args[i].K < 64
	}
	switch t.Op {
	case "int":
		k := t.K
		return &fun{func([]int64) int64 { return k }, 0}
	case "bool":
		k := int64(0)
		if t == eng.True {
			k = 1
		}
		return &fun{func([]int64) int64 { return k }, 0}
	case "lin":
		out := &fun{}
		var fs []func([]int64) int64
		for _, a := range t.Args {
			f := s.num(a, all)
			if f == nil {
				return nil
			}
			fs = append(fs, f.eval)
			out.sup |= f.sup
		}
		coef, k := t.Coef, t.K
		out.eval = func(e []int64) int64 {
			sum := k
			for i, f := range fs {
				sum += coef[i] * f(e)
			}
			return sum
		}
		return out
	case "conv":
		if !isNumeric(t.Typ) || len(t.Args) != 1 {
			return nil
		}
		w, _ := eng.Width(t.Typ)
		m := mask
		if w < 64 {
			m &= 1<<uint(w) - 1
		}
		x := s.num(t.Args[0], m)
		if x == nil {
			return nil
		}
		f, typ := x.eval, t.Typ
		return &fun{func(e []int64) int64 { return truncTo(f(e), typ) }, x.sup}
	case "quo":
		return two(all, all, func(a, b int64) int64 {
			if b == 0 {
				return 0
			}
			return a / b
		})
	case "min", "max":
		if len(t.Args) != 2 {
			return nil
		}
		least := t.Op == "min"
		return two(all, all, func(a, b int64) int64 {
			if least == (a < b) {
				return a
			}
			return b
		})
	case "and", "or", "xor", "mul":
		if len(t.Args) > 2 {
			// associative
			m := mask
			if t.Op == "mul" {
				m = all
			}
			out := &fun{}
			var fs []func([]int64) int64
			for _, a := range t.Args {
				f := s.num(a, m)
				if f == nil {
					return nil
				}
				fs = append(fs, f.eval)
				out.sup |= f.sup
			}
			op := t.Op
			out.eval = func(e []int64) int64 {
				v := fs[0](e)
				for _, f := range fs[1:] {
					switch w := f(e); op {
					case "and":
						v &= w
					case "or":
						v |= w
					case "xor":
						v ^= w
					case "mul":
						v *= w
					}
				}
				return v
			}
			return out
		}
	}
	switch t.Op {
	case "and":
		m0, m1 := mask, mask
		if t.Args[1].Op == "int" {
			m0 &= uint64(t.Args[1].K)
		}
		if t.Args[0].Op == "int" {
			m1 &= uint64(t.Args[0].K)
		}
		return two(m0, m1, func(a, b int64) int64 { return a & b })
	case "or":
		return two(mask, mask, func(a, b int64) int64 { return a | b })
	case "xor":
		return two(mask, mask, func(a, b int64) int64 { return a ^ b })
	case "andnot":
		m0 := mask
		if t.Args[1].Op == "int" {
			m0 &^= uint64(t.Args[1].K)
		}
		return two(m0, mask, func(a, b int64) int64 { return a &^ b })
	case "shr":
		if k, ok := shift(1); ok {
			m := mask << k
			if bits.LeadingZeros64(mask) == 0 {
				m = ^uint64(0) << k
			}
			return two(m, 0, func(a, b int64) int64 { return a >> uint(b) })
		}
		return two(all, all, func(a, b int64) int64 { return a >> uint(b&63) })
	case "shl":
		if k, ok := shift(1); ok {
			return two(mask>>k, 0, func(a, b int64) int64 { return a << uint(b) })
		}
		return two(all, all, func(a, b int64) int64 { return a << uint(b&63) })
	case "mul":
		return two(all, all, func(a, b int64) int64 { return a * b })
	case "not", "le", "eq0", "eq":
		return s.cond(t)
	}
	return nil
}

// cond compiles a condition (0 or 1).
func (s *space) cond(t *eng.Term) *fun {
	if l := s.leaf(t); l != nil {
		return &fun{l.get, l.sup(^uint64(0))}
	}
	b := func(v bool) int64 {
		if v {
			return 1
		}
		return 0
	}
	switch t.Op {
	case "not":
		x := s.cond(t.Args[0])
		if x == nil {
			return nil
		}
		f := x.eval
		return &fun{func(e []int64) int64 { return 1 - f(e) }, x.sup}
	case "le", "eq0":
		m := ^uint64(0)
		x := s.num(t.Args[0], m)
		if x == nil {
			return nil
		}
		f := x.eval
		if t.Op == "le" {
			return &fun{func(e []int64) int64 { return b(f(e) <= 0) }, x.sup}
		}
		return &fun{func(e []int64) int64 { return b(f(e) == 0) }, x.sup}
	case "eq":
		x, y := s.num(t.Args[0], ^uint64(0)), s.num(t.Args[1], ^uint64(0))
		if x == nil || y == nil {
			return nil
		}
		f, g := x.eval, y.eval
		return &fun{func(e []int64) int64 { return b(f(e) == g(e)) }, x.sup | y.sup}
	case "bool":
		return s.num(t, 1)
	}
	return nil
}

// guard compiles the facts of a path that can be evaluated; some is false
// when a fact about the leaves could not be.
func (s *space) guard(facts []*eng.Term) (out []*fun, blind []*eng.Term) {
	for _, f := range facts {
		if g := s.cond(f); g != nil {
			out = append(out, g)
			continue
		}
		touches := false
		f.Walk(func(x *eng.Term) bool {
			if s.leaf(x) != nil {
				touches = true
			}
			return !touches && x.Op != "call"
		})
		if touches {
			blind = append(blind, f)
		}
	}
	return
}

// each visits valuations: it assigns the variables in order, keeps the paths
// whose conditions hold so far, and calls visit when neither a condition of a
// path that is left nor the caller (need) depends on the rest.
func (s *space) each(paths [][]*fun, need func(env []int64, assigned uint) bool, visit func(env []int64, alive []int) bool) {
	env := make([]int64, len(s.doms))
	var rec func(v int, alive []int, assigned uint) bool
	rec = func(v int, alive []int, assigned uint) bool {
		if v > 0 {
			var keep []int
			last := uint(1) << uint(v-1)
			for _, i := range alive {
				ok := true
				for _, f := range paths[i] {
					if f.sup&^assigned == 0 && (f.sup&last != 0 || v == 1) && f.eval(env) == 0 {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, i)
				}
			}
			alive = keep
		}
		more := v < len(s.doms) && need(env, assigned)
		for _, i := range alive {
			for _, f := range paths[i] {
				if f.sup&^assigned != 0 {
					more = true
				}
			}
		}
		if !more || v == len(s.doms) {
			return visit(env, alive)
		}
		for _, x := range s.doms[v] {
			env[v] = x
			if !rec(v+1, alive, assigned|1<<uint(v)) {
				return false
			}
		}
		env[v] = s.doms[v][0]
		return true
	}
	var all []int
	for i := range paths {
		all = append(all, i)
	}
	for v := range s.doms {
		env[v] = s.doms[v][0]
	}
	rec(0, all, 0)
}

func upto(lo, hi int64) (out []int64) {
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return
}
