package rules

import (
	"fmt"
	"strings"

	"verif/checker/eng"
)

// A bit is one bit of a value: a constant, or bit idx of a leaf term.
type bit struct {
	leaf *eng.Term // nil: constant idx
	idx  int
}

var unknownBit = bit{nil, -1}

func (b bit) isConst(v int) bool { return b.leaf == nil && b.idx == v }

// bitsOf evaluates the low n bits of t in the bit-slice domain: shifts,
// masks, ors and disjoint sums of leaves are followed bit by bit.
func bitsOf(st *eng.State, t *eng.Term, n int) []bit {
	out := make([]bit, n)
	zero := bit{nil, 0}
	set := func(f func(i int) bit) []bit {
		for i := range out {
			out[i] = f(i)
		}
		return out
	}
	width := func(t *eng.Term) int {
		if t.Typ == nil {
			return 64
		}
		w, _ := eng.Width(t.Typ)
		return w
	}
	trunc := func(w int) {
		for i := w; i < n; i++ {
			out[i] = zero
		}
	}
	switch {
	case t.Op == "int":
		return set(func(i int) bit {
			if i > 62 {
				if t.K < 0 {
					return bit{nil, 1}
				}
				return zero
			}
			return bit{nil, int(t.K >> uint(i) & 1)}
		})
	case t.Op == "shl" && t.Args[1].Op == "int":
		k := int(t.Args[1].K)
		a := bitsOf(st, t.Args[0], n)
		set(func(i int) bit {
			if i < k {
				return zero
			}
			return a[i-k]
		})
		trunc(width(t))
		return out
	case t.Op == "shr" && t.Args[1].Op == "int":
		k := int(t.Args[1].K)
		m := max(64, n+k)
		a := bitsOf(st, t.Args[0], m)
		w := width(t)
		if _, s := eng.Width(t.Typ); s {
			// arithmetic shift: the sign bits are unknown unless known zero
			return set(func(i int) bit {
				if i+k < m {
					return a[i+k]
				}
				return a[m-1]
			})
		}
		return set(func(i int) bit {
			if i+k < w && i+k < m {
				return a[i+k]
			}
			return zero
		})
	case t.Op == "and":
		all := make([][]bit, len(t.Args))
		for j, a := range t.Args {
			all[j] = bitsOf(st, a, n)
		}
		return set(func(i int) bit {
			cur := bit{nil, 1}
			for j := range all {
				b := all[j][i]
				switch {
				case cur.isConst(0) || b.isConst(0):
					cur = zero
				case cur.isConst(1) || cur == b:
					cur = b
				case b.isConst(1):
				default:
					cur = unknownBit
				}
			}
			return cur
		})
	case t.Op == "or":
		all := make([][]bit, len(t.Args))
		for j, a := range t.Args {
			all[j] = bitsOf(st, a, n)
		}
		return set(func(i int) bit { return orBits(all, i) })
	case t.Op == "andnot" && t.Args[1].Op == "int":
		a := bitsOf(st, t.Args[0], n)
		return set(func(i int) bit {
			if i < 63 && t.Args[1].K>>uint(i)&1 == 1 {
				return zero
			}
			return a[i]
		})
	case t.Op == "lin":
		// a sum of disjoint powers of two times leaves
		var all [][]bit
		for j, a := range t.Args {
			co := t.Coef[j]
			if co <= 0 || co&(co-1) != 0 {
				return set(func(i int) bit { return bit{t, i} })
			}
			k := 0
			for co > 1 {
				co >>= 1
				k++
			}
			ab := bitsOf(st, a, n)
			sh := make([]bit, n)
			for i := range sh {
				if i < k {
					sh[i] = zero
				} else {
					sh[i] = ab[i-k]
				}
			}
			all = append(all, sh)
		}
		all = append(all, bitsOf(st, eng.Int(t.K), n))
		ok := true
		for i := 0; i < n; i++ {
			nz := 0
			for j := range all {
				if !all[j][i].isConst(0) {
					nz++
				}
			}
			ok = ok && nz <= 1
		}
		if !ok {
			return set(func(i int) bit { return bit{t, i} })
		}
		return set(func(i int) bit { return orBits(all, i) })
	case t.Op == "conv":
		w := width(t)
		a := bitsOf(st, t.Args[0], max(n, w))
		_, s := eng.Width(t.Typ)
		set(func(i int) bit {
			if i < w {
				return a[i]
			}
			if s {
				return a[w-1]
			}
			return zero
		})
		return out
	case isCall(t, "(encoding/binary.bigEndian).Uint32") || isCall(t, "(encoding/binary.bigEndian).Uint64"):
	}
	// leaf
	hi := 64
	if _, h, l, hh := eng.Bounds(t); l && hh && h >= 0 {
		if lo, _, _, _ := eng.Bounds(t); lo >= 0 {
			hi = 0
			for h>>uint(hi) > 0 {
				hi++
			}
		}
	}
	if st != nil {
		if lo, h, l, hh := st.Range(t); l && hh && lo >= 0 {
			k := 0
			for h>>uint(k) > 0 {
				k++
			}
			hi = min(hi, k)
		}
		// a guard on the bits above k: values are counters, never negative
		for _, f := range st.Facts {
			f.Walk(func(x *eng.Term) bool {
				if x.Op != "shr" || x.Args[1].Op != "int" {
					return true
				}
				a, b := x.Args[0], t
				for a.Op == "conv" {
					a = a.Args[0]
				}
				for b.Op == "conv" {
					b = b.Args[0]
				}
				if a == b && st.Implies(eng.Le(x, eng.Int(0))) {
					hi = min(hi, int(x.Args[1].K))
				}
				return true
			})
		}
	}
	return set(func(i int) bit {
		if i >= hi {
			return zero
		}
		return bit{t, i}
	})
}

func orBits(all [][]bit, i int) bit {
	cur := bit{nil, 0}
	for j := range all {
		b := all[j][i]
		switch {
		case cur.isConst(1) || b.isConst(1):
			cur = bit{nil, 1}
		case cur.isConst(0) || cur == b:
			cur = b
		case b.isConst(0):
		default:
			cur = unknownBit
		}
	}
	return cur
}

// A field places width bits of leaf, from bit from, at bit at of a value.
type bitField struct {
	leaf            *eng.Term
	from, at, width int
}

// fieldsOf groups the bits of t into maximal runs of consecutive bits; ok is
// false if some bit is unknown or a constant one.
func fieldsOf(st *eng.State, t *eng.Term, n int) (out []bitField, ok bool) {
	bs := bitsOf(st, t, n)
	for i := 0; i < n; i++ {
		b := bs[i]
		if b.isConst(0) {
			continue
		}
		if b.leaf == nil {
			return nil, false
		}
		if k := len(out); k > 0 {
			l := &out[k-1]
			if l.leaf == b.leaf && l.at+l.width == i && l.from+l.width == b.idx {
				l.width++
				continue
			}
		}
		out = append(out, bitField{b.leaf, b.idx, i, 1})
	}
	return out, true
}

// fieldStr renders bit fields with the leaves named by name.
func fieldStr(fs []bitField, name func(*eng.Term) string) string {
	var ss []string
	for _, f := range fs {
		ss = append(ss, fmt.Sprintf("%s[%d:%d]@%d", name(f.leaf), f.from, f.from+f.width, f.at))
	}
	return strings.Join(ss, " ")
}
