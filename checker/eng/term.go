// Package eng is an interprocedural, path-sensitive abstract interpreter
// ("property simulation") over the SSA form of a Go program.
//
// The abstract domain is a value-numbering domain: every SSA value is mapped
// to a hash-consed term, integers are kept in linear normal form, memory is a
// map from address terms to value terms, and each abstract state carries the
// branch conditions it passed (a conjunction of literals decided by interval
// and pairwise linear reasoning; no solver is involved).  Loops are analysed
// to a fixpoint: everything a loop changes becomes a phi symbol, candidate
// loop invariants are kept only if they are inductive, and the recurrences of
// the phi symbols are recorded for the rules to inspect.
package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed symbolic value.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Coef []int64 // Op "lin": coefficients of Args
	K    int64   // Op "int": value; Op "lin": constant
	fac  bool
}

var (
	terms   = map[string]*Term{}
	termSeq int
)

func key(op, aux string, k int64, coef []int64, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	b.WriteByte('|')
	if k != 0 {
		b.WriteString(strconv.FormatInt(k, 36))
	}
	for i, a := range args {
		b.WriteByte(',')
		if coef != nil {
			b.WriteString(strconv.FormatInt(coef[i], 36))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}

func intern(op, aux string, typ types.Type, k int64, coef []int64, args []*Term) *Term {
	kk := key(op, aux, k, coef, args)
	if (op == "sym" || op == "alloc") && typ != nil {
		kk += "|" + types.TypeString(typ, nil)
	}
	if t := terms[kk]; t != nil {
		return t
	}
	termSeq++
	t := &Term{ID: termSeq, Op: op, Aux: aux, Args: args, Typ: typ, Coef: coef, K: k}
	terms[kk] = t
	return t
}

// Mk returns the term op[aux](args...).
func Mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return intern(op, aux, typ, 0, nil, args)
}

// Sym returns a named symbol.
func Sym(name string, typ types.Type) *Term { return Mk("sym", name, typ) }

// Int returns an integer constant.
func Int(k int64) *Term { return intern("int", "", types.Typ[types.Int], k, nil, nil) }

// Str returns a string constant.
func Str(s string) *Term { return Mk("str", s, types.Typ[types.String]) }

// Nil is the nil value of every type.
var Nil = Mk("nil", "", types.Typ[types.UntypedNil])

var (
	True  = Mk("bool", "true", types.Typ[types.Bool])
	False = Mk("bool", "false", types.Typ[types.Bool])
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) IsInt() bool { return t.Op == "int" }
func (t *Term) IsConst() bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "nil" || t.Op == "bool" || t.Op == "const"
}

// String renders t for reports.
func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.K, 10)
	case "str":
		return strconv.Quote(t.Aux)
	case "nil":
		return "nil"
	case "bool", "const":
		return t.Aux
	case "sym":
		return t.Aux
	case "phi":
		return t.Aux
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "elem":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "ld":
		return "*" + t.Args[0].str(d+1)
	case "lin":
		var b strings.Builder
		for i, a := range t.Args {
			c := t.Coef[i]
			switch {
			case c == 1 && i > 0:
				b.WriteString("+")
			case c == -1:
				b.WriteString("-")
			case c != 1:
				fmt.Fprintf(&b, "%+d*", c)
			}
			b.WriteString(a.str(d + 1))
		}
		if t.K != 0 {
			fmt.Fprintf(&b, "%+d", t.K)
		}
		return b.String()
	case "le":
		return "(" + t.Args[0].str(d+1) + " <= 0)"
	case "eq0":
		return "(" + t.Args[0].str(d+1) + " == 0)"
	case "eq":
		return "(" + t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1) + ")"
	case "not":
		return "!" + t.Args[0].str(d+1)
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	if len(t.Args) > 0 {
		var as []string
		for _, a := range t.Args {
			if a.Op == "ver" {
				continue
			}
			as = append(as, a.str(d+1))
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

// ---- linear arithmetic

type linForm struct {
	m map[*Term]int64
	k int64
}

func toLin(t *Term) linForm {
	switch t.Op {
	case "int":
		return linForm{nil, t.K}
	case "lin":
		m := make(map[*Term]int64, len(t.Args))
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return linForm{m, t.K}
	}
	return linForm{map[*Term]int64{t: 1}, 0}
}

func fromLin(l linForm) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return Int(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.m[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return intern("lin", "", types.Typ[types.Int], l.k, cs, as)
}

type combKey struct {
	a, b   *Term
	ca, cb int64
}

var combMemo = map[combKey]*Term{}

func combine(a *Term, ca int64, b *Term, cb int64) *Term {
	k := combKey{a, b, ca, cb}
	if t := combMemo[k]; t != nil {
		return t
	}
	t := combine1(a, ca, b, cb)
	combMemo[k] = t
	return t
}

func combine1(a *Term, ca int64, b *Term, cb int64) *Term {
	la, lb := toLin(a), toLin(b)
	m := map[*Term]int64{}
	for t, c := range la.m {
		m[t] += c * ca
	}
	for t, c := range lb.m {
		m[t] += c * cb
	}
	return fromLin(linForm{m, la.k*ca + lb.k*cb})
}

func Add(a, b *Term) *Term         { return combine(a, 1, b, 1) }
func Sub(a, b *Term) *Term         { return combine(a, 1, b, -1) }
func AddK(a *Term, k int64) *Term  { return combine(a, 1, Int(k), 1) }
func MulK(a *Term, k int64) *Term  { return combine(a, k, Int(0), 0) }
func Scale(a *Term, k int64) *Term { return MulK(a, k) }

// DiffConst reports whether a-b is a constant, and which.
func DiffConst(a, b *Term) (int64, bool) {
	d := Sub(a, b)
	if d.Op == "int" {
		return d.K, true
	}
	return 0, false
}

// ---- boolean literals

// Le returns the literal a <= b.
func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return Bool(d.K <= 0)
	}
	return Mk("le", "", types.Typ[types.Bool], d)
}

// Lt returns the literal a < b.
func Lt(a, b *Term) *Term { return Le(AddK(a, 1), b) }

// EqInt returns the literal a == b on integers.
func EqInt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == "int" {
		return Bool(d.K == 0)
	}
	// normalise sign: first coefficient positive
	if d.Op == "lin" && d.Coef[0] < 0 {
		d = MulK(d, -1)
	}
	return Mk("eq0", "", types.Typ[types.Bool], d)
}

// Eq returns the literal a == b on values of typ.
func Eq(a, b *Term, typ types.Type) *Term {
	if isInteger(typ) {
		return EqInt(a, b)
	}
	if a == b {
		return True
	}
	if isBoolean(typ) {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == 1 && len(b.Args) == 1 {
		return Eq(a.Args[0], b.Args[0], structField(typ, 0))
	}
	if a.IsConst() && b.IsConst() {
		return False // distinct interned constants
	}
	// slices and strings: s == "" is len(s) == 0
	if a.Op == "str" && b.Op == "cat" {
		a, b = b, a
	}
	if a.Op == "cat" && b.Op == "str" && a.Args[0].Op == "str" {
		if !strings.HasPrefix(b.Aux, a.Args[0].Aux) {
			return False
		}
		rest := a.Args[1]
		if len(a.Args) > 2 {
			rest = Mk("cat", "", a.Typ, a.Args[1:]...)
		}
		return Eq(rest, Str(b.Aux[len(a.Args[0].Aux):]), typ)
	}
	if isString(typ) {
		if a.Op == "str" && a.Aux == "" {
			return EqInt(Len(b), Int(0))
		}
		if b.Op == "str" && b.Aux == "" {
			return EqInt(Len(a), Int(0))
		}
	}
	if NonNil(a) && b == Nil || NonNil(b) && a == Nil {
		return False
	}
	if a.Op == "field" && b.Op == "field" && a.Args[0] == b.Args[0] && a.Aux != b.Aux {
		return False // different fields of one object
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return Mk("eq", "", types.Typ[types.Bool], a, b)
}

func structField(t types.Type, i int) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return types.Typ[types.Int]
}

// Not negates a boolean term.
func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.Op == "not":
		return t.Args[0]
	case t.Op == "le":
		// !(L <= 0) is 1-L <= 0
		d := combine(t.Args[0], -1, Int(1), 1)
		if d.Op == "int" {
			return Bool(d.K <= 0)
		}
		return Mk("le", "", types.Typ[types.Bool], d)
	}
	return Mk("not", "", types.Typ[types.Bool], t)
}

// NonNil reports whether t is known not to be nil.
func NonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "field", "elem", "global", "closure", "func", "iface", "makeslice", "makemap", "str":
		return true
	case "append":
		return len(t.Args) > 1 && t.Aux == "elems"
	case "slice":
		return NonNil(t.Args[0])
	case "call":
		return strings.HasPrefix(t.Aux, "fmt.Errorf") || strings.HasPrefix(t.Aux, "errors.New")
	}
	return false
}

// ---- lengths

// Len returns the length of a slice, string or array value.
func Len(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Int(0)
	case "str":
		return Int(int64(len(t.Aux)))
	case "slice": // base lo hi
		return Sub(t.Args[2], t.Args[1])
	case "makeslice":
		return t.Args[0]
	case "append":
		if t.Aux == "elems" {
			return AddK(Len(t.Args[0]), int64(len(t.Args)-1))
		}
		return Add(Len(t.Args[0]), Len(t.Args[1]))
	case "cat":
		s := Int(0)
		for _, a := range t.Args {
			s = Add(s, Len(a))
		}
		return s
	case "convstr":
		// string <-> []byte preserve length (not for []rune)
		if t.Aux == "bytes" {
			return Len(t.Args[0])
		}
	case "alloc", "field":
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return Int(a.Len())
			}
		}
	}
	if t.Typ != nil {
		u := t.Typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return Mk("len", "", types.Typ[types.Int], t)
}

// Cap returns the capacity of a slice value.
func Cap(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Int(0)
	case "makeslice":
		return t.Args[1]
	case "slice":
		if len(t.Args) == 4 {
			return Sub(t.Args[3], t.Args[1])
		}
		return Sub(Cap(t.Args[0]), t.Args[1])
	}
	if t.Typ != nil {
		u := t.Typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return Mk("cap", "", types.Typ[types.Int], t)
}

// Slice returns base[lo:hi], normalising nested slices.
func Slice(base, lo, hi, max *Term, typ types.Type) *Term {
	if base.Op == "nil" {
		return Nil
	}
	if base.Op == "slice" {
		off := base.Args[1]
		lo = Add(lo, off)
		hi = Add(hi, off)
		if max != nil {
			max = Add(max, off)
		} else if len(base.Args) == 4 {
			max = base.Args[3]
		}
		base = base.Args[0]
	}
	if max == nil && lo.Op == "int" && lo.K == 0 && hi == Len(base) && !isArrayPtr(base) {
		return base
	}
	args := []*Term{base, lo, hi}
	if max != nil {
		args = append(args, max)
	}
	return Mk("slice", "", typ, args...)
}

func isArrayPtr(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// Elem returns the address of base[i].
func Elem(base, i *Term, typ types.Type) *Term {
	if base.Op == "slice" {
		i = Add(i, base.Args[1])
		base = base.Args[0]
	}
	return Mk("elem", "", typ, base, i)
}

// Cat concatenates strings.
func Cat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == "str" && t.Aux == "" {
			return
		}
		if n := len(parts); n > 0 && parts[n-1].Op == "str" && t.Op == "str" {
			parts[n-1] = Str(parts[n-1].Aux + t.Aux)
			return
		}
		parts = append(parts, t)
	}
	for _, t := range []*Term{a, b} {
		if t.Op == "cat" {
			for _, x := range t.Args {
				add(x)
			}
		} else {
			add(t)
		}
	}
	if len(parts) == 0 {
		return Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return Mk("cat", "", types.Typ[types.String], parts...)
}

// ---- types

func basicInfo(t types.Type) types.BasicInfo {
	if t == nil {
		return 0
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func isInteger(t types.Type) bool  { return basicInfo(t)&types.IsInteger != 0 }
func isUnsigned(t types.Type) bool { return basicInfo(t)&types.IsUnsigned != 0 }
func isBoolean(t types.Type) bool  { return basicInfo(t)&types.IsBoolean != 0 }
func isString(t types.Type) bool   { return basicInfo(t)&types.IsString != 0 }

// Width returns the size in bits and signedness of an integer type
// (64-bit platform).
func Width(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// Bounds returns the a-priori range of an atom (ok flags for each side).
func Bounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch t.Op {
	case "int":
		return t.K, t.K, true, true
	case "len", "cap":
		return 0, 0, true, false
	case "and":
		if k := t.Args[1]; k.Op == "int" && k.K >= 0 {
			return 0, k.K, true, true
		}
	case "rem":
		if k := t.Args[1]; k.Op == "int" && k.K > 0 && t.Typ != nil && isUnsigned(t.Typ) {
			return 0, k.K - 1, true, true
		}
	case "shr":
		if t.Typ != nil && isUnsigned(t.Typ) {
			if k := t.Args[1]; k.Op == "int" {
				w, _ := Width(t.Typ)
				if w-int(k.K) < 63 && w > int(k.K) {
					return 0, 1<<uint(w-int(k.K)) - 1, true, true
				}
			}
			return 0, 0, true, false
		}
	case "ver":
		return 0, 0, false, false
	case "call":
		if isIndex(t) {
			return -1, 0, true, false
		}
	}
	if t.Typ != nil && isInteger(t.Typ) {
		w, s := Width(t.Typ)
		if !s {
			if w < 63 {
				return 0, 1<<uint(w) - 1, true, true
			}
			return 0, 0, true, false
		}
		if w < 64 {
			return -(1 << uint(w-1)), 1<<uint(w-1) - 1, true, true
		}
	}
	return 0, 0, false, false
}

// Bin builds a binary integer operation of result type typ.
func Bin(op token.Token, a, b *Term, typ types.Type) *Term {
	if isString(typ) && op == token.ADD {
		return Cat(a, b)
	}
	if !isInteger(typ) {
		return Mk("bin", op.String(), typ, a, b)
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		if a.Op == "int" {
			return MulK(b, a.K)
		}
		if b.Op == "int" {
			return MulK(a, b.K)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return Mk("mul", "", typ, a, b)
	case token.SHL:
		if b.Op == "int" && b.K >= 0 && b.K < 63 {
			if a.Op == "int" {
				w, _ := Width(typ)
				if v := a.K << uint(b.K); w == 64 && v>>uint(b.K) == a.K {
					return Int(v)
				} else if w < 64 {
					return truncConst(v, typ)
				}
			}
			if b.K == 0 {
				return a
			}
		}
		return Mk("shl", typeName(typ), typ, a, b)
	case token.SHR:
		if b.Op == "int" {
			if a.Op == "int" && b.K < 64 {
				return Int(a.K >> uint(b.K))
			}
			if b.K == 0 {
				return a
			}
			if a.Op == "shr" && a.Args[1].Op == "int" {
				return Mk("shr", "", typ, a.Args[0], Int(a.Args[1].K+b.K))
			}
		}
		return Mk("shr", "", typ, a, b)
	case token.AND:
		if a.Op == "int" && b.Op == "int" {
			return Int(a.K & b.K)
		}
		if a.Op == "int" {
			a, b = b, a
		}
		if b.Op == "int" {
			if b.K == 0 {
				return Int(0)
			}
			if a.Op == "and" && a.Args[1].Op == "int" {
				return Mk("and", "", typ, a.Args[0], Int(a.Args[1].K&b.K))
			}
			// mask that keeps everything of a small value
			if lo, hi, l, h := Bounds(a); l && h && lo >= 0 && b.K&(b.K+1) == 0 && hi <= b.K {
				return a
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
		return Mk("and", "", typ, a, b)
	case token.OR:
		if a.Op == "int" && b.Op == "int" {
			return Int(a.K | b.K)
		}
		if a.Op == "int" && a.K == 0 {
			return b
		}
		if b.Op == "int" && b.K == 0 {
			return a
		}
		return assoc("or", typ, a, b)
	case token.XOR:
		if a.Op == "int" && b.Op == "int" {
			return Int(a.K ^ b.K)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return Mk("xor", "", typ, a, b)
	case token.AND_NOT:
		if a.Op == "int" && b.Op == "int" {
			return Int(a.K &^ b.K)
		}
		if b.Op == "int" && b.K == 0 {
			return a
		}
		return Mk("andnot", "", typ, a, b)
	case token.QUO:
		if a.Op == "int" && b.Op == "int" && b.K != 0 {
			return Int(a.K / b.K)
		}
		if b.Op == "int" && b.K == 1 {
			return a
		}
		return Mk("quo", "", typ, a, b)
	case token.REM:
		if a.Op == "int" && b.Op == "int" && b.K != 0 {
			return Int(a.K % b.K)
		}
		return Mk("rem", "", typ, a, b)
	}
	return Mk("bin", op.String(), typ, a, b)
}

// assoc builds an associative, commutative, idempotent operation.
func assoc(op string, typ types.Type, a, b *Term) *Term {
	set := map[*Term]bool{}
	var k int64
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == op {
			for _, x := range t.Args {
				add(x)
			}
			return
		}
		if t.Op == "int" {
			k |= t.K
			return
		}
		set[t] = true
	}
	add(a)
	add(b)
	var as []*Term
	for t := range set {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if k != 0 {
		as = append(as, Int(k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return Mk(op, "", typ, as...)
}

func typeName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return types.TypeString(t, nil)
}

func truncConst(v int64, typ types.Type) *Term {
	w, s := Width(typ)
	if w == 64 {
		return Int(v)
	}
	u := uint64(v) & (1<<uint(w) - 1)
	if s && u>>(uint(w)-1) != 0 {
		return Int(int64(u) - 1<<uint(w))
	}
	return Int(int64(u))
}

// Conv builds the integer conversion of t (of type from) to type to.
func Conv(t *Term, from, to types.Type) *Term {
	if t.Op == "int" {
		if w, s := Width(to); !s && w == 64 && t.K < 0 {
			return Mk("const", "uint64:"+strconv.FormatUint(uint64(t.K), 10), to)
		}
		return truncConst(t.K, to)
	}
	fw, fs := Width(from)
	tw, ts := Width(to)
	if tw >= fw && fs == ts || tw > fw && !fs {
		return t // value preserving
	}
	// value-preserving because of known range
	if lo, hi, l, h := Bounds(t); l && lo >= 0 && h {
		max := int64(1)<<uint(min(tw, 63)-boolInt(ts)) - 1
		if tw == 64 {
			max = 1<<63 - 1
		}
		if hi <= max {
			return t
		}
	}
	if t.Op == "len" || t.Op == "cap" {
		if tw == 64 {
			return t
		}
	}
	// conv of conv
	if t.Op == "conv" && tw <= fw && t.Typ != nil {
		return Mk("conv", typeName(to.Underlying()), to, t.Args[0])
	}
	return Mk("conv", typeName(to.Underlying()), to, t)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Walk calls f for t and all its subterms until f returns false.
func (t *Term) Walk(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if !f(x) {
			return false
		}
		for _, a := range x.Args {
			if !w(a) {
				return false
			}
		}
		return true
	}
	return w(t)
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	found := false
	t.Walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// Any reports whether some subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	found := false
	t.Walk(func(y *Term) bool {
		if f(y) {
			found = true
		}
		return !found
	})
	return found
}
