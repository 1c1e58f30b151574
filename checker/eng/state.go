package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A State is one abstract state: a set of concrete states.
type State struct {
	env    map[ssa.Value]*Term // current frame
	heap   map[*Term]*Term     // address -> value
	ver    map[string]*Term    // memory class -> version (absent: initial)
	dirty  map[*Term]bool      // fresh objects with unknown contents
	Facts  []*Term             // literals that hold
	Auto   string              // state of the rule's automaton
	hist   *Hist
	defers []*deferred
	dead   bool
}

// Hist is the path that led to a state, newest first.
type Hist struct {
	Prev *Hist
	Ev   *Event // an event, or
	Loop *Loop  // a summarised loop (entered and left), or
	Mark *Loop  // the start of an iteration of this loop, or
	Left *Loop  // the end of the last one
	n    int
	key  string
}

type deferred struct {
	fn     *Term
	call   ssa.CallInstruction
	args   []*Term
	callee *ssa.Function
	fr     *frame
}

// An Event is an occurrence of a construct of interest on a path.
type Event struct {
	Kind     string // "call", "store", "append", "go", "panic", "return", "copy", "mapupdate", "index"
	Name     string // callee's full name, or address class
	Instr    ssa.Instruction
	Fn       *ssa.Function // function containing the construct
	Ctx      string        // call path
	Args     []*Term
	Res      *Term // result, for calls (tuple: use Extract)
	Facts    []*Term
	St       *State // snapshot before the event (heap shared copy)
	Orig     *Event // the history's copy of a recorded event
	Callback *Loop  // callback invocations, if the call takes a closure
	Pure     bool   // the call changes nothing
}

// Result returns the i'th result of a call event.
func (e *Event) Result(i int) *Term { return Extract(e.Res, i, nil) }

// Extract returns component i of a tuple.
func Extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	if typ == nil && t.Typ != nil {
		if tt, ok := t.Typ.(*types.Tuple); ok && i < tt.Len() {
			typ = tt.At(i).Type()
		} else if !ok && i == 0 {
			return t
		}
	}
	return Mk("extract", fmt.Sprint(i), typ, t)
}

func (s *State) clone() *State {
	n := &State{Auto: s.Auto, hist: s.hist, Facts: s.Facts[:len(s.Facts):len(s.Facts)]}
	n.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[*Term]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ver = make(map[string]*Term, len(s.ver)+4)
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.dirty = make(map[*Term]bool, len(s.dirty))
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

// ---- facts

// Assume adds the literal c and reports whether the state is still feasible.
func (s *State) Assume(c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	switch s.Decide(c) {
	case True:
		// still record: rules look for literals, but avoid duplicates
		for _, f := range s.Facts {
			if f == c {
				return true
			}
		}
		s.Facts = append(s.Facts, c)
		return true
	case False:
		return false
	}
	s.Facts = append(s.Facts, c)
	if c.Op == "eq0" && c.Args[0].Op == "or" {
		for _, x := range c.Args[0].Args {
			if !s.Assume(EqInt(x, Int(0))) {
				return false
			}
		}
	}
	// strengthen: L <= 0 and L != 0 gives L+1 <= 0
	if c.Op == "not" && c.Args[0].Op == "eq0" {
		d := c.Args[0].Args[0]
		if s.leZero(d) {
			s.Facts = append(s.Facts, Le(AddK(d, 1), Int(0)))
		} else if s.leZero(MulK(d, -1)) {
			s.Facts = append(s.Facts, Le(AddK(MulK(d, -1), 1), Int(0)))
		}
	}
	if c.Op == "le" {
		d := c.Args[0]
		for _, f := range s.Facts {
			if f.Op == "not" && f.Args[0].Op == "eq0" {
				e := f.Args[0].Args[0]
				if e == d || e == MulK(d, -1) {
					s.Facts = append(s.Facts, Le(AddK(d, 1), Int(0)))
					break
				}
			}
		}
	}
	return true
}

// Decide returns True, False or nil (unknown) for the literal c.
func (s *State) Decide(c *Term) *Term {
	switch {
	case c == True, c == False:
		return c
	}
	if c.Op == "not" {
		switch s.Decide(c.Args[0]) {
		case True:
			return False
		case False:
			return True
		}
		return nil
	}
	switch c.Op {
	case "le":
		if s.leZero(c.Args[0]) {
			return True
		}
		n := Not(c)
		if n.Op == "le" && s.leZero(n.Args[0]) {
			return False
		}
		return nil
	case "eq0":
		d := c.Args[0]
		for _, f := range s.Facts {
			if f == c {
				return True
			}
			if f.Op == "not" && f.Args[0] == c {
				return False
			}
		}
		if s.leZero(AddK(d, 1)) || s.leZero(AddK(MulK(d, -1), 1)) {
			return False
		}
		if s.leZero(d) && s.leZero(MulK(d, -1)) {
			return True
		}
		// a known difference, up to something known to be zero
		for _, f := range s.Facts {
			if f.Op != "not" || f.Args[0].Op != "eq0" || !shareAtom(f.Args[0].Args[0], d) {
				continue
			}
			for _, x := range []*Term{Sub(d, f.Args[0].Args[0]), Add(d, f.Args[0].Args[0])} {
				if len(Atoms(x)) <= 2 && s.leZero(x) && s.leZero(MulK(x, -1)) {
					return False
				}
			}
		}
		return nil
	case "eq":
		for _, f := range s.Facts {
			if f == c {
				return True
			}
			if f.Op == "not" && f.Args[0] == c {
				return False
			}
		}
		a, b := c.Args[0], c.Args[1]
		if b.IsConst() {
			a, b = b, a
		}
		if a.IsConst() {
			// b equal to another constant?
			for _, f := range s.Facts {
				if f.Op == "eq" {
					x, y := f.Args[0], f.Args[1]
					if x == b && (y.IsConst() || a == Nil && NonNil(y)) || y == b && (x.IsConst() || a == Nil && NonNil(x)) {
						return False
					}
				}
			}
		}
		return nil
	}
	for _, f := range s.Facts {
		if f == c {
			return True
		}
		if f.Op == "not" && f.Args[0] == c {
			return False
		}
	}
	return nil
}

func shareAtom(a, b *Term) bool {
	for _, x := range Atoms(a) {
		for _, y := range Atoms(b) {
			if x == y {
				return true
			}
		}
	}
	return false
}

// Implies reports whether the state implies the literal c.
func (s *State) Implies(c *Term) bool { return s.Decide(c) == True }

// linFacts lists the linear forms known to be <= 0.
func (s *State) linFacts() []*Term {
	var out []*Term
	for _, f := range s.Facts {
		switch f.Op {
		case "le":
			out = append(out, f.Args[0])
		case "eq0":
			out = append(out, f.Args[0], MulK(f.Args[0], -1))
		}
	}
	return out
}

type bound struct {
	lo, hi       int64
	hasLo, hasHi bool
}

const inf = int64(1) << 62

// bounds of an atom from a-priori range and single-atom facts.
func (s *State) atomBounds(a *Term, lf []*Term) bound {
	var b bound
	b.lo, b.hi, b.hasLo, b.hasHi = Bounds(a)
	switch a.Op {
	case "min", "max":
		if b.hasLo || len(a.Args) != 2 {
			break
		}
		// at least the least lower bound (for max: the greatest)
		x, okx := s.upper(MulK(a.Args[0], -1), lf)
		y, oky := s.upper(MulK(a.Args[1], -1), lf)
		switch {
		case okx && oky && a.Op == "min":
			b.lo, b.hasLo = min(-x, -y), true
		case okx && oky:
			b.lo, b.hasLo = max(-x, -y), true
		case okx && a.Op == "max":
			b.lo, b.hasLo = -x, true
		case oky && a.Op == "max":
			b.lo, b.hasLo = -y, true
		}
	case "rem", "quo":
		if k := a.Args[1]; !b.hasLo && k.Op == "int" && k.K > 0 {
			if x, ok := s.upper(MulK(a.Args[0], -1), lf); ok && x <= 0 {
				b.lo, b.hasLo = 0, true
				if a.Op == "rem" {
					b.hi, b.hasHi = k.K-1, true
				}
			}
		}
	}
	for _, f := range lf {
		if f == a { // a <= 0
			if !b.hasHi || b.hi > 0 {
				b.hi, b.hasHi = 0, true
			}
		} else if f.Op == "lin" && len(f.Args) == 1 && f.Args[0] == a {
			c, k := f.Coef[0], f.K
			// c*a + k <= 0
			if c > 0 {
				v := floorDiv(-k, c)
				if !b.hasHi || v < b.hi {
					b.hi, b.hasHi = v, true
				}
			} else {
				v := ceilDiv(k, -c)
				if !b.hasLo || v > b.lo {
					b.lo, b.hasLo = v, true
				}
			}
		}
	}
	return b
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// Range returns the known interval of the integer term t.
func (s *State) Range(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	lf := s.linFacts()
	h, okh := s.upper(t, lf)
	l, okl := s.upper(MulK(t, -1), lf)
	return -l, h, okl, okh
}

// upper computes an interval upper bound of the linear term t.
func (s *State) upper(t *Term, lf []*Term) (int64, bool) {
	switch t.Op {
	case "int":
		return t.K, true
	case "lin":
		sum := t.K
		for i, a := range t.Args {
			b := s.atomBounds(a, lf)
			if t.Coef[i] > 0 {
				if !b.hasHi {
					return 0, false
				}
				sum += t.Coef[i] * b.hi
			} else {
				if !b.hasLo {
					return 0, false
				}
				sum += t.Coef[i] * b.lo
			}
		}
		return sum, true
	}
	b := s.atomBounds(t, lf)
	return b.hi, b.hasHi
}

// leZero reports whether t <= 0 is implied.
func (s *State) leZero(t *Term) bool {
	if t.Op == "int" {
		return t.K <= 0
	}
	lf := s.linFacts()
	if u, ok := s.upper(t, lf); ok && u <= 0 {
		return true
	}
	for _, a := range atoms(t) {
		// the index of a byte is less than the length
		if isIndex(a) {
			lf = append(lf, AddK(Sub(a, Len(a.Args[0])), 1))
		}
	}
	// t = f + r, f <= 0: prove r <= 0; also two facts.
	share := func(a, b *Term) bool {
		for _, x := range atoms(a) {
			for _, y := range atoms(b) {
				if x == y {
					return true
				}
			}
		}
		return false
	}
	var rel []*Term
	for _, f := range lf {
		if share(f, t) {
			rel = append(rel, f)
		}
	}
	for _, f := range rel {
		r := Sub(t, f)
		if u, ok := s.upper(r, lf); ok && u <= 0 {
			return true
		}
		if r.Op == "int" {
			continue
		}
		for _, g := range lf {
			if g == f || !share(g, r) {
				continue
			}
			r2 := Sub(r, g)
			if len(atoms(r2)) > len(atoms(r)) {
				continue
			}
			if u, ok := s.upper(r2, lf); ok && u <= 0 {
				return true
			}
			if r2.Op == "int" || len(lf) > 60 {
				continue
			}
			for _, h := range lf {
				if h == f || h == g || !share(h, r2) {
					continue
				}
				r3 := Sub(r2, h)
				if len(atoms(r3)) > len(atoms(r2)) {
					continue
				}
				if u, ok := s.upper(r3, lf); ok && u <= 0 {
					return true
				}
			}
		}
	}
	return false
}

// isIndex reports whether t is the index of a byte in a sequence, or -1.
func isIndex(t *Term) bool {
	if t.Op != "call" || len(t.Args) < 2 {
		return false
	}
	switch t.Aux {
	case "bytes.IndexByte", "bytes.LastIndexByte", "strings.IndexByte", "strings.LastIndexByte":
		return true
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		return t.Args[1].Op == "str" && t.Args[1].Aux != ""
	}
	return false
}

func atoms(t *Term) []*Term {
	switch t.Op {
	case "int":
		return nil
	case "lin":
		return t.Args
	}
	return []*Term{t}
}

// ---- memory

// class returns the memory class of an address.
func class(addr *Term) string {
	switch addr.Op {
	case "field":
		return "F:" + addr.Args[0].typStr() + "." + addr.Aux
	case "elem":
		if p, ok := ptrElem(addr.Typ); ok {
			return "E:" + types.TypeString(p, nil)
		}
		return "E:?"
	case "global":
		return "G:" + addr.Aux
	}
	if p, ok := ptrElem(addr.Typ); ok {
		return "P:" + types.TypeString(p, nil)
	}
	return "P:?"
}

func (t *Term) typStr() string {
	if p, ok := ptrElem(t.Typ); ok {
		return types.TypeString(p, nil)
	}
	return "?"
}

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// Root strips field and element selections.
func Root(addr *Term) *Term {
	for addr.Op == "field" || addr.Op == "elem" || addr.Op == "slice" {
		addr = addr.Args[0]
	}
	return addr
}

func isFresh(root *Term) bool { return root.Op == "alloc" || root.Op == "makeslice" }

// Distinct, if set, reports whether two objects that existed before the
// analysed call are known to be different (ownership).
var Distinct func(a, b *Term) bool

func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := Root(a), Root(b)
	if ra != rb {
		if Distinct != nil && !isFresh(ra) && !isFresh(rb) && Distinct(ra, rb) {
			return false
		}
		if isFresh(ra) && isFresh(rb) {
			return false
		}
		if isFresh(ra) || isFresh(rb) {
			// a fresh object is distinct from anything that existed before
			// it, and from symbols (parameters)
			o := ra
			if isFresh(ra) {
				o = rb
			}
			switch o.Op {
			case "sym", "global":
				return false
			case "ld":
				return false // initial contents of memory: loads of stored fresh objects resolve to them
			}
			return o.Op == "phi" || o.Op == "append"
		}
		if ra.Op == "global" || rb.Op == "global" {
			return ra.Op != "sym" && rb.Op != "sym" && !(ra.Op == "global" && rb.Op == "global") && !(ra.Op == "ld" || rb.Op == "ld")
		}
		if ra.Op == "sym" && rb.Op == "sym" {
			return false // distinct parameters are assumed not to alias
		}
		if ra.Op == "ld" && rb.Op == "ld" && Root(ra.Args[0]).Op == "global" && Root(rb.Args[0]).Op == "global" {
			return false // distinct package variables hold distinct objects
		}
		return true
	}
	// same root: compare paths from the outside in
	for a.Op == b.Op && (a.Op == "field" || a.Op == "elem") {
		if a.Op == "field" && a.Aux != b.Aux && a.Args[0] == b.Args[0] {
			return false
		}
		if a.Op == "elem" && a.Args[0] == b.Args[0] {
			if d, ok := DiffConst(a.Args[1], b.Args[1]); ok && d != 0 {
				return false
			}
			return true
		}
		a, b = a.Args[0], b.Args[0]
		if a == b {
			return false
		}
	}
	return true
}

func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsNumeric != 0:
			return Mk("const", "0", t)
		}
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroValue(u.Field(i).Type()))
		}
		return Mk("struct", types.TypeString(t, nil), t, args...)
	case *types.Array:
		return Mk("zeroarr", types.TypeString(t, nil), t)
	}
	return Nil
}

// FieldAddr returns the address of field i of the struct at base.
func FieldAddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return Mk("field", f.Name(), types.NewPointer(f.Type()), base)
}

// FieldVal returns field i of the struct value v.
func FieldVal(v *Term, st *types.Struct, i int) *Term {
	if v.Op == "struct" && i < len(v.Args) {
		return v.Args[i]
	}
	return Mk("fieldval", st.Field(i).Name(), st.Field(i).Type(), v)
}

// Load reads the value of type typ at addr.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() <= 24 {
		if v, ok := s.heap[addr]; ok {
			return v
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.Load(FieldAddr(addr, st, i), st.Field(i).Type())
		}
		// a struct made of the consecutive loads of one object
		return Mk("struct", types.TypeString(typ, nil), typ, args...)
	}
	if v, ok := s.heap[addr]; ok {
		return v
	}
	if addr.Op == "elem" {
		if v, ok := s.heap[addr.Args[0]]; ok && v.Op == "zeroarr" {
			return zeroValue(typ)
		}
	}
	root := Root(addr)
	if at, ok := typ.Underlying().(*types.Array); ok && at.Len() <= 64 && s.hasElems(root) {
		args := make([]*Term, at.Len())
		for i := range args {
			args[i] = s.Load(Elem(addr, Int(int64(i)), types.NewPointer(at.Elem())), at.Elem())
		}
		return Mk("arr", types.TypeString(typ, nil), typ, args...)
	}
	if isFresh(root) && !s.dirty[root] {
		if !symbolicIndex(addr) || !s.hasElems(root) {
			return zeroValue(typ)
		}
	}
	cls := class(addr)
	args := []*Term{addr}
	if v := verFor(s.ver[cls], addr); v != nil {
		args = append(args, v)
	}
	if strings.HasPrefix(cls, "F:") {
		if v := s.ver["PF:"+types.TypeString(typ, nil)]; v != nil {
			args = append(args, v)
		}
	}
	if isFresh(root) {
		// contents of a fresh object are versioned per object
		if v := s.ver[fmt.Sprintf("O:%d", root.ID)]; v != nil {
			args = append(args, v)
		}
	}
	return Mk("ld", "", typ, args...)
}

func symbolicIndex(addr *Term) bool {
	for addr.Op == "field" || addr.Op == "elem" {
		if addr.Op == "elem" && !addr.Args[1].IsInt() {
			return true
		}
		addr = addr.Args[0]
	}
	return false
}

func (s *State) hasElems(root *Term) bool {
	for a := range s.heap {
		if a.Op == "elem" && Root(a) == root {
			return true
		}
	}
	return false
}

// store writes val at addr.
func (s *State) store(addr, val *Term, typ types.Type, label string) {
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() <= 24 {
		for i := 0; i < st.NumFields(); i++ {
			s.store(FieldAddr(addr, st, i), FieldVal(val, st, i), st.Field(i).Type(), label)
		}
		return
	}
	if at, ok := typ.Underlying().(*types.Array); ok {
		for a := range s.heap {
			if a.Op == "elem" && a.Args[0] == addr {
				delete(s.heap, a)
			}
		}
		switch {
		case val.Op == "arr":
			for i, x := range val.Args {
				s.store(Elem(addr, Int(int64(i)), types.NewPointer(at.Elem())), x, at.Elem(), label)
			}
			return
		case isFresh(Root(addr)):
			if val.Op != "zeroarr" {
				s.dirty[Root(addr)] = true
			}
			if s.dirty[Root(addr)] {
				s.ver[fmt.Sprintf("O:%d", Root(addr).ID)] = Mk("ver", label, nil)
			}
		default:
			s.ver[class(Elem(addr, Int(0), types.NewPointer(at.Elem())))] = Mk("ver", label, nil)
		}
	}
	// arrays are known as a whole only until an element is written
	for p := addr; p.Op == "elem" || p.Op == "field"; p = p.Args[0] {
		delete(s.heap, p.Args[0])
	}
	cls := class(addr)
	for a := range s.heap {
		if a != addr && class(a) == cls && mayAlias(a, addr) {
			delete(s.heap, a)
		}
	}
	root := Root(addr)
	if isFresh(root) {
		if symbolicIndex(addr) {
			s.dirty[root] = true
			s.ver[fmt.Sprintf("O:%d", root.ID)] = Mk("ver", label, nil)
		}
	} else {
		s.ver[cls] = storeVer(label, addr, s.ver[cls])
	}
	s.heap[addr] = val
}

// verInfo describes the memory versions made by a single store.
type verInfo struct {
	addr, prev *Term
	n          int
}

var verInfos = map[*Term]verInfo{}

// storeVer is the version of a memory class after a store to addr.
func storeVer(label string, addr, prev *Term) *Term {
	n, id := 1, 0
	if prev != nil {
		n, id = verInfos[prev].n+1, prev.ID
	}
	if n > 24 {
		return Mk("ver", label, nil)
	}
	v := Mk("ver", fmt.Sprintf("%s!%d!%d", label, addr.ID, id), nil)
	verInfos[v] = verInfo{addr, prev, n}
	return v
}

// verFor skips the stores that cannot have changed addr.
func verFor(v, addr *Term) *Term {
	for v != nil {
		i, ok := verInfos[v]
		if !ok || mayAlias(i.addr, addr) {
			return v
		}
		v = i.prev
	}
	return nil
}

// havoc forgets everything about the object that root points to.
func (s *State) havoc(root *Term, label string) {
	for a := range s.heap {
		if Root(a) == root || a == root {
			delete(s.heap, a)
		}
	}
	if isFresh(root) {
		s.dirty[root] = true
		s.ver[fmt.Sprintf("O:%d", root.ID)] = Mk("ver", label, nil)
	}
}

// havocElems forgets the elements reachable through the slice v.
func (s *State) havocElems(v *Term, elem types.Type, label string) {
	root := Root(v)
	cls := "E:" + types.TypeString(elem, nil)
	for a := range s.heap {
		if a.Op == "elem" && class(a) == cls && (Root(a) == root || mayAlias(a, Elem(v, Sym("?", nil), types.NewPointer(elem)))) {
			delete(s.heap, a)
		}
	}
	if isFresh(root) {
		s.dirty[root] = true
		s.ver[fmt.Sprintf("O:%d", root.ID)] = Mk("ver", label, nil)
		return
	}
	s.ver[cls] = Mk("ver", label, nil)
}

func (s *State) addEvent(e *Event) {
	n := 1
	if s.hist != nil {
		n = s.hist.n + 1
	}
	s.hist = &Hist{Prev: s.hist, Ev: e, n: n}
}

// Path returns the history of the state, oldest first, back to the start of
// the function or of the current iteration of the innermost loop
// (toLoop true) or to the very beginning (toLoop false).
func (s *State) Path(toLoop bool) []*Hist {
	var out []*Hist
	for h := s.hist; h != nil; h = h.Prev {
		if h.Mark != nil {
			if toLoop {
				break
			}
			continue
		}
		out = append(out, h)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Events returns the events on the path (loops flattened away).
func (s *State) Events(toLoop bool) []*Event {
	var out []*Event
	for _, h := range s.Path(toLoop) {
		if h.Ev != nil {
			out = append(out, h.Ev)
		}
	}
	return out
}

// HeapKeys lists the addresses with known contents, in a fixed order.
func (s *State) HeapKeys() []*Term {
	var ks []*Term
	for a := range s.heap {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

// HeapAt returns the stored contents of addr, or nil.
func (s *State) HeapAt(addr *Term) *Term { return s.heap[addr] }

// EventsSince returns the events since the start of the current iteration of
// loop l (inner loops flattened), or ok=false if the path did not enter l.
func (s *State) EventsSince(l *Loop) (out []*Event, ok bool) {
	for h := s.hist; h != nil; h = h.Prev {
		if h.Mark == l {
			ok = true
			break
		}
		if h.Ev != nil {
			out = append(out, h.Ev)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, ok
}

// PathSince is the path since the last iteration of l began.
func (s *State) PathSince(l *Loop) (out []*Hist, ok bool) {
	for h := s.hist; h != nil; h = h.Prev {
		if h.Mark == l {
			ok = true
			break
		}
		if h.Ev != nil || h.Loop != nil {
			out = append(out, h)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, ok
}

// Passed lists the loops the path entered, oldest first.
func (s *State) Passed() []*Loop {
	var out []*Loop
	for h := s.hist; h != nil; h = h.Prev {
		if h.Loop != nil {
			out = append(out, h.Loop)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Inside reports whether the path is within an iteration of l.
func (s *State) Inside(l *Loop) bool {
	for h := s.hist; h != nil; h = h.Prev {
		switch l {
		case h.Mark:
			return true
		case h.Left:
			return false
		}
	}
	return false
}

// Atoms lists the atoms of a linear term.
func Atoms(t *Term) []*Term { return atoms(t) }

// Set assumes that memory at addr holds val (for initial states).
func (s *State) Set(addr, val *Term) { s.store(addr, val, val.Typ, "init") }

// Copy is a state that can be assumed more of without changing s.
func (s *State) Copy() *State { return s.clone() }
