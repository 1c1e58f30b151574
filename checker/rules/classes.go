package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C28",
		Explanation: "The rewriting of characters into bytes is decided in layers, each from the paths of one function with the layer below abstract and path conditions evaluated over all opcodes, flags and representatives of every order and boundary type of characters. A character instruction becomes one byte range only when that accepts exactly its characters; otherwise it is emptied and given every range of its class (or of its closure under case folding); " +
			"a range is split into ranges that cover exactly it, down to ranges whose encodings are a product of byte ranges, which become a chain of byte instructions from the first byte to the last; a chain's instruction carries exactly its range and successor, is shared only with an equal one of the same class, and is added to the alternatives without losing one.",
		Assumptions: []string{"regexp/syntax gives a class as sorted disjoint pairs and keeps the case-folding flag only on single characters, the least of their case variants", "the text is valid UTF-8 where it matters"},
		Run:         runClasses,
	})
}

const rxB = "(*" + load.Module + "/regexp.runeBuilder)."

type classRules struct {
	c       *Ctx
	opRange int64
	fold    int64
	seen    map[ssa.Instruction]bool
}

func runClasses(c *Ctx) {
	m := &classRules{c: c, seen: map[ssa.Instruction]bool{}}
	k := func(name string) int64 {
		t := c.constOf("regexp", name)
		if t == nil {
			return -1
		}
		return t.K
	}
	m.opRange, m.fold = k("instByteRange"), k("argFold")
	c.Check(m.opRange > 10 && m.opRange < 256, "instruction", "opcode", 0, "the opcode of byte ranges is %d", m.opRange)
	c.Check(m.fold > 0xffff && m.fold < 1<<32 && m.fold&(m.fold-1) == 0, "instruction", "fold bit", 0, "the fold bit is %#x", m.fold)
	m.oneByte()
	m.program()
	m.builderInit()
	m.branch()
	m.suffix()
	m.ranges()
	m.folded()
	m.appended()
	m.closed()
	c.Min("one-byte", 4)
	c.Min("program", 10)
	c.Min("start", 4)
	c.Min("alternatives", 3)
	c.Min("instruction", 4)
	c.Min("ranges", 3)
	c.Min("folding", 3)
	c.Min("appending", 2)
	c.Min("closed", 3)
}

func (m *classRules) run(name string) (*eng.Run, string) {
	f := m.c.Func("regexp", name)
	if f == nil {
		return nil, ""
	}
	r := m.c.Analyze(f, &eng.Config{
		Opaque: func(g *ssa.Function) bool {
			if g == f {
				return true
			}
			switch recvIn(g) {
			case "regexp.runeBuilder":
				switch g.Name() {
				case "init", "addRange", "addBranch", "suffix":
					return true
				}
			case "":
				switch g.Name() {
				case "oneByteRange", "appendFoldedRange", "appendRange":
					return g.Signature.Recv() == nil
				}
			}
			return false
		},
		Stores:    func(*eng.Term) bool { return true },
		KeepFacts: true,
		Join:      4000,
		Entries:   64,
		MaxStates: 6000,
	})
	if r == nil {
		return nil, ""
	}
	see := func(evs []*eng.Event) {
		for _, e := range evs {
			if e.Instr != nil {
				m.seen[e.Instr] = true
			}
		}
	}
	for _, t := range r.Terms {
		see(t.St.Events(false))
	}
	for _, l := range r.Loops {
		for _, st := range l.Backs {
			see(st.Events(false))
		}
	}
	return r, fnLabel(f)
}

// std gives the leaves for calls of the standard library.
func std(sp *space, t *eng.Term) *leaf {
	one := func(f func(r rune) int64) *leaf {
		x := sp.num(t.Args[0], ^uint64(0))
		if x == nil {
			return nil
		}
		return &leaf{func(env []int64) int64 { return f(rune(x.eval(env))) }, func(uint64) uint { return x.sup }}
	}
	switch {
	case isCall(t, "unicode.SimpleFold"):
		return one(func(r rune) int64 { return int64(unicode.SimpleFold(r)) })
	case isCall(t, "unicode.ToUpper"):
		return one(func(r rune) int64 { return int64(unicode.ToUpper(r)) })
	case isCall(t, "unicode.ToLower"):
		return one(func(r rune) int64 { return int64(unicode.ToLower(r)) })
	case isCall(t, "unicode/utf8.RuneLen"):
		return one(func(r rune) int64 { return int64(utf8.RuneLen(r)) })
	case isCall(t, "unicode/utf8.EncodeRune"):
		return one(func(r rune) int64 {
			var b [utf8.UTFMax]byte
			return int64(utf8.EncodeRune(b[:], r))
		})
	}
	return nil
}

// isFieldOf reports whether t is the value of base.name.
func isFieldOf(t, base *eng.Term, name string) bool {
	return t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Aux == name && t.Args[0].Args[0] == base
}

func holds(fs []*fun, env []int64) bool {
	for _, f := range fs {
		if f.eval(env) == 0 {
			return false
		}
	}
	return true
}

// orbitMin reports whether r has case variants and is the least of them.
func orbitMin(r rune) bool {
	n := 0
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		if f < r {
			return false
		}
		n++
	}
	return n > 0
}

// oneByte: an instruction taken as one byte range accepts exactly the
// characters of its class.
func (m *classRules) oneByte() {
	c := m.c
	r, cons := m.run("oneByteRange")
	if r == nil || len(r.Params) != 1 {
		return
	}
	in := r.Params[0]
	const vOp, vArg, vLen, vR = 0, 1, 2, 3
	sp := &space{}
	isRune := func(t *eng.Term) bool { return isFieldOf(t, in, "Rune") }
	sp.leaf = func(t *eng.Term) *leaf {
		switch {
		case isFieldOf(t, in, "Op"):
			return variable(vOp)
		case isFieldOf(t, in, "Arg"):
			return variable(vArg)
		case t.Op == "len" && isRune(t.Args[0]):
			return variable(vLen)
		}
		if b, i, ok := elemOf(t); ok && isRune(b) && i.Op == "int" && i.K >= 0 && i.K < 4 {
			return variable(vR + int(i.K))
		}
		return std(sp, t)
	}
	type path struct {
		gs           []*fun
		ok           *fun
		lo, hi, fold *fun
	}
	var paths []*path
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		gs, _ := sp.guard(t.St.Facts)
		p := &path{gs: gs}
		if len(t.Rets) != 4 {
			c.Viol("anchor", cons, r.Fn.Pos(), "unexpected results")
			return
		}
		p.ok = sp.cond(t.Rets[3])
		if t.Rets[3] != eng.False {
			p.lo, p.hi, p.fold = sp.num(t.Rets[0], ^uint64(0)), sp.num(t.Rets[1], ^uint64(0)), sp.cond(t.Rets[2])
		}
		if p.ok == nil || t.Rets[3] != eng.False && (p.lo == nil || p.hi == nil || p.fold == nil) {
			c.Check(false, "one-byte", cons, r.Fn.Pos(), "the range %s-%s (%s, %s) depends on something else than the instruction", t.Rets[0], t.Rets[1], t.Rets[2], t.Rets[3])
			return
		}
		paths = append(paths, p)
	}
	bad := false
	try := func(what string, env []int64) {
		if bad {
			return
		}
		some := false
		for _, p := range paths {
			if !holds(p.gs, env) {
				continue
			}
			some = true
			if p.ok.eval(env) == 0 {
				continue
			}
			lo, hi, fold := p.lo.eval(env), p.hi.eval(env), p.fold.eval(env)
			// the bytes accepted and the characters wanted
			okAll := true
			var why string
			var want [256]bool
			add := func(x rune) {
				if x >= utf8.RuneSelf || x < 0 {
					okAll, why = false, fmt.Sprintf("%#U takes several bytes", x)
					return
				}
				want[x] = true
			}
			n := env[vLen]
			for j := int64(0); j < n && okAll; j += 2 {
				a := env[vR+j]
				b := a
				if j+1 < n {
					b = env[vR+j+1]
				}
				if b >= utf8.RuneSelf {
					add(rune(b))
				}
				for x := a; x <= b && okAll; x++ {
					add(rune(x))
					if env[vArg]&1 != 0 {
						for f := unicode.SimpleFold(rune(x)); f != rune(x) && okAll; f = unicode.SimpleFold(f) {
							add(f)
						}
					}
				}
			}
			for ch := int64(0); ch < 256 && okAll; ch++ {
				x := ch
				if fold != 0 && 'a' <= x && x <= 'z' {
					x -= 'a' - 'A'
				}
				if got := lo <= x && x <= hi; got != want[ch] {
					okAll, why = false, fmt.Sprintf("byte %#x is accepted: %v", ch, got)
				}
			}
			if !c.Check(okAll, "one-byte", cons+" "+what, r.Fn.Pos(), "the class %v (case ignored: %v) becomes the byte range %d-%d (fold %v), but %s", env[vR:vR+int(n)], env[vArg]&1 != 0, lo, hi, fold != 0, why) {
				bad = true
				return
			}
		}
		if !c.Check(some, "one-byte", cons+" "+what, r.Fn.Pos(), "no path for class %v", env[vR:]) {
			bad = true
		}
	}
	const opRune, opRune1 = 7, 8
	edge := []int64{0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, unicode.MaxRune}
	all := append(upto(0, 0x3000), edge...)
	all = append(all, upto(0xa600, 0xabff)...)
	all = append(all, upto(0xfb00, 0xfb10)...)
	all = append(all, upto(0x10400, 0x10500)...)
	all = append(all, upto(0x1e900, 0x1e950)...)
	for _, x := range all {
		try("one character", []int64{opRune1, 0, 1, x, 0, 0, 0})
		try("one character", []int64{opRune1, 0, 2, x, x, 0, 0})
		try("one character class", []int64{opRune, 0, 1, x, 0, 0, 0})
		if orbitMin(rune(x)) {
			try("one character, case ignored", []int64{opRune, 1, 1, x, 0, 0, 0})
			try("one character, case ignored", []int64{opRune, 0xffff, 1, x, 0, 0, 0})
		}
		f := int64(unicode.SimpleFold(rune(x)))
		for _, y := range []int64{f, x + 2, x + 26, x + 32} {
			for _, dx := range []int64{0, 1} {
				for _, dy := range []int64{0, 1} {
					if x+dx+1 < y {
						try("two ranges", []int64{opRune, 0, 4, x, x + dx, y, y + dy})
					}
				}
			}
		}
	}
	reps := append(upto(0, 0x90), edge...)
	for _, x := range reps {
		for _, y := range reps {
			if x <= y {
				try("one range", []int64{opRune, 0, 2, x, y, 0, 0})
			}
			if x+1 < y {
				try("more ranges", []int64{opRune, 0, 6, x, x, y, y})
			}
		}
	}
}

// program: every character instruction is rewritten.
func (m *classRules) program() {
	c := m.c
	r, cons := m.run("toByteProg")
	if r == nil || len(r.Params) != 1 {
		return
	}
	prog := r.Params[0]
	// the loop over the instructions
	inst := func(t *eng.Term) (idx *eng.Term) {
		if t.Op == "elem" && isFieldOf(t.Args[0], prog, "Inst") {
			return t.Args[1]
		}
		return nil
	}
	var main *eng.Loop
	for _, t := range r.Terms {
		if ls := t.St.Passed(); len(ls) > 0 && main == nil {
			main = ls[0]
		}
	}
	if !c.Check(main != nil, "program", cons, r.Fn.Pos(), "there is no loop over the instructions") {
		return
	}
	for _, t := range r.Terms {
		okR := t.Kind == "return"
		for _, v := range t.Rets {
			okR = okR && v.Op == "nil"
		}
		c.Check(okR, "program", cons+" result", r.Fn.Pos(), "it can end by %s with %v", t.Kind, t.Rets)
		in := false
		for _, l := range t.St.Passed() {
			in = in || l == main
		}
		c.Check(in, "program", cons+" result", r.Fn.Pos(), "it can end without the instructions being visited")
	}
	const vOp, vArg, vLen, vFL = 0, 1, 2, 3
	type job struct {
		st  *eng.State
		evs []*eng.Event
		at  *eng.Term // the instruction
		gs  []*fun
		sp  *space
	}
	var jobs []*job
	scanned := false
	for i, st := range main.Backs {
		evs, _ := st.EventsSince(main)
		j := &job{st: st, evs: evs}
		// which instruction
		find := func(t *eng.Term) {
			t.Walk(func(x *eng.Term) bool {
				if j.at == nil && x.Op == "elem" && inst(x) != nil && loopIndex(main, x.Args[1]) {
					j.at = x
				}
				return j.at == nil
			})
		}
		for _, f := range st.Facts {
			find(f)
		}
		if !c.Check(j.at != nil, "program", cons+" scan", main.Pos, "an iteration does not look at an instruction") {
			return
		}
		if !scanned || i > 0 {
			// The program only grows: as many as there were on entry, or more.
			seq := j.at.Args[0]
			for _, x := range main.Exits {
				for _, f := range x.Facts {
					f.Walk(func(y *eng.Term) bool {
						if y.Op == "len" && isFieldOf(y.Args[0], prog, "Inst") && x.Implies(eng.Le(y, j.at.Args[1])) {
							seq = y.Args[0]
						}
						return true
					})
				}
			}
			c.wholeScan(main, i, seq, j.at.Args[1], "program", cons+" scan")
			scanned = true
		}
		sp := &space{}
		at := j.at
		sp.leaf = func(t *eng.Term) *leaf {
			switch {
			case isFieldOf(t, at, "Op"):
				return variable(vOp)
			case isFieldOf(t, at, "Arg"):
				return variable(vArg)
			case t.Op == "len" && isFieldOf(t.Args[0], at, "Rune"):
				return variable(vLen)
			case t.Op == "len" && isCall(t.Args[0], load.Module+"/regexp.appendFoldedRange"):
				return variable(vFL)
			}
			return std(sp, t)
		}
		j.sp = sp
		j.gs, _ = sp.guard(st.Facts)
		jobs = append(jobs, j)
	}
	const opRune, opRune1, opAny, opAnyNotNL = 7, 8, 9, 10
	alive := func(what string, env []int64, visit func(j *job) (bool, string)) {
		n := 0
		for _, j := range jobs {
			if !holds(j.gs, env) {
				continue
			}
			n++
			ok, why := visit(j)
			if !c.Check(ok, "program", cons+" "+what, main.Pos, "%s: %s", what, why) {
				return
			}
		}
		c.Check(n > 0, "program", cons+" "+what, main.Pos, "%s: nothing is done for it", what)
	}
	for op := int64(0); op < 256; op++ {
		if op >= opRune && op <= opAnyNotNL {
			continue
		}
		what := "other instructions"
		alive(what, []int64{op, 0, 0, 2}, func(j *job) (bool, string) {
			for _, e := range j.evs {
				if e.Kind == "store" && m.ofProgram(e.Args[0]) || e.Kind == "append" || e.Kind == "call" && strings.HasPrefix(e.Name, rxB) {
					return false, fmt.Sprintf("opcode %d is rewritten too", op)
				}
			}
			return true, ""
		})
	}
	for _, op := range []int64{opAny, opAnyNotNL} {
		what := map[int64]string{opAny: "any character", opAnyNotNL: "any character but newline"}[op]
		alive(what, []int64{op, 0, 0, 2}, func(j *job) (bool, string) {
			ps, why := m.pieces(r, main, j.st, j.at, prog)
			if why != "" {
				return false, why
			}
			var iv []chSpan
			for _, p := range ps {
				if p.loop || p.lo.Op != "int" || p.hi.Op != "int" {
					return false, fmt.Sprintf("the range %s-%s is added", p.lo, p.hi)
				}
				iv = append(iv, chSpan{p.lo.K, p.hi.K})
			}
			iv = joinSpans(iv, true)
			full := []chSpan{{0, 0xd7ff}, {0xe000, unicode.MaxRune}}
			noNL := []chSpan{{0, 9}, {11, 0xd7ff}, {0xe000, unicode.MaxRune}}
			if !sameSpans(iv, full) && !(op == opAnyNotNL && sameSpans(iv, noNL)) {
				return false, fmt.Sprintf("the characters accepted are %v", iv)
			}
			return true, ""
		})
	}
	type cls struct {
		what    string
		op, arg int64
		n, fl   int64
	}
	for _, k := range []cls{
		{"a character", opRune1, 0, 1, 2}, {"a character twice", opRune1, 0, 2, 2}, {"a class of one character", opRune, 0, 1, 2}, {"a range", opRune, 0, 2, 2},
		{"two ranges", opRune, 0, 4, 2}, {"three ranges", opRune, 0, 6, 2},
		{"a character, case ignored", opRune, 1, 1, 2}, {"a character, case ignored", opRune, 1, 1, 4}, {"a character, case ignored", opRune, 1, 1, 8},
	} {
		alive(k.what, []int64{k.op, k.arg, k.n, k.fl}, func(j *job) (bool, string) {
			// taken as one byte range?
			var call *eng.Term
			taken := false
			for _, f := range j.st.Facts {
				x, neg := f, false
				for x.Op == "not" {
					x, neg = x.Args[0], !neg
				}
				if x.Op == "extract" && x.Aux == "3" && isCall(x.Args[0], load.Module+"/regexp.oneByteRange") && x.Args[0].Args[0] == j.at {
					call, taken = x.Args[0], !neg
				}
			}
			if taken {
				return m.rewritten(j.st, j.evs, j.at, call)
			}
			ps, why := m.pieces(r, main, j.st, j.at, prog)
			if why != "" {
				return false, why
			}
			// the pieces are the pairs of the class
			elem := func(t *eng.Term, src func(*eng.Term) bool) int64 {
				b, i, ok := elemOf(t)
				if !ok || i.Op != "int" || !src(b) {
					return -1
				}
				return i.K
			}
			isRune := func(t *eng.Term) bool { return isFieldOf(t, j.at, "Rune") }
			isFold := func(t *eng.Term) bool {
				return isCall(t, load.Module+"/regexp.appendFoldedRange") && emptySlice(t.Args[0]) && elem(t.Args[1], isRune) == 0 && elem(t.Args[2], isRune) == 0
			}
			if k.arg == 1 {
				if len(ps) == 1 && ps[0].loop && isFold(ps[0].src) {
					return true, ""
				}
				return false, fmt.Sprintf("the ranges added are %v, not those of all its case variants", ps)
			}
			if len(ps) == 1 && ps[0].loop && k.n != 1 && isRune(ps[0].src) {
				return true, ""
			}
			have := map[int64]bool{}
			for _, p := range ps {
				if p.loop {
					return false, fmt.Sprintf("the ranges of %s are added", p.src)
				}
				a, b := elem(p.lo, isRune), elem(p.hi, isRune)
				if a < 0 || a%2 != 0 || !(b == a+1 || k.n == 1 && b == a || k.op == opRune1 && (a == 0 && b == 0)) {
					return false, fmt.Sprintf("the range %s-%s is added", p.lo, p.hi)
				}
				have[a] = true
			}
			for a := int64(0); a < k.n; a += 2 {
				if !have[a] {
					return false, fmt.Sprintf("range %d of the class is not added", a/2)
				}
			}
			return true, ""
		})
	}
}

// loopIndex reports whether i is a counter of l, up to a constant.
func loopIndex(l *eng.Loop, i *eng.Term) bool {
	for _, p := range l.Phis {
		if _, ok := eng.DiffConst(i, p.Sym); ok {
			return true
		}
	}
	return false
}

func emptySlice(t *eng.Term) bool {
	return t.Op == "nil" || t.Op == "makeslice" && t.Args[0] == eng.Int(0) || t.Op == "slice" && t.Args[1] == eng.Int(0) && t.Args[2] == eng.Int(0)
}

// ofProgram reports whether addr is (part of) an instruction of a program.
func (m *classRules) ofProgram(addr *eng.Term) bool {
	for addr.Op == "field" {
		addr = addr.Args[0]
	}
	return addr.Op == "elem" && !strings.HasPrefix(addr.Args[0].Op, "alloc")
}

// rewritten: the instruction becomes the byte range that oneByteRange gives.
func (m *classRules) rewritten(st *eng.State, evs []*eng.Event, at, call *eng.Term) (bool, string) {
	for _, e := range evs {
		if e.Kind == "call" && strings.HasPrefix(e.Name, rxB) {
			return false, "the instruction is one byte range and is built from ranges as well"
		}
		if e.Kind == "store" && m.ofProgram(e.Args[0]) {
			a := e.Args[0]
			if !(a.Op == "field" && a.Args[0] == at && (a.Aux == "Op" || a.Aux == "Arg" || a.Aux == "Rune")) {
				return false, fmt.Sprintf("%s is written", a)
			}
		}
	}
	ld := func(name string) *eng.Term {
		a := fieldAddr(at, name)
		return st.Load(a, a.Typ.Underlying().(*types.Pointer).Elem())
	}
	if op := ld("Op"); op != eng.Int(m.opRange) {
		return false, fmt.Sprintf("the opcode becomes %s", op)
	}
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		if t.Op == "extract" && t.Args[0] == call {
			switch t.Aux {
			case "0":
				return variable(0)
			case "1":
				return variable(1)
			case "2":
				return variable(2)
			}
		}
		return nil
	}
	arg := sp.num(ld("Arg"), ^uint64(0))
	if arg == nil {
		return false, fmt.Sprintf("the argument becomes %s", ld("Arg"))
	}
	gs, _ := sp.guard(st.Facts)
	for lo := int64(0); lo < 256; lo++ {
		for hi := int64(0); hi < 256; hi++ {
			for fold := int64(0); fold < 2; fold++ {
				env := []int64{lo, hi, fold}
				if !holds(gs, env) {
					continue
				}
				if got := arg.eval(env); got != lo<<8|hi|fold*m.fold {
					return false, fmt.Sprintf("the byte range %d-%d (fold %d) becomes the argument %#x %v", lo, hi, fold, got, st.Facts)
				}
			}
		}
	}
	return true, ""
}

// A rangePiece is a range, or all the pairs of src, given to the builder.
type rangePiece struct {
	lo, hi *eng.Term
	loop   bool
	src    *eng.Term
}

func (p rangePiece) String() string {
	if p.loop {
		return fmt.Sprintf("all of %s", p.src)
	}
	return fmt.Sprintf("%s-%s", p.lo, p.hi)
}

// pieces lists the ranges that a path of the main loop gives to the builder,
// which it must have started for the instruction.
func (m *classRules) pieces(r *eng.Run, main *eng.Loop, st *eng.State, at, prog *eng.Term) (ps []rangePiece, why string) {
	hist, _ := st.PathSince(main)
	var b *eng.Term
	for _, h := range hist {
		if h.Loop != nil {
			// a loop over pairs
			l := h.Loop
			calls := 0
			var p rangePiece
			for i, bs := range l.Backs {
				evs, _ := bs.EventsSince(l)
				for _, e := range evs {
					if e.Kind == "store" && m.ofProgram(e.Args[0]) || e.Kind == "append" {
						return nil, "the program is written between the ranges"
					}
					if e.Kind != "call" || !strings.HasPrefix(e.Name, rxB) {
						continue
					}
					calls++
					if e.Name != rxB+"addRange" || len(e.Args) != 4 || e.Args[0] != b || e.Args[3] != eng.False {
						return nil, fmt.Sprintf("%s is called with %v", e.Name, e.Args)
					}
					src, j, ok := elemOf(e.Args[1])
					src2, j2, ok2 := elemOf(e.Args[2])
					if !ok || !ok2 || src != src2 || j2 != eng.AddK(j, 1) {
						return nil, fmt.Sprintf("the range %s-%s is added", e.Args[1], e.Args[2])
					}
					okScan := false
					for _, q := range l.Phis {
						if q.Sym == src && j == eng.Int(0) {
							// the rest of the pairs, two less each time
							n := q.Backs[i]
							if n.Op != "slice" || n.Args[0] != src || n.Args[1] != eng.Int(2) || n.Args[2] != eng.Len(src) {
								return nil, fmt.Sprintf("%s is what is left of %s", n, src)
							}
							okScan = true
							for _, x := range l.Exits {
								okScan = okScan && (x.Implies(eng.False) || x.Implies(eng.Le(eng.Len(src), eng.Int(1))))
							}
							src = q.Init
							break
						}
						k, isK := eng.DiffConst(j, q.Sym)
						if !isK || q.Init.Op != "int" || q.Init.K+k != 0 || q.Backs[i] != eng.AddK(q.Sym, 2) {
							continue
						}
						okScan = true
						for _, x := range l.Exits {
							if !x.Implies(eng.Le(eng.Len(src), j)) && !x.Implies(eng.False) {
								// the last pair may be left when it is the end
								okScan = okScan && x.Implies(eng.Le(eng.Len(src), eng.AddK(j, 1)))
							}
						}
					}
					if !okScan {
						return nil, fmt.Sprintf("the ranges of %s are not all added", src)
					}
					p = rangePiece{loop: true, src: src}
				}
				if calls > i+1 || calls != 0 && calls != i+1 {
					return nil, "an iteration does not add one range"
				}
			}
			if calls > 0 {
				ps = append(ps, p)
			}
			continue
		}
		e := h.Ev
		switch {
		case e == nil:
		case e.Kind == "store" && m.ofProgram(e.Args[0]) || e.Kind == "append":
			return nil, fmt.Sprintf("%s is written", e.Args[0])
		case e.Kind == "call" && e.Name == rxB+"init":
			if b != nil {
				return nil, "the builder is started twice"
			}
			if len(e.Args) != 4 {
				return nil, "unexpected parameters of init"
			}
			b = e.Args[0]
			if e.Args[1] != prog || stripConv(e.Args[2]) != at.Args[1] || !isFieldOf(e.Args[3], at, "Out") {
				return nil, fmt.Sprintf("the builder is started with %v", e.Args[1:])
			}
		case e.Kind == "call" && e.Name == rxB+"addRange":
			if b == nil || e.Args[0] != b {
				return nil, "a range is added before the builder is started"
			}
			if e.Args[3] != eng.False {
				return nil, "a range is added with folding"
			}
			ps = append(ps, rangePiece{lo: e.Args[1], hi: e.Args[2]})
		case e.Kind == "call" && strings.HasPrefix(e.Name, rxB):
			return nil, fmt.Sprintf("%s is called", e.Name)
		}
	}
	if b == nil {
		return nil, "the builder is not started"
	}
	if len(ps) > 0 && ps[0].loop {
		// a loop may be passed before the builder is started only if it adds nothing
		_ = ps
	}
	return ps, ""
}

// builderInit: the builder starts with nothing.
func (m *classRules) builderInit() {
	c := m.c
	r, cons := m.run("runeBuilder.init")
	if r == nil || len(r.Params) != 4 {
		return
	}
	b, p, begin, out := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	for _, t := range r.Terms {
		if !c.Check(t.Kind == "return", "start", cons, r.Fn.Pos(), "it can end by %s", t.Kind) {
			return
		}
		ld := func(base *eng.Term, name string) *eng.Term {
			a := fieldAddr(base, name)
			if a == nil {
				return eng.Nil
			}
			return t.St.Load(a, a.Typ.Underlying().(*types.Pointer).Elem())
		}
		c.Check(ld(b, "begin") == begin, "start", cons+" begin", r.Fn.Pos(), "begin is %s", ld(b, "begin"))
		c.Check(ld(b, "out") == out, "start", cons+" out", r.Fn.Pos(), "out is %s", ld(b, "out"))
		c.Check(ld(b, "p") == p, "start", cons+" p", r.Fn.Pos(), "p is %s", ld(b, "p"))
		// the instruction matches nothing
		failed := false
		for _, e := range t.St.Events(false) {
			if e.Kind == "store" && m.ofProgram(e.Args[0]) {
				a := e.Args[0]
				failed = a.Op == "field" && a.Aux == "Op" && a.Args[0].Op == "elem" && isFieldOf(a.Args[0].Args[0], p, "Inst") && a.Args[0].Args[1] == begin && e.Args[1] == eng.Int(opFail)
				if !failed {
					break
				}
			}
		}
		c.Check(failed, "start", cons+" instruction", r.Fn.Pos(), "the instruction is not made to match nothing")
		cache := ld(b, "cache")
		empty := strings.HasPrefix(cache.Op, "makemap")
		for _, h := range t.St.Path(false) {
			if h.Ev != nil && h.Ev.Kind == "mapupdate" {
				empty = false
			}
			if h.Ev != nil && h.Ev.Kind == "call" && h.Ev.Name == "clear" && h.Ev.Args[0] == cache {
				empty = true
			}
			if l := h.Loop; l != nil {
				ok := len(l.Backs) > 0 && len(l.Exits) > 0
				var rng *eng.Term
				for _, bs := range l.Backs {
					evs, _ := bs.EventsSince(l)
					del := 0
					for _, e := range evs {
						if e.Kind == "mapdelete" && len(e.Args) == 2 && e.Args[0] == cache && strings.HasPrefix(e.Args[1].Op+":"+e.Args[1].Aux, "next:k") && e.Args[1].Args[0].Op == "range" && e.Args[1].Args[0].Args[0] == cache {
							del++
							rng = e.Args[1].Args[0]
						}
						if e.Kind == "mapupdate" {
							ok = false
						}
					}
					ok = ok && del > 0
				}
				for _, x := range l.Exits {
					done := false
					for _, f := range x.Facts {
						if f.Op == "not" && strings.HasPrefix(f.Args[0].Op+":"+f.Args[0].Aux, "next:ok") && f.Args[0].Args[0] == rng {
							done = true
						}
					}
					ok = ok && done
				}
				if ok {
					empty = true
				}
			}
		}
		c.Check(empty, "start", cons+" cache", r.Fn.Pos(), "the shared instructions of another class are kept")
	}
}

// branch: an alternative is added and none lost.
func (m *classRules) branch() {
	c := m.c
	r, cons := m.run("runeBuilder.addBranch")
	if r == nil || len(r.Params) != 2 {
		return
	}
	b, pc := r.Params[0], r.Params[1]
	var begin0, insts0 *eng.Term
	atBegin := func(t *eng.Term) bool {
		if t.Op != "elem" || !isFieldOf(t.Args[1], b, "begin") {
			return false
		}
		x := t.Args[0]
		return x.Op == "ld" && x.Args[0].Op == "field" && x.Args[0].Aux == "Inst" && isFieldOf(x.Args[0].Args[0], b, "p")
	}
	var at *eng.Term
	for _, t := range r.Terms {
		for _, f := range t.St.Facts {
			f.Walk(func(x *eng.Term) bool {
				if at == nil && atBegin(x) {
					at = x
				}
				return at == nil
			})
		}
	}
	if !c.Check(at != nil, "alternatives", cons, r.Fn.Pos(), "it does not depend on the instruction at the beginning") {
		return
	}
	insts0, begin0 = at.Args[0], at.Args[1]
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		if isFieldOf(t, at, "Op") {
			return variable(0)
		}
		return nil
	}
	type instr struct{ op, out, arg *eng.Term }
	for _, op := range []int64{opFail, opNop, opAlt} {
		what := map[int64]string{opFail: "first", opNop: "second", opAlt: "further"}[op]
		n := 0
		for _, t := range r.Terms {
			gs, blind := sp.guard(t.St.Facts)
			if !holds(gs, []int64{op}) {
				continue
			}
			n++
			if !c.Check(t.Kind == "return" && len(blind) == 0, "alternatives", cons+" "+what, r.Fn.Pos(), "it can end by %s", t.Kind) {
				return
			}
			first := instr{eng.Int(op), nil, nil}
			oldOut, oldArg := eng.Sym("old out", types.Typ[types.Uint32]), eng.Sym("old arg", types.Typ[types.Uint32])
			first.out, first.arg = oldOut, oldArg
			cur := insts0
			begin := begin0
			val := func(t *eng.Term) *eng.Term {
				switch {
				case isFieldOf(t, at, "Out"):
					return oldOut
				case isFieldOf(t, at, "Arg"):
					return oldArg
				case isFieldOf(t, at, "Op"):
					return eng.Int(op)
				}
				return t
			}
			var added []instr
			indexOf := func(t *eng.Term) int { // the added instruction with number t
				x := stripConv(t)
				for i := range added {
					if x == eng.AddK(eng.Len(insts0), int64(i)) {
						return i
					}
				}
				return -1
			}
			why := ""
			for _, e := range t.St.Events(false) {
				switch e.Kind {
				case "append":
					if !(e.Args[0] == cur) {
						if e.Args[0].Typ != nil && cur.Typ != nil && types.Identical(e.Args[0].Typ, cur.Typ) {
							why = "instructions are appended to another list"
						}
					}
				case "store":
					a := e.Args[0]
					switch {
					case a.Op == "field" && a.Aux == "Inst" && isFieldOf(a.Args[0], b, "p"):
						v := e.Args[1]
						if !isAppend(v, "elems") || v.Args[0] != cur {
							why = fmt.Sprintf("the instructions become %s", v)
							break
						}
						for _, s := range v.Args[1:] {
							if s.Op != "struct" || len(s.Args) < 3 {
								why = fmt.Sprintf("%s is appended", s)
								break
							}
							added = append(added, instr{s.Args[0], val(s.Args[1]), val(s.Args[2])})
						}
						cur = v
					case a.Op == "field" && a.Aux == "begin" && a.Args[0] == b:
						begin = e.Args[1]
					case m.ofProgram(a):
						if a.Op != "field" || a.Args[0].Op != "elem" {
							why = fmt.Sprintf("%s is written", a)
							break
						}
						el := a.Args[0]
						if el.Args[0] != cur {
							why = fmt.Sprintf("%s is written, which is not in the program any more", a)
							break
						}
						dst := &first
						if el.Args[1] != begin0 {
							i := indexOf(el.Args[1])
							if i < 0 {
								why = fmt.Sprintf("%s is written", a)
								break
							}
							dst = &added[i]
						}
						v := val(e.Args[1])
						switch a.Aux {
						case "Op":
							dst.op = v
						case "Out":
							dst.out = v
						case "Arg":
							dst.arg = v
						}
					}
				}
			}
			if !c.Check(why == "", "alternatives", cons+" "+what, r.Fn.Pos(), "the %s alternative: %s", what, why) {
				return
			}
			want := map[*eng.Term]bool{pc: true}
			if op != opFail {
				want[oldOut] = true
			}
			if op == opAlt {
				want[oldArg] = true
			}
			got := map[*eng.Term]bool{}
			reached := map[int]bool{}
			var follow func(in instr, d int)
			target := func(t *eng.Term, d int) {
				if i := indexOf(t); i >= 0 {
					reached[i] = true
					if d < 8 {
						follow(added[i], d+1)
					}
					return
				}
				got[t] = true
			}
			follow = func(in instr, d int) {
				switch in.op {
				case eng.Int(opFail):
				case eng.Int(opNop):
					target(in.out, d)
				case eng.Int(opAlt):
					target(in.out, d)
					target(in.arg, d)
				default:
					why = fmt.Sprintf("it becomes an instruction with opcode %s", in.op)
				}
			}
			follow(first, 0)
			same := len(want) == len(got)
			for x := range want {
				same = same && got[x]
			}
			if !c.Check(why == "" && same, "alternatives", cons+" "+what, r.Fn.Pos(), "the %s alternative: %d of %d alternatives are reached afterwards %s", what, len(got), len(want), why) {
				return
			}
			okB := begin == begin0
			if i := indexOf(begin); i >= 0 && reached[i] {
				okB = true
			}
			c.Check(okB, "alternatives", cons+" "+what, r.Fn.Pos(), "the %s alternative: further ones are added at %s, which is not reached", what, begin)
		}
		c.Check(n > 0, "alternatives", cons+" "+what, r.Fn.Pos(), "the %s alternative is not added", what)
	}
}

// suffix: a byte instruction with the range and the successor given.
func (m *classRules) suffix() {
	c := m.c
	r, cons := m.run("runeBuilder.suffix")
	if r == nil || len(r.Params) != 5 {
		return
	}
	b, lo, hi, fold, next := r.Params[0], r.Params[1], r.Params[2], r.Params[3], r.Params[4]
	hasKey := func(k *eng.Term) bool {
		if k.Op != "struct" {
			return false
		}
		have := map[*eng.Term]bool{}
		for _, a := range k.Args {
			have[a] = true
		}
		return have[lo] && have[hi] && have[next]
	}
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		switch t {
		case lo:
			return variable(0)
		case hi:
			return variable(1)
		}
		return nil
	}
	for _, t := range r.Terms {
		if !c.Check(t.Kind == "return" && len(t.Rets) == 1, "instruction", cons, r.Fn.Pos(), "it can end by %s", t.Kind) {
			return
		}
		if t.St.Implies(fold) {
			continue // never asked for
		}
		ret := t.Rets[0]
		cache := func(x *eng.Term) bool { return isFieldOf(x, b, "cache") }
		var added *eng.Term
		var insts *eng.Term
		ok := true
		for _, e := range t.St.Events(false) {
			switch {
			case e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Aux == "Inst":
				v := e.Args[1]
				if added != nil || !isAppend(v, "elems") || len(v.Args) != 2 || !isFieldOf(e.Args[0].Args[0], b, "p") {
					ok = false
					break
				}
				added, insts = v.Args[1], v.Args[0]
			case e.Kind == "store" && m.ofProgram(e.Args[0]):
				ok = false
			case e.Kind == "mapupdate":
				c.Check(cache(e.Args[0]) && hasKey(e.Args[1]) && e.Args[2] == ret, "instruction", cons+" shared", r.Fn.Pos(), "%s is kept under %s", e.Args[2], e.Args[1])
			}
		}
		if !c.Check(ok, "instruction", cons, r.Fn.Pos(), "something else is written than one new instruction") {
			return
		}
		if added == nil {
			okL := ret.Op == "lookup" && cache(ret.Args[0]) && hasKey(ret.Args[1])
			if okL {
				found := eng.Mk("lookupok", ret.Aux, types.Typ[types.Bool], ret.Args...)
				hit := false
				for _, f := range t.St.Facts {
					if f == found || f.Op == "lookupok" && len(f.Args) == 2 && f.Args[0] == ret.Args[0] && f.Args[1] == ret.Args[1] {
						hit = true
					}
				}
				okL = hit || t.St.Implies(eng.Not(eng.Eq(ret, eng.Int(0), ret.Typ)))
			}
			c.Check(okL, "instruction", cons+" shared", r.Fn.Pos(), "it returns %s", ret)
			continue
		}
		c.Check(stripConv(ret) == eng.Len(insts) && insts.Op == "ld" && insts.Args[0].Op == "field" && insts.Args[0].Aux == "Inst", "instruction", cons+" number", r.Fn.Pos(), "it returns %s, not the number of the instruction added", ret)
		if !c.Check(added.Op == "struct" && len(added.Args) >= 3, "instruction", cons, r.Fn.Pos(), "%s is added", added) {
			return
		}
		c.Check(added.Args[0] == eng.Int(m.opRange), "instruction", cons+" opcode", r.Fn.Pos(), "the opcode is %s", added.Args[0])
		out := added.Args[1]
		okOut := out == next && t.St.Implies(eng.Not(eng.Eq(next, eng.Int(0), next.Typ))) || isFieldOf(out, b, "out") && t.St.Implies(eng.Eq(next, eng.Int(0), next.Typ))
		c.Check(okOut, "instruction", cons+" successor", r.Fn.Pos(), "the successor is %s", out)
		arg := sp.num(added.Args[2], ^uint64(0))
		gs, _ := sp.guard(t.St.Facts)
		if !c.Check(arg != nil, "instruction", cons+" range", r.Fn.Pos(), "the argument is %s", added.Args[2]) {
			return
		}
		for x := int64(0); x < 256; x++ {
			for y := int64(0); y < 256; y++ {
				env := []int64{x, y}
				if holds(gs, env) && arg.eval(env) != x<<8|y {
					c.Check(false, "instruction", cons+" range", r.Fn.Pos(), "the range %d-%d becomes the argument %#x", x, y, arg.eval(env))
					return
				}
			}
		}
	}
}

// A chSpan is a range of characters.
type chSpan struct{ lo, hi int64 }

// joinSpans sorts spans and merges those that touch, without the surrogates
// if noSur.
func joinSpans(in []chSpan, noSur bool) (out []chSpan) {
	var xs []chSpan
	for _, s := range in {
		if s.lo > s.hi {
			continue
		}
		if noSur {
			if s.lo < 0xd800 {
				xs = append(xs, chSpan{s.lo, min(s.hi, 0xd7ff)})
			}
			if s.hi > 0xdfff {
				xs = append(xs, chSpan{max(s.lo, 0xe000), s.hi})
			}
			continue
		}
		xs = append(xs, s)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].lo < xs[j].lo })
	for _, s := range xs {
		if n := len(out); n > 0 && s.lo <= out[n-1].hi+1 {
			out[n-1].hi = max(out[n-1].hi, s.hi)
			continue
		}
		out = append(out, s)
	}
	return
}

func sameSpans(a, b []chSpan) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// productChars counts the valid characters whose encodings have every byte
// between those of a and b.
func productChars(a, b []byte) (n int64) {
	tail := func(i int, lo, hi byte) int64 {
		l, h := max(a[i], lo), min(b[i], hi)
		if l > h {
			return 0
		}
		return int64(h) - int64(l) + 1
	}
	switch len(a) {
	case 1:
		return tail(0, 0, 0x7f)
	case 2:
		return tail(0, 0xc2, 0xdf) * tail(1, 0x80, 0xbf)
	}
	for x := int(a[0]); x <= int(b[0]); x++ {
		lo, hi := byte(0x80), byte(0xbf)
		switch {
		case x < 0xe0 || x > 0xf4 || len(a) == 3 && x > 0xef || len(a) == 4 && x < 0xf0:
			continue
		case x == 0xe0:
			lo = 0xa0
		case x == 0xed:
			hi = 0x9f
		case x == 0xf0:
			lo = 0x90
		case x == 0xf4:
			hi = 0x8f
		}
		k := tail(1, lo, hi) * tail(2, 0x80, 0xbf)
		if len(a) == 4 {
			k *= tail(3, 0x80, 0xbf)
		}
		n += k
	}
	return
}

// A chain is what addBranch is given: byte ranges one after the other, or
// those between the bytes of two encodings.
type chain struct {
	los, his []*fun
	from, to *fun // the characters encoded
	n        *fun // number of bytes
}

// ranges: what addRange adds is exactly the range.
func (m *classRules) ranges() {
	c := m.c
	r, cons := m.run("runeBuilder.addRange")
	if r == nil || len(r.Params) != 4 {
		return
	}
	b, lo, hi, fold := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		switch t {
		case lo:
			return variable(0)
		case hi:
			return variable(1)
		case fold:
			return &leaf{func([]int64) int64 { return 0 }, func(uint64) uint { return 0 }}
		}
		return std(sp, t)
	}
	type path struct {
		t      *eng.Terminal
		gs     []*fun
		pieces [][2]*fun
		chains []*chain
		term   []*eng.Term
	}
	var paths []*path
	consts := map[int64]bool{}
	note := func(t *eng.Term) {
		t.Walk(func(x *eng.Term) bool {
			k := int64(-1)
			if x.Op == "int" || x.Op == "lin" {
				k = x.K
				if k < 0 {
					k = -k
				}
			}
			for d := int64(-1); d <= 1; d++ {
				if k+d >= 0 && k+d <= unicode.MaxRune {
					consts[k+d] = true
				}
			}
			return true
		})
	}
	for _, t := range r.Terms {
		gs, blind := sp.guard(t.St.Facts)
		for _, f := range t.St.Facts {
			note(f)
		}
		if len(blind) > 0 {
			// conditions on something else, such as how far the bytes were followed
			var left []*eng.Term
			for _, f := range blind {
				phi := false
				f.Walk(func(x *eng.Term) bool { phi = phi || r.PhiOf(x) != nil; return !phi })
				if !phi {
					left = append(left, f)
				}
			}
			if !c.Check(len(left) == 0, "ranges", cons, r.Fn.Pos(), "the condition %s is not one on the range", left) {
				return
			}
		}
		p := &path{t: t, gs: gs}
		paths = append(paths, p)
		enc := map[*eng.Term]*eng.Event{} // array -> what is encoded in it
		var bad string
		for _, h := range t.St.Path(false) {
			e := h.Ev
			switch {
			case e == nil || e.Kind != "call":
			case e.Name == "unicode/utf8.EncodeRune":
				a := e.Args[0]
				if a.Op == "slice" && a.Args[1] == eng.Int(0) {
					a = a.Args[0]
				}
				if enc[a] != nil {
					bad = "two characters are encoded in the same place"
				}
				enc[a] = e
			case e.Name == rxB+"addRange":
				x, y := sp.num(e.Args[1], ^uint64(0)), sp.num(e.Args[2], ^uint64(0))
				f := sp.cond(e.Args[3])
				if x == nil || y == nil || f == nil || e.Args[0] != b || f.sup != 0 || f.eval([]int64{0, 0}) != 0 {
					bad = fmt.Sprintf("the range %s-%s (fold %s) is added", e.Args[1], e.Args[2], e.Args[3])
					break
				}
				note(e.Args[1])
				note(e.Args[2])
				p.pieces = append(p.pieces, [2]*fun{x, y})
				p.term = append(p.term, e.Args[1], e.Args[2])
			case e.Name == rxB+"addBranch":
				ch, why := m.chain(r, sp, b, e.Args[1], enc)
				if why != "" || e.Args[0] != b {
					bad = why
					break
				}
				p.chains = append(p.chains, ch)
			case e.Name == rxB+"init":
				bad = "the builder is started again"
			}
		}
		if !c.Check(bad == "", "ranges", cons+" what is added", r.Fn.Pos(), "%s", bad) {
			return
		}
	}
	// characters of every order and boundary type
	set := map[int64]bool{}
	for k := range consts {
		set[k] = true
	}
	d2s := []int64{0, 1, 12, 13, 14, 15, 16, 63}
	d1s := []int64{0, 1, 2, 31, 32, 33, 63}
	d0s := []int64{0, 1, 2, 63}
	if c.Tier == "thorough" {
		d2s, d1s, d0s = upto(12, 16), append(upto(0, 3), 30, 31, 32, 33, 62, 63), []int64{0, 1, 2, 31, 32, 62, 63}
		d2s = append(d2s, 0, 1, 2, 31, 32, 62, 63)
	}
	for d3 := int64(0); d3 <= 4; d3++ {
		for _, d2 := range d2s {
			for _, d1 := range d1s {
				for _, d0 := range d0s {
					if x := d3<<18 | d2<<12 | d1<<6 | d0; x <= unicode.MaxRune {
						set[x] = true
					}
				}
			}
		}
	}
	var reps []int64
	for x := range set {
		reps = append(reps, x)
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	env := make([]int64, 2)
	one := func(x, y int64) (ok bool) {
		env[0], env[1] = x, y
		n := 0
		for _, p := range paths {
			if !holds(p.gs, env) {
				continue
			}
			n++
			if !c.Check(p.t.Kind == "return", "ranges", cons+" ends", r.Fn.Pos(), "for the range %#x-%#x it ends by %s", x, y, p.t.Kind) {
				return false
			}
			var got []chSpan
			for _, q := range p.pieces {
				s := chSpan{q[0].eval(env), q[1].eval(env)}
				if !c.Check(s.hi-s.lo < y-x && s.lo <= s.hi, "ranges", cons+" split", r.Fn.Pos(), "the range %#x-%#x is split into %#x-%#x", x, y, s.lo, s.hi) {
					return false
				}
				got = append(got, s)
			}
			for _, ch := range p.chains {
				s, why := ch.chSpan(env)
				if why == "" && s.lo > s.hi {
					why = "the range is empty"
				}
				if !c.Check(why == "", "ranges", cons+" bytes", r.Fn.Pos(), "for the range %#x-%#x: %s", x, y, why) {
					return false
				}
				got = append(got, s)
			}
			want := joinSpans([]chSpan{{x, y}}, true)
			if !c.Check(sameSpans(joinSpans(got, true), want), "ranges", cons+" split", r.Fn.Pos(), "for the range %#x-%#x what is added is %#x", x, y, got) {
				return false
			}
		}
		return c.Check(n > 0, "ranges", cons+" ends", r.Fn.Pos(), "there is no path for the range %#x-%#x", x, y)
	}
	for i, x := range reps {
		for _, y := range reps[i:] {
			if !one(x, y) {
				return
			}
		}
	}
}

// chSpan evaluates the characters a chain accepts.
func (ch *chain) chSpan(env []int64) (chSpan, string) {
	var a, b []byte
	if ch.from != nil {
		var x, y [utf8.UTFMax]byte
		n := utf8.EncodeRune(x[:], rune(ch.from.eval(env)))
		k := utf8.EncodeRune(y[:], rune(ch.to.eval(env)))
		if want := ch.n.eval(env); int64(n) != want || int64(k) != want {
			return chSpan{}, fmt.Sprintf("%d bytes of encodings of %d and %d bytes are taken", want, n, k)
		}
		a, b = x[:n], y[:n]
	} else {
		for i := range ch.los {
			x, y := ch.los[i].eval(env), ch.his[i].eval(env)
			a, b = append(a, byte(x)), append(b, byte(y))
		}
	}
	x, n := utf8.DecodeRune(a)
	y, k := utf8.DecodeRune(b)
	if n != len(a) || k != len(b) || n != k || x == utf8.RuneError && n == 1 || y == utf8.RuneError && k == 1 {
		return chSpan{}, fmt.Sprintf("the bytes % x to % x are accepted", a, b)
	}
	s := chSpan{int64(x), int64(y)}
	var want int64
	for _, q := range joinSpans([]chSpan{s}, true) {
		want += q.hi - q.lo + 1
	}
	if got := productChars(a, b); got != want {
		return chSpan{}, fmt.Sprintf("bytes between % x and % x are the encodings of %d of the %d characters", a, b, got, want)
	}
	return s, ""
}

// chain recognises the byte instructions that begin with pc.
func (m *classRules) chain(r *eng.Run, sp *space, b, pc *eng.Term, enc map[*eng.Term]*eng.Event) (*chain, string) {
	name := rxB + "suffix"
	no := func(t *eng.Term) (*chain, string) { return nil, fmt.Sprintf("the alternative %s is added", t) }
	ch := &chain{}
	if p, l := r.PhiOf(pc), r.LoopOf(pc); p != nil && l != nil {
		// one instruction per byte, from the last to the first
		if p.Init != eng.Int(0) || len(l.Backs) == 0 {
			return no(p.Init)
		}
		for i := range l.Backs {
			v := p.Backs[i]
			if !isCall(v, name) || len(v.Args) != 5 || v.Args[0] != b || v.Args[4] != pc {
				return no(v)
			}
			if f := sp.cond(v.Args[3]); f == nil || f.sup != 0 || f.eval([]int64{0, 0}) != 0 {
				return no(v)
			}
			a1, i1, ok1 := elemOf(v.Args[1])
			a2, i2, ok2 := elemOf(v.Args[2])
			if !ok1 || !ok2 || i1 != i2 || enc[a1] == nil || enc[a2] == nil {
				return no(v)
			}
			if ch.from = sp.num(enc[a1].Args[1], ^uint64(0)); ch.from == nil {
				return no(enc[a1].Args[1])
			}
			if ch.to = sp.num(enc[a2].Args[1], ^uint64(0)); ch.to == nil {
				return no(enc[a2].Args[1])
			}
			okScan := false
			for _, q := range l.Phis {
				k, isK := eng.DiffConst(i1, q.Sym)
				if !isK || q == p {
					continue
				}
				okScan = q.Backs[i] == eng.AddK(q.Sym, -1)
				for _, x := range l.Exits {
					okScan = okScan && (x.Implies(eng.Lt(i1, eng.Int(0))) || x.Implies(eng.False))
				}
				ch.n = sp.num(eng.AddK(q.Init, k+1), ^uint64(0))
			}
			if !okScan || ch.n == nil {
				return nil, "the bytes are not taken one by one from the last to the first"
			}
		}
		return ch, ""
	}
	for pc != eng.Int(0) {
		if !isCall(pc, name) || len(pc.Args) != 5 || pc.Args[0] != b || len(ch.los) > utf8.UTFMax {
			return no(pc)
		}
		if f := sp.cond(pc.Args[3]); f == nil || f.sup != 0 || f.eval([]int64{0, 0}) != 0 {
			return no(pc)
		}
		x, y := sp.num(pc.Args[1], ^uint64(0)), sp.num(pc.Args[2], ^uint64(0))
		if x == nil || y == nil {
			return no(pc)
		}
		ch.los, ch.his = append(ch.los, x), append(ch.his, y)
		pc = pc.Args[4]
	}
	if len(ch.los) == 0 {
		return no(pc)
	}
	return ch, ""
}

// folded: what appendFoldedRange appends is the closure of the range.
func (m *classRules) folded() {
	c := m.c
	r, cons := m.run("appendFoldedRange")
	if r == nil || len(r.Params) != 3 {
		return
	}
	set, lo, hi := r.Params[0], r.Params[1], r.Params[2]
	name := load.Module + "/regexp.appendRange"
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		switch t {
		case lo:
			return variable(0)
		case hi:
			return variable(1)
		}
		return nil
	}
	type part struct {
		x, y   *fun
		closed bool // with all case variants
	}
	type path struct {
		gs    []*fun
		parts []part
	}
	var paths []*path
	reps := map[int64]bool{0: true, 'A' - 1: true, 'A': true, 'k': true, 'K': true, 0x7f: true, 0x212a: true, unicode.MaxRune: true}
	var folding []rune
	for x := rune(0); x <= unicode.MaxRune; x++ {
		if unicode.SimpleFold(x) != x {
			folding = append(folding, x)
		}
	}
	last := int64(folding[len(folding)-1])
	for d := int64(-1); d <= 1; d++ {
		reps[last+d] = true
		reps[int64(folding[0])+d] = true
	}
	for i := 0; i < len(folding); i += 150 {
		reps[int64(folding[i])] = true
	}
	for _, t := range r.Terms {
		if !c.Check(t.Kind == "return" && len(t.Rets) == 1, "folding", cons, r.Fn.Pos(), "it can end by %s", t.Kind) {
			return
		}
		p := &path{}
		p.gs, _ = sp.guard(t.St.Facts)
		for _, f := range t.St.Facts {
			f.Walk(func(x *eng.Term) bool {
				if x.Op == "int" || x.Op == "lin" {
					for d := int64(-1); d <= 1; d++ {
						for _, k := range []int64{x.K + d, -x.K + d} {
							if k >= 0 && k <= unicode.MaxRune {
								reps[k] = true
							}
						}
					}
				}
				return true
			})
		}
		v := t.Rets[0]
		for v != set {
			switch {
			case isCall(v, name) && len(v.Args) == 3:
				x, y := sp.num(v.Args[1], ^uint64(0)), sp.num(v.Args[2], ^uint64(0))
				if !c.Check(x != nil && y != nil, "folding", cons, r.Fn.Pos(), "the range %s-%s is appended", v.Args[1], v.Args[2]) {
					return
				}
				p.parts = append(p.parts, part{x, y, false})
				v = v.Args[0]
			case r.PhiOf(v) != nil:
				q := r.PhiOf(v)
				x, y, why := m.foldLoop(r, q, name, hi)
				if !c.Check(why == "", "folding", cons+" variants", r.Fn.Pos(), "%s", why) {
					return
				}
				fx, fy := sp.num(x, ^uint64(0)), sp.num(y, ^uint64(0))
				if !c.Check(fx != nil && fy != nil, "folding", cons+" variants", r.Fn.Pos(), "the variants of %s-%s are appended", x, y) {
					return
				}
				p.parts = append(p.parts, part{fx, fy, true})
				v = q.Init
			default:
				c.Check(false, "folding", cons, r.Fn.Pos(), "it returns %s", v)
				return
			}
		}
		paths = append(paths, p)
	}
	closure := func(out []chSpan, s chSpan) []chSpan {
		out = append(out, s)
		i := sort.Search(len(folding), func(i int) bool { return int64(folding[i]) >= s.lo })
		for ; i < len(folding) && int64(folding[i]) <= s.hi; i++ {
			for f := unicode.SimpleFold(folding[i]); f != folding[i]; f = unicode.SimpleFold(f) {
				if int64(f) < s.lo || int64(f) > s.hi {
					out = append(out, chSpan{int64(f), int64(f)})
				}
			}
		}
		return out
	}
	var rs []int64
	for x := range reps {
		rs = append(rs, x)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	for _, x := range rs {
		for _, y := range rs {
			if x > y {
				continue
			}
			env := []int64{x, y}
			n := 0
			for _, p := range paths {
				if !holds(p.gs, env) {
					continue
				}
				n++
				var got []chSpan
				for _, q := range p.parts {
					s := chSpan{q.x.eval(env), q.y.eval(env)}
					if s.lo > s.hi {
						continue
					}
					if q.closed {
						got = closure(got, s)
					} else {
						got = append(got, s)
					}
				}
				if !c.Check(sameSpans(joinSpans(got, false), joinSpans(closure(nil, chSpan{x, y}), false)), "folding", cons+" range", r.Fn.Pos(), "of the range %#x-%#x not exactly the case variants are appended", x, y) {
					return
				}
			}
			if !c.Check(n > 0, "folding", cons, r.Fn.Pos(), "there is no path for %#x-%#x", x, y) {
				return
			}
		}
	}
}

// foldLoop: the loop that carries the set q appends all case variants of the
// characters from x to y.
func (m *classRules) foldLoop(r *eng.Run, q *eng.Phi, name string, hi *eng.Term) (x, y *eng.Term, why string) {
	l := r.LoopOf(q.Sym)
	if l == nil || len(l.Backs) == 0 {
		return nil, nil, "the loop over the characters is not found"
	}
	var cp *eng.Phi
	for i := range l.Backs {
		v := q.Backs[i]
		var own, orbit bool
		for v != q.Sym {
			switch {
			case isCall(v, name) && len(v.Args) == 3 && v.Args[1] == v.Args[2] && l.Phi(v.Args[1]) != nil:
				if cp != nil && cp.Sym != v.Args[1] {
					return nil, nil, "characters of two loops are appended"
				}
				cp = l.Phi(v.Args[1])
				own = true
				v = v.Args[0]
			case r.PhiOf(v) != nil:
				// the orbit of the character
				in := r.LoopOf(v)
				iq := r.PhiOf(v)
				for k := range in.Backs {
					w := iq.Backs[k]
					if !isCall(w, name) || len(w.Args) != 3 || w.Args[0] != iq.Sym || w.Args[1] != w.Args[2] || in.Phi(w.Args[1]) == nil {
						return nil, nil, fmt.Sprintf("the variants become %s", w)
					}
					fp := in.Phi(w.Args[1])
					if !isCall(fp.Init, "unicode.SimpleFold") || l.Phi(fp.Init.Args[0]) == nil {
						return nil, nil, fmt.Sprintf("the variants start with %s", fp.Init)
					}
					ch := fp.Init.Args[0]
					if cp != nil && cp.Sym != ch {
						return nil, nil, "the variants are those of another character"
					}
					cp = l.Phi(ch)
					if !isCall(fp.Backs[k], "unicode.SimpleFold") || fp.Backs[k].Args[0] != fp.Sym {
						return nil, nil, fmt.Sprintf("the next variant is %s", fp.Backs[k])
					}
					for _, e := range in.Exits {
						if !e.Implies(eng.Eq(fp.Sym, ch, ch.Typ)) && !e.Implies(eng.False) {
							return nil, nil, "the variants can end before they come round"
						}
					}
				}
				orbit = len(in.Backs) > 0
				v = iq.Init
			default:
				return nil, nil, fmt.Sprintf("the set becomes %s", v)
			}
		}
		if !own || !orbit {
			return nil, nil, "a character or its variants are not appended"
		}
		if cp.Backs[i] != eng.AddK(cp.Sym, 1) {
			return nil, nil, fmt.Sprintf("the next character is %s", cp.Backs[i])
		}
	}
	// up to where
	cand := []*eng.Term{hi}
	for _, e := range l.Exits {
		for _, f := range e.Facts {
			if f.Op == "le" {
				// c > K
				if k, ok := eng.DiffConst(f.Args[0], eng.Sub(eng.Int(0), cp.Sym)); ok {
					cand = append(cand, eng.Int(k-1))
				}
			}
		}
	}
	for _, b := range cand {
		ok := len(l.Exits) > 0
		for _, e := range l.Exits {
			ok = ok && (e.Implies(eng.Lt(b, cp.Sym)) || e.Implies(eng.False))
		}
		for _, e := range l.Backs {
			ok = ok && e.Implies(eng.Le(cp.Sym, b))
		}
		if ok {
			return cp.Init, b, ""
		}
	}
	return nil, nil, "it is not known where the loop over the characters ends"
}

// appended: appendRange adds the range to the set and nothing else.
func (m *classRules) appended() {
	c := m.c
	r, cons := m.run("appendRange")
	if r == nil || len(r.Params) != 3 {
		return
	}
	set, lo, hi := r.Params[0], r.Params[1], r.Params[2]
	const vLo, vHi, vLen, vE = 0, 1, 2, 3 // vE+k-1: element len-k
	offset := func(i *eng.Term) int64 {
		k, ok := eng.DiffConst(eng.Len(set), i)
		if !ok || k < 1 || k > 4 {
			return 0
		}
		return k
	}
	sp := &space{}
	sp.leaf = func(t *eng.Term) *leaf {
		switch {
		case t == lo:
			return variable(vLo)
		case t == hi:
			return variable(vHi)
		case t == eng.Len(set):
			return variable(vLen)
		}
		if b, i, ok := elemOf(t); ok && b == set {
			if k := offset(i); k > 0 {
				return variable(vE + int(k) - 1)
			}
		}
		return nil
	}
	type path struct {
		gs  []*fun
		app bool
		val [4]*fun
	}
	var paths []*path
	for _, t := range r.Terms {
		if !c.Check(t.Kind == "return" && len(t.Rets) == 1, "appending", cons, r.Fn.Pos(), "it can end by %s", t.Kind) {
			return
		}
		p := &path{}
		var blind []*eng.Term
		p.gs, blind = sp.guard(t.St.Facts)
		ret := t.Rets[0]
		switch {
		case ret == set:
		case isAppend(ret, "elems") && ret.Args[0] == set && len(ret.Args) == 3 && ret.Args[1] == lo && ret.Args[2] == hi:
			p.app = true
		default:
			c.Check(false, "appending", cons, r.Fn.Pos(), "it returns %s", ret)
			return
		}
		if !c.Check(len(blind) == 0, "appending", cons, r.Fn.Pos(), "the condition %v is not one on the last ranges", blind) {
			return
		}
		ptr := types.NewPointer(set.Typ.Underlying().(*types.Slice).Elem())
		for k := int64(1); k <= 4; k++ {
			a := eng.Elem(set, eng.AddK(eng.Len(set), -k), ptr)
			p.val[k-1] = variableFun(vE + int(k) - 1)
			for _, e := range t.St.Events(false) {
				if e.Kind == "store" && e.Args[0] == a {
					if p.val[k-1] = sp.num(e.Args[1], ^uint64(0)); p.val[k-1] == nil {
						c.Check(false, "appending", cons, r.Fn.Pos(), "%s is written to the set", e.Args[1])
						return
					}
				}
			}
		}
		for _, e := range t.St.Events(false) {
			if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == set && offset(e.Args[0].Args[1]) == 0 {
				c.Check(false, "appending", cons, r.Fn.Pos(), "%s is written", e.Args[0])
				return
			}
		}
		paths = append(paths, p)
	}
	const top = 8
	var prs []chSpan
	for x := int64(0); x < top; x++ {
		for y := x; y < top; y++ {
			prs = append(prs, chSpan{x, y})
		}
	}
	try := func(n int64, s, e1, e2 chSpan) bool {
		env := []int64{s.lo, s.hi, n, e1.hi, e1.lo, e2.hi, e2.lo}
		before := []chSpan{s}
		if n >= 2 {
			before = append(before, e1)
		}
		if n >= 4 {
			before = append(before, e2)
		}
		some := false
		for _, p := range paths {
			if !holds(p.gs, env) {
				continue
			}
			some = true
			var after []chSpan
			if p.app {
				after = append(after, s)
			}
			if n >= 2 {
				after = append(after, chSpan{p.val[1].eval(env), p.val[0].eval(env)})
			}
			if n >= 4 {
				after = append(after, chSpan{p.val[3].eval(env), p.val[2].eval(env)})
			}
			for _, q := range after {
				if !c.Check(q.lo <= q.hi, "appending", cons+" ranges", r.Fn.Pos(), "appending %v to %v makes %v", s, before[1:], after) {
					return false
				}
			}
			if !c.Check(sameSpans(joinSpans(after, false), joinSpans(before, false)), "appending", cons+" ranges", r.Fn.Pos(), "appending %v to %v makes %v", s, before[1:], after) {
				return false
			}
		}
		return c.Check(some, "appending", cons+" cases", r.Fn.Pos(), "there is no path for appending %v to %v", s, before[1:])
	}
	for _, s := range prs {
		if !try(0, s, chSpan{}, chSpan{}) {
			return
		}
		for _, e1 := range prs {
			if !try(2, s, e1, chSpan{}) {
				return
			}
			for _, e2 := range prs {
				if !try(4, s, e1, e2) {
					return
				}
			}
		}
	}
}

func variableFun(v int) *fun {
	return &fun{func(env []int64) int64 { return env[v] }, 1 << uint(v)}
}

// closed: programs and builders are written only where analysed.
func (m *classRules) closed() {
	c := m.c
	for _, f := range c.P.Funcs() {
		if f.Pkg == nil || f.Pkg != c.P.SPkg["regexp"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var what string
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, _ := fa.X.Type().Underlying().(*types.Pointer)
					nm, _ := pt.Elem().(*types.Named)
					if nm == nil {
						continue
					}
					n := nm.Obj().Name()
					if n != "runeBuilder" && n != "Inst" && n != "Prog" {
						continue
					}
					what = n + "." + nm.Underlying().(*types.Struct).Field(fa.Field).Name()
				case *ssa.MapUpdate:
					mt, _ := in.Map.Type().Underlying().(*types.Map)
					nm, _ := mt.Key().(*types.Named)
					if nm == nil || nm.Obj().Name() != "cacheKey" {
						continue
					}
					what = "cache"
				default:
					continue
				}
				c.Check(m.seen[in], "closed", fnLabel(f)+" "+what, in.Pos(), "%s writes %s, outside the analysed steps", fnLabel(f), what)
			}
		}
	}
}
