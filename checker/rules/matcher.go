package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C18",
		Explanation: "The matcher is decided to be the lazily determinised form of the compiled program, function by function, with the helper functions abstract and path conditions evaluated exhaustively: following empty transitions (for every opcode, condition and flag set) adds exactly the successors the opcode names; " +
			"a byte step (for every opcode, byte range, fold bit and byte) adds exactly the successors of the ranges that contain the byte and reports a match exactly at a match instruction; the next state (for every remembered flag and every byte or the end of text) is computed under exactly the line, text and word-boundary conditions that hold before the byte " +
			"and remembers exactly those that hold after it; states are cached under an encoding that reads back as the same state, and their answers at a line end and at the end of text are those of the step over it; the scan follows, for every byte, the state computed for that byte or the line start after a newline, and answers at the first line end or at the end exactly when the state does; the transitions are written nowhere else.",
		Assumptions: []string{"the program is the one regexp/syntax compiles for the expression, with its character classes rewritten to bytes", "sort.Ints and encoding/binary do what they say"},
		Run:         runMatcher,
	})
}

const (
	rxPkg   = load.Module + "/regexp."
	rxM     = "(*" + load.Module + "/regexp.matcher)."
	rxN     = "(*" + load.Module + "/regexp.nstate)."
	spSetM  = "(*" + load.Module + "/sparse.Set)."
	endText = -1

	opAlt, opAltMatch, opCapture, opEmpty, opMatch, opFail, opNop = 0, 1, 2, 3, 4, 5, 6

	emptyBeginLine, emptyEndLine, emptyBeginText, emptyEndText, emptyWord, emptyNoWord = 1, 2, 4, 8, 16, 32
)

type matcherRules struct {
	c       *Ctx
	opRange int64 // the opcode of byte ranges
	fold    int64 // the fold bit of their argument
	flagBOL int64
	flagBOT int64
	flagWrd int64
	seen    map[ssa.Instruction]bool // stores that were analysed
	dmatch  *eng.Term
}

func runMatcher(c *Ctx) {
	m := &matcherRules{c: c, seen: map[ssa.Instruction]bool{}}
	k := func(name string) int64 {
		t := c.constOf("regexp", name)
		if t == nil {
			return -1
		}
		return t.K
	}
	m.opRange, m.fold = k("instByteRange"), k("argFold")
	m.flagBOL, m.flagBOT, m.flagWrd = k("flagBOL"), k("flagBOT"), k("flagWord")
	c.Check(m.opRange > opNop+1 && m.opRange < 256, "encoding", "opcode", 0, "the opcode of byte ranges is %d", m.opRange)
	c.Check(m.fold > 0xffff && m.fold&(m.fold-1) == 0, "encoding", "fold bit", 0, "the fold bit is %#x", m.fold)
	fl := []int64{m.flagBOL, m.flagBOT, m.flagWrd}
	c.Check(fl[0]&fl[1]|fl[0]&fl[2]|fl[1]&fl[2] == 0 && fl[0] > 0 && fl[1] > 0 && fl[2] > 0, "encoding", "flags", 0, "the remembered flags are %v", fl)
	m.addq()
	m.stepEmpty()
	m.stepByte()
	m.computeNext()
	m.cache()
	m.scan("matcher.match")
	m.scan("matcher.matchString")
	m.start()
	m.dmatchState()
	m.encDec()
	m.compile()
	m.closed()
	c.sparseSet()
	c.Min("successors", 256)
	c.Min("byte-step", 512)
	c.Min("conditions", 257*8)
	c.Min("cached", 4)
	c.Min("step-shape", 5)
	c.Min("scan", 8)
	c.Min("scan-answer", 8)
	c.Min("start-state", 4)
	c.Min("waiting-state", 4)
	c.Min("encoding", 8)
	c.Min("compiled", 5)
	c.Min("closed", 8)
	c.Min("set-model", 5)
}

func (m *matcherRules) opaque(f *ssa.Function) bool {
	switch recvIn(f) {
	case "sparse.Set":
		return true
	case "regexp.nstate":
		return f.Name() == "enc" || f.Name() == "dec"
	case "regexp.matcher":
		switch f.Name() {
		case "addq", "stepEmpty", "stepByte", "computeNext", "cache", "init", "match", "matchString":
			return true
		}
	}
	return f.Name() == "toByteProg" && f.Signature.Recv() == nil
}

// flagSym is what decoding a state leaves in its flags.
func flagSym(addr *eng.Term) *eng.Term {
	return eng.Sym("decoded flags", addr.Typ.Underlying().(*types.Pointer).Elem())
}

func (m *matcherRules) model(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
	switch {
	case recvIn(fn) == "regexp.nstate" && fn.Name() == "dec" && len(e.Args) == 2:
		if a := fieldAddr(e.Args[0], "flag"); a != nil {
			s.Set(a, flagSym(a))
		}
	case recvIn(fn) == "regexp.matcher" && fn.Name() == "cache" && len(e.Args) == 2:
		// the state cached is that of the flags it has now
		res := e.Res
		if a := fieldAddr(e.Args[1], "flag"); a != nil {
			v := s.Load(a, a.Typ.Underlying().(*types.Pointer).Elem())
			res = eng.Mk("cached", lbl, e.Res.Typ, e.Res, v)
		}
		// it uses both temporary states
		for _, z := range []string{"z1", "z2"} {
			za := fieldAddr(e.Args[0], z)
			if za == nil {
				continue
			}
			if a := fieldAddr(za, "flag"); a != nil {
				s.Set(a, eng.Sym("flags left by "+lbl, a.Typ.Underlying().(*types.Pointer).Elem()))
			}
		}
		return res, true
	}
	return e.Res, true
}

func (m *matcherRules) run(name string) (*eng.Run, string) {
	f := m.c.Func("regexp", name)
	if f == nil {
		return nil, ""
	}
	root := f
	r := m.c.Analyze(f, &eng.Config{
		Opaque:    func(g *ssa.Function) bool { return m.opaque(g) && g != root || g == root },
		Model:     m.model,
		Stores:    func(*eng.Term) bool { return true },
		KeepFacts: true,
		Join:      4000,
		Entries:   16,
		MaxStates: 6000,
	})
	if r == nil {
		return nil, ""
	}
	m.stores(r)
	return r, fnLabel(f)
}

// stores records the stores on the paths of r.
func (m *matcherRules) stores(r *eng.Run) {
	see := func(evs []*eng.Event) {
		for _, e := range evs {
			if e.Kind == "store" && e.Instr != nil {
				m.seen[e.Instr] = true
			}
		}
	}
	for _, t := range r.Terms {
		see(t.St.Events(false))
	}
	for _, l := range r.Loops {
		see(l.Entry.Events(false))
		for _, st := range l.Backs {
			see(st.Events(false))
		}
	}
}

// instField recognises a field of an instruction of the program, and which.
func instField(t *eng.Term, name string) (idx *eng.Term, ok bool) {
	if t.Op != "ld" || t.Args[0].Op != "field" || t.Args[0].Aux != name {
		return nil, false
	}
	e := t.Args[0].Args[0]
	if e.Op != "elem" || e.Args[0].Op != "ld" || e.Args[0].Args[0].Op != "field" || e.Args[0].Args[0].Aux != "Inst" {
		return nil, false
	}
	return stripConv(e.Args[1]), true
}

// recvIn names the receiver's type, of any package of the module.
func recvIn(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), load.Module+"/") + "." + n.Obj().Name()
}

// calls of the abstract methods on a path
func callsOf(evs []*eng.Event, name string) (out []*eng.Event) {
	for _, e := range evs {
		if e.Kind == "call" && e.Name == name {
			out = append(out, e)
		}
	}
	return
}

// want fails the rule for each abstract call that is not named.
func (m *matcherRules) onlyCalls(evs []*eng.Event, names ...string) string {
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		ok := false
		for _, n := range names {
			ok = ok || e.Name == n
		}
		if !ok && (strings.HasPrefix(e.Name, spSetM) || strings.HasPrefix(e.Name, rxM) || strings.HasPrefix(e.Name, rxN)) {
			return strings.TrimPrefix(e.Name, "(*"+load.Module+"/")
		}
	}
	return ""
}

// A step is one path through a function or an iteration.
type mstep struct {
	st   *eng.State
	evs  []*eng.Event
	next *eng.Term // the instruction an iteration goes on with
}

// addq: following the empty transitions.
func (m *matcherRules) addq() {
	c := m.c
	r, cons := m.run("matcher.addq")
	if r == nil {
		return
	}
	if len(r.Params) != 4 {
		c.Viol("anchor", cons, r.Fn.Pos(), "unexpected parameters")
		return
	}
	recv, q, id, flag := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	var steps []mstep
	cur := id
	var loop *eng.Loop
	for _, l := range r.Loops {
		if l.Callback {
			c.Check(false, "successors", cons, l.Pos, "an unexpected iteration")
			return
		}
	}
	if len(r.Loops) > 1 {
		c.Check(false, "successors", cons, r.Loops[1].Pos, "the instruction is followed in several loops")
		return
	}
	if len(r.Loops) == 1 {
		// the last successor may be followed by going round a loop
		loop = r.Loops[0]
		var p *eng.Phi
		for _, x := range loop.Phis {
			if x.Init == id {
				p = x
			}
		}
		if !c.Check(p != nil, "successors", cons+" loop", loop.Pos, "the loop does not start with the instruction given") {
			return
		}
		cur = p.Sym
		for i, st := range loop.Backs {
			evs, _ := st.EventsSince(loop)
			steps = append(steps, mstep{st, evs, p.Backs[i]})
		}
		pre := 0
		for _, e := range loop.Entry.Events(false) {
			if e.Kind == "call" {
				pre++
			}
		}
		c.Check(pre == 0, "successors", cons+" loop", loop.Pos, "something is done before the loop")
	}
	for _, t := range r.Terms {
		if t.Kind != "return" {
			c.Check(false, "successors", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		evs := t.St.Events(false)
		if loop != nil {
			evs, _ = t.St.EventsSince(loop)
		}
		steps = append(steps, mstep{t.St, evs, nil})
	}
	const vOp, vArg, vFlag = 0, 1, 2
	sp := &space{
		doms: [][]int64{upto(0, 255), upto(0, 63), upto(0, 63)},
		leaf: func(t *eng.Term) *leaf {
			if i, ok := instField(t, "Op"); ok && i == cur {
				return variable(vOp)
			}
			if i, ok := instField(t, "Arg"); ok && i == cur {
				return variable(vArg)
			}
			if t == flag {
				return variable(vFlag)
			}
			return nil
		},
	}
	var paths [][]*fun
	var live []mstep
	for _, s := range steps {
		has := callsOf(s.evs, spSetM+"Has")
		adds := callsOf(s.evs, spSetM+"Add")
		subs := callsOf(s.evs, rxM+"addq")
		if bad := m.onlyCalls(s.evs, spSetM+"Has", spSetM+"Add", rxM+"addq"); bad != "" {
			c.Check(false, "successors", cons, r.Fn.Pos(), "it also calls %s", bad)
			return
		}
		okHas := len(has) == 1 && has[0].Args[0] == q && stripConv(has[0].Args[1]) == cur
		if !c.Check(okHas, "successors", cons+" seen", r.Fn.Pos(), "a path does not ask first whether the instruction is in the queue") {
			return
		}
		in := has[0].Res
		if s.st.Implies(in) {
			c.Check(len(adds) == 0 && len(subs) == 0 && s.next == nil, "successors", cons+" seen", r.Fn.Pos(), "an instruction that is in the queue is followed again")
			continue
		}
		if !s.st.Implies(eng.Not(in)) {
			c.Check(false, "successors", cons+" seen", r.Fn.Pos(), "whether the instruction is in the queue does not matter")
			return
		}
		okAdd := len(adds) == 1 && adds[0].Args[0] == q && stripConv(adds[0].Args[1]) == cur
		for _, e := range s.evs {
			if len(adds) == 1 && e == adds[0] {
				break
			}
			okAdd = okAdd && e.Name != rxM+"addq"
		}
		if !c.Check(okAdd, "successors", cons+" added", r.Fn.Pos(), "an instruction that is not in the queue is not added to it before it is followed") {
			return
		}
		g, blind := sp.guard(s.st.Facts)
		if len(blind) > 0 {
			c.Check(false, "successors", cons, r.Fn.Pos(), "cannot evaluate %s", blind[0])
			return
		}
		paths = append(paths, g)
		live = append(live, s)
	}
	target := func(t *eng.Term) string {
		t = stripConv(t)
		if i, ok := instField(t, "Out"); ok && i == cur {
			return "Out"
		}
		if i, ok := instField(t, "Arg"); ok && i == cur {
			return "Arg"
		}
		return t.String()
	}
	got := make([]string, len(live))
	for i, s := range live {
		var ts []string
		for _, e := range callsOf(s.evs, rxM+"addq") {
			x := target(e.Args[2])
			if e.Args[0] != recv || e.Args[1] != q || e.Args[3] != flag {
				x = "another queue or flags"
			}
			ts = append(ts, x)
		}
		if s.next != nil {
			ts = append(ts, target(s.next))
		}
		sort.Strings(ts)
		got[i] = strings.Join(ts, "+")
	}
	want := func(env []int64) string {
		switch env[vOp] {
		case opNop, opCapture:
			return "Out"
		case opAlt, opAltMatch:
			return "Arg+Out"
		case opEmpty:
			if env[vArg]&^env[vFlag] == 0 {
				return "Out"
			}
		}
		return ""
	}
	sp.each(paths,
		func(env []int64, as uint) bool {
			return as&1 == 0 || env[vOp] == opEmpty
		},
		func(env []int64, alive []int) bool {
			w := want(env)
			if !c.Check(len(alive) > 0, "successors", cons+fmt.Sprintf(" op %d", env[vOp]), r.Fn.Pos(), "no path for opcode %d, argument %d, flags %d", env[vOp], env[vArg], env[vFlag]) {
				return false
			}
			for _, i := range alive {
				if got[i] != w {
					c.Check(false, "successors", cons+fmt.Sprintf(" op %d", env[vOp]), r.Fn.Pos(), "for opcode %d, condition %d and flags %d it follows {%s}, not {%s}", env[vOp], env[vArg], env[vFlag], got[i], w)
					return false
				}
			}
			return true
		})
}

// stepEmpty: re-expanding a queue under new conditions.
func (m *matcherRules) stepEmpty() {
	c := m.c
	r, cons := m.run("matcher.stepEmpty")
	if r == nil {
		return
	}
	if len(r.Params) != 4 || len(r.Loops) != 1 {
		c.Check(false, "re-expand", cons, r.Fn.Pos(), "not one loop over the queue")
		return
	}
	recv, runq, nextq, flag := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	l := r.Loops[0]
	m.queueLoop(r, l, cons, "re-expand", runq, nextq, nil)
	for i, st := range l.Backs {
		evs, _ := st.EventsSince(l)
		as := callsOf(evs, rxM+"addq")
		ok := len(as) == 1 && as[0].Args[0] == recv && as[0].Args[1] == nextq && as[0].Args[3] == flag && m.onlyCalls(evs, rxM+"addq", spSetM+"Dense") == ""
		if c.Check(ok, "re-expand", cons+" element", l.Pos, "an iteration does not add one instruction to the next queue under the given flags") {
			m.element(r, l, i, st, cons, "re-expand", runq, stripConv(as[0].Args[2]))
		}
	}
	for _, t := range r.Terms {
		c.Check(t.Kind == "return" && !t.St.Inside(l), "re-expand", cons+" end", l.Pos, "it ends before the last instruction of the queue")
	}
}

// denseOf recognises the elements of a queue.
func denseOf(t, q *eng.Term) bool { return isCall(t, spSetM+"Dense") && t.Args[0] == q }

// element checks that iteration i of the loop handles the next element of
// the queue.
func (m *matcherRules) element(r *eng.Run, l *eng.Loop, i int, st *eng.State, cons, rule string, q, x *eng.Term) bool {
	b, idx, ok := elemOf(x)
	if !m.c.Check(ok && denseOf(b, q), rule, cons+" element", l.Pos, "an iteration handles %s, not an instruction of the queue", x) {
		return false
	}
	return m.c.wholeScan(l, i, b, idx, rule, cons+" element")
}

// queueLoop checks what is done before the loop over runq: nextq is emptied,
// and only then things are added to it.
func (m *matcherRules) queueLoop(r *eng.Run, l *eng.Loop, cons, rule string, runq, nextq *eng.Term, added func(e *eng.Event) bool) {
	reset, bad := 0, ""
	n := 0
	for _, e := range l.Entry.Events(false) {
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case spSetM + "Reset":
			if e.Args[0] != nextq || n > 0 {
				bad = "the wrong queue is emptied, or too late"
			}
			reset++
		case spSetM + "Dense", spSetM + "Len":
		case rxM + "addq":
			n++
			if added == nil || !added(e) {
				bad = "something else is added first"
			}
		default:
			if strings.HasPrefix(e.Name, spSetM) {
				bad = "it calls " + e.Name
			}
		}
	}
	if added != nil && n != 1 && bad == "" {
		bad = "the start instruction is not added once"
	}
	if reset == 0 && bad == "" {
		bad = "the next queue is not emptied first"
	}
	m.c.Check(bad == "", rule, cons+" first", l.Pos, "%s", bad)
}

// stepByte: consuming one byte.
func (m *matcherRules) stepByte() {
	c := m.c
	r, cons := m.run("matcher.stepByte")
	if r == nil {
		return
	}
	if len(r.Params) != 5 || len(r.Loops) != 1 {
		c.Check(false, "byte-step", cons, r.Fn.Pos(), "not one loop over the queue")
		return
	}
	recv, runq, nextq, cc, flag := r.Params[0], r.Params[1], r.Params[2], r.Params[3], r.Params[4]
	l := r.Loops[0]
	// the start instruction may be added before or after the loop
	isStart := func(e *eng.Event) bool {
		x := stripConv(e.Args[2])
		return e.Args[0] == recv && e.Args[1] == nextq && e.Args[3] == flag && x.Op == "ld" && x.Args[0].Op == "field" && x.Args[0].Aux == "Start"
	}
	var late int
	for _, t := range r.Terms {
		if t.St.Inside(l) {
			continue
		}
		late = 0
		for _, e := range callsOf(t.St.Events(false), rxM+"addq") {
			if isStart(e) {
				late++
			}
		}
		c.Check(late == 1, "byte-step", cons+" start", r.Fn.Pos(), "the start instruction is added %d times", late)
	}
	pre := len(callsOf(l.Entry.Events(false), rxM+"addq"))
	if pre > 0 {
		m.queueLoop(r, l, cons, "byte-step", runq, nextq, isStart)
	} else {
		m.queueLoop(r, l, cons, "byte-step", runq, nextq, nil)
	}
	// the instruction of an iteration
	var cur *eng.Term
	look := func(t *eng.Term) bool {
		if i, ok := instField(t, "Op"); ok {
			cur = i
		}
		return true
	}
	for _, st := range l.Backs {
		for _, f := range st.Facts {
			f.Walk(look)
		}
	}
	if cur == nil {
		c.Check(false, "byte-step", cons+" element", l.Pos, "the loop does not look at instructions")
		return
	}
	const vOp, vC, vFold, vLo, vHi = 0, 1, 2, 3, 4
	piece := func(mask uint64) (out uint) {
		if mask&0xff != 0 {
			out |= 1 << vHi
		}
		if mask&0xff00 != 0 {
			out |= 1 << vLo
		}
		if mask&uint64(m.fold) != 0 {
			out |= 1 << vFold
		}
		return
	}
	fold := m.fold
	arg := &leaf{func(e []int64) int64 { return e[vFold]*fold | e[vLo]<<8 | e[vHi] }, piece}
	sp := &space{
		doms: [][]int64{upto(0, 255), upto(endText, 255), {0, 1}, upto(0, 255), upto(0, 255)},
		leaf: func(t *eng.Term) *leaf {
			if i, ok := instField(t, "Op"); ok && i == cur {
				return variable(vOp)
			}
			if i, ok := instField(t, "Arg"); ok && i == cur {
				return arg
			}
			if t == cc {
				return variable(vC)
			}
			return nil
		},
	}
	// what the loop remembers of a match
	var flagPhi *eng.Phi
	for _, p := range l.Phis {
		if p.Sym.Typ == nil || !isBool(p.Sym.Typ) {
			continue
		}
		for _, t := range r.Terms {
			if len(t.Rets) == 1 {
				t.Rets[0].Walk(func(x *eng.Term) bool {
					if x == p.Sym {
						flagPhi = p
					}
					return true
				})
			}
		}
	}
	var paths [][]*fun
	type res struct {
		adds  string
		match int // 1 match, 0 as before, -1 something else
		ends  bool
	}
	var got []res
	add := func(st *eng.State, evs []*eng.Event, x res) bool {
		if bad := m.onlyCalls(evs, rxM+"addq", spSetM+"Dense"); bad != "" {
			c.Check(false, "byte-step", cons, l.Pos, "an iteration calls %s", bad)
			return false
		}
		var ts []string
		for _, e := range callsOf(evs, rxM+"addq") {
			to := stripConv(e.Args[2])
			i, ok := instField(to, "Out")
			switch {
			case e.Args[0] != recv || e.Args[1] != nextq || e.Args[3] != flag:
				ts = append(ts, "another queue or flags")
			case ok && i == cur:
				ts = append(ts, "Out")
			default:
				ts = append(ts, to.String())
			}
		}
		x.adds = strings.Join(ts, "+")
		g, blind := sp.guard(st.Facts)
		if len(blind) > 0 {
			c.Check(false, "byte-step", cons, l.Pos, "cannot evaluate %s", blind[0])
			return false
		}
		paths = append(paths, g)
		got = append(got, x)
		return true
	}
	if flagPhi != nil {
		c.Check(flagPhi.Init == eng.False, "byte-step", cons+" match", l.Pos, "a match is assumed before the first instruction")
	}
	for i, st := range l.Backs {
		evs, _ := st.EventsSince(l)
		if !m.element(r, l, i, st, cons, "byte-step", runq, cur) {
			return
		}
		x := res{}
		if flagPhi != nil {
			v := flagPhi.Backs[i]
			switch {
			case v == eng.True || st.Implies(v):
				x.match = 1
			case v == flagPhi.Sym:
			default:
				x.match = -1
			}
		}
		if !add(st, evs, x) {
			return
		}
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "byte-step", cons+" match", r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		v := t.Rets[0]
		if !t.St.Inside(l) {
			// after the last instruction
			ok := flagPhi != nil && (v == flagPhi.Sym || t.St.Implies(v) && t.St.Implies(flagPhi.Sym) || t.St.Implies(eng.Not(v)) && t.St.Implies(eng.Not(flagPhi.Sym))) ||
				flagPhi == nil && v == eng.False
			c.Check(ok, "byte-step", cons+" match", r.Fn.Pos(), "after the last instruction it returns %s", v)
			continue
		}
		evs, _ := t.St.EventsSince(l)
		x := res{ends: true}
		if v == eng.True || t.St.Implies(v) {
			x.match = 1
		}
		if !add(t.St, evs, x) {
			return
		}
	}
	want := func(env []int64) (adds string, match int) {
		switch env[vOp] {
		case opMatch:
			return "", 1
		case m.opRange:
			ch := env[vC]
			if ch == endText {
				return "", 0
			}
			if env[vFold] != 0 && 'a' <= ch && ch <= 'z' {
				ch += 'A' - 'a'
			}
			if env[vLo] <= ch && ch <= env[vHi] {
				return "Out", 0
			}
		}
		return "", 0
	}
	n, lastC := 0, int64(-2)
	sp.each(paths,
		func(env []int64, as uint) bool {
			return as&1 == 0 || env[vOp] == m.opRange && (as&2 == 0 || env[vC] != endText)
		},
		func(env []int64, alive []int) bool {
			a, mt := want(env)
			at := fmt.Sprintf("opcode %d, range %d-%d, fold %d, byte %d", env[vOp], env[vLo], env[vHi], env[vFold], env[vC])
			if len(alive) == 0 {
				c.Check(false, "byte-step", cons+fmt.Sprintf(" op %d", env[vOp]), l.Pos, "no path for %s", at)
				return false
			}
			for _, i := range alive {
				g := got[i]
				switch {
				case g.match != mt && (flagPhi != nil || g.ends || mt == 1):
					c.Check(false, "byte-step", cons+fmt.Sprintf(" op %d", env[vOp]), l.Pos, "for %s: match reported %d, not %d", at, g.match, mt)
					return false
				case g.ends && mt == 0:
					c.Check(false, "byte-step", cons+fmt.Sprintf(" op %d", env[vOp]), l.Pos, "for %s the step ends early", at)
					return false
				case g.adds != a:
					c.Check(false, "byte-step", cons+fmt.Sprintf(" op %d", env[vOp]), l.Pos, "for %s it goes on to {%s}, not {%s}", at, g.adds, a)
					return false
				}
			}
			n++
			if env[vC] != lastC || env[vOp] != m.opRange {
				lastC = env[vC]
				c.Check(true, "byte-step", cons+fmt.Sprintf(" op %d byte %d", env[vOp], env[vC]), l.Pos, "")
			}
			return true
		})
	c.Note("byte step: %d combinations of opcode, range, fold bit and byte", n)
}

func isWord(c int64) bool {
	return 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_'
}

// computeNext: one step of the determinised machine.
func (m *matcherRules) computeNext() {
	c := m.c
	r, cons := m.run("matcher.computeNext")
	if r == nil {
		return
	}
	if len(r.Params) != 3 || len(r.Loops) != 0 {
		c.Check(false, "conditions", cons, r.Fn.Pos(), "unexpected form")
		return
	}
	recv, d, cc := r.Params[0], r.Params[1], r.Params[2]
	const vF, vC = 0, 1
	var doms []int64
	for i := int64(0); i < 8; i++ {
		x := int64(0)
		for b, f := range []int64{m.flagBOL, m.flagBOT, m.flagWrd} {
			if i>>uint(b)&1 != 0 {
				x |= f
			}
		}
		doms = append(doms, x)
	}
	fsym := (*eng.Term)(nil)
	sp := &space{
		doms: [][]int64{doms, upto(endText, 255)},
		leaf: func(t *eng.Term) *leaf {
			if t == cc {
				return variable(vC)
			}
			if t == fsym {
				return variable(vF)
			}
			return nil
		},
	}
	type res struct{ f1, f2, f3 *fun }
	var paths [][]*fun
	var got []res
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "step-shape", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			return
		}
		evs := t.St.Events(false)
		dec, se, sb, ca := callsOf(evs, rxN+"dec"), callsOf(evs, rxM+"stepEmpty"), callsOf(evs, rxM+"stepByte"), callsOf(evs, rxM+"cache")
		if bad := m.onlyCalls(evs, rxN+"dec", rxM+"stepEmpty", rxM+"stepByte", rxM+"cache"); bad != "" || len(dec) != 1 || len(se) != 1 || len(sb) != 1 || len(ca) > 1 {
			c.Check(false, "step-shape", cons, r.Fn.Pos(), "a path does not decode, re-expand and step once each %s", bad)
			return
		}
		a := dec[0].Args[0]
		src := dec[0].Args[1]
		okSrc := src.Op == "ld" && src.Args[0].Op == "field" && src.Args[0].Aux == "enc" && src.Args[0].Args[0] == d
		aq := fieldAddr(a, "q")
		ff := fieldAddr(a, "flag")
		if aq == nil || ff == nil || !c.Check(okSrc, "step-shape", cons+" decode", r.Fn.Pos(), "it decodes %s, not the state given", src) {
			return
		}
		fsym = flagSym(ff)
		b := se[0].Args[2]
		okE := se[0].Args[0] == recv && se[0].Args[1] == aq && b != aq && b.Op == "field" && b.Aux == aq.Aux
		okB := sb[0].Args[0] == recv && sb[0].Args[1] == b && sb[0].Args[3] == cc
		into := sb[0].Args[2]
		order := -1
		okO := true
		for _, e := range evs {
			k := -1
			switch {
			case len(dec) == 1 && e == dec[0]:
				k = 0
			case e == se[0]:
				k = 1
			case e == sb[0]:
				k = 2
			case len(ca) == 1 && e == ca[0]:
				k = 3
			}
			if k >= 0 {
				okO = okO && k > order
				order = k
			}
		}
		c.Check(okE && okO, "step-shape", cons+" re-expand", r.Fn.Pos(), "the decoded queue is not re-expanded into the other one before the step")
		c.Check(okB && into != b && into.Op == "field" && into.Aux == aq.Aux, "step-shape", cons+" step", r.Fn.Pos(), "the step is not taken from the re-expanded queue on the byte given")
		if !okE || !okB {
			return
		}
		// a match, or the state reached
		mt := sb[0].Res
		ret := t.Rets[0]
		var f3 *fun
		switch {
		case t.St.Implies(mt):
			ok := ret.Op == "global" && len(ca) == 0
			if ok && m.dmatch == nil {
				m.dmatch = ret
			}
			c.Check(ok && ret == m.dmatch, "step-shape", cons+" match", r.Fn.Pos(), "when the step reports a match it returns %s", ret)
		case t.St.Implies(eng.Not(mt)):
			ok := len(ca) == 1 && ret.Op == "cached" && ret == ca[0].Res && ca[0].Args[0] == recv
			var z *eng.Term
			if ok {
				z = ca[0].Args[1]
				ok = fieldAddr(z, "q") == into
			}
			if !c.Check(ok, "step-shape", cons+" next", r.Fn.Pos(), "without a match it returns %s, not the state of the queue reached", ret) {
				return
			}
			v := ret.Args[1]
			if f3 = sp.num(v, 255); f3 == nil {
				c.Check(false, "conditions", cons+" remembered", r.Fn.Pos(), "the flags remembered are %s", v)
				return
			}
		default:
			c.Check(false, "step-shape", cons+" match", r.Fn.Pos(), "the match reported by the step does not decide the state returned")
			return
		}
		f1, f2 := sp.num(se[0].Args[3], 255), sp.num(sb[0].Args[4], 255)
		if f1 == nil || f2 == nil {
			c.Check(false, "conditions", cons, r.Fn.Pos(), "the conditions are %s and %s", se[0].Args[3], sb[0].Args[4])
			return
		}
		g, blind := sp.guard(t.St.Facts)
		if len(blind) > 0 {
			c.Check(false, "conditions", cons, r.Fn.Pos(), "cannot evaluate %s", blind[0])
			return
		}
		paths = append(paths, g)
		got = append(got, res{f1, f2, f3})
	}
	keep := m.flagBOL | m.flagBOT | m.flagWrd
	sp.each(paths,
		func([]int64, uint) bool { return true },
		func(env []int64, alive []int) bool {
			f, ch := env[vF], env[vC]
			want := int64(0)
			if f&m.flagBOL != 0 {
				want |= emptyBeginLine
			}
			if f&m.flagBOT != 0 {
				want |= emptyBeginText
			}
			if (f&m.flagWrd != 0) != isWord(ch) {
				want |= emptyWord
			} else {
				want |= emptyNoWord
			}
			if ch == '\n' || ch == endText {
				want |= emptyEndLine
			}
			if ch == endText {
				want |= emptyEndText
			}
			at := fmt.Sprintf("flags %#x and byte %d", f, ch)
			if !c.Check(len(alive) > 0, "conditions", cons, r.Fn.Pos(), "no path for %s", at) {
				return false
			}
			both := 0
			for _, i := range alive {
				g := got[i]
				if g.f3 == nil {
					both |= 1
				} else {
					both |= 2
				}
				if x := g.f1.eval(env) & 63; !c.Check(x == want, "conditions", cons+" before", r.Fn.Pos(), "for %s the conditions before the byte are %#x, not %#x", at, x, want) {
					return false
				}
				if ch == '\n' || ch == endText {
					continue // only whether it matches is used
				}
				if x := g.f2.eval(env) & 63; !c.Check(x == 0, "conditions", cons+" after", r.Fn.Pos(), "for %s conditions %#x are assumed after the byte", at, x) {
					return false
				}
				if g.f3 == nil {
					continue
				}
				w := int64(0)
				if isWord(ch) {
					w = m.flagWrd
				}
				if x := g.f3.eval(env) & keep; !c.Check(x == w, "conditions", cons+" remembered", r.Fn.Pos(), "for %s the flags remembered are %#x, not %#x", at, x, w) {
					return false
				}
			}
			return c.Check(both == 3, "conditions", cons+" "+at, r.Fn.Pos(), "for %s a match or its absence is not considered", at)
		})
}

// cache: one state per encoding.
func (m *matcherRules) cache() {
	c := m.c
	r, cons := m.run("matcher.cache")
	if r == nil {
		return
	}
	if len(r.Params) != 2 || len(r.Loops) != 0 {
		c.Check(false, "cached", cons, r.Fn.Pos(), "unexpected form")
		return
	}
	recv, z := r.Params[0], r.Params[1]
	_, dst := c.structOf("regexp", "dstate")
	hit, miss := 0, 0
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "cached", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		evs := t.St.Events(false)
		encs := callsOf(evs, rxN+"enc")
		if bad := m.onlyCalls(evs, rxN+"enc", rxM+"computeNext"); bad != "" || len(encs) != 1 || encs[0].Args[0] != z {
			c.Check(false, "cached", cons, r.Fn.Pos(), "a path does not encode the state once %s", bad)
			continue
		}
		enc := encs[0].Res
		ret := t.Rets[0]
		isMap := func(x *eng.Term) bool {
			return x.Op == "ld" && x.Args[0].Op == "field" && x.Args[0].Aux == "dstate" && x.Args[0].Args[0] == recv
		}
		found := ret
		if found.Op == "extract" {
			found = found.Args[0]
		}
		if found.Op == "lookup" {
			hit++
			nn := eng.Not(eng.Eq(ret, eng.Nil, ret.Typ))
			known := t.St.Implies(nn)
			for _, f := range t.St.Facts {
				if f.Op == "lookupok" && f.Args[0] == found.Args[0] && f.Args[1] == found.Args[1] {
					known = true
				}
			}
			c.Check(isMap(found.Args[0]) && found.Args[1] == enc && known, "cached", cons+" hit", r.Fn.Pos(), "it returns %s, not the state known under the encoding", ret)
			c.Check(len(callsOf(evs, rxM+"computeNext")) == 0, "cached", cons+" hit", r.Fn.Pos(), "a known state is computed again")
			continue
		}
		miss++
		if !c.Check(ret.Op == "alloc" && ret.Typ != nil, "cached", cons+" new", r.Fn.Pos(), "it returns %s, not a new state", ret) {
			continue
		}
		e := t.St.Load(fieldAddr(ret, "enc"), enc.Typ)
		c.Check(e == enc, "cached", cons+" encoding", r.Fn.Pos(), "the new state's encoding is %s", e)
		ups := 0
		var at int
		for i, ev := range evs {
			if ev.Kind == "mapupdate" {
				ups++
				at = i
				c.Check(isMap(ev.Args[0]) && ev.Args[1] == enc && ev.Args[2] == ret, "cached", cons+" kept", r.Fn.Pos(), "%s is stored under %s", ev.Args[2], ev.Args[1])
			}
		}
		c.Check(ups == 1, "cached", cons+" kept", r.Fn.Pos(), "the new state is not kept")
		_ = dst
		for _, x := range []struct {
			field string
			ch    int64
		}{{"matchNL", '\n'}, {"matchEOT", endText}} {
			v := t.St.Load(fieldAddr(ret, x.field), types.Typ[types.Bool])
			ok := false
			for i, ev := range evs {
				if ev.Kind == "call" && ev.Name == rxM+"computeNext" && ev.Args[0] == recv && ev.Args[1] == ret && ev.Args[2] == eng.Int(x.ch) && m.dmatch != nil {
					eq := eng.Eq(ev.Res, m.dmatch, ev.Res.Typ)
					if v == eq || v == eng.True && t.St.Implies(eq) || v == eng.False && t.St.Implies(eng.Not(eq)) {
						ok = true
					}
					c.Check(i > at, "cached", cons+" kept", r.Fn.Pos(), "the new state's steps are computed before it is kept")
					set := false
					for _, x := range evs[:i] {
						set = set || x.Kind == "store" && x.Args[0] == fieldAddr(ret, "enc") && x.Args[1] == enc
					}
					c.Check(set, "cached", cons+" encoding", r.Fn.Pos(), "a step of the new state is computed before its encoding is set")
				}
			}
			c.Check(ok, "cached", cons+" "+x.field, r.Fn.Pos(), "%s of a new state is %s, not whether the step over %d matches", x.field, v, x.ch)
		}
	}
	c.Check(hit > 0 && miss > 0, "cached", cons, r.Fn.Pos(), "known and new states are not told apart")
}

// scan: the loop over the text.
func (m *matcherRules) scan(name string) {
	c := m.c
	r, cons := m.run(name)
	if r == nil {
		return
	}
	if len(r.Params) != 4 || len(r.Loops) == 0 {
		c.Check(false, "scan", cons, r.Fn.Pos(), "no loop over the text")
		return
	}
	recv, b, beginText, endTxt := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	startOf := func(t *eng.Term, f string) bool {
		return t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Aux == f && t.Args[0].Args[0] == recv
	}
	loops := map[*eng.Loop]*eng.Phi{}
	for _, l := range r.Loops {
		var dp *eng.Phi
		for _, p := range l.Phis {
			if p.Sym.Typ == nil {
				continue
			}
			if pt, ok := p.Sym.Typ.Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "dstate" && p.Addr == nil {
					dp = p
				}
			}
		}
		if !c.Check(dp != nil, "scan", cons+" state", l.Pos, "the loop carries no state") {
			return
		}
		loops[l] = dp
		for _, h := range l.Heads {
			_ = h
		}
		init := dp.Init
		ok := startOf(init, "start") && l.Entry.Implies(beginText) || startOf(init, "startLine") && l.Entry.Implies(eng.Not(beginText))
		c.Check(ok, "scan", cons+" start", l.Pos, "the scan starts with %s", init)
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			d := dp.Sym
			nx := dp.Backs[i]
			// the byte
			var ch *eng.Term
			see := func(t *eng.Term) bool {
				if textByte(t, b) != nil {
					ch = t
				}
				return true
			}
			nx.Walk(see)
			for _, f := range st.Facts {
				f.Walk(see)
			}
			if !c.Check(ch != nil, "scan", cons+" byte", l.Pos, "an iteration looks at no byte of the text") {
				return
			}
			idx := textByte(ch, b)
			cur := cursor(l, idx)
			if !c.Check(cur != nil && cur.Backs[i] == eng.AddK(cur.Sym, 1), "scan", cons+" byte", l.Pos, "the bytes are not looked at one after the other from the first: %s", idx) {
				return
			}
			isNext := func(addr *eng.Term) bool {
				return addr.Op == "elem" && addr.Args[0].Op == "field" && addr.Args[0].Aux == "next" && addr.Args[0].Args[0] == d && stripConv(addr.Args[1]) == ch
			}
			nlF := eng.EqInt(ch, eng.Int('\n'))
			okNx := ""
			switch {
			case nx.Op == "ld" && isNext(nx.Args[0]):
				if !st.Implies(eng.Not(eng.Eq(nx, eng.Nil, nx.Typ))) {
					okNx = "a transition that may not have been computed is followed"
				}
			case isCall(nx, rxM+"computeNext"):
				if nx.Args[0] != recv || nx.Args[1] != d || stripConv(nx.Args[2]) != ch {
					okNx = fmt.Sprintf("the scan goes on with %s", nx)
				} else if !st.Implies(eng.Not(nlF)) {
					okNx = "a newline is treated like any other byte"
				}
			case startOf(nx, "startLine"):
				if !st.Implies(nlF) || !st.Implies(eng.Not(m.bool(d, "matchNL"))) {
					okNx = "the scan starts a new line without a newline, or passes a line that matches"
				}
			default:
				okNx = fmt.Sprintf("the scan goes on with %s", nx)
			}
			c.Check(okNx == "", "scan", cons+" next", l.Pos, "%s", okNx)
			for _, e := range evs {
				if e.Kind == "store" && !isLocal(e.Args[0]) {
					c.Check(isNext(e.Args[0]) && e.Args[1] == nx, "scan", cons+" remembered", l.Pos, "an iteration stores %s in %s", e.Args[1], e.Args[0])
				}
			}
		}
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "scan-answer", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		var l *eng.Loop
		for _, x := range t.St.Passed() {
			if loops[x] != nil {
				l = x
			}
		}
		if l == nil {
			// the empty text needs no loop
			if !t.St.Implies(eng.Le(eng.Len(b), eng.Int(0))) {
				c.Check(false, "scan-answer", cons, r.Fn.Pos(), "it answers without looking at the text")
				continue
			}
			c.Check(false, "scan-answer", cons, r.Fn.Pos(), "the empty text is treated specially")
			continue
		}
		dp := loops[l]
		d := dp.Sym
		v := t.Rets[0]
		nl := m.bool(d, "matchNL")
		if p := cursor(l, v); p != nil {
			// at a byte
			var ch *eng.Term
			for _, f := range t.St.Facts {
				f.Walk(func(x *eng.Term) bool {
					if textByte(x, b) == v {
						ch = x
					}
					return true
				})
			}
			ok := ch != nil && t.St.Implies(eng.EqInt(ch, eng.Int('\n'))) && t.St.Implies(nl) && t.St.Implies(eng.Lt(v, eng.Len(b)))
			c.Check(ok, "scan-answer", cons+" line", l.Pos, "it returns %s at a byte that is not the newline that ends a matching line", v)
			continue
		}
		atEnd := false
		for _, p := range l.Phis {
			if p.Init.Op == "int" && p.Sym.Typ != nil && isNumeric(p.Sym.Typ) && cursor(l, eng.AddK(p.Sym, -p.Init.K)) != nil && t.St.Implies(eng.Le(eng.Len(b), eng.AddK(p.Sym, -p.Init.K))) {
				atEnd = true
			}
		}
		c.Check(atEnd, "scan-answer", cons+" whole", l.Pos, "it answers before the end of the text")
		et := m.bool(d, "matchEOT")
		yes := func(x *eng.Term) bool { return t.St.Implies(x) }
		switch {
		case v == eng.Len(b):
			c.Check(yes(nl) || yes(endTxt) && yes(et), "scan-answer", cons+" end", l.Pos, "it reports a match at the end without the state saying so")
		case v.Op == "int" && v.K < 0:
			c.Check(yes(eng.Not(nl)) && (yes(eng.Not(endTxt)) || yes(eng.Not(et))), "scan-answer", cons+" none", l.Pos, "it reports no match although the state at the end may match")
		default:
			c.Check(false, "scan-answer", cons+" end", l.Pos, "at the end it returns %s", v)
		}
	}
}

func isAppend(t *eng.Term, kind string) bool { return t.Op == "append" && t.Aux == kind }

// textByte recognises byte i of the text b and returns i.
func textByte(t, b *eng.Term) *eng.Term {
	if bb, i, ok := elemOf(t); ok && bb == b {
		return i
	}
	if t.Op == "stridx" && t.Args[0] == b {
		return t.Args[1]
	}
	return nil
}

// cursor is the loop's counter that idx is a position of: it is 0 in the
// first iteration.
func cursor(l *eng.Loop, idx *eng.Term) *eng.Phi {
	for _, p := range l.Phis {
		if p.Init.Op != "int" || p.Sym.Typ == nil || !isNumeric(p.Sym.Typ) {
			continue
		}
		if k, ok := eng.DiffConst(idx, p.Sym); ok && p.Init.K+k == 0 {
			step := true
			for _, v := range p.Backs {
				step = step && v == eng.AddK(p.Sym, 1)
			}
			if step {
				return p
			}
		}
	}
	return nil
}

// bool is the value of a field of a state.
func (m *matcherRules) bool(d *eng.Term, name string) *eng.Term {
	return eng.Mk("ld", "", types.Typ[types.Bool], fieldAddr(d, name))
}

func isLocal(addr *eng.Term) bool {
	for addr.Op == "field" || addr.Op == "elem" {
		addr = addr.Args[0]
	}
	return addr.Op == "alloc"
}

// start: the two start states.
func (m *matcherRules) start() {
	c := m.c
	r, cons := m.run("matcher.init")
	if r == nil {
		return
	}
	if len(r.Params) != 2 || len(r.Loops) != 0 {
		c.Check(false, "start-state", cons, r.Fn.Pos(), "unexpected form")
		return
	}
	recv, prog := r.Params[0], r.Params[1]
	want := map[string]struct{ flags, conds int64 }{
		"start":     {m.flagBOL | m.flagBOT, emptyBeginLine | emptyBeginText},
		"startLine": {m.flagBOL, emptyBeginLine},
	}
	keep := m.flagBOL | m.flagBOT | m.flagWrd
	for _, t := range r.Terms {
		if t.Kind != "return" {
			c.Check(false, "start-state", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		queue := map[*eng.Term][]*eng.Event{}
		empty := map[*eng.Term]bool{}
		sized := map[*eng.Term]bool{}
		states := map[*eng.Term]string{} // result of cache -> what is wrong
		conds := map[*eng.Term]int64{}
		held := map[*eng.Term]*eng.Term{}
		progSet := map[*eng.Term]*eng.Term{}
		for _, e := range t.St.Events(false) {
			if e.Kind == "store" {
				held[e.Args[0]] = e.Args[1]
			}
			if e.Kind != "call" {
				continue
			}
			switch e.Name {
			case spSetM + "Init":
				q := e.Args[0]
				empty[q], sized[q] = true, true
				queue[q] = nil
				n := stripConv(e.Args[1])
				ok := n.Op == "len" && n.Args[0].Op == "ld" && n.Args[0].Args[0].Op == "field" && n.Args[0].Args[0].Aux == "Inst" && n.Args[0].Args[0].Args[0] == prog
				c.Check(ok, "start-state", cons+" size", r.Fn.Pos(), "a queue is made for %s instructions", e.Args[1])
			case spSetM + "Reset":
				c.Check(sized[e.Args[0]], "start-state", cons+" size", r.Fn.Pos(), "a queue is emptied before it is made")
				empty[e.Args[0]] = true
				queue[e.Args[0]] = nil
			case rxM + "addq":
				q := e.Args[1]
				if !empty[q] {
					queue[q] = append(queue[q], nil)
				}
				queue[q] = append(queue[q], e)
				progSet[q] = held[fieldAddr(recv, "prog")]
			case rxM + "cache":
				z := e.Args[1]
				q := fieldAddr(z, "q")
				bad := ""
				if e.Args[0] != recv || q == nil || !sized[q] || !empty[q] || len(queue[q]) != 1 || queue[q][0] == nil {
					bad = "its queue does not hold the start instruction alone"
				} else {
					a := queue[q][0]
					x := stripConv(a.Args[2])
					if a.Args[0] != recv || x.Op != "ld" || x.Args[0].Op != "field" || x.Args[0].Aux != "Start" || x.Args[0].Args[0] != prog {
						bad = "its queue does not hold the start instruction"
					}
					if a.Args[3].Op != "int" {
						bad = "it is expanded under " + a.Args[3].String()
					}
					conds[e.Res] = a.Args[3].K
					if progSet[q] != prog {
						bad = "the program is not set before it is expanded"
					}
					if p := held[fieldAddr(recv, "dstate")]; p == nil || p.Op != "makemap" {
						bad = "the cache is not emptied before"
					}
				}
				for _, n := range []string{"z1", "z2"} {
					za := fieldAddr(recv, n)
					if !sized[fieldAddr(za, "q")] {
						bad = "a temporary queue is not made before"
					}
				}
				states[e.Res] = bad
				// both temporary queues are used
				for q := range sized {
					empty[q] = false
				}
			default:
				if bad := m.onlyCalls([]*eng.Event{e}); bad != "" {
					c.Check(false, "start-state", cons, r.Fn.Pos(), "it also calls %s", bad)
				}
			}
		}
		for _, f := range sortedKeys(want) {
			w := want[f]
			a := fieldAddr(recv, f)
			v := t.St.Load(a, a.Typ.Underlying().(*types.Pointer).Elem())
			ok := v.Op == "cached" && v.Args[1].Op == "int"
			bad := ""
			if ok {
				bad, ok = states[v]
			}
			if !c.Check(ok, "start-state", cons+" "+f, r.Fn.Pos(), "%s is %s, not a cached state", f, v) {
				continue
			}
			flags := v.Args[1].K
			c.Check(bad == "", "start-state", cons+" "+f, r.Fn.Pos(), "%s: %s", f, bad)
			c.Check(flags&keep == w.flags, "start-state", cons+" "+f, r.Fn.Pos(), "%s remembers flags %#x, not %#x", f, flags, w.flags)
			c.Check(conds[v]&^w.conds == 0, "start-state", cons+" "+f, r.Fn.Pos(), "%s assumes conditions %#x, of which only %#x hold", f, conds[v], w.conds)
		}
		pa := fieldAddr(recv, "prog")
		c.Check(t.St.Load(pa, prog.Typ) == prog, "start-state", cons+" program", r.Fn.Pos(), "the matcher's program is not the one given")
	}
}

// dmatchState: the state after a match.
func (m *matcherRules) dmatchState() {
	c := m.c
	if m.dmatch == nil {
		return
	}
	f := c.P.SPkg["regexp"].Func("init")
	if f == nil {
		c.Viol("anchor", "regexp.init", 0, "no initialisation")
		return
	}
	r := c.Analyze(f, &eng.Config{
		Opaque:    func(g *ssa.Function) bool { return m.opaque(g) || g != f && g.Name() == "init" },
		Model:     m.model,
		Stores:    func(*eng.Term) bool { return true },
		KeepFacts: true,
	})
	if r == nil {
		return
	}
	m.stores(r)
	inNext := func(e *eng.Event) bool {
		if e.Kind != "store" {
			return false
		}
		a := e.Args[0]
		return a.Op == "elem" && a.Args[0].Op == "field" && a.Args[0].Aux == "next" && a.Args[0].Args[0] == m.dmatch
	}
	fills := map[*eng.Loop]bool{}
	for _, l := range r.Loops {
		for _, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			for _, e := range evs {
				if inNext(e) {
					fills[l] = true
				}
			}
		}
	}
	for l := range fills {
		m.waitingLoop(l, f)
	}
	runs := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		done := false
		for _, g := range t.St.Facts {
			if g.Op == "ld" && g.Args[0].Op == "global" && strings.HasSuffix(g.Args[0].Aux, "regexp.init$guard") {
				done = true
			}
		}
		if done {
			continue
		}
		runs++
		n := 0
		for _, l := range t.St.Passed() {
			if fills[l] {
				n++
			}
		}
		c.Check(n == 1, "waiting-state", "waiting state next", m.posOf(), "the transitions of the state after a match are not set once")
		for _, e := range t.St.Events(false) {
			c.Check(!inNext(e), "waiting-state", "waiting state next", m.posOf(), "a transition of the state after a match is set to %s", e.Args)
		}
		for _, fld := range []string{"matchNL", "matchEOT"} {
			v := t.St.Load(fieldAddr(m.dmatch, fld), types.Typ[types.Bool])
			c.Check(v == eng.True, "waiting-state", "waiting state "+fld, m.posOf(), "%s of the state after a match is %s", fld, v)
		}
	}
	c.Check(runs > 0, "waiting-state", "waiting state", m.posOf(), "no path through the initialisation")
}

func (m *matcherRules) posOf() token.Pos { return token.NoPos }

// waitingLoop checks that exactly the bytes other than newline lead back.
func (m *matcherRules) waitingLoop(l *eng.Loop, f *ssa.Function) {
	c := m.c
	cons := "waiting state next"
	set := map[int64]int{} // 1 set, 2 not set
	for _, p := range l.Phis {
		if p.Init.Op != "int" || len(p.Backs) != len(l.Backs) {
			continue
		}
		okStep := true
		for _, v := range p.Backs {
			okStep = okStep && v == eng.AddK(p.Sym, 1)
		}
		if !okStep {
			continue
		}
		// bytes as offset from the symbol
		off, known := int64(0), false
		for _, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			for _, e := range evs {
				if e.Kind == "store" && e.Args[0].Op == "elem" {
					if k, ok := eng.DiffConst(stripConv(e.Args[0].Args[1]), p.Sym); ok {
						off, known = k, true
					}
				}
			}
		}
		if !known {
			continue
		}
		for v := p.Init.K; v < 300; v++ {
			sp := &space{doms: [][]int64{{v}}, leaf: func(t *eng.Term) *leaf {
				if t == p.Sym {
					return variable(0)
				}
				return nil
			}}
			any := false
			for _, st := range l.Backs {
				g, blind := sp.guard(st.Facts)
				if len(blind) > 0 {
					c.Check(false, "waiting-state", cons, l.Pos, "cannot evaluate %s", blind[0])
					return
				}
				ok := true
				for _, x := range g {
					ok = ok && x.eval([]int64{v}) != 0
				}
				if !ok {
					continue
				}
				any = true
				n := 2
				evs, _ := st.EventsSince(l)
				for _, e := range evs {
					if e.Kind == "store" && e.Args[0].Op == "elem" {
						if k, isK := eng.DiffConst(stripConv(e.Args[0].Args[1]), p.Sym); isK && k == off && e.Args[1] == m.dmatch {
							n = 1
						}
					}
				}
				if set[v+off] == 0 || set[v+off] == n {
					set[v+off] = n
				} else {
					set[v+off] = 3
				}
			}
			if !any {
				break
			}
		}
		for ch := int64(0); ch < 256; ch++ {
			w := 1
			if ch == '\n' {
				w = 2
			}
			got := set[ch]
			if got == 0 {
				got = 2
			}
			if !c.Check(got == w, "waiting-state", cons, l.Pos, "after a match the transition on byte %d is wrong", ch) {
				return
			}
		}
		return
	}
	c.Check(false, "waiting-state", cons, l.Pos, "the loop that sets the transitions after a match is not understood")
}

// encDec: a state's encoding reads back as the same state.
func (m *matcherRules) encDec() {
	c := m.c
	type word struct {
		field string
		typ   types.Type
	}
	norm := func(t *eng.Term) *eng.Term { return stripConv(t) }
	// writer
	r, cons := m.run("nstate.enc")
	if r == nil {
		return
	}
	z := r.Params[0]
	var head []string
	var encInit *eng.Term
	isPut := func(t *eng.Term) bool {
		return isCall(t, "encoding/binary.PutUvarint") || isCall(t, "encoding/binary.AppendUvarint")
	}
	fieldName := func(t *eng.Term) string {
		t = norm(t)
		if t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Args[0] == z {
			return t.Args[0].Aux
		}
		return t.String()
	}
	_ = isPut
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "encoding", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			return
		}
		ret := t.Rets[0]
		if strings.HasPrefix(ret.Op, "convstr") {
			ret = ret.Args[0]
		}
		p := r.PhiOf(ret)
		l := r.LoopOf(ret)
		if !c.Check(p != nil && l != nil, "encoding", cons, r.Fn.Pos(), "it returns %s, not the bytes built by a loop over the instructions", ret) {
			return
		}
		// the words before the loop
		var unroll func(x *eng.Term) ([]*eng.Term, bool)
		unroll = func(x *eng.Term) ([]*eng.Term, bool) {
			switch {
			case x.Op == "nil" || x.Op == "makeslice" && x.Args[0] == eng.Int(0):
				return nil, true
			case isAppend(x, "slice"):
				pre, ok := unroll(x.Args[0])
				w := m.putWord(x.Args[1])
				return append(pre, w), ok && w != nil
			case isCall(x, "encoding/binary.AppendUvarint"):
				pre, ok := unroll(x.Args[0])
				return append(pre, x.Args[1]), ok
			case x.Op == "slice" && x.Args[1] == eng.Int(0) && x.Args[2] == eng.Int(0):
				return nil, true
			}
			return nil, false
		}
		ws, ok := unroll(p.Init)
		if !c.Check(ok, "encoding", cons+" header", r.Fn.Pos(), "the encoding starts with %s", p.Init) {
			return
		}
		before := head
		head = nil
		for _, w := range ws {
			head = append(head, fieldName(w))
		}
		if before != nil {
			c.Check(strings.Join(head, ",") == strings.Join(before, ","), "encoding", cons+" header", r.Fn.Pos(), "the encoding starts with %v or with %v", before, head)
		}
		// the loop
		for i, st := range l.Backs {
			v := p.Backs[i]
			var w *eng.Term
			if isAppend(v, "slice") && v.Args[0] == p.Sym {
				w = m.putWord(v.Args[1])
			} else if isCall(v, "encoding/binary.AppendUvarint") && v.Args[0] == p.Sym {
				w = v.Args[1]
			}
			if !c.Check(w != nil, "encoding", cons+" instructions", l.Pos, "an iteration makes the encoding %s", v) {
				return
			}
			// w = id - last
			var last *eng.Phi
			var id *eng.Term
			ww := stripConv(w)
			for _, q := range l.Phis {
				if q == p || q.Sym.Typ == nil {
					continue
				}
				if x := eng.Add(ww, q.Sym); stripConv(q.Backs[i]) == stripConv(x) || q.Backs[i] == x {
					last, id = q, q.Backs[i]
				}
			}
			if !c.Check(last != nil, "encoding", cons+" instructions", l.Pos, "an iteration writes %s, which is not the distance from the instruction before", w) {
				return
			}
			c.Check(encInit == nil || encInit == last.Init, "encoding", cons+" instructions", l.Pos, "the first distance is from %s or from %s", encInit, last.Init)
			encInit = last.Init
			x := stripConv(id)
			bb, idx, isE := elemOf(x)
			if !c.Check(isE, "encoding", cons+" instructions", l.Pos, "an iteration writes %s", id) {
				return
			}
			c.wholeScan(l, i, bb, idx, "encoding", cons+" instructions")
			c.Check(m.sortedQueue(r, st, bb, z), "encoding", cons+" instructions", l.Pos, "%s is not the sorted list of the queue", bb)
		}
		_ = t
	}
	// reader
	r2, cons2 := m.run("nstate.dec")
	if r2 == nil || len(r2.Params) != 2 {
		return
	}
	z2, s := r2.Params[0], r2.Params[1]
	var loop *eng.Loop
	for _, l := range r2.Loops {
		loop = l
	}
	if !c.Check(len(r2.Loops) == 1, "encoding", cons2, r2.Fn.Pos(), "not one loop over the instructions") {
		return
	}
	isRest := func(rest, of *eng.Term) bool {
		return rest.Op == "slice" && rest.Args[0] == of && rest.Args[1] == eng.Mk("extract", "1", rest.Args[1].Typ, eng.Nil) || false
	}
	_ = isRest
	var head2 []string
	reads := 0
	pos := map[*eng.Term]int{} // result of a read -> its number
	var decLast *eng.Phi
	var okInit bool
	resets := 0
	var offset *eng.Term = eng.Int(0)
	base := (*eng.Term)(nil)
	for _, e := range loop.Entry.Events(false) {
		switch {
		case e.Kind == "call" && e.Name == "encoding/binary.Uvarint":
			a := e.Args[0]
			b, off := a, eng.Int(0)
			if a.Op == "slice" {
				b, off = a.Args[0], a.Args[1]
			}
			if base == nil {
				base = b
			}
			okA := b == base && off == offset && (b == s || strings.HasPrefix(b.Op, "convstr") && b.Args[0] == s)
			c.Check(okA, "encoding", cons2+" header", r2.Fn.Pos(), "word %d is read from %s", reads+1, a)
			for _, f := range loop.Entry.Facts {
				f.Walk(func(x *eng.Term) bool {
					if x.Op == "extract" && x.Aux == "1" && x.Args[0] == e.Res {
						offset = eng.Add(offset, x)
						return false
					}
					return true
				})
				if offset != off {
					break
				}
			}
			pos[e.Res] = reads
			reads++
		case e.Kind == "call" && e.Name == spSetM+"Reset":
			c.Check(e.Args[0] == fieldAddr(z2, "q"), "encoding", cons2, r2.Fn.Pos(), "another queue is emptied")
			resets++
		case e.Kind == "call" && strings.HasPrefix(e.Name, spSetM):
			c.Check(false, "encoding", cons2, r2.Fn.Pos(), "%s is called before the loop", e.Name)
		}
	}
	c.Check(resets > 0, "encoding", cons2, r2.Fn.Pos(), "the queue is not emptied")
	head2 = make([]string, reads)
	for _, f := range []string{"partial", "flag"} {
		a := fieldAddr(z2, f)
		if a == nil {
			continue
		}
		for _, t := range r2.Terms {
			if t.Kind != "return" {
				continue
			}
			v := stripConv(t.St.Load(a, a.Typ.Underlying().(*types.Pointer).Elem()))
			from := -1
			if v.Op == "extract" && v.Aux == "0" {
				if n, ok := pos[v.Args[0]]; ok {
					from = n
					c.Check(head2[n] == "" || head2[n] == f, "encoding", cons2+" "+f, r2.Fn.Pos(), "word %d is both %s and %s", n+1, head2[n], f)
					head2[n] = f
				}
			}
			c.Check(from >= 0 || f != "flag", "encoding", cons2+" "+f, r2.Fn.Pos(), "the field %s is left as %s", f, v)
		}
	}
	need := false
	for _, h := range head2 {
		need = need || h == "flag"
	}
	c.Check(need && strings.Join(head, ",") == strings.Join(head2, ","), "encoding", "header", r2.Fn.Pos(), "the words written are %v, those read are %v", head, head2)
	for i, st := range loop.Backs {
		evs, _ := st.EventsSince(loop)
		adds := callsOf(evs, spSetM+"Add")
		if !c.Check(len(adds) == 1 && adds[0].Args[0] == fieldAddr(z2, "q") && m.onlyCalls(evs, spSetM+"Add") == "", "encoding", cons2+" instructions", loop.Pos, "an iteration does not add one instruction") {
			return
		}
		x := stripConv(adds[0].Args[1])
		for _, q := range loop.Phis {
			if q.Sym.Typ == nil || !isNumeric(q.Sym.Typ) || q.Addr != nil {
				continue
			}
			dlt := stripConv(eng.Sub(x, q.Sym))
			if q.Backs[i] == adds[0].Args[1] && dlt.Op == "extract" && dlt.Aux == "0" && isCall(dlt.Args[0], "encoding/binary.Uvarint") {
				decLast = q
				// the rest of the encoding
				src := dlt.Args[0].Args[0]
				p := loop.Phi(src)
				okRest := false
				if p != nil {
					okInit = p.Init.Op == "slice" && p.Init.Args[0] == base && p.Init.Args[1] == offset
					v := p.Backs[i]
					okRest = v.Op == "slice" && v.Args[0] == src && v.Args[1].Op == "extract" && v.Args[1].Aux == "1" && v.Args[1].Args[0] == dlt.Args[0]
					for _, xst := range loop.Exits {
						okRest = okRest && (xst.Implies(eng.Le(eng.Len(src), eng.Int(0))) || xst.Implies(eng.False))
					}
				} else if src.Op == "slice" {
					for _, pp := range loop.Phis {
						if src.Args[1] == pp.Sym && src.Args[0] == base {
							okInit = pp.Init == offset
							k := eng.Sub(pp.Backs[i], pp.Sym)
							okRest = k.Op == "extract" && k.Aux == "1" && k.Args[0] == dlt.Args[0]
							for _, xst := range loop.Exits {
								okRest = okRest && (xst.Implies(eng.Le(eng.Len(base), pp.Sym)) || xst.Implies(eng.False))
							}
						}
					}
				}
				c.Check(okRest, "encoding", cons2+" rest", loop.Pos, "the words are not read one after the other up to the end")
				c.Check(okInit, "encoding", cons2+" rest", loop.Pos, "the instructions are not read from where the header ends")
			}
		}
		if !c.Check(decLast != nil, "encoding", cons2+" instructions", loop.Pos, "an iteration adds %s, not the instruction before plus the word read", x) {
			return
		}
	}
	if decLast != nil && encInit != nil {
		c.Check(decLast.Init == encInit, "encoding", "first distance", r2.Fn.Pos(), "distances are written from %s but read from %s", encInit, decLast.Init)
	}
}

// putWord recognises the bytes that PutUvarint wrote, and gives the word.
func (m *matcherRules) putWord(t *eng.Term) *eng.Term {
	if t.Op != "slice" || t.Args[1] != eng.Int(0) {
		return nil
	}
	n := t.Args[2]
	if !isCall(n, "encoding/binary.PutUvarint") {
		return nil
	}
	buf := n.Args[0]
	if buf.Op == "slice" {
		if buf.Args[1] != eng.Int(0) || buf.Args[2].Op != "int" || buf.Args[2].K < 10 {
			return nil
		}
		buf = buf.Args[0]
	}
	if buf != t.Args[0] {
		return nil
	}
	return n.Args[1]
}

// sortedQueue reports whether b is the queue of z copied whole and sorted.
func (m *matcherRules) sortedQueue(r *eng.Run, st *eng.State, b, z *eng.Term) bool {
	q := fieldAddr(z, "q")
	sorted := false
	for _, e := range st.Events(false) {
		if e.Kind == "call" && (e.Name == "sort.Ints" || e.Name == "slices.Sort" || strings.HasPrefix(e.Name, "slices.Sort[")) && len(e.Args) > 0 && e.Args[0] == b {
			sorted = true
		}
	}
	if !sorted {
		return false
	}
	p := r.PhiOf(b)
	l := r.LoopOf(b)
	if p != nil && l != nil {
		in := p.Init
		okInit := in == eng.Nil || in.Op == "makeslice" && in.Args[0] == eng.Int(0) || in.Op == "slice" && in.Args[1] == eng.Int(0) && in.Args[2] == eng.Int(0)
		if !okInit {
			return false
		}
		for i, v := range p.Backs {
			if !isAppend(v, "elems") || v.Args[0] != p.Sym || len(v.Args) != 2 {
				return false
			}
			bb, idx, ok := elemOf(stripConv(v.Args[1]))
			if !ok || !denseOf(bb, q) {
				return false
			}
			if !m.c.wholeScan(l, i, bb, idx, "encoding", "copied queue") {
				return false
			}
		}
		return true
	}
	if b.Op == "makeslice" && b.Args[0].Op == "len" && denseOf(b.Args[0].Args[0], q) {
		// filled element by element
		for _, l := range st.Passed() {
			fills := 0
			for i, bs := range l.Backs {
				evs, _ := bs.EventsSince(l)
				for _, e := range evs {
					if e.Kind != "store" || e.Args[0].Op != "elem" || e.Args[0].Args[0] != b {
						continue
					}
					bb, idx, ok := elemOf(stripConv(e.Args[1]))
					if !ok || !denseOf(bb, q) || idx != e.Args[0].Args[1] || !m.c.wholeScan(l, i, bb, idx, "encoding", "copied queue") {
						return false
					}
					fills++
				}
			}
			if fills > 0 && fills == len(l.Backs) {
				return true
			}
		}
		return false
	}
	if isAppend(b, "slice") && denseOf(b.Args[1], q) {
		return b.Args[0] == eng.Nil || b.Args[0].Op == "makeslice" && b.Args[0].Args[0] == eng.Int(0)
	}
	return isCall(b, "slices.Clone") && denseOf(b.Args[0], q)
}

// compile: what is matched is the expression.
func (m *matcherRules) compile() {
	c := m.c
	r, cons := m.run("Compile")
	if r == nil {
		return
	}
	expr := r.Params[0]
	const parse, comp, simp = "regexp/syntax.Parse", "regexp/syntax.Compile", "(*regexp/syntax.Regexp).Simplify"
	done := 0
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 2 {
			c.Check(false, "compiled", cons, r.Fn.Pos(), "it can end by %s", t.Kind)
			continue
		}
		if !t.St.Implies(eng.Eq(t.Rets[1], eng.Nil, t.Rets[1].Typ)) {
			continue
		}
		if !t.St.Implies(eng.Not(eng.Eq(t.Rets[0], eng.Nil, t.Rets[0].Typ))) && t.Rets[0].Op != "alloc" {
			continue
		}
		done++
		evs := t.St.Events(false)
		ini := callsOf(evs, rxM+"init")
		if !c.Check(len(ini) == 1 && ini[0].Args[0] == fieldAddr(t.Rets[0], "m"), "compiled", cons+" matcher", r.Fn.Pos(), "the matcher is not initialised once") {
			continue
		}
		prog := ini[0].Args[1]
		tb := callsOf(evs, rxPkg+"toByteProg")
		before := false
		for _, e := range evs {
			if len(tb) == 1 && e == tb[0] {
				before = true
			}
			if e == ini[0] {
				break
			}
		}
		c.Check(len(tb) == 1 && tb[0].Args[0] == prog && before, "compiled", cons+" bytes", r.Fn.Pos(), "the program is not rewritten to bytes once before it is used")
		ok := isResult(prog, comp, "0")
		var re *eng.Term
		if ok {
			re = prog.Args[0].Args[0]
			if isCall(re, simp) {
				re = re.Args[0]
			}
			ok = isResult(re, parse, "0") && re.Args[0].Args[0] == expr && re.Args[0].Args[1] == eng.Int(212)
		}
		c.Check(ok, "compiled", cons+" program", r.Fn.Pos(), "the program is %s, not the one compiled for the expression", prog)
		if ok {
			a := fieldAddr(t.Rets[0], "Syntax")
			c.Check(t.St.Load(a, re.Typ) == re, "compiled", cons+" syntax", r.Fn.Pos(), "the syntax kept is not that of the expression")
			e := fieldAddr(t.Rets[0], "expr")
			c.Check(t.St.Load(e, expr.Typ) == expr, "compiled", cons+" text", r.Fn.Pos(), "the text kept is not the expression")
		}
	}
	c.Check(done > 0, "compiled", cons, r.Fn.Pos(), "it never succeeds")
	for _, x := range [][2]string{{"Regexp.Match", "match"}, {"Regexp.MatchString", "matchString"}} {
		r, cons := m.run(x[0])
		if r == nil {
			continue
		}
		for _, t := range r.Terms {
			evs := t.St.Events(false)
			ok := t.Kind == "return" && len(t.Rets) == 1 && len(r.Params) == 4
			if ok {
				cs := append(callsOf(evs, rxM+"match"), callsOf(evs, rxM+"matchString")...)
				ok = len(cs) == 1 && cs[0].Args[0] == fieldAddr(r.Params[0], "m") && cs[0].Args[2] == r.Params[2] && cs[0].Args[3] == r.Params[3] && t.Rets[0] == cs[0].Res
				if ok {
					a := cs[0].Args[1]
					ok = a == r.Params[1] || strings.HasPrefix(a.Op, "convstr") && a.Args[0] == r.Params[1]
				}
			}
			c.Check(ok, "compiled", cons, r.Fn.Pos(), "it does not return what the matcher answers for its arguments")
		}
	}
}

// closed: the machine is written only by the functions analysed.
func (m *matcherRules) closed() {
	c := m.c
	n := map[string]bool{"matcher": true, "nstate": true, "dstate": true}
	for _, f := range c.P.Funcs() {
		if f.Pkg == nil || f.Pkg != c.P.SPkg["regexp"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				if ix, ok := a.(*ssa.IndexAddr); ok {
					a = ix.X
				}
				fa, ok := a.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, _ := fa.X.Type().Underlying().(*types.Pointer)
				if pt == nil {
					continue
				}
				nm, _ := pt.Elem().(*types.Named)
				if nm == nil || !n[nm.Obj().Name()] {
					continue
				}
				fld := nm.Underlying().(*types.Struct).Field(fa.Field).Name()
				c.Check(m.seen[in], "closed", fnLabel(f)+" "+nm.Obj().Name()+"."+fld, in.Pos(), "%s writes %s.%s, outside the analysed steps of the matcher", fnLabel(f), nm.Obj().Name(), fld)
			}
		}
	}
}
