package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config parameterises an analysis run.
type Config struct {
	Module string // import path prefix of the analysed module
	// Opaque reports whether calls of a module function are kept as events
	// instead of being inlined.
	Opaque func(fn *ssa.Function) bool
	// Inline lists extra (standard library) functions to inline.
	Inline func(fn *ssa.Function) bool
	// Auto is the transition function of a typestate automaton.
	Auto func(st *State, ev *Event) string
	// Model gives the meaning of a call of an opaque module function: it may
	// store to memory, and returns the result.  Without it (or when it
	// declines) what the function may modify becomes unknown.
	Model func(st *State, ev *Event, fn *ssa.Function, lbl string) (res *Term, ok bool)
	// Init prepares the initial state (heap assumptions).
	Init func(st *State)
	// Stores reports whether stores to an address are recorded as events.
	Stores func(addr *Term) bool
	// Indexes records element accesses of slices and arrays as events.
	Indexes bool
	// Interest selects the events that are kept on the path history and
	// recorded; nil keeps all of them.
	Interest func(ev *Event) bool
	// Target reports whether a callee (by full name) or an instruction makes
	// the function containing it relevant: module functions that cannot
	// reach a target and are not small are not inlined but replaced by
	// their effect summary.  nil inlines everything.
	Target    func(in ssa.Instruction, callee string) bool
	Join      int // states per block before equal histories are joined (default 24)
	Entries   int // loop entry states before joining (default 8)
	MaxStates int // per block before merging by automaton state (default 300)
	MaxDepth  int // inlining depth (default 12)
	Budget    int // instructions (default 20M)
	// KeepFacts keeps the facts about loop-carried values that nothing refers
	// to any more, so that the back edges of loops carry all conditions.
	KeepFacts bool
}

// A Terminal is a state at the end of the analysed function.
type Terminal struct {
	Kind string // "return", "panic", "fatal"
	St   *State
	Rets []*Term
	Ev   *Event
}

// A Phi is a loop-carried quantity.
type Phi struct {
	Sym   *Term
	Name  string
	Addr  *Term // for memory locations
	Init  *Term
	Backs []*Term // one per Loop.Backs
}

// A Loop is a summarised loop (or callback iteration).
type Loop struct {
	Key      string
	Fn       *ssa.Function
	Header   *ssa.BasicBlock
	Pos      token.Pos
	Ctx      string
	Entry    *State
	Heads    []*State
	Phis     []*Phi
	Backs    []*State
	Exits    []*State
	Params   []*Term // of the callback
	Callback bool
}

// Phi returns the phi whose symbol is t.
func (l *Loop) Phi(t *Term) *Phi {
	for _, p := range l.Phis {
		if p.Sym == t {
			return p
		}
	}
	return nil
}

// A Run is the result of analysing one function.
type Run struct {
	Cfg    *Config
	Prog   *ssa.Program
	Fn     *ssa.Function
	Params []*Term
	Events []*Event
	Loops  []*Loop
	Terms  []*Terminal
	Merged int
	Steps  int
	Over   bool                   // budget exhausted
	Funcs  map[*ssa.Function]bool // functions analysed

	record     bool
	active     []string // active loop keys
	labelIn    map[string][]string
	loopSeq    map[string]int // executions of a loop in the current pass
	condHook   func(c *Term)
	funcs      map[string]*ssa.Function
	infos      map[*ssa.Function]*fnInfo
	phiByLabel map[*Term]*Phi
	loopByKey  map[string]*Loop
	stack      []*ssa.Function
	envs       []map[ssa.Value]*Term // environments of the callers
	relevant   map[*ssa.Function]bool
	Summarised map[*ssa.Function]bool
	joins      map[*Term][]*Term // values merged into a join symbol
}

// JoinSources returns the values merged into a join symbol.
func (r *Run) JoinSources(t *Term) []*Term { return r.joins[t] }

// PhiOf returns the recurrence of a phi symbol.
func (r *Run) PhiOf(t *Term) *Phi { return r.phiByLabel[t] }

// LoopOf returns the loop a phi symbol belongs to.
func (r *Run) LoopOf(t *Term) *Loop {
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Sym == t {
				return l
			}
		}
	}
	return nil
}

type frame struct {
	fn    *ssa.Function
	ctx   string
	depth int
	info  *fnInfo
	iter  string // iterations of unrolled loops
}

type exit struct {
	st   *State
	rets []*Term
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*natLoop // by header
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi := fnInfos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	fi.live = liveness(fn)
	// RPO must place loop bodies before loop exits: re-number so that, among
	// blocks ready, inner-loop blocks come first.  The region runner treats
	// inner loops as units, so plain RPO suffices.
	fnInfos[fn] = fi
	return fi
}

// liveness computes the values live at the entry of each block.
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, p)
				}
				for pi, pb := range s.Preds {
					if pb == b {
						for _, in := range s.Instrs {
							p, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							cur[p.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur[p] = true // assigned on the edge
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	return live
}

// Analyze runs the abstract interpreter on fn with symbolic arguments.
func Analyze(prog *ssa.Program, fn *ssa.Function, cfg *Config, args ...*Term) *Run {
	if cfg.MaxStates == 0 {
		cfg.MaxStates = 300
	}
	if cfg.Join == 0 {
		cfg.Join = 24
	}
	if cfg.Entries == 0 {
		cfg.Entries = 8
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	if cfg.Budget == 0 {
		cfg.Budget = 30e6
	}
	r := &Run{Cfg: cfg, Prog: prog, Fn: fn, record: true,
		labelIn: map[string][]string{}, loopSeq: map[string]int{}, funcs: map[string]*ssa.Function{},
		phiByLabel: map[*Term]*Phi{}, loopByKey: map[string]*Loop{}, Funcs: map[*ssa.Function]bool{},
		Summarised: map[*ssa.Function]bool{}, joins: map[*Term][]*Term{}}
	r.findRelevant()
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, ver: map[string]*Term{}, dirty: map[*Term]bool{}}
	if cfg.Init != nil {
		cfg.Init(st)
	}
	for i, p := range fn.Params {
		t := Sym(p.Name(), p.Type())
		if i < len(args) && args[i] != nil {
			t = args[i]
		} else if s, ok := p.Type().Underlying().(*types.Struct); ok {
			t = symStruct(p.Name(), p.Type(), s)
		}
		r.Params = append(r.Params, t)
	}
	for i := range fn.FreeVars {
		_ = i
	}
	exits := r.callFunc(st, fn, r.Params, nil, "", 0)
	for _, e := range exits {
		r.Terms = append(r.Terms, &Terminal{Kind: "return", St: e.st, Rets: e.rets})
	}
	return r
}

func symStruct(name string, t types.Type, s *types.Struct) *Term {
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fname := name + "." + s.Field(i).Name()
		if fs, ok := ft.Underlying().(*types.Struct); ok {
			args = append(args, symStruct(fname, ft, fs))
		} else {
			args = append(args, Sym(fname, ft))
		}
	}
	return Mk("struct", types.TypeString(t, nil), t, args...)
}

// SymOf returns a fresh symbolic value of type t.
func SymOf(name string, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return symStruct(name, t, s)
	}
	return Sym(name, t)
}

func (r *Run) label(fr *frame, in ssa.Instruction) string {
	b := in.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
			break
		}
	}
	name := fr.fn.Name()
	if recv := fr.fn.Signature.Recv(); recv != nil && fr.ctx == "" {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	l := fmt.Sprintf("%s/%s#%d.%d%s", fr.ctx, name, b.Index, idx, fr.iter)
	r.placed(l)
	return l
}

// placed records that l is the label of something in the active loops.
func (r *Run) placed(l string) {
	in := r.labelIn[l]
	if in == nil {
		in = []string{}
	}
next:
	for _, a := range r.active {
		for _, x := range in {
			if x == a {
				continue next
			}
		}
		in = append(in[:len(in):len(in)], a)
	}
	r.labelIn[l] = in
}

// local reports whether t mentions something created inside loop key.
func (r *Run) local(t *Term, key string) bool {
	return t.Any(func(x *Term) bool {
		switch x.Op {
		case "phi", "ver", "call", "alloc", "makeslice", "makemap", "opaque", "sym", "next":
			for _, k := range r.labelIn[strings.TrimPrefix(x.Aux, "")] {
				if k == key {
					return true
				}
			}
			if i := strings.LastIndex(x.Aux, "@"); i >= 0 {
				for _, k := range r.labelIn[x.Aux[i+1:]] {
					if k == key {
						return true
					}
				}
			}
		}
		return false
	})
}

func (r *Run) event(st *State, e *Event) {
	if r.Cfg.Auto != nil {
		defer func() { st.Auto = r.Cfg.Auto(st, e) }()
	}
	if r.Cfg.Interest != nil && !r.Cfg.Interest(e) {
		return
	}
	if r.record {
		f := *e
		f.Facts = st.Facts[:len(st.Facts):len(st.Facts)]
		f.St = st.clone()
		f.Orig = e
		r.Events = append(r.Events, &f)
	}
	st.addEvent(e)
}

func (r *Run) terminal(kind string, st *State, rets []*Term, ev *Event) {
	if r.record {
		r.Terms = append(r.Terms, &Terminal{Kind: kind, St: st.clone(), Rets: rets, Ev: ev})
	}
}

// callFunc inlines fn.
func (r *Run) callFunc(st *State, fn *ssa.Function, args []*Term, bindings []*Term, ctx string, depth int) []exit {
	r.Funcs[fn] = true
	saved := st.env
	savedDefers := st.defers
	st = st.clone()
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			st.env[fv] = bindings[i]
		} else {
			st.env[fv] = Sym("free:"+fv.Name(), fv.Type())
		}
	}
	fr := &frame{fn: fn, ctx: ctx, depth: depth, info: infoOf(fn)}
	r.stack = append(r.stack, fn)
	r.envs = append(r.envs, saved)
	var rets []exit
	r.runRegion(fr, nil, []edgeState{{nil, fn.Blocks[0], st}}, &rets)
	r.stack = r.stack[:len(r.stack)-1]
	r.envs = r.envs[:len(r.envs)-1]
	rets = r.mergeExits(fn, ctx, rets)
	for i := range rets {
		rets[i].st.env = saved
		if i > 0 {
			m := make(map[ssa.Value]*Term, len(saved))
			for k, v := range saved {
				m[k] = v
			}
			rets[i].st.env = m
		}
		rets[i].st.defers = savedDefers
	}
	return rets
}

// runRegion interprets the blocks of loop (or of the whole function, if loop
// is nil) starting from the given states.  It returns the edges that leave
// the region or go back to its header.
func (r *Run) runRegion(fr *frame, loop *natLoop, start []edgeState, rets *[]exit) (out []edgeState) {
	pending := map[*ssa.BasicBlock][]edgeState{}
	first := start[0].to
	pending[first] = start
	startDone := false
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fr.info.rpo[x] < fr.info.rpo[b] {
				b = x
			}
		}
		states := pending[b]
		delete(pending, b)
		if r.Steps > r.Cfg.Budget {
			r.Over = true
			return out
		}
		var edges []edgeState
		if l := fr.info.loops[b]; l != nil && !(loop != nil && loop.header == b && !startDone) {
			for i := range states {
				r.phis(fr, states[i])
			}
			states = r.limit(fr, b, states)
			var sum []edgeState
			for _, es := range states {
				if r.counted(fr, l, es.st) {
					edges = append(edges, r.unroll(fr, l, es, rets)...)
				} else {
					sum = append(sum, es)
				}
			}
			if len(sum) > 0 {
				edges = append(edges, r.runLoop(fr, l, sum, rets)...)
			}
		} else {
			if !(loop != nil && b == loop.header) {
				for i := range states {
					r.phis(fr, states[i])
				}
			}
			states = r.limit(fr, b, states)
			for _, es := range states {
				edges = append(edges, r.runBlock(fr, b, es.st, rets)...)
			}
		}
		startDone = true
		for _, e := range edges {
			if loop != nil && (e.to == loop.header || !loop.blocks[e.to]) {
				out = append(out, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	return out
}

// phis assigns the phi nodes of es.to for the edge taken.
func (r *Run) phis(fr *frame, es edgeState) {
	if es.from == nil {
		return
	}
	idx := -1
	for i, p := range es.to.Preds {
		if p == es.from {
			idx = i
		}
	}
	type asg struct {
		p *ssa.Phi
		t *Term
	}
	var as []asg
	for _, in := range es.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, r.val(fr, es.st, p.Edges[idx])})
	}
	for _, a := range as {
		es.st.env[a.p] = a.t
	}
	live := fr.info.live[es.to]
	for v := range es.st.env {
		if !live[v] {
			if _, ok := v.(*ssa.Parameter); ok {
				continue
			}
			if _, ok := v.(*ssa.FreeVar); ok {
				continue
			}
			delete(es.st.env, v)
		}
	}
}

// limit merges states when there are too many.
func (r *Run) limit(fr *frame, b *ssa.BasicBlock, states []edgeState) []edgeState {
	if len(states) <= 1 {
		return states
	}
	for _, es := range states {
		r.gc(es.st, nil)
	}
	states = dedupe(states, false)
	if len(states) > r.Cfg.Join {
		states = dedupe(states, true)
	}
	joinBy := func(key func(s *State) string) {
		by := map[string]int{}
		var out []edgeState
		for _, es := range states {
			k := key(es.st)
			if i, ok := by[k]; ok {
				out[i].st = r.join(fr, b, out[i].st, es.st)
				r.Merged++
			} else {
				by[k] = len(out)
				out = append(out, es)
			}
		}
		states = out
	}
	if len(states) > r.Cfg.Join {
		joinBy(func(s *State) string { return s.Auto + ";" + s.hist.sig() })
	}
	if len(states) > r.Cfg.MaxStates {
		joinBy(func(s *State) string { return s.Auto })
	}
	return states
}

// gc drops the facts that no longer constrain anything reachable.
func (r *Run) gc(s *State, extra []*Term) {
	if r.Cfg.KeepFacts {
		return
	}
	live := map[*Term]bool{}
	results := map[*Term]bool{} // of the events on the path
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, t := range s.env {
		mark(t)
	}
	for _, e := range r.envs {
		for _, t := range e {
			mark(t)
		}
	}
	for a, v := range s.heap {
		mark(a)
		mark(v)
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			mark(a)
		}
		mark(d.fn)
	}
	for _, t := range extra {
		mark(t)
	}
	for h := s.hist; h != nil; h = h.Prev {
		if h.Ev != nil {
			for _, a := range h.Ev.Args {
				mark(a)
			}
			mark(h.Ev.Res)
			if h.Ev.Res != nil {
				results[h.Ev.Res] = true
			}
		}
	}
	var keep []*Term
	for _, f := range s.Facts {
		// a fact is dead if it mentions a value made by the program (phi,
		// call result) that nothing refers to any more
		dead := false
		f.Walk(func(x *Term) bool {
			switch x.Op {
			case "phi", "call", "next", "extract", "opaque":
				if x.Op == "call" && !strings.Contains(x.Aux, "@") || x.Op == "extract" && x.Args[0].Op == "call" && !strings.Contains(x.Args[0].Aux, "@") {
					// a pure function of its arguments
					return true
				}
				if !live[x] && !(x.Op == "extract" && results[x.Args[0]]) {
					dead = true
				}
			}
			return !dead
		})
		if !dead {
			keep = append(keep, f)
		}
	}
	s.Facts = keep
}

// mergeExits dedupes the states in which a callee returns.
func (r *Run) mergeExits(fn *ssa.Function, ctx string, rets []exit) []exit {
	if len(rets) <= 1 {
		return rets
	}
	var es []edgeState
	idx := map[*State]int{}
	for i := range rets {
		rets[i].st.env = map[ssa.Value]*Term{}
		rets[i].st.defers = nil
		r.gc(rets[i].st, rets[i].rets)
		idx[rets[i].st] = i
	}
	// group by identical return values
	groups := map[string][]edgeState{}
	var order []string
	for i := range rets {
		k := ""
		for _, t := range rets[i].rets {
			k += fmt.Sprintf("%d,", t.ID)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], edgeState{nil, nil, rets[i].st})
	}
	var out []exit
	for _, k := range order {
		es = dedupe(groups[k], len(rets) > r.Cfg.Join)
		for _, e := range es {
			out = append(out, exit{e.st, rets[idx[e.st]].rets})
		}
	}
	if len(out) > r.Cfg.Join {
		fr := &frame{fn: fn, ctx: ctx}
		by := map[string]int{}
		var o2 []exit
		for _, x := range out {
			k := x.st.Auto + ";" + x.st.hist.sig()
			for _, t := range x.rets {
				k += fmt.Sprintf(",%d", t.ID)
			}
			if i, ok := by[k]; ok {
				o2[i].st = r.join(fr, fn.Blocks[0], o2[i].st, x.st)
				r.Merged++
			} else {
				by[k] = len(o2)
				o2 = append(o2, x)
			}
		}
		out = o2
	}
	return out
}

// sig identifies the history of a state.
func (h *Hist) sig() string {
	if h == nil {
		return ""
	}
	if h.key != "" {
		return h.key
	}
	var b strings.Builder
	b.WriteString(h.Prev.sig())
	b.WriteByte('/')
	switch {
	case h.Ev != nil:
		fmt.Fprintf(&b, "%p%s%s", h.Ev.Instr, h.Ev.Ctx, h.Ev.Name)
		for _, a := range h.Ev.Args {
			if a != nil {
				fmt.Fprintf(&b, ",%d", a.ID)
			}
		}
		if h.Ev.Res != nil {
			fmt.Fprintf(&b, "=%d", h.Ev.Res.ID)
		}
	case h.Loop != nil:
		b.WriteString("L" + h.Loop.Key)
	case h.Mark != nil:
		b.WriteString("M" + h.Mark.Key)
	case h.Left != nil:
		b.WriteString("X" + h.Left.Key)
	}
	h.key = hashKey(b.String())
	return h.key
}

var hashKeys = map[string]string{}

func hashKey(s string) string {
	if k, ok := hashKeys[s]; ok {
		return k
	}
	k := fmt.Sprintf("h%d", len(hashKeys)+1)
	hashKeys[s] = k
	return k
}

// dedupe merges states that differ only in their facts: equal ones, those
// differing in one complementary literal, and (force) all of them.
func dedupe(states []edgeState, force bool) []edgeState {
	sig := func(s *State) string {
		var b strings.Builder
		b.WriteString(s.Auto)
		b.WriteByte(';')
		var ks []string
		for v, t := range s.env {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), t.ID))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteByte(';')
		for _, a := range s.HeapKeys() {
			fmt.Fprintf(&b, "%d=%d,", a.ID, s.heap[a].ID)
		}
		ks = ks[:0]
		for c, v := range s.ver {
			ks = append(ks, fmt.Sprintf("%s=%d", c, v.ID))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteString(s.hist.sig())
		fmt.Fprintf(&b, ";%d", len(s.defers))
		return b.String()
	}
	m := map[string][]int{}
	var out []edgeState
	for _, es := range states {
		k := sig(es.st)
		merged := false
		for _, i := range m[k] {
			// same everything but facts: keep the common facts
			a := out[i].st
			if sameFacts(a.Facts, es.st.Facts) {
				merged = true
				break
			}
			// complementary single literal
			if f, ok := resolve(a.Facts, es.st.Facts); ok {
				a.Facts = f
				merged = true
				break
			}
			if force {
				var keep []*Term
				for _, f := range a.Facts {
					if es.st.Implies(f) {
						keep = append(keep, f)
					}
				}
				for _, f := range es.st.Facts {
					if a.Implies(f) {
						keep = append(keep, f)
					}
				}
				a.Facts = uniq(keep)
				merged = true
				break
			}
		}
		if !merged {
			m[k] = append(m[k], len(out))
			out = append(out, es)
		}
	}
	return out
}

func uniq(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func sameFacts(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[*Term]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return true
}

// resolve merges F+{l} and F+{!l} into F.
func resolve(a, b []*Term) ([]*Term, bool) {
	ma, mb := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range a {
		ma[x] = true
	}
	for _, x := range b {
		mb[x] = true
	}
	var da, db []*Term
	var common []*Term
	for _, x := range a {
		if !mb[x] {
			da = append(da, x)
		} else {
			common = append(common, x)
		}
	}
	for _, x := range b {
		if !ma[x] {
			db = append(db, x)
		}
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		return common, true
	}
	return nil, false
}

func (r *Run) join(fr *frame, b *ssa.BasicBlock, x, y *State) *State {
	base := fmt.Sprintf("%s/%s#j%d%s", fr.ctx, fr.fn.Name(), b.Index, fr.iter)
	r.placed(base)
	n := x.clone()
	for v, t := range x.env {
		if u := y.env[v]; u != nil && u != t {
			n.env[v] = Mk("phi", v.Name()+"@"+base, v.Type())
			r.joined(n.env[v], t, u)
		}
	}
	for _, a := range append(x.HeapKeys(), y.HeapKeys()...) {
		p, _ := ptrElem(a.Typ)
		if p == nil {
			delete(n.heap, a)
			continue
		}
		u, w := x.Load(a, p), y.Load(a, p)
		if u != w {
			n.heap[a] = Mk("phi", fmt.Sprintf("m%d@%s", a.ID, base), p)
			r.joined(n.heap[a], u, w)
		}
	}
	for c := range y.ver {
		if x.ver[c] != y.ver[c] {
			n.ver[c] = Mk("ver", c+"@"+base, nil)
		}
	}
	for c := range x.ver {
		if x.ver[c] != y.ver[c] {
			n.ver[c] = Mk("ver", c+"@"+base, nil)
		}
	}
	for d := range y.dirty {
		n.dirty[d] = true
	}
	n.Facts = nil
	for _, f := range x.Facts {
		if y.Implies(f) {
			n.Facts = append(n.Facts, f)
		}
	}
	return n
}

func (r *Run) joined(sym *Term, ts ...*Term) {
	for _, t := range ts {
		dup := t == sym
		for _, o := range r.joins[sym] {
			dup = dup || o == t
		}
		if !dup {
			r.joins[sym] = append(r.joins[sym], t)
		}
	}
}

// ---- loops

type phiVar struct {
	name string
	typ  types.Type
	init *Term
}

// fixpoint analyses a loop body to a fixpoint.  entry is the state at the
// header with the phi variables' initial values.  body runs one iteration
// and returns the states at the back edges with the new phi values.
func (r *Run) fixpoint(lp *Loop, entry *State, phis []phiVar, setPhi func(st *State, i int, t *Term), body func(h *State) (backs []*State, vals [][]*Term), onFinal func()) {
	key := lp.Key
	r.labelIn[key] = append(append([]string(nil), r.active...), key)
	// purge facts left over from an earlier execution of this loop
	var clean []*Term
	for _, f := range entry.Facts {
		if !r.local(f, key) {
			clean = append(clean, f)
		}
	}
	entry.Facts = clean
	lp.Entry = entry.clone()

	syms := make([]*Term, len(phis))
	for i, p := range phis {
		syms[i] = r.phiSym(p.name+"@"+key, p.typ, p.init)
	}
	changedHeap := map[*Term]bool{}
	changedVer := map[string]bool{}
	dirty := map[*Term]bool{}
	facts := map[string][]*Term{} // per automaton state
	autos := []string{entry.Auto}

	// substitution from phi symbols to values
	subst := func(vals []*Term, mem func(a *Term) *Term) func(*Term) *Term {
		m := map[*Term]*Term{}
		for i := range syms {
			addSub(m, syms[i], vals[i])
		}
		for a := range changedHeap {
			addSub(m, r.memSym(a, key), mem(a))
		}
		return func(t *Term) *Term { return Subst(t, m) }
	}
	inits := make([]*Term, len(phis))
	for i := range phis {
		inits[i] = phis[i].init
	}
	initSub := func() func(*Term) *Term {
		return subst(inits, func(a *Term) *Term { p, _ := ptrElem(a.Typ); return lp.Entry.Load(a, p) })
	}

	// initial candidates
	var cand []*Term
	cand = append(cand, entry.Facts...)
	addPhiCand := func(sym, init *Term) {
		switch init {
		case True:
			cand = append(cand, sym)
		case False:
			cand = append(cand, Not(sym))
		}
		if sym.Typ == nil || !isInteger(sym.Typ) || init == nil {
			return
		}
		for _, c := range []*Term{Le(init, sym), Le(sym, init)} {
			if c.Op == "le" {
				cand = append(cand, c)
			}
		}
		// facts about the initial value, generalised
		if init.Op != "int" {
			for _, f := range entry.Facts {
				if (f.Op == "le") && f.Contains(init) {
					m := map[*Term]*Term{init: sym}
					cand = append(cand, Subst(f, m))
				}
			}
		}
	}
	for i := range phis {
		addPhiCand(syms[i], inits[i])
	}
	// counters that go together
	for i := range syms {
		for j := range syms[:i] {
			a, b := syms[i], syms[j]
			if inits[i] == nil || inits[j] == nil || a.Typ == nil || b.Typ == nil || !isInteger(a.Typ) || !types.Identical(a.Typ, b.Typ) {
				continue
			}
			if d := Sub(inits[i], inits[j]); d.Op == "int" {
				if c := EqInt(a, AddK(b, d.K)); c.Op == "eq0" {
					cand = append(cand, c)
				}
			}
		}
	}
	facts[entry.Auto] = cand

	head := func(auto string) *State {
		h := entry.clone()
		h.Auto = auto
		for i := range syms {
			setPhi(h, i, syms[i])
		}
		for a := range changedHeap {
			h.heap[a] = r.memSym(a, key)
		}
		for c := range changedVer {
			h.ver[c] = Mk("ver", c+"@"+key, nil)
		}
		for d := range dirty {
			h.dirty[d] = true
		}
		h.Facts = nil
		for _, f := range facts[auto] {
			if f == False {
				continue
			}
			if f != True && h.Decide(f) != False {
				h.Facts = append(h.Facts, f)
			}
		}
		h.hist = &Hist{Prev: &Hist{Prev: entry.hist, Loop: lp, n: histLen(entry.hist) + 1}, Mark: lp, n: histLen(entry.hist) + 2}
		return h
	}

	saveRec, saveHook := r.record, r.condHook
	r.record = false
	r.active = append(r.active, key)
	// every pass over the body names its loops alike
	seq := map[string]int{}
	for k, v := range r.loopSeq {
		seq[k] = v
	}
	again := func() {
		r.loopSeq = map[string]int{}
		for k, v := range seq {
			r.loopSeq[k] = v
		}
	}
	var conds map[*Term]bool
	for round := 0; round < 16; round++ {
		changed := false
		conds = map[*Term]bool{}
		hook := r.condHook
		again()
		r.condHook = func(c *Term) {
			conds[c] = true
			if saveHook != nil {
				saveHook(c)
			}
		}
		for ai := 0; ai < len(autos); ai++ {
			auto := autos[ai]
			h := head(auto)
			backs, vals := body(h.clone())
			for bi, b := range backs {
				// memory
				seen := map[*Term]bool{}
				for _, a := range append(b.HeapKeys(), h.HeapKeys()...) {
					if seen[a] || changedHeap[a] {
						continue
					}
					seen[a] = true
					p, ok := ptrElem(a.Typ)
					if !ok {
						continue
					}
					if r.local(a, key) {
						continue
					}
					if b.Load(a, p) != h.Load(a, p) {
						changedHeap[a] = true
						changed = true
						addPhiCandMem(r, lp, a, key, &cand, facts, autos)
						// counters that go together
						if init := lp.Entry.Load(a, p); isInteger(p) {
							sym := r.memSym(a, key)
							add := func(s, i *Term) {
								d := Sub(init, i)
								if d.Op != "int" {
									if !lp.Entry.Implies(EqInt(init, i)) {
										return
									}
									d = Int(0)
								}
								if c := EqInt(sym, AddK(s, d.K)); c.Op == "eq0" {
									for _, au := range autos {
										facts[au] = append(facts[au], c)
									}
								}
							}
							for i := range syms {
								if inits[i] != nil && syms[i].Typ != nil && types.Identical(syms[i].Typ, p) {
									add(syms[i], inits[i])
								}
							}
							for _, o := range sortedTerms(changedHeap) {
								if q, _ := ptrElem(o.Typ); o != a && q != nil && types.Identical(q, p) {
									add(r.memSym(o, key), lp.Entry.Load(o, q))
								}
							}
						}
					}
				}
				for c, v := range b.ver {
					if h.ver[c] != v && !changedVer[c] {
						changedVer[c] = true
						changed = true
					}
				}
				for d := range b.dirty {
					if !h.dirty[d] && !dirty[d] && !r.local(d, key) {
						dirty[d] = true
						changed = true
					}
				}
				// facts
				if _, ok := facts[b.Auto]; !ok {
					autos = append(autos, b.Auto)
					facts[b.Auto] = append([]*Term(nil), facts[auto]...)
					// what holds in this state of the automaton only
					for i, s := range syms {
						if inits[i] != nil && inits[i].Op == "int" && isInteger(s.Typ) {
							if c := Not(EqInt(s, inits[i])); c != True && c != False {
								facts[b.Auto] = append(facts[b.Auto], c)
							}
						}
					}
					changed = true
				}
				sub := subst(vals[bi], func(a *Term) *Term { p, _ := ptrElem(a.Typ); return b.Load(a, p) })
				var keep []*Term
				for _, f := range facts[b.Auto] {
					if g := sub(f); g == True || g != False && b.Implies(g) {
						keep = append(keep, f)
					} else {
						changed = true
					}
				}
				facts[b.Auto] = keep
			}
		}
		r.condHook = hook
		if round == 0 {
			// guard-based candidates
			is := initSub()
			var cs []*Term
			for c := range conds {
				if c.Op == "le" {
					cs = append(cs, c)
				}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
			for _, c := range cs {
				d := c.Args[0]
				ok := false
				for _, s := range syms {
					if d.Contains(s) {
						ok = true
					}
				}
				if !ok {
					continue
				}
				for _, l := range []*Term{c, Not(c), Le(AddK(d, -1), Int(0)), Le(AddK(MulK(d, -1), 0), Int(0)), Le(AddK(d, 1), Int(0))} {
					if l.Op != "le" || r.localOther(l, key, syms, changedHeap) {
						continue
					}
					if g := is(l); g == True || g != False && lp.Entry.Implies(g) {
						dup := false
						for _, f := range facts[entry.Auto] {
							if f == l {
								dup = true
							}
						}
						if !dup {
							for _, a := range autos {
								facts[a] = append(facts[a], l)
							}
							changed = true
						}
					}
				}
			}
			changed = true
		}
		if !changed || r.Over {
			break
		}
	}
	r.record, r.condHook = saveRec, saveHook

	// final pass
	again()
	onFinal()
	if r.record {
		lp.Phis = nil
		for i := range syms {
			lp.Phis = append(lp.Phis, &Phi{Sym: syms[i], Name: phis[i].name, Init: inits[i]})
		}
		var as []*Term
		for a := range changedHeap {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
		for _, a := range as {
			p, _ := ptrElem(a.Typ)
			lp.Phis = append(lp.Phis, &Phi{Sym: r.memSym(a, key), Name: a.String(), Addr: a, Init: lp.Entry.Load(a, p)})
		}
	}
	for _, auto := range autos {
		h := head(auto)
		if r.record {
			lp.Heads = append(lp.Heads, h.clone())
		}
		backs, vals := body(h)
		if r.record {
			for bi, b := range backs {
				lp.Backs = append(lp.Backs, b)
				for i := range syms {
					lp.Phis[i].Backs = append(lp.Phis[i].Backs, vals[bi][i])
				}
				for _, p := range lp.Phis[len(syms):] {
					t, _ := ptrElem(p.Addr.Typ)
					p.Backs = append(p.Backs, b.Load(p.Addr, t))
				}
			}
		}
	}
	r.active = r.active[:len(r.active)-1]
	if r.record {
		for _, p := range lp.Phis {
			r.phiByLabel[p.Sym] = p
		}
		r.Loops = append(r.Loops, lp)
	}
}

func sortedTerms(m map[*Term]bool) (out []*Term) {
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func histLen(h *Hist) int {
	if h == nil {
		return 0
	}
	return h.n
}

func addPhiCandMem(r *Run, lp *Loop, a *Term, key string, cand *[]*Term, facts map[string][]*Term, autos []string) {
	p, _ := ptrElem(a.Typ)
	init := lp.Entry.Load(a, p)
	sym := r.memSym(a, key)
	if isString(p) && init.Op != "str" {
		// what is known of the string before the loop
		for _, f := range lp.Entry.Facts {
			if f.Contains(init) {
				if c := Subst(f, map[*Term]*Term{init: sym}); c != True && c != False {
					for _, au := range autos {
						facts[au] = append(facts[au], c)
					}
				}
			}
		}
	}
	if !isInteger(p) {
		return
	}
	for _, c := range []*Term{Le(init, sym), Le(sym, init)} {
		if c.Op == "le" {
			for _, au := range autos {
				facts[au] = append(facts[au], c)
			}
		}
	}
}

// phiSym makes a phi symbol; struct-typed values get one symbol per field.
func (r *Run) phiSym(label string, typ types.Type, like *Term) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			args = append(args, r.phiSym(st.Field(i).Name()+"."+label, st.Field(i).Type(), nil))
		}
		return Mk("struct", types.TypeString(typ, nil), typ, args...)
	}
	return Mk("phi", label, typ)
}

func addSub(m map[*Term]*Term, sym, val *Term) {
	if sym.Op == "struct" && val != nil && val.Op == "struct" {
		for i := range sym.Args {
			addSub(m, sym.Args[i], val.Args[i])
		}
		return
	}
	if val != nil {
		m[sym] = val
	}
}

func (r *Run) memSym(a *Term, key string) *Term {
	p, _ := ptrElem(a.Typ)
	return r.phiSym(fmt.Sprintf("mem%d@%s", a.ID, key), p, nil)
}

func (r *Run) localOther(l *Term, key string, syms []*Term, mem map[*Term]bool) bool {
	return l.Any(func(x *Term) bool {
		switch x.Op {
		case "phi", "ver", "call", "alloc", "makeslice", "opaque", "next":
			for _, s := range syms {
				if s == x || s.Op == "struct" && s.Contains(x) {
					return false
				}
			}
			for a := range mem {
				if s := r.memSym(a, key); s == x || s.Contains(x) {
					return false
				}
			}
			return r.local(Mk(x.Op, x.Aux, x.Typ, x.Args...), key)
		}
		return false
	})
}

// Subst rebuilds t with the substitution m applied.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if v, ok := m[t]; ok {
			return v
		}
		if len(t.Args) == 0 {
			return t
		}
		if v, ok := memo[t]; ok {
			return v
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				same = false
			}
		}
		v := t
		if !same {
			v = rebuild(t, args)
		}
		memo[t] = v
		return v
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "lin":
		s := Int(t.K)
		for i := range a {
			s = combine(s, 1, a[i], t.Coef[i])
		}
		return s
	case "le":
		return Le(a[0], Int(0))
	case "eq0":
		return EqInt(a[0], Int(0))
	case "eq":
		if a[0] == a[1] {
			return True
		}
		return Eq(a[0], a[1], a[0].Typ)
	case "not":
		return Not(a[0])
	case "len":
		return Len(a[0])
	case "cap":
		return Cap(a[0])
	case "elem":
		return Elem(a[0], a[1], t.Typ)
	case "slice":
		var max *Term
		if len(a) == 4 {
			max = a[3]
		}
		return Slice(a[0], a[1], a[2], max, t.Typ)
	case "cat":
		s := Str("")
		for _, x := range a {
			s = Cat(s, x)
		}
		return s
	case "shl":
		return Bin(token.SHL, a[0], a[1], t.Typ)
	case "shr":
		return Bin(token.SHR, a[0], a[1], t.Typ)
	case "and":
		return Bin(token.AND, a[0], a[1], t.Typ)
	case "or":
		s := a[0]
		for _, x := range a[1:] {
			s = Bin(token.OR, s, x, t.Typ)
		}
		return s
	case "xor":
		return Bin(token.XOR, a[0], a[1], t.Typ)
	case "andnot":
		return Bin(token.AND_NOT, a[0], a[1], t.Typ)
	case "mul":
		return Bin(token.MUL, a[0], a[1], t.Typ)
	case "quo":
		return Bin(token.QUO, a[0], a[1], t.Typ)
	case "rem":
		return Bin(token.REM, a[0], a[1], t.Typ)
	case "conv":
		if a[0].Op == "int" {
			return truncConst(a[0].K, t.Typ)
		}
	case "extract":
		if a[0].Op == "tuple" {
			i := 0
			fmt.Sscan(t.Aux, &i)
			return a[0].Args[i]
		}
	}
	return Mk(t.Op, t.Aux, t.Typ, a...)
}

// invariant reports whether p, a phi of the loop's header, only merges the
// ways into the loop: its value is the same in every iteration.
func (l *natLoop) invariant(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{p: true}
	var same func(v ssa.Value) bool
	same = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		q, ok := v.(*ssa.Phi)
		if !ok || !l.blocks[q.Block()] || q.Block() == l.header {
			return false
		}
		seen[v] = true
		for _, e := range q.Edges {
			if !same(e) {
				return false
			}
		}
		return true
	}
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && !same(e) {
			return false
		}
	}
	return true
}

// counted reports whether loop l, entered in state st, is a counting loop
// that ends after a few iterations whatever its body does: a phi of constant
// initial value, changed by a constant, is compared with a constant.
func (r *Run) counted(fr *frame, l *natLoop, st *State) bool {
	const most = 16
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[l.header.Succs[0]] == l.blocks[l.header.Succs[1]] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	konst := func(v ssa.Value) (int64, bool) {
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			// The length of an array is computed in the loop's header.
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if a, ok := c.Call.Args[0].Type().Underlying().(*types.Array); ok {
						return a.Len(), true
					}
				}
			}
			return 0, false
		}
		t := r.val(fr, st, v)
		return t.K, t.Op == "int"
	}
	// counter: v = phi + off
	counter := func(v ssa.Value) (p *ssa.Phi, off int64) {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			p, ok1 := b.X.(*ssa.Phi)
			k, ok2 := konst(b.Y)
			if ok1 && ok2 && p.Block() == l.header {
				if b.Op == token.SUB {
					k = -k
				}
				return p, k
			}
			return nil, 0
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			return p, 0
		}
		return nil, 0
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	p, off := counter(x)
	if p == nil {
		p, off = counter(y)
		y = x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if p == nil || !isInteger(p.Type()) {
		return false
	}
	bound, ok := konst(y)
	if !ok {
		return false
	}
	init := st.env[p]
	if init == nil || init.Op != "int" {
		return false
	}
	var step int64
	for i, e := range p.Edges {
		if !l.blocks[l.header.Preds[i]] {
			continue
		}
		q, k := counter(e)
		if q != p || k == 0 || step != 0 && step != k {
			return false
		}
		step = k
	}
	if step == 0 {
		return false
	}
	stay := l.blocks[l.header.Succs[0]]
	v := init.K
	for n := 0; n <= most; n++ {
		c := false
		switch w := v + off; op {
		case token.LSS:
			c = w < bound
		case token.LEQ:
			c = w <= bound
		case token.GTR:
			c = w > bound
		case token.GEQ:
			c = w >= bound
		case token.EQL:
			c = w == bound
		case token.NEQ:
			c = w != bound
		default:
			return false
		}
		if c != stay {
			return true
		}
		v += step
	}
	return false
}

// unroll interprets the iterations of a counted loop one by one.
func (r *Run) unroll(fr *frame, l *natLoop, es edgeState, rets *[]exit) (out []edgeState) {
	at := []edgeState{{nil, l.header, es.st}}
	outer := fr.iter
	defer func() { fr.iter = outer }()
	for n := 0; len(at) > 0; n++ {
		// What an iteration computes has a name of its own.
		fr.iter = fmt.Sprintf("%s~%d", outer, n)
		edges := r.runRegion(fr, l, at, rets)
		at = nil
		for _, e := range edges {
			if e.to == l.header {
				r.phis(fr, e)
				at = append(at, edgeState{nil, l.header, e.st})
			} else {
				out = append(out, e)
			}
		}
		if r.Over {
			break
		}
	}
	return out
}

func (r *Run) runLoop(fr *frame, l *natLoop, entries []edgeState, rets *[]exit) (out []edgeState) {
	// Entry states that the loop cannot distinguish are joined.
	if len(entries) > r.Cfg.Entries {
		for _, key := range []func(*State) string{
			func(s *State) string { return s.Auto + s.hist.sig() },
			func(s *State) string { return s.Auto }} {
			if len(entries) <= r.Cfg.Entries {
				break
			}
			by := map[string]int{}
			var js []edgeState
			for _, es := range entries {
				k := key(es.st)
				if i, ok := by[k]; ok {
					js[i].st = r.join(fr, l.header, js[i].st, es.st)
					r.Merged++
				} else {
					by[k] = len(js)
					js = append(js, es)
				}
			}
			entries = js
		}
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !l.invariant(p) {
			phis = append(phis, p)
		}
	}
	for _, es := range entries {
		entry := es.st
		key := fmt.Sprintf("%s/%s#L%d%s", fr.ctx, fr.fn.Name(), l.header.Index, fr.iter)
		n := r.loopSeq[key]
		r.loopSeq[key]++
		if n > 0 {
			key += fmt.Sprintf("e%d", n)
		}
		lp := &Loop{Key: key, Fn: fr.fn, Header: l.header, Ctx: fr.ctx, Pos: blockPos(l.header)}
		var pv []phiVar
		for _, p := range phis {
			name := p.Comment
			if name == "" {
				name = p.Name()
			}
			pv = append(pv, phiVar{name + "." + p.Name(), p.Type(), entry.env[p]})
		}
		var exits []edgeState
		var innerRets []exit
		r.fixpoint(lp, entry, pv,
			func(st *State, i int, t *Term) { st.env[phis[i]] = t },
			func(h *State) (backs []*State, vals [][]*Term) {
				var rr []exit
				es := r.runRegion(fr, l, []edgeState{{nil, l.header, h}}, &rr)
				innerRets = append(innerRets, rr...)
				for _, e := range es {
					if e.to == l.header {
						r.phis(fr, e)
						var vs []*Term
						for _, p := range phis {
							vs = append(vs, e.st.env[p])
						}
						backs = append(backs, e.st)
						vals = append(vals, vs)
					} else {
						exits = append(exits, e)
					}
				}
				return
			},
			func() { exits, innerRets = nil, nil })
		if r.record {
			for _, e := range exits {
				lp.Exits = append(lp.Exits, e.st.clone())
				e.st.hist = &Hist{Prev: e.st.hist, Left: lp, n: histLen(e.st.hist) + 1}
			}
		}
		out = append(out, exits...)
		*rets = append(*rets, innerRets...)
	}
	return out
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// ---- values

func (r *Run) val(fr *frame, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return Mk("global", v.RelString(nil), v.Type())
	case *ssa.Function:
		n := funcName(v)
		r.funcs[n] = v
		return Mk("func", n, v.Type())
	case *ssa.Builtin:
		return Mk("builtin", v.Name(), v.Type())
	}
	if t := st.env[v]; t != nil {
		return t
	}
	return Mk("opaque", fmt.Sprintf("%s/%s:%s", fr.ctx, fr.fn.Name(), v.Name()), v.Type())
}

// funcName is a unique name for fn.
func funcName(fn *ssa.Function) string { return fn.RelString(nil) + fn.Name()[0:0] }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if k, ok := constant.Int64Val(c.Value); ok {
			return Int(k)
		}
		return Mk("const", "uint64:"+c.Value.ExactString(), c.Type())
	}
	if isInteger(c.Type()) {
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			if k, ok := constant.Int64Val(i); ok {
				return Int(k)
			}
		}
	}
	return Mk("const", c.Value.ExactString(), c.Type())
}

// BlockIn reports whether block n of the loop's function is in the loop.
func BlockIn(l *Loop, n int) bool {
	if l.Fn == nil || l.Header == nil {
		return false
	}
	nl := infoOf(l.Fn).loops[l.Header]
	if nl == nil {
		return false
	}
	for b := range nl.blocks {
		if b.Index == n {
			return true
		}
	}
	return false
}
