package rules

import (
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const (
	grepT   = "(*" + load.Module + "/regexp.Grep)."
	compile = load.Module + "/regexp.Compile"
)

func isSearch(n string) bool { return n == grepT+"Reader" || n == grepT+"File" }

func init() {
	register(&Rule{
		ID: "C20",
		Explanation: "Path-sensitive analysis of the main functions of cgrep and csearch (helpers inlined, the search engine abstract): every way the program can end is enumerated with its exit status and the path's conditions. Status 0 must imply that the engine's match flag is set, status 1 after searching that it is not, and nothing may be searched before a usage error (status 2). " +
			"The match flag is only ever set, never cleared, by the engine, and set on exactly the paths through its search loop that the matcher's result calls for. At every search the pattern in force is the compiled command-line argument behind a prefix that makes ^ and $ match at lines and ignores case if and only if the path implies -i. " +
			"Every flag the usage line documents is registered before the flags are parsed, and every registered flag's variable is read by code the command can reach.",
		Assumptions: []string{"package flag", "the pattern matcher (C18)"},
		Run:         runExitStatus,
	})
}

// A flagReg is a registered command-line flag.
type flagReg struct {
	name string
	call *ssa.Call
	ptr  ssa.Value // where the value is kept, nil for flag.Func
	fn   ssa.Value // handler of flag.Func
}

func flagRegOf(in ssa.Instruction) *flagReg {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	n, _ := calleeOf(call)
	if !strings.HasPrefix(n, "flag.") {
		return nil
	}
	n = strings.TrimPrefix(n, "flag.")
	i := 0
	r := &flagReg{call: call}
	switch {
	case strings.HasSuffix(n, "Var"):
		i = 1
		r.ptr = call.Call.Args[0]
	case n == "Func" || n == "BoolFunc":
		r.fn = call.Call.Args[len(call.Call.Args)-1]
	case n == "Bool" || n == "Int" || n == "Int64" || n == "Uint" || n == "Uint64" || n == "String" || n == "Float64" || n == "Duration":
	default:
		return nil
	}
	if len(call.Call.Args) <= i {
		return nil
	}
	k, ok := call.Call.Args[i].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return nil
	}
	r.name = constant.StringVal(k.Value)
	return r
}

// grepFields returns the address of field name of the Grep at base.
func grepField(st *eng.State, base *eng.Term, name string) *eng.Term {
	a := fieldAddr(base, name)
	if a == nil {
		return nil
	}
	s := base.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.Load(a, s.Field(i).Type())
		}
	}
	return nil
}

func runExitStatus(c *Ctx) {
	c.matchFlagMonotone()
	c.matchFlag()
	for _, rel := range []string{"cmd/cgrep", "cmd/csearch"} {
		c.exitOf(rel)
	}
	for _, rel := range []string{"cmd/cgrep", "cmd/csearch", "cmd/cindex", "cmd/csweb"} {
		c.flagsOf(rel)
	}
	c.Min("status-match", 2)
	c.Min("status-no-match", 2)
	c.Min("pattern", 3)
	c.Min("flag-registered", 11)
	c.Min("flag-read", 20)
}

func (c *Ctx) matchFlagMonotone() {
	g := graphOf(c.P)
	n := 0
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(addrClass(fa), "regexp.Grep.Match") {
					continue
				}
				n++
				k, ok := st.Val.(*ssa.Const)
				c.Check(ok && k.Value != nil && k.Value.ExactString() == "true", "match-only-set", fnLabel(f), in.Pos(), "%s stores something other than true in the engine's match flag: a match found before can be forgotten", fnLabel(f))
			}
		}
	}
	c.Check(n > 0, "match-only-set", "stores", 0, "no store of the engine's match flag found")
}

func (c *Ctx) exitOf(rel string) {
	main := c.Func(rel, "main")
	if main == nil {
		return
	}
	interesting := func(n string) bool {
		return isSearch(n) || n == compile || n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || n == "flag.Parse" || n == "flag.Args" || n == "flag.Arg" || n == "flag.NArg"
	}
	r := c.Analyze(main, &eng.Config{
		Join: 150, Entries: 64, MaxStates: 1000,
		Opaque: func(f *ssa.Function) bool {
			return fnPkg(f) != nil && !strings.HasSuffix(fnPkg(f).Path(), rel)
		},
		Target:   targetNames(interesting),
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && interesting(e.Name) },
	})
	// the search engine's object
	var grep *eng.Term
	searchLoops := map[*eng.Loop]bool{}
	for _, e := range r.Events {
		if !isSearch(e.Name) {
			continue
		}
		if grep == nil {
			grep = e.Args[0]
		}
		c.Check(e.Args[0] == grep, "one-engine", rel, e.Instr.Pos(), "%s searches with more than one engine: their match flags are not combined", rel)
		c.pattern(rel, r, e)
		if rel == "cmd/csearch" {
			c.Check(argsKnown(e.St, func(n *eng.Term) *eng.Term { return eng.EqInt(n, eng.Int(1)) }), "one-argument", rel, e.Instr.Pos(), "%s searches although it is given more than a pattern", rel)
		}
	}
	if !c.Check(grep != nil, "one-engine", rel+":search", main.Pos(), "no search found in %s", rel) {
		return
	}
	for _, l := range r.Loops {
		for _, b := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
			evs, ok := b.EventsSince(l)
			if !ok {
				evs = b.Events(false)
			}
			for _, e := range evs {
				if isSearch(e.Name) {
					searchLoops[l] = true
				}
			}
		}
	}
	searched := func(st *eng.State) bool {
		for _, e := range st.Events(false) {
			if isSearch(e.Name) {
				return true
			}
		}
		for _, l := range st.Passed() {
			if searchLoops[l] {
				return true
			}
		}
		return false
	}
	for _, t := range r.Terms {
		code := int64(0)
		pos := main.Pos()
		switch t.Kind {
		case "return":
		case "fatal":
			pos = t.Ev.Instr.Pos()
			code = 1
			if t.Ev.Name == "os.Exit" {
				if !t.Ev.Args[0].IsInt() {
					// a computed status: decide both outcomes
					c.Check(false, "status-known", rel+":"+fnLabel(t.Ev.Instr.Parent()), pos, "%s ends with a status that is not known on the path", rel)
					continue
				}
				code = t.Ev.Args[0].K
			} else {
				// a reported error
				known := everFact(t.St.Facts, func(f *eng.Term) bool {
					if f.Op != "not" || f.Args[0].Op != "eq" {
						return false
					}
					x, y := f.Args[0].Args[0], f.Args[0].Args[1]
					if x == eng.Nil {
						x, y = y, x
					}
					return y == eng.Nil && x.Typ != nil && x.Typ.String() == "error"
				})
				c.Check(known, "status-error", rel+":"+fnLabel(t.Ev.Instr.Parent()), pos, "%s can end with an error message although nothing failed", rel)
				continue
			}
		default:
			continue
		}
		m := grepField(t.St, grep, "Match")
		cons := rel + ":" + fnLabel(main)
		if t.Ev != nil {
			cons = rel + ":" + fnLabel(t.Ev.Instr.Parent())
		}
		switch code {
		case 0:
			c.Check(m != nil && t.St.Implies(m), "status-match", cons, pos, "%s can exit with status 0 although nothing matched", rel)
		case 1:
			c.Check(m != nil && t.St.Implies(eng.Not(m)), "status-no-match", cons, pos, "%s can exit with status 1 although something matched", rel)
		default:
			if rel == "cmd/csearch" {
				c.Check(argsKnown(t.St, func(n *eng.Term) *eng.Term { return eng.Not(eng.EqInt(n, eng.Int(1))) }), "status-usage", cons+" given", pos, "%s can end with status %d although it is given a pattern and nothing else", rel, code)
			} else {
				c.Check(argsKnown(t.St, func(n *eng.Term) *eng.Term { return eng.EqInt(n, eng.Int(0)) }), "status-usage", cons+" given", pos, "%s can end with status %d although it is given a pattern", rel, code)
			}
			c.Check(code == 2 && !searched(t.St), "status-usage", cons, pos, "%s can exit with status %d after searching", rel, code)
		}
	}
}

var flagGroup = regexp.MustCompile(`^\(\?([a-zA-Z]+)\)`)

// pattern checks the pattern in force at search event e.
func (c *Ctx) pattern(rel string, r *eng.Run, e *eng.Event) {
	re := grepField(e.St, e.Args[0], "Regexp")
	cons := rel + ":" + e.Name[strings.LastIndex(e.Name, ".")+1:]
	ok := re != nil
	var why string
	if !ok {
		why = "no pattern is set"
	}
	for _, l := range leaves(r, re) {
		if !ok {
			break
		}
		if !isResult(l, compile, "0") {
			ok, why = false, "the pattern is "+l.String()+", not a compiled one"
			break
		}
		arg := l.Args[0].Args[0]
		insens := everFact(e.St.Facts, func(f *eng.Term) bool { return flagLoad(c, f, "i") })
		sens := everFact(e.St.Facts, func(f *eng.Term) bool { return f.Op == "not" && flagLoad(c, f.Args[0], "i") })
		flags, rest, other := patternParts(arg)
		if other != "" {
			ok, why = false, "the pattern has "+other+" put before it"
			break
		}
		if rest == nil || !c.firstArg(rest) {
			ok, why = false, "the pattern is not the first argument"
			break
		}
		for _, f := range flags {
			if f != 'm' && f != 'i' {
				ok, why = false, "the pattern is compiled with (?"+string(f)+")"
			}
		}
		switch {
		case !strings.Contains(flags, "m"):
			ok, why = false, "^ and $ do not match at lines"
		case !insens && !sens:
			ok, why = false, "-i is not looked at"
		case insens && !strings.Contains(flags, "i"):
			ok, why = false, "-i does not ignore case"
		case sens && strings.Contains(flags, "i"):
			ok, why = false, "case is ignored without -i"
		}
		if ok && !e.St.Implies(eng.Eq(eng.Extract(l.Args[0], 1, nil), eng.Nil, nil)) {
			ok, why = false, "the search goes on although compiling the pattern failed"
		}
	}
	c.Check(ok, "pattern", cons, e.Instr.Pos(), "%s: %s", rel, why)
}

// patternParts splits a pattern into the flags put before it and what they are
// put before.
func patternParts(arg *eng.Term) (flags string, rest *eng.Term, other string) {
	rest = arg
	if arg.Op == "cat" && arg.Args[0].Op == "str" {
		s := arg.Args[0].Aux
		for {
			m := flagGroup.FindStringSubmatch(s)
			if m == nil {
				break
			}
			flags += m[1]
			s = s[len(m[0]):]
		}
		if s != "" {
			return flags, nil, s
		}
		rest = nil
		if len(arg.Args) == 2 {
			rest = arg.Args[1]
		}
	}
	return flags, rest, ""
}

// firstArg reports whether t is the first command-line argument.
func (c *Ctx) firstArg(t *eng.Term) bool {
	if isCall(t, "flag.Arg") {
		return t.Args[0].IsInt() && t.Args[0].K == 0
	}
	if t.Op == "ld" && t.Args[0].Op == "elem" {
		a := t.Args[0]
		return isCall(a.Args[0], "flag.Args") && a.Args[1].IsInt() && a.Args[1].K == 0
	}
	return false
}

var usageFlag = regexp.MustCompile(`\[-([A-Za-z]+)`)

// flagsOf checks that documented flags exist and existing flags are read.
func (c *Ctx) flagsOf(rel string) {
	main := c.Func(rel, "main")
	if main == nil {
		return
	}
	g := graphOf(c.P)
	inits := g.initsOf(rel)
	rs := g.reach(append(append([]*ssa.Function{}, inits...), main)...)
	isInit := map[*ssa.Function]bool{}
	for _, f := range inits {
		isInit[f] = true
	}
	var regs []*flagReg
	usage := ""
	var fns []*ssa.Function
	for f := range rs.fns {
		fns = append(fns, f)
	}
	sortFns(fns)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fr := flagRegOf(in); fr != nil {
					regs = append(regs, fr)
				}
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if s := constant.StringVal(k.Value); strings.HasPrefix(s, "usage: ") && strings.HasSuffix(fnPkg(f).Path(), rel) {
							usage = s
						}
					}
				}
			}
		}
	}
	if rel != "cmd/csweb" {
		c.Check(usage != "", "usage-found", rel, main.Pos(), "no usage message found in %s", rel)
	}
	// documented flags are registered before parsing
	line, _, _ := strings.Cut(usage, "\n")
	have := map[string]*flagReg{}
	for _, fr := range regs {
		have[fr.name] = fr
	}
	r := c.Analyze(main, &eng.Config{
		Join: 150, MaxStates: 500,
		Target: func(in ssa.Instruction, n string) bool { return flagRegOf(in) != nil || n == "flag.Parse" },
		Interest: func(e *eng.Event) bool {
			return e.Kind == "call" && (e.Name == "flag.Parse" || strings.HasPrefix(e.Name, "flag."))
		},
	})
	parses := 0
	early := map[string]bool{}
	for _, e := range r.Events {
		if e.Name != "flag.Parse" {
			continue
		}
		parses++
		now := map[string]bool{}
		for _, p := range e.St.Events(false) {
			if fr := flagRegOf(p.Instr); fr != nil {
				now[fr.name] = true
			}
		}
		for n, fr := range have {
			if isInit[fr.call.Parent()] {
				now[n] = true
			}
		}
		if parses == 1 {
			early = now
		} else {
			for n := range early {
				if !now[n] {
					delete(early, n)
				}
			}
		}
	}
	if rel != "cmd/csweb" {
		c.Check(parses > 0, "flags-parsed", rel, main.Pos(), "%s does not parse its flags", rel)
	}
	for _, m := range usageFlag.FindAllStringSubmatch(line, -1) {
		c.Check(early[m[1]], "flag-registered", rel+":-"+m[1], main.Pos(), "%s documents -%s but does not register it before parsing its flags", rel, m[1])
	}
	// every flag is read
	reads := func(match func(ssa.Value) bool) bool {
		for f := range rs.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "*" && match(u.X) && usedValue(u) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fr := range regs {
		ok := false
		switch {
		case fr.fn != nil:
			ok = c.handlerStores(fr.fn)
		case fr.ptr != nil:
			switch p := fr.ptr.(type) {
			case *ssa.FieldAddr:
				cl := addrClass(p)
				ok = reads(func(v ssa.Value) bool {
					fa, isF := v.(*ssa.FieldAddr)
					return isF && addrClass(fa) == cl
				})
			case *ssa.Global:
				ok = reads(func(v ssa.Value) bool { return v == ssa.Value(p) })
			case *ssa.Alloc:
				ok = reads(func(v ssa.Value) bool { return v == ssa.Value(p) })
			}
		default:
			// p := flag.Bool(...): *p is read
			ok = reads(func(v ssa.Value) bool {
				if v == ssa.Value(fr.call) {
					return true
				}
				u, isU := v.(*ssa.UnOp)
				if !isU {
					return false
				}
				gv, isG := u.X.(*ssa.Global)
				if !isG {
					return false
				}
				for _, s := range g.stores["G:"+gv.String()] {
					if s.Val == ssa.Value(fr.call) {
						return true
					}
				}
				return false
			})
		}
		c.Check(ok, "flag-read", rel+":-"+fr.name, fr.call.Pos(), "%s accepts -%s but nothing it can reach reads its value", rel, fr.name)
	}
}

// usedValue reports whether the value loaded is used by anything.
func usedValue(u *ssa.UnOp) bool {
	for _, ref := range *u.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// handlerStores reports whether a flag handler keeps its value somewhere.
func (c *Ctx) handlerStores(v ssa.Value) bool {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	case *ssa.ChangeType:
		return c.handlerStores(x.X)
	}
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, isAlloc := st.Addr.(*ssa.Alloc); !isAlloc {
					return true
				}
			}
		}
	}
	return false
}
