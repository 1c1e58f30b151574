package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// writeCalls are the calls whose failure means that index data did not reach
// the disk.
var writeCalls = nameIn("(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).ReadFrom", "(*os.File).Seek", "(*os.File).Sync", "(*os.File).Truncate",
	"io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "os.OpenFile", "os.Create", "os.CreateTemp", "os.Rename", "os.WriteFile", "os.Truncate", "os.Link", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp",
	"(io.Writer).Write", "(io.WriterTo).WriteTo", "(io.ReaderFrom).ReadFrom", "(io.Seeker).Seek", "(io.StringWriter).WriteString",
	"(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*bufio.Writer).Flush", "(*bufio.Writer).ReadFrom", "io/ioutil.TempFile", "io/ioutil.WriteFile")

func init() {
	register(&Rule{
		ID: "C05",
		Explanation: "Path-sensitive error-discipline analysis of every function of package index and of cindex that makes a call whose failure means index data is not on disk (file creation, write, copy, seek, rename, and module functions whose error result derives from one): " +
			"on every path to a return or to the next iteration of a loop the call's error must be known to be nil, or be part of what is returned; other paths must end in log.Fatal or a panic.",
		Assumptions: []string{"a short write by os.File.Write or io.Copy returns a non-nil error", "removing temporary files and closing files read from may fail without loss"},
		Run:         runErrs,
	})
}

func errIndex(sig *types.Signature) int {
	res := sig.Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if types.TypeString(res.At(i).Type(), nil) == "error" {
			return i
		}
	}
	return -1
}

func runErrs(c *Ctx) {
	g := graphOf(c.P)
	inScope := func(f *ssa.Function) bool {
		p := fnPkg(f)
		return p != nil && (strings.HasSuffix(p.Path(), "/index") || strings.HasSuffix(p.Path(), "/cmd/cindex"))
	}
	// module functions whose error result may be a write error
	derived := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range g.fns {
			if derived[f] || f.Parent() != nil {
				continue
			}
			ei := errIndex(f.Signature)
			if ei < 0 {
				continue
			}
			isW := func(n string) bool {
				if writeCalls(n) {
					return true
				}
				for d := range derived {
					if fullName(d) == n {
						return true
					}
				}
				return false
			}
			tr := &Tracer{g: g, Stop: isW, Through: func(n string) bool { return n == "fmt.Errorf" || n == "errors.Join" }}
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, s := range tr.Trace(r.Results[ei]) {
					if s.Kind == "call" && isW(s.Name) && !derived[f] {
						derived[f] = true
						changed = true
					}
				}
			}
		}
	}
	isWrite := func(in ssa.Instruction) (string, bool) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return "", false
		}
		name, callee := calleeOf(ci)
		if errIndex(ci.Common().Signature()) < 0 {
			return "", false
		}
		if callee != nil && derived[callee] {
			return name, true
		}
		if !writeCalls(name) {
			return "", false
		}
		// writes to memory or to standard streams are not index data
		if strings.HasPrefix(name, "(*os.File).") {
			if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "os" {
					return "", false
				}
			}
		}
		return name, true
	}
	for _, f := range g.fns {
		if !inScope(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, ok := isWrite(in)
				if !ok {
					continue
				}
				has = true
				switch in.(type) {
				case *ssa.Go, *ssa.Defer:
					c.Check(false, "write-error", fnLabel(f)+":"+n, in.Pos(), "the error of a deferred or concurrent %s is lost", n)
				}
			}
		}
		if !has {
			continue
		}
		r := c.Analyze(f, &eng.Config{
			Join: 100, Entries: 16, MaxStates: 1000,
			Opaque: func(h *ssa.Function) bool { return derived[h] },
			Target: func(in ssa.Instruction, n string) bool { return in.Parent() == f && false },
			Interest: func(e *eng.Event) bool {
				if e.Kind != "call" {
					return false
				}
				_, ok := isWrite(e.Instr)
				return ok
			},
		})
		check := func(st *eng.State, toLoop bool, rets []*eng.Term, where string) {
			for _, e := range st.Events(toLoop) {
				n, ok := isWrite(e.Instr)
				if !ok || e.Kind != "call" {
					continue
				}
				ei := errIndex(e.Instr.(ssa.CallInstruction).Common().Signature())
				err := e.Result(ei)
				good := st.Implies(eng.Eq(err, eng.Nil, err.Typ))
				if !good {
					for _, t := range rets {
						if mentions(r, st, t, err) {
							good = true
						}
					}
				}
				c.Check(good, "write-error", fnLabel(f)+":"+n, e.Instr.Pos(), "%s: the error of %s is neither known to be nil nor returned %s", fnLabel(f), n, where)
			}
		}
		for _, t := range r.Terms {
			if t.Kind == "return" {
				check(t.St, false, t.Rets, "on a path that returns")
			}
		}
		for _, l := range r.Loops {
			for _, b := range l.Backs {
				check(b, true, nil, "when its loop continues")
			}
		}
	}
	c.Min("write-error", 9)
}

// mentions reports whether the value t is err, or is built from it.
func mentions(r *eng.Run, st *eng.State, t, err *eng.Term) bool {
	for _, l := range leaves(r, t) {
		if l == err || l.Contains(err) {
			return true
		}
		if isCall(l, "fmt.Errorf") || isCall(l, "errors.Join") {
			vs, ok := varArgs(st, l.Args[len(l.Args)-1])
			if !ok {
				continue
			}
			for _, v := range vs {
				if v == err || v.Contains(err) {
					return true
				}
			}
		}
	}
	return false
}
