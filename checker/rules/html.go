package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// outputFuncs write their arguments to a writer; the value is the index of
// the writer and of the first data argument.
var outputFuncs = map[string][2]int{
	"fmt.Fprintf": {0, 1}, "fmt.Fprint": {0, 1}, "fmt.Fprintln": {0, 1}, "io.WriteString": {0, 1},
	"(io.Writer).Write": {0, 1}, "(net/http.ResponseWriter).Write": {0, 1}, "(io.StringWriter).WriteString": {0, 1},
	"(*bytes.Buffer).Write": {0, 1}, "(*bytes.Buffer).WriteString": {0, 1}, "(*bytes.Buffer).WriteByte": {0, 1}, "(*bytes.Buffer).WriteRune": {0, 1},
	"(*bufio.Writer).Write": {0, 1}, "(*bufio.Writer).WriteString": {0, 1}, "(*strings.Builder).WriteString": {0, 1}, "(*strings.Builder).Write": {0, 1},
}

func isOutput(name string) bool { _, ok := outputFuncs[name]; return ok }

// htmlSafe reports whether the value t may be placed in an HTML page.
func htmlSafe(r *eng.Run, st *eng.State, t *eng.Term) bool {
	for _, l := range leaves(r, t) {
		if !htmlSafe1(r, st, l) {
			return false
		}
	}
	return true
}

func htmlSafe1(r *eng.Run, st *eng.State, t *eng.Term) bool {
	t0 := t
	if t.Op == "iface" {
		if isNumeric(t.Typ) {
			return true
		}
		return htmlSafe(r, st, t.Args[0])
	}
	switch t.Op {
	case "str", "int", "const", "bool", "nil":
		return true
	case "cat":
		for _, a := range t.Args {
			if !htmlSafe(r, st, a) {
				return false
			}
		}
		return true
	case "convstr", "slice":
		return htmlSafe(r, st, t.Args[0])
	case "call":
		name := t.Aux
		if i := strings.Index(name, "@"); i >= 0 {
			name = name[:i]
		}
		switch name {
		case "html.EscapeString", "html/template.HTMLEscapeString", "net/url.QueryEscape", "net/url.PathEscape", "strconv.Itoa", "strconv.FormatInt", "strconv.Quote":
			return name != "strconv.Quote"
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			return true // whatever was written there is checked where it was written
		case "strings.ReplaceAll":
			return htmlSafe(r, st, t.Args[0]) && htmlSafe(r, st, t.Args[1]) && htmlSafe(r, st, t.Args[2])
		case "fmt.Sprintf", "fmt.Sprint":
			if !htmlSafe(r, st, t.Args[0]) {
				return false
			}
			if name == "fmt.Sprint" {
				return argsSafe(r, st, t.Args[0])
			}
			return argsSafe(r, st, t.Args[1])
		case "strings.Repeat", "strings.ToLower":
			return htmlSafe(r, st, t.Args[0])
		}
		return false
	case "ld":
		// a package variable that is only ever assigned constants
		return constGlobal(t0)
	}
	return isNumeric(t.Typ)
}

// constGlobals is filled per run.
var constGlobals = map[string]bool{}

func constGlobal(t *eng.Term) bool {
	a := t.Args[0]
	return a.Op == "global" && constGlobals[a.Aux]
}

func findConstGlobals(c *Ctx, rel string) {
	g := graphOf(c.P)
	sp := c.P.SPkg[rel]
	if sp == nil {
		return
	}
	for _, m := range sp.Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		ss := g.stores["G:"+gl.String()]
		ok = len(ss) > 0
		for _, s := range ss {
			k, isC := s.Val.(*ssa.Const)
			if !isC || k.Value == nil || k.Value.Kind() != constant.String {
				ok = false
			}
		}
		if ok {
			constGlobals[gl.RelString(nil)] = true
		}
	}
}

func argsSafe(r *eng.Run, st *eng.State, t *eng.Term) bool {
	vs, ok := varArgs(st, t)
	if !ok {
		return false
	}
	for _, v := range vs {
		if !htmlSafe(r, st, v) {
			return false
		}
	}
	return true
}

// unsafeArg returns the first argument of the output event e that is not
// safe in HTML, or nil.
func unsafeArg(r *eng.Run, e *eng.Event) *eng.Term {
	first := outputFuncs[e.Name][1]
	for i := first; i < len(e.Args); i++ {
		a := e.Args[i]
		if strings.HasPrefix(e.Name, "fmt.") && i == len(e.Args)-1 {
			vs, ok := varArgs(e.St, a)
			if !ok {
				return a
			}
			for _, v := range vs {
				if !htmlSafe(r, e.St, v) {
					return v
				}
			}
			continue
		}
		if !htmlSafe(r, e.St, a) {
			return a
		}
	}
	return nil
}

func init() {
	register(&Rule{
		ID: "C02",
		Explanation: "Path-sensitive taint analysis over SSA: every path of the grep engine with HTML output switched on (Grep.File and Grep.Reader, all flag settings), and every path of each HTTP handler registered by csweb with all helpers inlined, " +
			"is abstractly interpreted; at each output call every argument must be a constant, a number, or the result of an HTML escaping function (through concatenation, formatting, phi nodes and conversions). " +
			"The one exception is the raw file contents, allowed only on a path guarded by a test of those contents and with no other output.",
		Assumptions: []string{"html.EscapeString, url.QueryEscape and url.PathEscape neutralise their argument; http.Error answers text/plain", "bytes.Buffer and ResponseWriter emit exactly what is written to them"},
		Run:         runHTML,
	})
}

func runHTML(c *Ctx) {
	// The grep engine, HTML output on.
	for _, name := range []string{"Grep.Reader", "Grep.File"} {
		fn := c.Func("regexp", name)
		if fn == nil {
			continue
		}
		gsym := eng.Sym("g", fn.Params[0].Type())
		ha := fieldAddr(gsym, "HTML")
		if ha == nil {
			c.Viol("anchor", "Grep.HTML", fn.Pos(), "no field HTML in Grep")
			continue
		}
		cfg := &eng.Config{
			Target:   targetNames(isOutput),
			Interest: func(e *eng.Event) bool { return e.Kind == "call" && isOutput(e.Name) },
			Init: func(st *eng.State) {
				st.Assume(st.Load(ha, types.Typ[types.Bool]))
			},
		}
		r := c.Analyze(fn, cfg, gsym)
		for _, e := range r.Events {
			cons := "regexp." + name + ":" + fnLabel(e.Fn) + ":" + formatOf(e)
			bad := unsafeArg(r, e)
			c.Check(bad == nil, "grep-html-output", cons, e.Instr.Pos(), "with HTML output on, %s writes the unescaped value %s", e.Fn, bad)
		}
	}
	c.Min("grep-html-output", 7)

	// csweb handlers.
	for _, h := range c.handlers() {
		findConstGlobals(c, "cmd/csweb")
		cfg := &eng.Config{
			Join: 4, Entries: 2,
			Target:   targetNames(func(n string) bool { return isOutput(n) || isGrepRun(n) }),
			Interest: func(e *eng.Event) bool { return e.Kind == "call" && (isOutput(e.Name) || isGrepRun(e.Name)) },
			Opaque: func(f *ssa.Function) bool {
				return f.Pkg != nil && !strings.HasSuffix(f.Pkg.Pkg.Path(), "cmd/csweb")
			},
		}
		r := c.Analyze(h, cfg)
		for _, e := range r.Events {
			if isGrepRun(e.Name) {
				ha := fieldAddr(e.Args[0], "HTML")
				c.Check(ha != nil && e.St.Implies(e.St.Load(ha, types.Typ[types.Bool])), "csweb-grep-html", fnLabel(e.Fn)+":"+e.Name, e.Instr.Pos(), "csweb runs a Grep whose HTML output is not on in %s", e.Fn)
				continue
			}
			cons := "csweb:" + fnLabel(e.Fn) + ":" + formatOf(e)
			bad := unsafeArg(r, e)
			if bad != nil && rawFile(r, e, bad) {
				c.Check(true, "csweb-raw-file", cons, e.Instr.Pos(), "")
				continue
			}
			c.Check(bad == nil, "csweb-output", cons, e.Instr.Pos(), "the handler %s writes the unescaped value %s", h, bad)
		}
	}
	c.Min("csweb-output", 12)
	c.Min("csweb-grep-html", 1)
}

// formatOf identifies an output call by its constant text.
func formatOf(e *eng.Event) string {
	s := strings.TrimPrefix(e.Name, "fmt.")
	for _, a := range e.Args {
		if a.Op == "str" {
			s += " " + a.Aux
			break
		}
	}
	return s
}

// rawFile reports whether e writes the contents of a file as they are, on a
// path that tested those contents and wrote nothing else.
func rawFile(r *eng.Run, e *eng.Event, t *eng.Term) bool {
	ls := leaves(r, t)
	if len(ls) != 1 {
		return false
	}
	t = ls[0]
	if t.Op == "convstr" {
		t = t.Args[0]
	}
	if !isResult(t, "os.ReadFile", "0") {
		return false
	}
	if e.Name != "(net/http.ResponseWriter).Write" {
		return false
	}
	for _, p := range e.St.Events(false) {
		if isOutput(p.Name) {
			return false
		}
	}
	for _, f := range e.St.Facts {
		if f.Any(func(x *eng.Term) bool {
			return x.Op == "call" && x != t.Args[0] && x.Contains(t) && !isCall(x, "os.ReadFile")
		}) {
			return true
		}
	}
	return false
}

// handlers lists the functions csweb registers as HTTP handlers.
func (c *Ctx) handlers() []*ssa.Function {
	g := graphOf(c.P)
	main := c.Func("cmd/csweb", "main")
	if main == nil {
		return nil
	}
	rs := g.reach(append(g.initsOf("cmd/csweb"), main)...)
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for f := range rs.fns {
		sig := f.Signature
		if !inModulePkg(fnPkg(f)) || sig.Params().Len() != 2 || sig.Results().Len() != 0 || seen[f] {
			continue
		}
		if types.TypeString(sig.Params().At(0).Type(), nil) == "net/http.ResponseWriter" && types.TypeString(sig.Params().At(1).Type(), nil) == "*net/http.Request" {
			// keep only handlers that are registered or methods named ServeHTTP
			if g.escapes[f] || f.Name() == "ServeHTTP" || len(g.makes[f]) > 0 {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	sortFns(out)
	c.Check(len(out) >= 2, "handlers", "cmd/csweb", main.Pos(), "found %d HTTP handlers in csweb, expected at least 2", len(out))
	return out
}

// isGrepRun reports whether name is a Grep method that searches.
func isGrepRun(name string) bool {
	return strings.HasSuffix(name, "codesearch/regexp.Grep).Reader") || strings.HasSuffix(name, "codesearch/regexp.Grep).File")
}
