package rules

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{
		ID: "C03",
		Explanation: "Every network listener reachable from csweb's main is enumerated and its address argument traced backwards to constants, each of which must name a loopback host; " +
			"and an escape/effect analysis over everything reachable from the registered HTTP handlers enumerates every store, map update, append target and call with an address argument and traces the written object backwards: " +
			"none may be a package variable, an object reached through one, a variable captured by a handler, or an object taken from a shared pool.",
		Assumptions: []string{"the host names localhost, 127.* and ::1 resolve to loopback interfaces", "the standard library is itself safe for concurrent requests"},
		Run:         runCsweb,
	})
}

// listeners maps functions that start accepting connections to the index of
// their address argument.
var listeners = map[string]int{
	"net/http.ListenAndServe": 0, "net/http.ListenAndServeTLS": 0, "net.Listen": 1, "net.ListenPacket": 1, "crypto/tls.Listen": 1,
}

var otherListeners = nameIn("net.ListenTCP", "net.ListenUDP", "net.ListenUnix", "net.FileListener", "net/http.Serve", "net/http.ServeTLS",
	"(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS", "(*net.ListenConfig).Listen")

func loopback(addr string) bool {
	for _, h := range []string{"localhost:", "127.0.0.1:", "[::1]:"} {
		if strings.HasPrefix(addr, h) {
			return true
		}
	}
	return false
}

func runCsweb(c *Ctx) {
	g := graphOf(c.P)
	main := c.Func("cmd/csweb", "main")
	if main == nil {
		return
	}
	rs := g.reach(append(g.initsOf("cmd/csweb"), main)...)
	for f := range rs.fns {
		c.funcs[f.String()] = true
	}
	tr := &Tracer{g: g, Through: func(n string) bool { return n == "net.JoinHostPort" || n == "fmt.Sprintf" || n == "fmt.Sprint" }}
	addrOK := func(v ssa.Value) (string, bool) {
		n := 0
		bad := ""
		for _, s := range tr.Trace(v) {
			k, ok := s.V.(*ssa.Const)
			if s.Kind != "const" || !ok {
				if s.Kind == "global" {
					continue // its initial values follow
				}
				bad = s.Kind + " " + s.Name
				continue
			}
			if k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			if txt := constant.StringVal(k.Value); loopback(txt) || txt == "localhost" || txt == "127.0.0.1" || txt == "::1" {
				n++
			} else if strings.Contains(txt, "%") || strings.Trim(txt, "0123456789") == "" && txt != "" {
				// a format or a port
			} else {
				bad = "address " + s.Name
			}
		}
		return bad, bad == "" && n > 0
	}
	server := false
	for _, name := range sortedKeys(rs.ext) {
		i, ok := listeners[name]
		if !ok && !otherListeners(name) {
			continue
		}
		for _, in := range rs.ext[name] {
			cons := fnLabel(in.Parent()) + ":" + name
			if !ok {
				if strings.HasPrefix(name, "(*net/http.Server).ListenAndServe") {
					server = true
					continue
				}
				if name == "net/http.Serve" || name == "net/http.ServeTLS" || name == "(*net/http.Server).Serve" || name == "(*net/http.Server).ServeTLS" {
					continue // the listener was made by net.Listen
				}
				c.Check(false, "loopback", cons, in.Pos(), "cannot tell the address of the listener made by %s", name)
				continue
			}
			ci, isCall := in.(ssa.CallInstruction)
			if !isCall || ci.Common().StaticCallee() == nil {
				c.Check(false, "loopback", cons, in.Pos(), "%s used as a value", name)
				continue
			}
			bad, good := addrOK(ci.Common().Args[i])
			c.Check(good, "loopback", cons, in.Pos(), "csweb may listen on a non-loopback address: %s", bad)
		}
	}
	if server {
		ss := g.stores["F:net/http.Server.Addr"]
		for _, s := range ss {
			bad, good := addrOK(s.Val)
			c.Check(good, "loopback", fnLabel(s.Parent())+":Server.Addr", s.Pos(), "csweb may listen on a non-loopback address: %s", bad)
		}
		c.Check(len(ss) > 0, "loopback", "Server.Addr", main.Pos(), "http.Server without an address listens on every interface")
	}
	c.Min("loopback", 1)

	// isolation
	hs := c.handlers()
	hr := g.reach(hs...)
	var fns []*ssa.Function
	for f := range hr.fns {
		fns = append(fns, f)
	}
	sortFns(fns)
	isHandler := map[*ssa.Function]bool{}
	for _, h := range hs {
		isHandler[h] = true
	}
	ptr := &Tracer{g: g, Identity: true}
	shared := func(v ssa.Value, in ssa.Instruction) string {
		for _, s := range ptr.Trace(v) {
			switch s.Kind {
			case "global":
				gl, ok := s.V.(*ssa.Global)
				if ok && strings.HasSuffix(gl.Type().String(), "codesearch/index.Query") {
					continue // the constant queries: see the query ownership property
				}
				if st, isStore := in.(*ssa.Store); ok && isStore && c.fillOnly(st, gl) {
					continue
				}
				return "package variable " + s.Name
			case "call":
				if strings.HasPrefix(s.Name, "(*sync.Pool).") || strings.HasPrefix(s.Name, "(*sync.Map).") || strings.HasPrefix(s.Name, "(*sync/atomic.") {
					return "object shared through " + s.Name
				}
			}
		}
		return ""
	}
	// base strips field and element selections.
	var base func(v ssa.Value) ssa.Value
	base = func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return v
			}
		}
	}
	captured := func(v ssa.Value) bool {
		fv, ok := v.(*ssa.FreeVar)
		return ok && isHandler[fv.Parent()]
	}
	test := func(f *ssa.Function, in ssa.Instruction, addr ssa.Value, what string) {
		b := base(addr)
		cons := fnLabel(f) + ":" + what
		why := ""
		switch x := b.(type) {
		case *ssa.Global:
			why = "package variable " + x.String()
		case *ssa.Alloc:
			// local
		default:
			if captured(b) {
				why = "variable " + b.Name() + " captured by the handler"
			} else {
				why = shared(b, in)
			}
		}
		c.Check(why == "", "request-isolation", cons, in.Pos(), "handling a request writes to state shared between requests: %s", why)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					test(f, x, x.Addr, "store "+addrClass(x.Addr))
				case *ssa.MapUpdate:
					test(f, x, x.Map, "map update")
				case ssa.CallInstruction:
					com := x.Common()
					name, callee := calleeOf(x)
					if callee != nil && g.in[callee] {
						continue
					}
					if b, ok := com.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "append", "copy", "clear", "delete":
							test(f, in, com.Args[0], b.Name())
						}
						continue
					}
					for _, a := range com.Args {
						if gl, ok := a.(*ssa.Global); ok && !strings.Contains(gl.Type().String(), "sync.") {
							c.Check(false, "request-isolation", fnLabel(f)+":"+name, in.Pos(), "handling a request passes the address of package variable %s to %s", gl, name)
						}
					}
				}
			}
		}
	}
	c.Min("request-isolation", 40)
}
