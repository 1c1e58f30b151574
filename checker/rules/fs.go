package rules

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathMutators create, change, rename or remove the files their arguments
// name; the value lists the indices of the path arguments.
var pathMutators = map[string][]int{
	"os.Create": {0}, "os.OpenFile": {0}, "os.CreateTemp": {0}, "os.MkdirTemp": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0},
	"os.Remove": {0}, "os.RemoveAll": {0}, "os.Rename": {0, 1}, "os.WriteFile": {0}, "os.Truncate": {0}, "os.Chmod": {0},
	"os.Chown": {0}, "os.Lchown": {0}, "os.Chtimes": {0}, "os.Link": {0, 1}, "os.Symlink": {0, 1}, "os.CopyFS": {0},
	"io/ioutil.WriteFile": {0}, "io/ioutil.TempFile": {0}, "io/ioutil.TempDir": {0},
}

// forbidden functions change files in ways the rule does not follow.
func forbiddenFS(name string) bool {
	switch name {
	case "os.NewFile", "os.OpenRoot", "os.OpenInRoot", "os.StartProcess", "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).Chdir":
		return true
	}
	if strings.HasSuffix(name, ".init") {
		return false
	}
	if strings.HasPrefix(name, "(*os.Root).") || strings.HasPrefix(name, "os/exec.") || strings.HasPrefix(name, "plugin.") ||
		strings.HasPrefix(name, "golang.org/x/sys/") {
		return true
	}
	if strings.HasPrefix(name, "syscall.") {
		switch strings.TrimPrefix(name, "syscall.") {
		case "Mmap", "Munmap", "Madvise", "Getpagesize", "Getenv", "Getpid", "Fstat", "Stat":
			return false
		}
		return true
	}
	return false
}

// flagValue reports whether v is the value of the string flag called name:
// *p with p = flag.String(name, ...), or a variable bound by flag.StringVar.
func flagValue(g *graph, v ssa.Value, name string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return false
	}
	isFlag := func(c *ssa.Call, fn string, i int) bool {
		n, _ := calleeOf(c)
		if n != fn || i >= len(c.Call.Args) {
			return false
		}
		k, ok := c.Call.Args[i].(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == name
	}
	switch x := u.X.(type) {
	case *ssa.UnOp: // **global
		gl, ok := x.X.(*ssa.Global)
		if !ok {
			return false
		}
		ss := g.stores["G:"+gl.String()]
		for _, s := range ss {
			c, ok := s.Val.(*ssa.Call)
			if !ok || !isFlag(c, "flag.String", 0) {
				return false
			}
		}
		return len(ss) > 0
	case *ssa.Global:
		if len(g.stores["G:"+x.String()]) > 0 {
			return false
		}
		for _, f := range g.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && isFlag(c, "flag.StringVar", 1) && c.Call.Args[0] == ssa.Value(x) {
						return true
					}
				}
			}
		}
	case *ssa.Call:
		return isFlag(x, "flag.String", 0)
	}
	return false
}

func init() {
	register(&Rule{
		ID: "C01",
		Explanation: "Effect analysis over the call graph of each of the four commands: every reachable call that can create, overwrite, rename, link, truncate or remove a file is enumerated, " +
			"and the value of each path argument is traced backwards, flow- and context-insensitively, through assignments, concatenations, parameters, fields and captured variables to its sources. " +
			"In cgrep, csearch and csweb the only source allowed is the -cpuprofile flag; in cindex also the index file name, that name with ~ appended, the temporary-file constructor and names of files so opened. " +
			"Opens must be read-only or of such a path, memory maps must be read-only, and no other mutation primitive may be reachable.",
		Assumptions: []string{"standard library functions other than the listed primitives do not modify files", "index.File names the index file"},
		Run:         runFS,
	})
}

func runFS(c *Ctx) {
	g := graphOf(c.P)
	tools := []string{"cmd/cgrep", "cmd/csearch", "cmd/csweb", "cmd/cindex"}
	for _, rel := range tools {
		main := c.Func(rel, "main")
		if main == nil {
			continue
		}
		roots := append(g.initsOf(rel), main)
		rs := g.reach(roots...)
		for f := range rs.fns {
			c.funcs[f.String()] = true
		}
		c.Check(len(rs.fns) >= 5, "tool-reach", rel, main.Pos(), "only %d functions reachable from %s", len(rs.fns), rel)
		own := rel == "cmd/cindex"
		for _, name := range sortedKeys(rs.ext) {
			idx, isMut := pathMutators[name]
			if !isMut && !forbiddenFS(name) && name != "syscall.Mmap" && name != "os.Open" {
				continue
			}
			for _, in := range rs.ext[name] {
				cons := rel + ":" + fnLabel(in.Parent()) + ":" + name
				if forbiddenFS(name) {
					c.Check(false, "forbidden-primitive", cons, in.Pos(), "%s reaches %s in %s", rel, name, in.Parent())
					continue
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					if name != "os.Open" {
						c.Check(false, "mutator-value", cons, in.Pos(), "%s used as a value in %s: its arguments cannot be traced", name, in.Parent())
					}
					continue
				}
				args := ci.Common().Args
				if name == "os.Open" {
					c.Check(true, "read-only-open", cons, in.Pos(), "")
					continue
				}
				if name == "syscall.Mmap" {
					k, ok := args[3].(*ssa.Const)
					c.Check(ok && k.Value != nil && k.Int64() == 1, "read-only-map", cons, in.Pos(), "the mapping made in %s is not read-only", in.Parent())
					continue
				}
				if name == "os.OpenFile" {
					if k, ok := args[1].(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
						c.Check(true, "read-only-open", cons, in.Pos(), "")
						continue
					}
				}
				for _, i := range idx {
					if i >= len(args) {
						continue
					}
					bad := c.foreignPath(g, args[i], own)
					c.Check(bad == "", "own-files-only", cons, in.Pos(), "%s reaches %s in %s with a path that may come from %s", rel, name, in.Parent(), bad)
				}
			}
		}
	}
	c.Min("tool-reach", 4)
	c.Min("own-files-only", 4)
	c.Min("read-only-map", 1)
}

// foreignPath returns a description of a source of the path v that is not
// one of the tool's own files, or "".
func (c *Ctx) foreignPath(g *graph, v ssa.Value, own bool) string {
	var bad string
	t := &Tracer{g: g}
	t.Stop = func(n string) bool {
		return n == "(*os.File).Name" || strings.HasSuffix(n, "codesearch/index.File") || n == "flag.String"
	}
	// flag values are recognised before tracing through the pointer
	var direct func(v ssa.Value, seen map[ssa.Value]bool) bool
	direct = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if flagValue(g, v, "cpuprofile") {
			return true
		}
		if p, ok := v.(*ssa.Parameter); ok && !seen[v] {
			seen[v] = true
			sites := g.calls[p.Parent()]
			if len(sites) == 0 || g.escapes[p.Parent()] {
				return false
			}
			for i, q := range p.Parent().Params {
				if q == p {
					for _, s := range sites {
						if i >= len(s.Common().Args) || !direct(s.Common().Args[i], seen) {
							return false
						}
					}
				}
			}
			return true
		}
		return false
	}
	if direct(v, map[ssa.Value]bool{}) {
		return ""
	}
	for _, s := range t.Trace(v) {
		switch s.Kind {
		case "const":
			k, ok := s.V.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				bad = "constant " + s.Name
				continue
			}
			if txt := constant.StringVal(k.Value); own && strings.Trim(txt, "~") == "" {
				continue
			} else {
				bad = "constant path " + s.Name
			}
		case "call":
			if own && (strings.HasSuffix(s.Name, "codesearch/index.File") || s.Name == "(*os.File).Name") {
				continue
			}
			bad = "result of " + s.Name
		default:
			bad = s.Kind + " " + s.Name
		}
		if bad != "" {
			return bad
		}
	}
	return bad
}
