// Package load type-checks google/codesearch from its current source and
// builds its SSA form.
package load

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the import path of the module under analysis.
const Module = "github.com/google/codesearch"

// A Program is one loaded configuration (GOOS) of the repository.
type Program struct {
	GOOS string
	Fset *token.FileSet
	Pkgs map[string]*packages.Package // module packages by path relative to Module
	SSA  *ssa.Program
	SPkg map[string]*ssa.Package // by relative path
}

// Load loads the packages matching patterns for the given GOOS.
func Load(repo, goos string, patterns ...string) (*Program, error) {
	env := os.Environ()
	var e2 []string
	for _, kv := range env {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOOS=") || strings.HasPrefix(kv, "GOARCH=") || strings.HasPrefix(kv, "CGO_ENABLED=") {
			continue
		}
		e2 = append(e2, kv)
	}
	e2 = append(e2, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOOS="+goos, "GOARCH=amd64", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  e2,
		Fset: token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{GOOS: goos, Fset: cfg.Fset, Pkgs: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(ps, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, Module) {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking failed:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.SSA = prog
	seen := map[string]bool{}
	packages.Visit(ps, nil, func(q *packages.Package) {
		if q.PkgPath == Module || strings.HasPrefix(q.PkgPath, Module+"/") {
			rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, Module), "/")
			p.Pkgs[rel] = q
			sp := prog.Package(q.Types)
			sp.Build()
			p.SPkg[rel] = sp
			seen[q.PkgPath] = true
		}
		switch q.PkgPath {
		case "slices", "iter", "maps", "sort":
			if sp := prog.Package(q.Types); sp != nil {
				sp.Build()
			}
		}
	})
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", Module, repo)
	}
	return p, nil
}

// Func finds a function or method by "pkg.Name" or "pkg.Type.Method"
// (relative package path); nil if it does not exist.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := sp.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := p.SSA.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					f := p.SSA.FuncValue(ms.At(k).Obj().(*types.Func))
					if f != nil {
						return f
					}
				}
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// Funcs lists all source functions of the module packages, including
// closures, in a fixed order.
func (p *Program) Funcs(pkgs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, k := range pkgs {
		want[k] = true
	}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var rels []string
	for rel := range p.SPkg {
		if len(pkgs) == 0 || want[rel] {
			rels = append(rels, rel)
		}
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sp := p.SPkg[rel]
		q := p.Pkgs[rel]
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fd.Name.Name == "_" {
						continue
					}
					if fd.Name.Name == "init" && fd.Recv == nil {
						continue
					}
					if o, ok := q.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(p.SSA.FuncValue(o))
					}
				}
			}
		}
		if i := sp.Func("init"); i != nil {
			add(i)
		}
	}
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	q := p.Fset.Position(pos)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+len("/repo/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
