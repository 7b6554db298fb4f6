package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-bond/bond"

// Program is the type-checked program under analysis.
type Program struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by import path relative to the module ("" is the root package)
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package

	NumFuncs int
}

// analysisEnv is the environment of the go command that lists and compiles
// the dependencies of the repository: the toolchain its tests use.
func analysisEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k := kv[:strings.Index(kv, "=")]
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/usr/lib/go-1.21/bin/go"); err == nil {
		path = "/usr/lib/go-1.21/bin:" + path
	}
	_ = os.Setenv("PATH", path) // the go command is looked up in our own PATH
	return append(env, "PATH="+path, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
}

// Load type-checks the module's packages from the working tree and builds SSA.
func Load(repo string) (*Program, error) {
	patterns := []string{"./..."}
	// the examples and benchmarks, which ./... skips; _examples/cli_direct does
	// not compile at the pinned commit
	var dirs []string
	for _, top := range []string{"_benchmarks", "_examples"} {
		_ = filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				d, _ := filepath.Rel(repo, filepath.Dir(p))
				if d != "_examples/cli_direct" {
					dirs = append(dirs, "./"+d)
				}
			}
			return nil
		})
	}
	sort.Strings(dirs)
	for i, d := range dirs {
		if i == 0 || dirs[i-1] != d {
			patterns = append(patterns, d)
		}
	}

	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedExportFile,
		Dir:  repo,
		Env:  analysisEnv(),
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("load: no packages")
	}
	p := &Program{Repo: repo, Fset: cfg.Fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			return nil, fmt.Errorf("type check: %s", e)
		}
		if pkg.IllTyped {
			for _, imp := range pkg.Imports {
				for _, e := range imp.Errors {
					return nil, fmt.Errorf("type check: import %s: %s", imp.PkgPath, e)
				}
			}
			return nil, fmt.Errorf("type check: %s is ill-typed", pkg.PkgPath)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p.SSA = prog
	for i, pkg := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg.PkgPath, modPath), "/")
		p.Pkgs[rel] = pkg
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pkg.PkgPath)
		}
		p.SPkgs[rel] = spkgs[i]
	}
	if p.SPkgs[""] == nil {
		return nil, fmt.Errorf("package %s not loaded", modPath)
	}
	return p, nil
}

// InModule reports whether fn belongs to the repository.
func (p *Program) InModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := fn.Pkg
	if pkg == nil {
		if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
			return strings.HasPrefix(obj.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pkg.Pkg.Path(), modPath)
}

// Named returns the named type with the given name in a package of the module.
func (p *Program) Named(pkg, name string) (*types.Named, error) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("unresolved anchor: package %q", pkg)
	}
	obj := sp.Pkg.Scope().Lookup(name)
	if obj == nil {
		return nil, fmt.Errorf("unresolved anchor: %s.%s", pkg, name)
	}
	tn, ok := obj.(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("unresolved anchor: %s.%s is not a type", pkg, name)
	}
	n, ok := types.Unalias(tn.Type()).(*types.Named)
	if !ok {
		return nil, fmt.Errorf("unresolved anchor: %s.%s is not a named type", pkg, name)
	}
	return n, nil
}

// Func returns a package-level function.
func (p *Program) Func(pkg, name string) (*ssa.Function, error) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("unresolved anchor: package %q", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("unresolved anchor: function %s.%s", pkg, name)
	}
	return f, nil
}

// Method returns the declared method of a named type (pointer or value
// receiver), not a promoted one.
func (p *Program) Method(n *types.Named, name string) (*ssa.Function, error) {
	n = n.Origin()
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			f := p.SSA.FuncValue(m)
			if f == nil {
				return nil, fmt.Errorf("unresolved anchor: no code for %s.%s", n.Obj().Name(), name)
			}
			return f, nil
		}
	}
	return nil, fmt.Errorf("unresolved anchor: method %s.%s", n.Obj().Name(), name)
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// AllFuncs returns every function of the module with a body, incl. closures,
// in a stable order. Test files are not loaded.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var rels []string
	for rel := range p.SPkgs {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sp := p.SPkgs[rel]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if named, ok := types.Unalias(m.Type()).(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						add(p.SSA.FuncValue(named.Method(i)))
					}
				}
			}
		}
	}
	return out
}

// constInt and constStr are the values of constants of the main package.
func (p *Program) constInt(name string) int64 {
	v, _ := constant.Int64Val(p.constOf(name))
	return v
}

func (p *Program) constStr(name string) string {
	if v := p.constOf(name); v.Kind() == constant.String {
		return constant.StringVal(v)
	}
	return ""
}

func (p *Program) constOf(name string) constant.Value {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == modPath {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c.Val()
			}
		}
	}
	return constant.MakeUnknown()
}

func mkString(s string) constant.Value { return constant.MakeString(s) }
