package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/mozilla/crlite/go"

func isModulePath(p string) bool {
	return p == modulePath || strings.HasPrefix(p, modulePath+"/")
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package // by import path
	Funcs []*ssa.Function         // all source functions of the module incl. anonymous
	Repo  string
	files map[string][]byte
	graph *graph
}

// Load type-checks every package of /repo/go with the project's own toolchain.
func Load(repo string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOMODCACHE", "GOCACHE", "HOME", "GOPATH", "GOENV", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	tool := "/opt/veriftools/go1.24.13/bin"
	if _, err := os.Stat(filepath.Join(tool, "go")); err != nil {
		tool = ""
	}
	path := os.Getenv("PATH")
	if tool != "" {
		path = tool + ":" + path
	}
	cache := "/root/.cache/go-build"
	if c := os.Getenv("CHECKER_GOCACHE"); c != "" {
		cache = c
	}
	env = append(env, "PATH="+path, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOFLAGS=-mod=mod", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOWORK=off", "GOENV=off")
	os.Setenv("PATH", path)
	os.Setenv("GOTOOLCHAIN", "local")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax |
			packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir:  filepath.Join(repo, "go"),
		Env:  env,
		Fset: fset,
	}
	// NeedDeps would load the syntax of all dependencies; export data is enough.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !isModulePath(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	prog.Build()
	p := &Program{Fset: fset, Pkgs: pkgs, Prog: prog, SSA: map[string]*ssa.Package{}, Repo: repo, files: map[string][]byte{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SSA[sp.Pkg.Path()] = sp
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil || !moduleFn(f) {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	if len(p.SSA) < 12 {
		return nil, fmt.Errorf("only %d packages loaded, expected at least 12", len(p.SSA))
	}
	return p, nil
}

func moduleFn(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return isModulePath(g.Pkg.Pkg.Path())
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return isModulePath(o.Pkg.Pkg.Path())
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return isModulePath(o.Pkg().Path())
	}
	return false
}

// fname is the canonical name of a function, with import paths shortened for
// the module ("storage.WriteSerialList", "(*storage.CertDatabase).Commit").
func fname(f *ssa.Function) string { return shortName(f.RelString(nil)) }

// Fn finds a module function by its short name.
func (p *Program) Fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Synthetic == "" && fname(f) == name {
			return f
		}
	}
	return nil
}

func (p *Program) PosStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	po := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, po.Filename)
	if err != nil {
		rel = po.Filename
	}
	return fmt.Sprintf("%s:%d", rel, po.Line)
}

// NamedType finds a named type of the module, e.g. "storage.CertDatabase".
func (p *Program) NamedType(short string) types.Type {
	i := strings.LastIndexByte(short, '.')
	pkg, name := short[:i], short[i+1:]
	path := modulePath
	if pkg != "types" {
		path = modulePath + "/" + pkg
	}
	sp := p.SSA[path]
	if sp == nil {
		return nil
	}
	if m, ok := sp.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

func (p *Program) Syntax(path string) []*ast.File {
	for _, q := range p.Pkgs {
		if q.PkgPath == path {
			return q.Syntax
		}
	}
	return nil
}
