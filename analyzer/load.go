package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-lowered form of the repository that every
// analysis works on. Nothing in it is ever executed.
type Program struct {
	Prog  *ssa.Program
	Pkg   *ssa.Package   // the repository's main package
	Pkgs  []*ssa.Package // every package of the repository
	Types *types.Package
	Dir   string
	Funcs map[*ssa.Function]bool // all source functions
}

// Load type-checks the repository's current working tree. Dependencies come
// from export data; only the repository's own packages get SSA bodies.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedExportFile,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod"),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, Dir: dir, Funcs: map[*ssa.Function]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.Pkgs = append(P.Pkgs, sp)
		if pkgs[i].Name == "main" && (P.Pkg == nil || pkgs[i].Module != nil && pkgs[i].PkgPath == pkgs[i].Module.Path) {
			P.Pkg = sp
			P.Types = pkgs[i].Types
		}
	}
	if P.Pkg == nil {
		return nil, fmt.Errorf("no main package found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && P.owns(fn.Pkg.Pkg) && fn.Blocks != nil {
			P.Funcs[fn] = true
		} else if fn.Pkg == nil && fn.Blocks != nil {
			P.Funcs[fn] = true
		}
	}
	return P, nil
}

func (p *Program) owns(pk *types.Package) bool {
	for _, s := range p.Pkgs {
		if s.Pkg == pk {
			return true
		}
	}
	return false
}

// ssaFn finds a source function by its SSA name.
func (p *Program) ssaFn(name string) *ssa.Function {
	for f := range p.Funcs {
		if f.String() == name {
			return f
		}
	}
	return nil
}
