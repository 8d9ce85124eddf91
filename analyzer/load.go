package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nlpodyssey/goslide"

type Program struct {
	fixed   map[string]*big.Rat
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // short path -> package
	Fset    *token.FileSet
	Dir     string
	Funcs   map[string]*ssa.Function
	All     []*ssa.Function
	LoadErr []string
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Pkgs: map[string]*ssa.Package{}, Dir: dir, Funcs: map[string]*ssa.Function{}}
	for _, q := range ps {
		for _, e := range q.Errors {
			p.LoadErr = append(p.LoadErr, e.Error())
		}
	}
	if len(p.LoadErr) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(p.LoadErr, "; "))
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	p.Fset = prog.Fset
	for _, q := range sp {
		if q != nil {
			p.Pkgs[shortPkg(q.Pkg.Path())] = q
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil && f.Origin() == nil {
			continue
		}
		if inModule(f) {
			p.Funcs[fnName(f)] = f
			p.All = append(p.All, f)
		}
	}
	return p, nil
}

func inModule(f *ssa.Function) bool {
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
		}
		if f.Parent() != nil {
			return inModule(f.Parent())
		}
		// wrappers and bound methods
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/"), q.Line)
}

func (p *Program) fn(name string) *ssa.Function { return p.Funcs[name] }
