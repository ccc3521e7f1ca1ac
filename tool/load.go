package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jschaf/bibtex"

func inModule(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

// World is the type-checked program under analysis.
type World struct {
	repo   string
	prog   *ssa.Program
	pkgs   map[string]*packages.Package // module packages by path suffix ("" for the root)
	ssaPkg map[string]*ssa.Package
	fset   *token.FileSet
	funcs  []*ssa.Function // all functions of the module, including closures
}

func loadWorld(repo string) (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{repo: repo, fset: fset, pkgs: map[string]*packages.Package{}, ssaPkg: map[string]*ssa.Package{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if inModule(p.PkgPath) {
			w.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = p
		}
	}
	if len(w.pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s in %s", modPath, repo)
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, sp := range sps {
		if sp != nil {
			w.ssaPkg[strings.TrimPrefix(strings.TrimPrefix(ps[i].PkgPath, modPath), "/")] = sp
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && inModule(fn.Pkg.Pkg.Path()) && len(fn.Blocks) > 0 {
			w.funcs = append(w.funcs, fn)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		a, b := w.funcs[i], w.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return w, nil
}

// pos renders a source position relative to the repository.
func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	x := w.fset.Position(p)
	f := x.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

func (w *World) pkg(name string) *types.Package {
	if p := w.pkgs[name]; p != nil {
		return p.Types
	}
	return nil
}

// typ looks up a named type of the module, e.g. "ast", "Walk".
func (w *World) typ(pkg, name string) types.Type {
	p := w.pkg(pkg)
	if p == nil {
		return nil
	}
	if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// fn looks up a package-level function, or a method with "T.m".
func (w *World) fn(pkg, name string) *ssa.Function {
	sp := w.ssaPkg[pkg]
	if sp == nil {
		return nil
	}
	if t, m, ok := strings.Cut(name, "."); ok {
		nt := w.typ(pkg, t)
		if nt == nil {
			return nil
		}
		for _, r := range []types.Type{nt, types.NewPointer(nt)} {
			ms := types.NewMethodSet(r)
			if s := ms.Lookup(sp.Pkg, m); s != nil {
				if f := w.prog.MethodValue(s); f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// constant looks up an integer constant.
func (w *World) constInt(pkg, name string) (int64, bool) {
	p := w.pkg(pkg)
	if p == nil {
		return 0, false
	}
	c, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	t := mkConst(c.Val())
	return t.isInt()
}

// initState interprets the package initialisers of the module and returns the
// state after them. What they stored becomes the base heap.
func (w *World) initState(e *Eng) *State {
	st := newState()
	globalsZero = true
	defer func() { globalsZero = false }()
	done := map[*ssa.Package]bool{}
	var run func(sp *ssa.Package)
	run = func(sp *ssa.Package) {
		if done[sp] || !inModule(sp.Pkg.Path()) {
			return
		}
		done[sp] = true
		for _, imp := range sp.Pkg.Imports() {
			if ip := w.prog.Package(imp); ip != nil {
				run(ip)
			}
		}
		outs := e.run(st, sp.Func("init"), nil, nil, "init:"+sp.Pkg.Name())
		var ok []Outcome
		for _, o := range outs {
			if o.panic == nil {
				ok = append(ok, o)
			}
		}
		if len(ok) != 1 {
			e.giveUp("initialisation of %s has %d outcomes", sp.Pkg.Path(), len(ok))
		}
		st = ok[0].st
	}
	var names []string
	for n := range w.ssaPkg {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		run(w.ssaPkg[n])
	}
	for p, v := range st.heap {
		baseHeap[p] = v
		baseObjs[root(p)] = true
		walkTerm(v, map[*Term]bool{}, func(x *Term) {
			if x.kind == KAlloc {
				baseObjs[x] = true
			}
		})
	}
	return newState()
}

// file returns the syntax tree that contains pos.
func (w *World) file(pos token.Pos) *ast.File {
	for _, p := range w.pkgs {
		for _, f := range p.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
