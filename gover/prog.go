package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	strict    bool
	prog      *ssa.Program
	fset      *token.FileSet
	repo      string
	db        *SpecDB
	pkgByName map[string]*types.Package
	fns       map[string]*ssa.Function
	lv        *levels
	typeMemo  map[string]types.Type
	typeMu    sync.Mutex
}

const modPath = "github.com/peterbourgon/trc"

func loadProg(repo string, db *SpecDB) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, fset: prog.Fset, repo: repo, db: db, pkgByName: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, typeMemo: map[string]types.Type{}}
	for _, p := range spkgs {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && p.Pkg.Name() != "main" {
			P.pkgByName[p.Pkg.Name()] = p.Pkg
		}
	}
	var imp func(p *types.Package)
	seen := map[*types.Package]bool{}
	imp = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if _, ok := P.pkgByName[p.Name()]; !ok && p.Name() != "main" {
			P.pkgByName[p.Name()] = p
		}
		for _, q := range p.Imports() {
			imp(q)
		}
	}
	for _, p := range spkgs {
		if p != nil {
			for _, q := range p.Pkg.Imports() {
				if _, ok := P.pkgByName[q.Name()]; !ok {
					P.pkgByName[q.Name()] = q
				}
			}
		}
	}
	for _, p := range spkgs {
		if p != nil {
			imp(p.Pkg)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Origin() != nil || fn.Synthetic != "" {
			continue
		}
		if P.inRepo(fn) {
			P.fns[fnKey(fn)] = fn
		}
	}
	// methods of all repo types, whether or not reachable
	for _, p := range spkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				P.fns[fnKey(x)] = x
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						P.fns[fnKey(f)] = f
					}
				}
			}
		}
	}
	P.lockLevels()
	return P, nil
}

func (P *Prog) inRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func (P *Prog) monitorOf(t types.Type) *Monitor {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return P.db.monitors[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
}

func (P *Prog) lookupType(s string) types.Type {
	P.typeMu.Lock()
	t, ok := P.typeMemo[s]
	P.typeMu.Unlock()
	if ok {
		return t
	}
	t = P.lookupType0(s)
	if t != nil {
		P.typeMu.Lock()
		if u, ok := P.typeMemo[s]; ok {
			t = u
		}
		P.typeMemo[s] = t
		P.typeMu.Unlock()
	}
	return t
}

func (P *Prog) lookupType0(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if e := P.lookupType(s[1:]); e != nil {
			return types.NewPointer(e)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if e := P.lookupType(s[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	case strings.HasPrefix(s, "chan "):
		if e := P.lookupType(s[5:]); e != nil {
			return types.NewChan(types.SendRecv, e)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		depth := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				depth++
			}
			if s[i] == ']' {
				depth--
				if depth == 0 {
					k, v := P.lookupType(s[4:i]), P.lookupType(s[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	case s == "any":
		return types.Universe.Lookup("any").Type().Underlying()
	}
	if i := strings.Index(s, "["); i > 0 && strings.HasSuffix(s, "]") {
		g := P.lookupType(s[:i])
		a := P.lookupType(s[i+1 : len(s)-1])
		if g == nil || a == nil {
			return nil
		}
		t, err := types.Instantiate(nil, g, []types.Type{a}, false)
		if err != nil {
			return nil
		}
		return t
	}
	if i := strings.Index(s, "."); i > 0 {
		p := P.pkgByName[s[:i]]
		if p == nil {
			return nil
		}
		o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName)
		if !ok {
			return nil
		}
		return o.Type()
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (ex *Exec) anyPkg(t types.Type) *types.Package {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	for f := ex.root; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return nil
}
