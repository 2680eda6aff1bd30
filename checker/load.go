package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dir     string
	modPath string
	pkgs    []*packages.Package
	ssa     *ssa.Program
	spkgs   map[string]*ssa.Package
	syntax  map[string]*packages.Package
	fset    *token.FileSet
	base    map[*T]*T
	mutable map[*ssa.Global]bool
	writers map[*ssa.Global][]*ssa.Function
	funcs   []*ssa.Function // every function with a body of the repository
	initErr []string
}

func loadProg(dir string) (*Prog, error) { return loadWith(dir, nil) }

// loadWith loads the repository with further source files.
func loadWith(dir string, overlay map[string][]byte) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay}
	cfg.Env = append(os.Environ(), "GOPROXY=off")
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, pkgs: pk, ssa: prog, spkgs: map[string]*ssa.Package{}, syntax: map[string]*packages.Package{}, fset: prog.Fset}
	for i, sp := range ps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		p.spkgs[pk[i].PkgPath] = sp
		p.syntax[pk[i].PkgPath] = pk[i]
		if pk[i].Module != nil {
			p.modPath = pk[i].Module.Path
		}
	}
	if p.modPath == "" {
		return nil, fmt.Errorf("module path unknown")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	p.findMutable()
	p.runInits()
	return p, nil
}

// repoFuncs lists the functions of the repository that have a body.
func (p *Prog) repoFuncs() []*ssa.Function { return p.funcs }

func (p *Prog) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == "" {
		if fn.Parent() != nil {
			return p.inRepo(fn.Parent())
		}
		// synthetic wrappers: decide by the receiver type
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path()
			}
		}
	}
	return p.modPath == "" || pk == p.modPath || strings.HasPrefix(pk, p.modPath+"/")
}

// globalRoot follows an address to the global variable it belongs to.
func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Prog) findMutable() {
	p.mutable = map[*ssa.Global]bool{}
	p.writers = map[*ssa.Global][]*ssa.Function{}
	for _, fn := range p.funcs {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := globalRoot(st.Addr); g != nil && !isInit {
						p.mutable[g] = true
						p.writers[g] = append(p.writers[g], fn)
					}
				}
				// addresses that escape into calls
				if c, ok := in.(ssa.CallInstruction); ok && !isInit {
					for _, a := range c.Common().Args {
						if g := globalRoot(a); g != nil {
							p.mutable[g] = true
							p.writers[g] = append(p.writers[g], fn)
						}
					}
				}
			}
		}
	}
}

var execs int

func (p *Prog) newExec() *Exec {
	execs++
	return &Exec{num: execs, prog: p.ssa, base: p.base, mutable: p.mutable, inRepo: p.inRepo, modPath: p.modPath,
		maxSteps: 400000, visited: map[*ssa.Function]int{}, p: p}
}

func (p *Prog) runInits() {
	e := p.newExec()
	e.maxSteps = 4000000
	e.idBase = 1000000
	st := newSt()
	e.mutable = map[*ssa.Global]bool{}
	e.base = map[*T]*T{}
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				gt := mk(&T{k: KGlobal, g: g, typ: g.Type(), s: g.String()})
				st.mem[gt] = zeroOf(ptrElem(g.Type()))
			}
		}
	}
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn != nil && ci.fn.Synthetic == "package initializer" && (!p.inRepo(ci.fn) || len(ci.fn.Blocks) == 0) {
			return one(ci.st), true
		}
		return nil, false
	}
	var paths []string
	for k := range p.spkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		outs := e.Call(p.spkgs[k].Func("init"), nil, nil, st, nil, nil)
		if len(outs) != 1 || outs[0].kind != ORet {
			p.initErr = append(p.initErr, fmt.Sprintf("package initialisation of %s has %d outcomes", k, len(outs)))
			continue
		}
		st = outs[0].st
	}
	p.initErr = append(p.initErr, e.undec...)
	p.base = st.mem
}

func (p *Prog) pkg(suffix string) *ssa.Package {
	if suffix == "" {
		return p.spkgs[p.modPath]
	}
	return p.spkgs[p.modPath+"/"+suffix]
}

func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) typ(pkg, name string) types.Type {
	sp := p.pkg(pkg)
	if sp == nil {
		return nil
	}
	if t := sp.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// method finds a declared method of T or *T.
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	t := p.typ(pkg, typ)
	if t == nil {
		return nil
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.ssa.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.dir+"/"), q.Line)
}

var _ ast.Node
