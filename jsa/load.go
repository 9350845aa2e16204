package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

// Repo is the loaded program.
type Repo struct {
	prog     *ssa.Program
	lib      *ssa.Package // the library
	cmds     []*ssa.Package
	linkname map[string]string // local function -> symbol it is linked to
	all      []*packages.Package
	nfiles   int
}

func goEnv() []string {
	env := os.Environ()
	goroot := "/opt/veriftools/go1.23.12"
	if _, err := os.Stat(goroot); err == nil {
		env = append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:"+os.Getenv("PATH"))
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GO111MODULE=on", "CGO_ENABLED=0",
		"GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off", "GOWORK=off")
}

func loadRepo() (*Repo, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   repoDir,
		Env:   goEnv(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{prog: prog, linkname: map[string]string{}, all: pkgs}
	for i, p := range ps {
		if p == nil {
			continue
		}
		r.nfiles += len(pkgs[i].GoFiles)
		if p.Pkg.Name() == "main" {
			r.cmds = append(r.cmds, p)
		} else if p.Pkg.Scope().Lookup("Marshal") != nil {
			r.lib = p
		} else {
			r.cmds = append(r.cmds, p)
		}
		for _, f := range pkgs[i].Syntax {
			collectLinknames(f, p.Pkg.Path(), r.linkname)
		}
	}
	if r.lib == nil {
		return nil, fmt.Errorf("no package with a Marshal function in %s", repoDir)
	}
	sort.Slice(r.cmds, func(i, j int) bool { return r.cmds[i].Pkg.Path() < r.cmds[j].Pkg.Path() })
	return r, nil
}

func collectLinknames(f *ast.File, pkg string, m map[string]string) {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:linkname ") {
				fs := strings.Fields(c.Text)
				if len(fs) == 3 {
					m[pkg+"."+fs[1]] = fs[2]
				}
			}
		}
	}
}

// newEngine prepares an engine for the library (or a command).
func newEngine(r *Repo, pkg *ssa.Package) *Engine {
	e := &Engine{
		prog: r.prog, pkgs: map[*ssa.Package]bool{pkg: true}, main: pkg, repo: r,
		sizes:   types.SizesFor("gc", "amd64"),
		globals: map[*ssa.Global]int64{},
		evSeen:  map[string]bool{}, problems: map[string]int{}, oblig: map[string]*Oblig{},
		maxSteps: 3000000, funcs: map[*ssa.Function]*funcInfo{}, followed: map[*ssa.Function]bool{},
		mutable: map[*ssa.Global]bool{}, mayReturnNil: map[*ssa.Function]bool{}, strBuilder: map[string]bool{}, twoBytes: map[*Term]bool{}, strApp: map[*ssa.Function]bool{}, poolDirty: map[string]bool{},
		putTypes: map[string]map[string]types.Type{}, putOpaque: map[string]bool{},
		branchSeen: map[string]int{},
	}
	if o, ok := pkg.Pkg.Scope().Lookup("Option").(*types.TypeName); ok {
		if sig, ok := o.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 {
			if pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
				e.encOpts = pt.Elem()
				v := func(t types.Type) *types.Var { return types.NewVar(0, nil, "", t) }
				bs := types.NewSlice(tByteT)
				e.instrT = types.NewSignatureType(nil, nil, nil,
					types.NewTuple(v(tUP), v(bs), v(e.encOpts)),
					types.NewTuple(v(bs), v(types.Universe.Lookup("error").Type())), false)
			}
		}
	}
	e.findMutable()
	e.runInit()
	return e
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil
		}
	}
}

// findMutable finds the globals that are written after initialisation, or
// whose address is given away.
func (e *Engine) findMutable() {
	for _, fn := range e.allFuncs() {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil && !isInit {
						e.mutable[g] = true
					}
					if g := rootGlobal(st.Val); g != nil {
						e.mutable[g] = true
					}
					continue
				}
				switch x := in.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.DebugRef:
					continue
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil && strings.HasPrefix(f.String(), "(*sync") {
						continue
					}
					_ = x
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if g := rootGlobal(*op); g != nil && e.pkgs[g.Pkg] {
							e.mutable[g] = true
						}
					}
				}
			}
		}
	}
}

// allFuncs lists every function of the followed packages, closures included.
func (e *Engine) allFuncs() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for p := range e.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := e.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := e.prog.Fset.Position(r[i].Pos()), e.prog.Fset.Position(r[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return r[i].String() < r[j].String()
	})
	return r
}

func (e *Engine) runInit() {
	st := newState()
	init := e.main.Func("init")
	e.rootName = "init"
	e.inInit = true
	outs := e.exec(init, nil, nil, st, nil, nil)
	e.inInit = false
	if len(outs) != 1 {
		e.problem("package initialisation has %d outcomes", len(outs))
	}
	if len(outs) > 0 {
		st = outs[0].st
	}
	// what initialisation made is shared by all calls
	for id, o := range st.heap {
		c := *o
		c.owner = -1
		if c.prov != "global" {
			c.site = "value made by package initialisation (" + o.site + ")"
		}
		c.prov = "global"
		st.heap[id] = &c
	}
	for g := range e.mutable {
		if id, ok := e.globals[g]; ok {
			if o := st.heap[id]; o != nil {
				c := *o
				c.cells = map[int64]*Term{}
				c.zero = false
				st.heap[id] = &c
			}
		}
	}
	e.base = st
	e.events = nil
	e.recs = nil
	e.oblig = map[string]*Oblig{}
}

// fn finds a package-level function or a method "T.m".
func (e *Engine) fn(name string) *ssa.Function {
	for _, f := range e.allFuncs() {
		if f.Parent() == nil && shortName(f) == name {
			return f
		}
	}
	return nil
}

func shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return shortName(f.Parent()) + "." + f.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func relFile(p string) string {
	if r, err := filepath.Rel(repoDir, p); err == nil {
		return r
	}
	return p
}
