package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mmcloughlin/ssarules"

type Program struct {
	dir     string
	fset    *token.FileSet
	pkgs    map[string]*packages.Package
	all     map[string]*packages.Package
	ssa     *ssa.Program
	spkgs   map[string]*ssa.Package
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	globals map[string]*Term
	impls   map[string][]types.Type
	funcs   []*ssa.Function
	pure    map[*ssa.Function]bool
}

func goRoot() string {
	for _, r := range []string{os.Getenv("VERIF_GOROOT"), "/opt/veriftools/go1.25.14"} {
		if r != "" {
			if _, err := os.Stat(filepath.Join(r, "bin", "go")); err == nil {
				return r
			}
		}
	}
	return ""
}

func load(dir string) (*Program, error) { return loadOverlay(dir, nil) }

// loadOverlay loads the repository with files added.
func loadOverlay(dir string, overlay map[string][]byte, more ...string) (*Program, error) {
	env := os.Environ()
	if r := goRoot(); r != "" {
		env = append(env, "GOROOT="+r, "PATH="+filepath.Join(r, "bin")+":"+os.Getenv("PATH"))
		os.Setenv("GOROOT", r)
		os.Setenv("PATH", filepath.Join(r, "bin")+":"+os.Getenv("PATH"))
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  env,

		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, append([]string{"./..."}, more...)...)
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, pkgs: map[string]*packages.Package{}, all: map[string]*packages.Package{},
		spkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, impls: map[string][]types.Type{}}
	var errs []string
	packages.Visit(ps, nil, func(q *packages.Package) {
		p.all[q.PkgPath] = q
		if strings.HasPrefix(q.PkgPath, modPath) {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.ssa = prog
	p.fset = ps[0].Fset
	for i, q := range ps {
		p.pkgs[q.PkgPath] = q
		if sps[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		p.spkgs[q.PkgPath] = sps[i]
		sps[i].Build()
	}
	prog.Build()
	for f := range ssautil.AllFunctions(prog) {
		if p.inRepo(f) {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.findGlobals()
	universe = p.universeOf
	return p, nil
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	return p.spkgs[path]
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Parent() != nil {
		return p.inRepo(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	if r := fn.Signature.Recv(); r != nil {
		return strings.Contains(types.TypeString(r.Type(), nil), modPath)
	}
	return strings.Contains(fn.String(), modPath)
}

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	l, ok := p.loops[fn]
	if !ok {
		l = findLoops(fn)
		p.loops[fn] = l
	}
	return l
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// findGlobals finds package-level variables with a constant value that are
// stored once, by their initialiser.
func (p *Program) findGlobals() {
	p.globals = map[string]*Term{}
	bad := map[string]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					name := g.Pkg.Pkg.Path() + "." + g.Name()
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							c, isC := in.Val.(*ssa.Const)
							if f.Name() == "init" && f.Synthetic != "" && isC && c.Value != nil && p.globals[name] == nil &&
								(c.Value.Kind() == constant.String || c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Bool) {
								p.globals[name] = constTerm(c)
								continue
							}
						}
						bad[name] = true
					case *ssa.UnOp:
						// a load
					default:
						bad[name] = true
					}
				}
			}
		}
	}
	for n := range bad {
		delete(p.globals, n)
	}
}

func (p *Program) globalConst(name string) *Term { return p.globals[name] }

// universeOf lists the types that implement a sealed interface.
func (p *Program) universeOf(t types.Type) []types.Type {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	k := tkey(t)
	if r, ok := p.impls[k]; ok {
		return r
	}
	sealed := n.Obj().Pkg().Path() == "go/ast" && (n.Obj().Name() == "Node" || n.Obj().Name() == "Expr")
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			sealed = true
		}
	}
	if !sealed {
		p.impls[k] = nil
		return nil
	}
	var res []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || tn.IsAlias() {
			continue
		}
		if types.Implements(tn.Type(), it) {
			res = append(res, tn.Type())
		} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
			res = append(res, pt)
		}
	}
	p.impls[k] = res
	return res
}

// onlyImpl is the only type in the repository that implements an interface
// declared in it.
func (p *Program) onlyImpl(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	// exported interfaces can be implemented elsewhere
	if n.Obj().Exported() {
		return nil
	}
	var found []types.Type
	for _, q := range p.pkgs {
		sc := q.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				found = append(found, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				found = append(found, pt)
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// fn finds a function or method: "Walk", "(*printer).node".
func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) namedType(path, name string) *types.Named {
	q := p.all[path]
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}
