package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "sigs.k8s.io/instrumentation-tools"

// repoDir is the tree under analysis.
var repoDir = "/repo"

// Program is the type-checked program in SSA form, plus everything derived from it that
// several analyses share.
type Program struct {
	Fset       *token.FileSet
	Pkgs       []*packages.Package          // repository packages
	Dep        map[string]*packages.Package // dependency packages loaded with syntax on request
	SSA        *ssa.Program
	ByPth      map[string]*ssa.Package
	Funcs      []*ssa.Function // every source function of the repository, closures included
	isRepo     map[*ssa.Package]bool
	typeByPath map[string]*types.Package
	posMu      sync.Mutex
	posOf      map[ssa.Instruction]string
}

func loadProgram(extra ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   repoDir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	patterns := append([]string{"./..."}, extra...)
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading packages: %w", err)
	}
	p := &Program{Dep: map[string]*packages.Package{}, ByPth: map[string]*ssa.Package{}, isRepo: map[*ssa.Package]bool{}, typeByPath: map[string]*types.Package{}}
	var repo []*packages.Package
	for _, pk := range pkgs {
		if strings.HasPrefix(pk.PkgPath, modPath) {
			for _, e := range pk.Errors {
				return nil, fmt.Errorf("type-checking %s: %v", pk.PkgPath, e)
			}
			repo = append(repo, pk)
		} else {
			for _, e := range pk.Errors {
				return nil, fmt.Errorf("type-checking dependency %s: %v", pk.PkgPath, e)
			}
			p.Dep[pk.PkgPath] = pk
		}
	}
	if len(repo) < 8 {
		return nil, fmt.Errorf("only %d repository packages found under %s", len(repo), repoDir)
	}
	sort.Slice(repo, func(i, j int) bool { return repo[i].PkgPath < repo[j].PkgPath })
	p.Pkgs = repo
	p.Fset = repo[0].Fset
	prog, spkgs := ssautil.Packages(repo, ssa.BuilderMode(0))
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", repo[i].PkgPath)
		}
		sp.Build()
		p.ByPth[repo[i].PkgPath] = sp
		p.isRepo[sp] = true
	}
	for _, pk := range repo {
		p.typeByPath[pk.PkgPath] = pk.Types
		for _, imp := range pk.Types.Imports() {
			p.addTypes(imp)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && fn.Pkg != nil && p.isRepo[fn.Pkg] && fn.Synthetic == "" {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	return p, nil
}

func (p *Program) addTypes(tp *types.Package) {
	if _, ok := p.typeByPath[tp.Path()]; ok {
		return
	}
	p.typeByPath[tp.Path()] = tp
	for _, imp := range tp.Imports() {
		p.addTypes(imp)
	}
}

// pkg returns a repository package by its path below the module ("" for the root).
func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	return p.ByPth[path]
}

// lookupType finds a named type, in the repository or any dependency.
func (p *Program) lookupType(pkgPath, name string) types.Type {
	tp := p.typeByPath[pkgPath]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// lookupConst finds a constant, in the repository or any dependency.
func (p *Program) lookupConst(pkgPath, name string) *types.Const {
	tp := p.typeByPath[pkgPath]
	if tp == nil {
		return nil
	}
	c, _ := tp.Scope().Lookup(name).(*types.Const)
	return c
}

func (p *Program) lookupIface(pkgPath, name string) *types.Interface {
	t := p.lookupType(pkgPath, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// fn finds a package-level function of a repository package.
func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method finds a method on a repository type (by pointer receiver method set).
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Program) namedMethod(rel, typ, name string) *ssa.Function {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	t := p.lookupType(path, typ)
	if t == nil {
		return nil
	}
	return p.method(t, name)
}

// position renders a position relative to the repository.
func (p *Program) position(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+len("/pkg/mod/"):]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Program) instrPos(i ssa.Instruction) string {
	p.posMu.Lock()
	defer p.posMu.Unlock()
	if s, ok := p.posOf[i]; ok {
		return s
	}
	s := p.instrPos1(i)
	if p.posOf == nil {
		p.posOf = map[ssa.Instruction]string{}
	}
	p.posOf[i] = s
	return s
}

func (p *Program) instrPos1(i ssa.Instruction) string {
	pos := i.Pos()
	if !pos.IsValid() {
		// the closest positioned instruction of the block, else the function
		b := i.Block()
		if b != nil {
			for _, o := range b.Instrs {
				if o.Pos().IsValid() {
					pos = o.Pos()
				}
				if o == i && pos.IsValid() {
					break
				}
			}
			if !pos.IsValid() {
				pos = b.Parent().Pos()
			}
		}
	}
	return p.position(pos)
}

var fnNames sync.Map

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if s, ok := fnNames.Load(f); ok {
		return s.(string)
	}
	s := strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
	fnNames.Store(f, s)
	return s
}

// repoNamedTypes lists every named (non-alias) type declared at package level in the repository.
func (p *Program) repoNamedTypes() []*types.Named {
	var out []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// implementers lists repository types (pointer or value) that implement the interface.
func (p *Program) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	if it == nil {
		return nil
	}
	for _, n := range p.repoNamedTypes() {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// repoMethods: the methods declared in a package of the repository.
func (p *Program) repoMethods(rel string) []*ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, t := range p.repoNamedTypes() {
		if t.Obj().Pkg() != sp.Pkg {
			continue
		}
		for i := 0; i < t.NumMethods(); i++ {
			if f := p.SSA.FuncValue(t.Method(i)); f != nil && f.Blocks != nil && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
