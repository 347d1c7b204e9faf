package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/spacemonkeygo/monkit/v3"

// Config is one build configuration of the repository under analysis.
type Config struct {
	Name string
	Tags string
	Env  []string
	// Overlay makes replacements for files of the repository.
	Overlay func(dir string) (map[string][]byte, error)
}

var configs = map[string]Config{
	"default":   {Name: "default"},
	"appengine": {Name: "appengine", Tags: "appengine"},
	"windows":   {Name: "windows", Env: []string{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"}},
	"darwin":    {Name: "darwin", Env: []string{"GOOS=darwin", "GOARCH=amd64", "CGO_ENABLED=0"}},
	"tinygo":    {Name: "tinygo", Tags: "tinygo"},
}

// Program is the type-checked, SSA form of the repository in one configuration.
type Program struct {
	Cfg           Config
	Dir           string
	Fset          *token.FileSet
	Pkgs          map[string]*packages.Package // by import path, repo only
	SSA           *ssa.Program
	SSAPkgs       map[string]*ssa.Package
	Funcs         []*ssa.Function // every repo function with a body (incl. anonymous, wrappers excluded)
	loops         map[*ssa.Function]*loopForest
	orig          *Origins
	mutable       map[string]bool
	mutKnown      bool
	capOut        map[ssa.Instruction]bool
	rootList      []*ssa.Function
	closEsc       map[*ssa.Function]int
	accessorCache map[string]*Term
}

func repoDir() string {
	if d := os.Getenv("MONKIT_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load(cfg Config, spec bool) (*Program, error) {
	dir := repoDir()
	abs, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	env = append(env, cfg.Env...)
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  env,
		Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, dir+"/") && !strings.HasPrefix(filename, abs+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
				f.Comments = nil
			}
			return f, err
		},
	}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	pats := []string{"./..."}
	if cfg.Overlay != nil {
		pc.Overlay, err = cfg.Overlay(dir)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", cfg.Name, err)
		}
	}
	if spec {
		m := specOverlay(dir)
		for f, b := range pc.Overlay {
			m[f] = b
		}
		pc.Overlay = m
		pats = append(pats, "./"+specPkg)
	}
	pkgs, err := packages.Load(pc, pats...)
	if err != nil {
		return nil, fmt.Errorf("loading %s (%s): %v", dir, cfg.Name, err)
	}
	p := &Program{Cfg: cfg, Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, SSAPkgs: map[string]*ssa.Package{},
		loops: map[*ssa.Function]*loopForest{}, accessorCache: map[string]*Term{}}
	var keep []*packages.Package
	for _, pk := range pkgs {
		if pk.PkgPath != modPath && !strings.HasPrefix(pk.PkgPath, modPath+"/") {
			continue
		}
		if strings.HasPrefix(pk.PkgPath, modPath+"/examples") || strings.HasPrefix(pk.PkgPath, modPath+"/internal") {
			continue
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s (%s): %v", pk.PkgPath, cfg.Name, e)
		}
		p.Pkgs[pk.PkgPath] = pk
		keep = append(keep, pk)
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, dir)
	}
	// bodies outside the repository were dropped, which the loader counts as errors
	packages.Visit(keep, nil, func(pk *packages.Package) { pk.IllTyped = false })
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", keep[i].PkgPath)
		}
		p.SSAPkgs[keep[i].PkgPath] = sp
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if isSpecFn(fn) {
			continue
		}
		if fn.Blocks == nil || !p.inRepo(fn) || fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return isRepoPkg(fn.Pkg.Pkg)
	}
	if o := fn.Object(); o != nil {
		return isRepoPkg(o.Pkg())
	}
	// synthetic wrappers: receiver decides
	if fn.Signature.Recv() != nil {
		return isRepoType(fn.Signature.Recv().Type())
	}
	return false
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func isRepoType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return isRepoPkg(n.Obj().Pkg())
	}
	return false
}

// pkgPath turns a short package name ("", "collect", "present", ...) into its import path.
func pkgPath(short string) string {
	if short == "" {
		return modPath
	}
	return modPath + "/" + short
}

// Func finds a package-level function; nil if absent.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SSAPkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type finds a named type.
func (p *Program) Type(pkg, name string) types.Type {
	sp := p.SSAPkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	if t := sp.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// Method finds a method declared on T or *T (by promotion too).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		sel := types.NewMethodSet(tt).Lookup(p.SSAPkgs[pkgPath(pkg)].Pkg, name)
		if sel == nil {
			continue
		}
		if fn, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
			if f := p.SSA.FuncValue(fn); f != nil {
				return f
			}
		}
		if f := p.SSA.MethodValue(sel); f != nil {
			return f
		}
	}
	return nil
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fnName is a short readable name of a function.
func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "monkit")
	return s
}

// ---- natural loops ----

type loopForest struct {
	headers map[*ssa.BasicBlock]*loopDef
}

type loopDef struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (p *Program) loopsOf(fn *ssa.Function) *loopForest {
	if lf, ok := p.loops[fn]; ok {
		return lf
	}
	lf := &loopForest{headers: map[*ssa.BasicBlock]*loopDef{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := lf.headers[s]
				if l == nil {
					l = &loopDef{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.headers[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	p.loops[fn] = lf
	return lf
}
