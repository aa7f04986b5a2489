package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sp301415/tfhe-go"

// Prog is one type-checked, SSA-built variant of /repo.
type Prog struct {
	Variant string
	Tags    string
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	SPkgs   map[string]*ssa.Package // by short path ("tfhe", "math/vec", ...)
	TPkgs   map[string]*packages.Package
	Fset    *token.FileSet

	Funcs  []*ssa.Function // every source function/method (generic origins), no closures
	ByObj  map[*types.Func]*ssa.Function
	Decl   map[*types.Func]*ast.FuncDecl
	FileOf map[*types.Func]string
	ByName map[string]*ssa.Function // "tfhe.(*Evaluator).AddLWETo" or "math/vec.AddTo"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadProg loads all packages of the repository with the given build tags.
func loadProg(variant, tags string, extraEnv ...string) (*Prog, error) {
	return loadProgWith(variant, tags, nil, extraEnv...)
}

// loadErr carries the positions of the errors in the program.
type loadErr struct {
	msg string
	pos []string
}

func (e *loadErr) Error() string { return e.msg }

// loadProgWith loads them with additional files (path to content).
func loadProgWith(variant, tags string, overlay map[string][]byte, extraEnv ...string) (*Prog, error) {
	flags := []string{"-mod=mod", "-buildvcs=false"}
	if tags != "" {
		flags = append(flags, "-tags="+tags)
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=")
	env = append(env, extraEnv...)
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        repoDir(),
		BuildFlags: flags,
		Env:        env,
		Tests:      false,
		Overlay:    overlay,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Variant: variant, Tags: tags, SPkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{},
		ByObj: map[*types.Func]*ssa.Function{}, Decl: map[*types.Func]*ast.FuncDecl{}, FileOf: map[*types.Func]string{}, ByName: map[string]*ssa.Function{}}
	var bad *loadErr
	for _, pk := range ps {
		for _, e := range pk.Errors {
			if bad == nil {
				bad = &loadErr{msg: fmt.Sprintf("%s: %v", pk.PkgPath, e)}
			}
			bad.pos = append(bad.pos, e.Pos)
		}
	}
	if bad != nil {
		return nil, bad
	}
	for _, pk := range ps {
		if pk.IllTyped {
			return nil, fmt.Errorf("%s: ill-typed", pk.PkgPath)
		}
		if !strings.HasPrefix(pk.PkgPath, modPath+"/") {
			continue
		}
		p.Pkgs = append(p.Pkgs, pk)
	}
	if len(p.Pkgs) < 7 {
		return nil, fmt.Errorf("only %d packages loaded, expected at least 7", len(p.Pkgs))
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	prog, spk := ssautil.Packages(p.Pkgs, 0)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, sp := range spk {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		short := strings.TrimPrefix(p.Pkgs[i].PkgPath, modPath+"/")
		p.SPkgs[short] = sp
		p.TPkgs[short] = p.Pkgs[i]
	}
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			fname := filepath.Base(pk.Fset.Position(f.Pos()).Filename)
			if strings.HasSuffix(fname, "_test.go") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := prog.FuncValue(obj)
				if fn == nil {
					continue
				}
				p.ByObj[obj] = fn
				p.Decl[obj] = fd
				p.FileOf[obj] = fname
				p.Funcs = append(p.Funcs, fn)
				p.ByName[fnName(fn)] = fn
			}
		}
	}
	if len(p.Funcs) < 500 {
		return nil, fmt.Errorf("only %d functions found", len(p.Funcs))
	}
	return p, nil
}

func shortPkg(pkg *types.Package) string {
	if pkg == nil {
		return ""
	}
	return strings.TrimPrefix(pkg.Path(), modPath+"/")
}

func inModule(fn *ssa.Function) bool {
	fn = origin(fn)
	return fn != nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
}

// origin maps an instance of a generic function to the generic function.
func origin(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// recvNamed returns the receiver's named type, or nil.
func recvNamed(fn *ssa.Function) *types.Named {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	return namedOf(r.Type())
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + fn.Name()
	}
	fn = origin(fn)
	pk := ""
	if fn.Pkg != nil {
		pk = shortPkg(fn.Pkg.Pkg)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = shortPkg(fn.Object().Pkg())
	}
	if n := recvNamed(fn); n != nil {
		star := ""
		if _, ok := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer); ok {
			star = "*"
		}
		return fmt.Sprintf("%s.(%s%s).%s", pk, star, n.Obj().Name(), fn.Name())
	}
	return pk + "." + fn.Name()
}

// posStr renders a position relative to the repository.
func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(repoDir(), ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return in.Parent().Pos()
}

func (p *Prog) docOf(fn *ssa.Function) string {
	obj, _ := fn.Object().(*types.Func)
	if obj == nil {
		return ""
	}
	if d := p.Decl[obj]; d != nil && d.Doc != nil {
		return d.Doc.Text()
	}
	return ""
}

func exported(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported()
}
