package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mottla/go-AlgebraicProgram-SNARK"

var repoDir = "/repo"
var verifDir = "/verif"

// Program is the type-checked repository in SSA form.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // short name (pairing, utils, ...) -> package
	ppkgs map[string]*packages.Package
	libs  map[*ssa.Package]bool
	funcs []*ssa.Function // every source function (incl. methods and closures) of the repo packages
}

func loadProgram() (*Program, error) {
	tmp, err := os.MkdirTemp("", "verifload")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	for _, f := range []string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(repoDir, f)); err != nil {
			repl[filepath.Join(repoDir, f)] = filepath.Join(verifDir, "gomod", f)
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "GOFLAGS=-overlay="+ov, "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:   repoDir,
		Env:   env,
		Tests: false,
	}
	pk, err := packages.Load(cfg, append([]string{"./..."}, libraries...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{}, libs: map[*ssa.Package]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pk[i].PkgPath)
		}
		sp.Build()
		if !strings.HasPrefix(pk[i].PkgPath, modPath) {
			P.libs[sp] = true
			continue
		}
		short := strings.TrimPrefix(strings.TrimPrefix(pk[i].PkgPath, modPath), "/")
		P.pkgs[short] = sp
		P.ppkgs[short] = pk[i]
	}
	for _, want := range []string{"pairing", "utils", "circuitcompiler", "zkSNARK"} {
		if P.pkgs[want] == nil {
			return nil, fmt.Errorf("package %s not found", want)
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		P.funcs = append(P.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range P.pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" && fn.Pkg != nil && P.isRepoPkg(fn.Pkg) {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool { return P.funcs[i].String() < P.funcs[j].String() })
	return P, nil
}

// libraries are loaded from source: their generic functions are interpreted.
var libraries = []string{"slices", "maps", "cmp", "sort", "container/list", "container/heap"}

func (P *Program) isLibrary(p *ssa.Package) bool { return p != nil && P.libs[p] }

func (P *Program) isRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// pos renders a position relative to the repository.
func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// method returns the method `name` of named type typ (pointer receiver preferred).
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	sp := P.pkgs[pkg]
	if sp == nil {
		return nil
	}
	t, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		sel := P.prog.MethodSets.MethodSet(tt).Lookup(sp.Pkg, name)
		if sel != nil {
			fn := P.prog.MethodValue(sel)
			if fn != nil && fn.Synthetic == "" {
				return fn
			}
		}
	}
	return nil
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	if sp := P.pkgs[pkg]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

func (P *Program) global(pkg, name string) *ssa.Global {
	if sp := P.pkgs[pkg]; sp != nil {
		return sp.Var(name)
	}
	return nil
}

func (P *Program) typ(pkg, name string) types.Type {
	if sp := P.pkgs[pkg]; sp != nil {
		if t, ok := sp.Members[name].(*ssa.Type); ok {
			return t.Type()
		}
	}
	return nil
}
