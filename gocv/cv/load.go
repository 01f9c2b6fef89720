package cv

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Prog     *ssa.Program
	Pkgs     map[string]*ssa.Package // by package name (repository packages)
	Funcs    map[string]*ssa.Function
	Repo     string
	module   string
	onlyInit map[*ssa.Global]bool
	// emptySends: some function of the repository sends on a channel of struct{}
	emptySends bool
}

const modulePath = "github.com/luxfi/zmq/v4"

// Load loads the repository's packages and builds SSA.
func Load(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports,
		Dir:  repo,
		Env:  append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, Repo: repo, onlyInit: map[*ssa.Global]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		if !strings.HasPrefix(pkgs[i].PkgPath, modulePath) {
			continue
		}
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !p.InRepo(fn) || fn.Synthetic != "" {
			continue
		}
		p.Funcs[FuncKey(fn)] = fn
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Send:
					p.emptySends = p.emptySends || IsEmptyStruct(y.X.Type())
				case *ssa.Select:
					for _, cs := range y.States {
						p.emptySends = p.emptySends || cs.Dir == types.SendOnly && IsEmptyStruct(cs.Send.Type())
					}
				}
			}
		}
	}
	p.scanGlobals()
	return p, nil
}

// InRepo reports whether fn belongs to the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath)
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return p.InRepo(fn.Origin())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
		}
	}
	return false
}

func qual(p *types.Package) string {
	if strings.HasPrefix(p.Path(), modulePath) {
		return p.Name()
	}
	return p.Path()
}

// TypeName is the canonical short name of a type.
func TypeName(t types.Type) string {
	return strings.ReplaceAll(strings.ReplaceAll(types.TypeString(types.Unalias(t), qual), "interface {}", "any"), "interface{}", "any")
}

// FuncKey is the contract key of a function: "pkg.Name", "pkg.(*T).Name" or "pkg.(T).Name".
func FuncKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return FuncKey(fn.Parent()) + "$" + fn.Name()[strings.LastIndex(fn.Name(), "$")+1:]
	}
	if r := fn.Signature.Recv(); r != nil {
		return "(" + TypeName(r.Type()) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return qual(fn.Pkg.Pkg) + "." + fn.Name()
	}
	return fn.String()
}

func (p *Program) scanGlobals() {
	stored := map[*ssa.Global]bool{}
	note := func(v ssa.Value) {
		for {
			switch y := v.(type) {
			case *ssa.Global:
				stored[y] = true
				return
			case *ssa.FieldAddr:
				v = y.X
				continue
			case *ssa.IndexAddr:
				v = y.X
				continue
			}
			return
		}
	}
	all := ssautil.AllFunctions(p.Prog)
	for fn := range all {
		isInit := fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if isInit && strings.HasPrefix(fn.Name(), "init") && fn.Synthetic != "" {
					continue
				}
				switch y := in.(type) {
				case *ssa.Store:
					note(y.Addr)
					if g, ok := y.Val.(*ssa.Global); ok {
						stored[g] = true
					}
				case ssa.CallInstruction:
					for _, a := range y.Common().Args {
						note(a)
					}
				case *ssa.MakeInterface:
					note(y.X)
				case *ssa.Slice:
					note(y.X)
				}
			}
		}
	}
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !stored[g] {
				p.onlyInit[g] = true
			}
		}
	}
}

// Pos renders a source position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Prog.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// IsEmptyStruct reports whether t is struct{}.
func IsEmptyStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}
