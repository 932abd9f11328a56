package main

// Loading the program under analysis.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir     string
	pkgs    []*packages.Package
	prog    *ssa.Program
	ssaPkgs map[string]*ssa.Package
	fset    *token.FileSet
	all     []*ssa.Function // every function of the module with a body
	stored  map[*ssa.Function]map[string]bool
	mut     map[string]bool
	maps    []string
	tags    map[string]types.Type
	impl    map[string][]types.Type
	chans   map[token.Pos]*chanUse
	byType  map[string][]*ssa.Function
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	P := &Program{dir: dir, pkgs: ps, prog: prog, ssaPkgs: map[string]*ssa.Package{}, fset: prog.Fset}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		P.ssaPkgs[ps[i].PkgPath] = p
	}
	for i := range ps {
		if ps[i].Module != nil && modulePath != ps[i].Module.Path {
			modulePath = ps[i].Module.Path
		}
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if hasBody(fn) {
			P.all = append(P.all, fn)
		}
	}
	sort.Slice(P.all, func(i, j int) bool {
		if P.all[i].String() != P.all[j].String() {
			return P.all[i].String() < P.all[j].String()
		}
		return P.all[i].Pos() < P.all[j].Pos()
	})
	return P, nil
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	ps := in.Pos()
	if !ps.IsValid() {
		// nearest instruction with a position
		if b := in.Block(); b != nil {
			idx := -1
			for i, o := range b.Instrs {
				if o == in {
					idx = i
				}
			}
			for d := 1; d < len(b.Instrs); d++ {
				if idx-d >= 0 && b.Instrs[idx-d].Pos().IsValid() {
					ps = b.Instrs[idx-d].Pos()
					break
				}
				if idx+d < len(b.Instrs) && b.Instrs[idx+d].Pos().IsValid() {
					ps = b.Instrs[idx+d].Pos()
					break
				}
			}
		}
		if !ps.IsValid() && in.Parent() != nil {
			ps = in.Parent().Pos()
		}
	}
	return p.pos(ps)
}

// Pkg returns a package of the module by its path below the module ("" is the root).
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ssaPkgs[modulePath]
	}
	return p.ssaPkgs[modulePath+"/"+rel]
}

// Func finds an exported function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) Named(pkg, name string) *types.Named {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// Method finds a method (pointer or value receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(types.NewPointer(n), name)
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// moduleTypes lists the named types of the module.
func (p *Program) moduleTypes() []*types.Named {
	var out []*types.Named
	var paths []string
	for k := range p.ssaPkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.ssaPkgs[k].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// implementers of an interface declared in the module (concrete module types, pointer types preferred)
func (p *Program) implementers(t types.Type) []types.Type {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !isModulePath(n.Obj().Pkg().Path()) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, m := range p.moduleTypes() {
		if _, isI := m.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(m, it) {
			out = append(out, m)
		} else if types.Implements(types.NewPointer(m), it) {
			out = append(out, types.NewPointer(m))
		}
	}
	return out
}

// funcsOfType: functions whose value is taken somewhere in the module
func (p *Program) funcsOfType(t types.Type) []*ssa.Function {
	if p.byType == nil {
		p.byType = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		add := func(fn *ssa.Function) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			k := types.TypeString(sigNoRecv(fn.Signature), nil)
			p.byType[k] = append(p.byType[k], fn)
		}
		for _, fn := range p.all {
			if fn.Pkg == nil && fn.Parent() == nil && fn.Synthetic == "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						direct := true
						for _, r := range *mc.Referrers() {
							if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
								continue
							}
							direct = false
						}
						if !direct {
							add(mc.Fn.(*ssa.Function))
						}
						continue
					}
					for k, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							if c, ok := in.(ssa.CallInstruction); ok && k == 0 && c.Common().Value == f {
								continue
							}
							add(f)
						}
					}
				}
			}
		}
	}
	return p.byType[types.TypeString(sigNoRecv(t.Underlying().(*types.Signature)), nil)]
}

func sigNoRecv(s *types.Signature) *types.Signature {
	var ps, rs []*types.Var
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.NewVar(0, nil, "", s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.NewVar(0, nil, "", s.Results().At(i).Type()))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), s.Variadic())
}

func hasMutex(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if isMutexT(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isMutexT(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// mutable: field classes of lock-guarded structures that change after construction
func (p *Program) mutable() map[string]bool {
	if p.mut != nil {
		return p.mut
	}
	// types reachable from structs with a mutex
	reach := map[string]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Pkg() == nil || !isModulePath(u.Obj().Pkg().Path()) {
				return
			}
			k := shortType(u)
			if reach[k] {
				return
			}
			reach[k] = true
			visit(u.Underlying())
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		}
	}
	for _, n := range p.moduleTypes() {
		if s, ok := n.Underlying().(*types.Struct); ok && hasMutex(s) {
			visit(n)
		}
	}
	p.mut = map[string]bool{}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				t := ptrElem(fa.X.Type())
				if t == nil || !reach[shortType(t)] {
					continue
				}
				p.mut["F:"+shortType(t)+"."+fieldName(t, fa.Field)] = true
			}
		}
	}
	return p.mut
}

func (p *Program) mapClasses() []string {
	if p.maps == nil {
		seen := map[string]bool{}
		p.maps = []string{}
		for _, fn := range p.all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok && v.Type() != nil {
						if _, ok := v.Type().Underlying().(*types.Map); ok {
							k := shortType(v.Type())
							if !seen[k] {
								seen[k] = true
								p.maps = append(p.maps, "M:"+k, "H:"+k)
							}
						}
					}
				}
			}
		}
	}
	return p.maps
}

// typeOfTag: the message type whose Type method returns the tag
func (p *Program) typeOfTag(tag string) types.Type {
	if p.tags == nil {
		p.tags = map[string]types.Type{}
		for _, n := range p.moduleTypes() {
			m := p.methodOf(types.NewPointer(n), "Type")
			if m == nil || !hasBody(m) || m.Signature.Results().Len() != 1 || !isInt(m.Signature.Results().At(0).Type()) {
				continue
			}
			c := p.constResult(m)
			if c == nil {
				continue
			}
			k := c.String()
			if _, dup := p.tags[k]; dup {
				p.tags[k] = nil
			} else {
				p.tags[k] = types.NewPointer(n)
			}
		}
	}
	return p.tags[tag]
}

// constResult: the constant a function always returns
func (p *Program) constResult(fn *ssa.Function) *Term {
	x := newExec(p, &Hooks{})
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, mkParam("p:"+q.Name(), q.Type()))
	}
	var c *Term
	for _, o := range x.Run(fn, args, nil, newState(), nil, nil) {
		if len(o.Ret) != 1 || o.Ret[0].K != KConst || c != nil && c != o.Ret[0] {
			return nil
		}
		c = o.Ret[0]
	}
	return c
}

func relName(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modulePath+"/", ""), modulePath, "main")
}
