package main

// Entry points of the program: what other processes and users can reach.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (P *Program) inMod(fn *ssa.Function) bool {
	for fn != nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn != nil && fn.Pkg != nil && fn.Synthetic == "" && isModulePath(fn.Pkg.Pkg.Path())
}

// mainFunc of the program
func (P *Program) mainFunc() *ssa.Function {
	for _, p := range P.ssaPkgs {
		if p.Pkg.Name() == "main" && p.Func("main") != nil {
			return p.Func("main")
		}
	}
	panic("no func main")
}

// service: the type registered with net/rpc and its callable methods
type rpcMethod struct {
	Name       string
	Fn         *ssa.Function
	Arg, Reply types.Type
}

type rpcService struct {
	Name    string
	T       types.Type
	Methods []rpcMethod
	Other   []string // exported methods net/rpc ignores
}

func (P *Program) rpcServices() []rpcService {
	var out []rpcService
	seen := map[string]bool{}
	for _, fn := range P.all {
		if !P.inMod(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				as := c.Common().Args
				name := ""
				switch cal.String() {
				case "(*net/rpc.Server).Register":
					as = as[1:]
				case "net/rpc.Register":
				case "(*net/rpc.Server).RegisterName", "net/rpc.RegisterName":
					if len(as) == 3 {
						as = as[1:]
					}
					k, ok := as[0].(*ssa.Const)
					if !ok {
						continue
					}
					name = strings.Trim(k.Value.ExactString(), `"`)
					as = as[1:]
				default:
					continue
				}
				mi, ok := as[0].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				t := mi.X.Type()
				n := namedOf(t)
				if name == "" && n != nil {
					name = n.Obj().Name()
				}
				if seen[name] {
					continue
				}
				seen[name] = true
				sv := rpcService{Name: name, T: t}
				ms := P.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					m := ms.At(i).Obj().(*types.Func)
					if !m.Exported() {
						continue
					}
					sig := m.Type().(*types.Signature)
					if !rpcCallable(sig) {
						sv.Other = append(sv.Other, m.Name())
						continue
					}
					f := P.prog.MethodValue(ms.At(i))
					sv.Methods = append(sv.Methods, rpcMethod{m.Name(), f, sig.Params().At(0).Type(), sig.Params().At(1).Type()})
				}
				out = append(out, sv)
			}
		}
	}
	return out
}

func rpcCallable(sig *types.Signature) bool {
	exp := func(t types.Type) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Pkg() == nil || ast.IsExported(n.Obj().Name())
		}
		return true
	}
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isErrorT(sig.Results().At(0).Type()) {
		return false
	}
	_, ptr := sig.Params().At(1).Type().(*types.Pointer)
	return ptr && exp(sig.Params().At(0).Type()) && exp(sig.Params().At(1).Type())
}

// rpcRoots: the methods the CLI can call in the daemon
func (P *Program) rpcRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, s := range P.rpcServices() {
		for _, m := range s.Methods {
			if m.Fn != nil {
				out = append(out, m.Fn)
			}
		}
	}
	return out
}

// handler of a peer's datagram
func (P *Program) handler() *ssa.Function {
	return P.Method("flu", "Server", "HandleMessage")
}

// daemonRoots: everything peers and the CLI can make the daemon do
func (P *Program) daemonRoots() []*ssa.Function {
	out := append([]*ssa.Function{P.handler()}, P.rpcRoots()...)
	if len(out) < 2 {
		panic("no RPC methods are registered")
	}
	return out
}

// catRoots: the public operations of the catalogue
func (P *Program) catRoots() []*ssa.Function {
	n := P.Named("catalogue", "Cat")
	if n == nil {
		panic("type catalogue.Cat not found")
	}
	return P.exportedMethods(n)
}

func names(fns []*ssa.Function) []string {
	var out []string
	for _, f := range fns {
		out = append(out, relName(f))
	}
	sort.Strings(out)
	return out
}

// printables: the methods that format answers for the user
func (P *Program) printables() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range P.moduleTypes() {
		for _, m := range P.exportedMethods(n) {
			if m.Name() == "Sprintf" || m.Name() == "String" || m.Name() == "Sprint" {
				out = append(out, m)
			}
		}
	}
	return out
}

func union(ls ...[]string) []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range ls {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

// structs a type is made of, declared in the module
func moduleStructs(t types.Type, seen map[types.Type]bool) []*types.Named {
	if seen[t] {
		return nil
	}
	seen[t] = true
	var out []*types.Named
	switch u := t.(type) {
	case *types.Named:
		if s, ok := u.Underlying().(*types.Struct); ok {
			if u.Obj().Pkg() != nil && isModulePath(u.Obj().Pkg().Path()) {
				out = append(out, u)
				for i := 0; i < s.NumFields(); i++ {
					out = append(out, moduleStructs(s.Field(i).Type(), seen)...)
				}
			}
			return out
		}
		return moduleStructs(u.Underlying(), seen)
	case *types.Pointer:
		return moduleStructs(u.Elem(), seen)
	case *types.Slice:
		return moduleStructs(u.Elem(), seen)
	case *types.Array:
		return moduleStructs(u.Elem(), seen)
	case *types.Map:
		return append(moduleStructs(u.Key(), seen), moduleStructs(u.Elem(), seen)...)
	}
	return out
}

var _ = fmt.Sprint
