package main

// Type invariants: linear relations between an integer field and the length of a slice field of the
// same struct, guessed from templates and kept only if every exported function of the package that
// declares the type re-establishes them (Houdini style: drop what fails, repeat).

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type inv struct {
	T    *types.Named
	I, S int   // integer and slice field (S < 0: only the integer)
	K    int64 // K*len(S) - I >= 0, or I >= 0
}

func (v inv) String() string {
	st := v.T.Underlying().(*types.Struct)
	if v.S < 0 {
		return fmt.Sprintf("%s.%s >= %d", v.T.Obj().Name(), st.Field(v.I).Name(), v.K)
	}
	return fmt.Sprintf("%s.%s <= %d*len(%s)", v.T.Obj().Name(), st.Field(v.I).Name(), v.K, st.Field(v.S).Name())
}

// lin over the field values of one object
func (v inv) lin(get func(f int) *Term) *Lin {
	i := linOf(get(v.I))
	if v.S < 0 {
		return i.addK(-v.K)
	}
	return linOf(mkLen(get(v.S))).scale(big.NewInt(v.K)).sub(i)
}

type invSet struct{ byType map[*types.TypeName][]inv }

func (s *invSet) of(t types.Type) []inv {
	if s == nil {
		return nil
	}
	n := namedOf(t)
	if n == nil {
		return nil
	}
	return s.byType[n.Obj()]
}

func (s *invSet) list() []string {
	var out []string
	for _, vs := range s.byType {
		for _, v := range vs {
			out = append(out, v.String())
		}
	}
	sort.Strings(out)
	return out
}

// assume adds the invariants of the object at address p when its fields are unknown
func (s *invSet) assume(st *State, p *Term) {
	t := ptrElem(p.T)
	if t == nil {
		return
	}
	for _, v := range s.of(t) {
		get := func(f int) *Term { return st.load(mkAddrF(p, f)) }
		if get(v.I).K != KLoad || v.S >= 0 && get(v.S).K != KLoad {
			continue
		}
		st.addFact(v.lin(get))
	}
}

func (s *invSet) hooks() *Hooks {
	return &Hooks{Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.K == KAddrF && val.K == KLoad {
			s.assume(st, addr.A[0])
		}
	}}
}

// inferInvariants for the exported struct types with an unexported integer and slice field
func inferInvariants(P *Program, minOne []*types.Var) *invSet {
	s := &invSet{byType: map[*types.TypeName][]inv{}}
	pkgs := map[*types.Package]bool{}
	for _, n := range P.moduleTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		plain := true // plain data: nothing but numbers and slices of them
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			plain = plain && (isInt(t) || isSliceT(t) && isInt(elemType(t)))
		}
		for i := 0; plain && i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Exported() || !isInt(f.Type()) {
				continue
			}
			for k := 0; k < st.NumFields(); k++ {
				if g := st.Field(k); !g.Exported() && isSliceT(g.Type()) {
					for _, c := range []int64{1, 8, 64} {
						s.byType[n.Obj()] = append(s.byType[n.Obj()], inv{n, i, k, c})
					}
					s.byType[n.Obj()] = append(s.byType[n.Obj()], inv{n, i, -1, 0})
					pkgs[n.Obj().Pkg()] = true
				}
			}
		}
	}
	if len(pkgs) == 0 {
		return s
	}
	for round := 0; round < 8; round++ {
		failed := map[inv]bool{}
		for _, fn := range P.all {
			if fn.Parent() != nil || fn.Pkg == nil || !pkgs[fn.Pkg.Pkg] || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			check := func(st *State, t *Term) {
				for p := range objectsIn(st, t) {
					s.assume(st, p) // untouched objects
					for _, v := range s.of(ptrElem(p.T)) {
						get := func(f int) *Term { return st.load(mkAddrF(p, f)) }
						if !st.entails(v.lin(get)) {
							failed[v] = true
							if os.Getenv("INV") != "" {
								fmt.Fprintln(os.Stderr, "drop", v, relName(fn), get(v.I), get(v.S))
							}
						}
					}
				}
			}
			x := newExec(P, s.hooks())
			st := newState()
			args := x.rootArgs(fn, st)
			for _, o := range x.Run(fn, args, nil, st, nil, nil) {
				for _, t := range append(append([]*Term{}, args...), o.Ret...) {
					check(o.St, t)
				}
			}
		}
		if len(failed) == 0 {
			break
		}
		for k, vs := range s.byType {
			var keep []inv
			for _, v := range vs {
				if !failed[v] {
					keep = append(keep, v)
				}
			}
			s.byType[k] = keep
		}
	}
	return s
}

// objectsIn: the structs a value points to or returns by pointer
func objectsIn(st *State, t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	if t == nil {
		return out
	}
	if t.K == KTuple {
		for _, a := range t.A {
			for k := range objectsIn(st, a) {
				out[k] = true
			}
		}
		return out
	}
	if e := ptrElem(t.T); e != nil && structOf(e) != nil && st.nilness(t) != 1 {
		out[t] = true
	}
	return out
}
