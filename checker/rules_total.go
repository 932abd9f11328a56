package main

// Totality: no run-time panic (bounds, nil, division, conversion) and no deliberate exit.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// divisors: the integer struct fields the module divides by
func (P *Program) divisors() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, fn := range P.all {
		if !P.inMod(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.QUO && bo.Op != token.REM {
					continue
				}
				v := bo.Y
				for {
					if c, ok := v.(*ssa.Convert); ok {
						v = c.X
						continue
					}
					break
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if n := namedOf(ptrElem(fa.X.Type())); n != nil && !n.Obj().Exported() {
							out[structOf(n).Field(fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return out
}

// decoded: the struct types filled by encoding/json
func (P *Program) decoded() map[*types.TypeName]bool {
	out := map[*types.TypeName]bool{}
	for _, fn := range P.all {
		if !P.inMod(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				n := c.Common().StaticCallee().String()
				if n != "encoding/json.Unmarshal" && n != "(*encoding/json.Decoder).Decode" {
					continue
				}
				if mi, ok := c.Common().Args[1].(*ssa.MakeInterface); ok {
					for _, s := range moduleStructs(mi.X.Type(), map[types.Type]bool{}) {
						out[s.Obj()] = true
					}
				}
			}
		}
	}
	return out
}

// fieldVar: the struct field a cell or value is
func fieldVar(t *Term) (*types.Var, *types.Named) {
	for t.K == KConv {
		t = t.A[0]
	}
	if t.K == KLoad {
		t = t.A[0]
	}
	var st types.Type
	switch t.K {
	case KAddrF:
		st = ptrElem(t.A[0].T)
	case KFieldV:
		st = t.A[0].T
	default:
		return nil, nil
	}
	s := structOf(st)
	if s == nil || t.F >= s.NumFields() {
		return nil, nil
	}
	return s.Field(t.F), namedOf(st)
}

var runtimeKinds = map[string]string{
	"nil": "absent value dereferenced", "bounds": "index out of range", "slice": "slice bounds out of range",
	"div": "division by zero", "shift": "negative shift", "makelen": "negative length", "assert": "failed type assertion",
	"mapnil": "nil stored in a table of pointers",
}

type totalOpts struct {
	kinds map[string]bool // nil: all
	in    func(fn *ssa.Function) bool
}

// totality: every implicit run-time check on the paths from the entry point must be proved
func (c *Ctx) totality(rule string, o totalOpts) *Hooks {
	divs := c.P.divisors()
	dec := c.P.decoded()
	inv := inferInvariants(c.P, nil)
	for _, s := range inv.list() {
		c.fact("invariants", s)
	}
	h := &Hooks{
		Oblig: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, kind string, ok bool, msg string) {
			if o.kinds != nil && !o.kinds[kind] || x.quiet > 0 || in == nil {
				return
			}
			if !c.P.inMod(fr.Fn) || o.in != nil && !o.in(fr.Fn) {
				return
			}
			c.met(rule+" "+kind, in)
			if !ok {
				c.viol(rule+" "+kind, in, st, "%s: %s", runtimeKinds[kind], msg)
			}
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K == KAddrF && val.K == KLoad {
				if f, _ := fieldVar(addr); f != nil && divs[f] {
					st.addFact(linOf(val).addK(-1))
				}
			}
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			f, _ := fieldVar(addr)
			if f == nil || !divs[f] || x.quiet > 0 {
				return
			}
			c.met(rule+" divisor", in)
			if _, n := fieldVar(val); n != nil && dec[n.Obj()] {
				return // read back from the program's own index
			}
			if !st.entails(linOf(val).addK(-1)) {
				c.viol(rule+" divisor", in, st, "%s, which the program divides by, may be stored as zero", f.Name())
			}
		},
	}
	return compose(inv.hooks(), h)
}

// noExit: no explicit panic or process exit
func (c *Ctx) noExit(rule string) *Hooks {
	return &Hooks{
		Panic: func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
			if x.quiet == 0 {
				c.viol(rule, in, st, "a panic is reachable")
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			c.R.Counts["call sites examined"]++
			if x.quiet == 0 {
				c.R.Sites[rule+" at "+c.P.posOf(ci.Instr)]++
			}
			if exits(ci.Name) {
				if x.quiet == 0 {
					c.viol(rule, ci.Instr, st, "%s is reachable", ci.Name)
				}
				return nil, true
			}
			return nil, false
		},
	}
}

func exits(n string) bool {
	switch n {
	case "os.Exit", "syscall.Exit", "runtime.Goexit":
		return true
	}
	return strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") ||
		strings.HasPrefix(n, "(*log.Logger).Fatal") || strings.HasPrefix(n, "(*log.Logger).Panic")
}

func init() {
	register(&Rule{
		ID: "C04",
		Explain: "Abstract interpretation from every entry point peers and the CLI have (HandleMessage, each method registered with net/rpc), following calls, " +
			"interface dispatch and started goroutines: no path reaches an explicit panic, os.Exit, runtime.Goexit or log.Fatal*/Panic*.",
		Units: func(P *Program) []string { return names(P.daemonRoots()) },
		Run:   func(c *Ctx, u string) { c.run(c.P.byRel(u), c.noExit("no exit")) },
		Min:   map[string]int{"no exit": 60},
	})
	register(&Rule{
		ID: "C05",
		Explain: "Abstract interpretation with linear arithmetic from every entry point of the daemon and every formatting method: each index, slice expression, " +
			"division, shift, make length, dereference and single-value type assertion met on any path is an obligation that must be entailed by the facts of that path.",
		Units: func(P *Program) []string { return union(names(P.daemonRoots()), names(P.printables())) },
		Run:   func(c *Ctx, u string) { c.run(c.P.byRel(u), c.totality("total", totalOpts{})) },
		Min:   map[string]int{"total bounds": 20, "total nil": 40, "total div": 2, "total slice": 10},
	})
	register(&Rule{
		ID: "C29",
		Explain: "Abstract interpretation of the command-line client with an argument list of unknown length and contents: each index into it (and any other " +
			"implicit run-time check) must be entailed by the checks made before, and no panic is reachable except for a daemon that cannot be dialled.",
		Units: func(P *Program) []string {
			return []string{relName(P.Method("cli", "Client", "Run")), relName(P.mainFunc())}
		},
		Run: func(c *Ctx, u string) {
			fn := c.P.byRel(u)
			h := c.totality("arguments", totalOpts{in: func(f *ssa.Function) bool {
				return fn.Name() != "main" || f == fn // the daemon is C05's
			}})
			if fn.Name() != "main" {
				h = compose(h, &Hooks{Panic: func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
					if x.quiet > 0 {
						return
					}
					p, ok := in.(*ssa.Panic)
					if ok {
						v := x.val(fr, fr.cur, p.X)
						if contains(v, func(t *Term) bool { return strings.Contains(t.Name, "net/rpc.Dial") }) {
							return
						}
					}
					c.viol("arguments panic", in, st, "a panic is reachable from the command line")
				}})
			}
			c.run(fn, h)
		},
		Min: map[string]int{"arguments bounds": 3},
	})
	register(&Rule{
		ID: "C28",
		Explain: "Abstract interpretation of the command-line client collects every call of the RPC client with its constant method name and the dynamic types of its " +
			"arguments; these are compared with the method set of the type registered with net/rpc under that package's own rules, both ways.",
		Units: func(P *Program) []string { return []string{relName(P.Method("cli", "Client", "Run"))} },
		Run:   runC28,
		Min:   map[string]int{"rpc call": 1, "rpc method": 1},
	})
}

func runC28(c *Ctx, u string) {
	svs := c.P.rpcServices()
	if len(svs) == 0 {
		c.violAt("rpc service", "", "", nil, "no service is registered with net/rpc")
		return
	}
	byName := map[string]rpcMethod{}
	for _, s := range svs {
		for _, m := range s.Methods {
			byName[s.Name+"."+m.Name] = m
		}
	}
	called := map[string]bool{}
	fn := c.P.byRel(u)
	c.run(fn, &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Name != "(*net/rpc.Client).Call" && ci.Name != "(*net/rpc.Client).Go" || x.quiet > 0 {
			return nil, false
		}
		c.met("rpc call", ci.Instr)
		name, ok := ci.Args[1].constStr()
		if !ok {
			c.viol("rpc call", ci.Instr, st, "the method name is not a constant: %s", ci.Args[1])
			return nil, false
		}
		called[name] = true
		m, ok := byName[name]
		if !ok {
			c.viol("rpc call", ci.Instr, st, "no registered method is called %q", name)
			return nil, false
		}
		dyn := func(t *Term) types.Type {
			if t.K == KIface {
				return t.A[0].T
			}
			return nil
		}
		strip := func(t types.Type) types.Type {
			if p, ok := t.(*types.Pointer); ok {
				return p.Elem()
			}
			return t
		}
		at, rt := dyn(ci.Args[2]), dyn(ci.Args[3])
		if at == nil || !types.Identical(strip(at), strip(m.Arg)) {
			c.viol("rpc call", ci.Instr, st, "%s takes %v, the CLI sends %v", name, m.Arg, at)
		}
		if rt == nil || !types.Identical(rt, m.Reply) {
			c.viol("rpc call", ci.Instr, st, "%s fills %v, the CLI passes %v", name, m.Reply, rt)
		}
		return nil, false
	}})
	for n, m := range byName {
		c.metAt("rpc method", n)
		if !called[n] {
			c.violAt("rpc method", c.P.pos(m.Fn.Pos()), relName(m.Fn), nil, "no CLI command calls %s", n)
		}
		for _, t := range []types.Type{m.Arg, m.Reply} {
			for _, s := range moduleStructs(t, map[types.Type]bool{}) {
				st := s.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if !st.Field(i).Exported() {
						c.violAt("rpc field", c.P.pos(st.Field(i).Pos()), "", nil, "field %s.%s is not exported, so it is lost on the way between CLI and daemon", s.Obj().Name(), st.Field(i).Name())
					}
				}
			}
		}
	}
	for _, s := range svs {
		for _, o := range s.Other {
			c.violAt("rpc method", "", s.Name, nil, "exported method %s cannot be called through net/rpc", o)
		}
	}
}

var _ = fmt.Sprint
