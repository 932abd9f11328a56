package main

// C44 (start of the daemon)

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var gLoaded = ghost("catalogue that was loaded", types.NewPointer(types.Typ[types.Int]))

func ruleC44(c *Ctx, u string) {
	fn := c.P.byRel(u)
	cat := c.P.Named("catalogue", "Cat")
	initFn := c.P.Method("catalogue", "Cat", "Init")
	newCat := c.P.Func("catalogue", "NewCat")
	if initFn == nil || newCat == nil {
		panic("NewCat or Cat.Init not found")
	}
	// catOf: the catalogues the fields of an object lead to
	var catOf func(st *State, p *Term, d int) []*Term
	catOf = func(st *State, p *Term, d int) []*Term {
		s := structOf(ptrElem(p.T))
		if s == nil || d > 2 {
			return nil
		}
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			if ptrElem(s.Field(i).Type()) == nil {
				continue
			}
			v := st.load(mkAddrF(p, i))
			if namedOf(ptrElem(v.T)) == cat {
				out = append(out, v)
			} else if n := namedOf(ptrElem(v.T)); n != nil && n.Obj().Pkg() != nil && isModulePath(n.Obj().Pkg().Path()) {
				out = append(out, catOf(st, v, d+1)...)
			}
		}
		return out
	}
	serves := func(x *Exec, st *State, in ssa.Instruction, what string, obj *Term) {
		c.met(what, in)
		loaded := st.mem[gLoaded]
		maybe := false
		for _, l := range x.sources(loaded) {
			maybe = maybe || l.K == KNil
		}
		if maybe {
			c.viol("not loaded", in, st, "%s although the catalogue may not have been loaded", what)
			return
		}
		if obj == nil {
			return
		}
		for _, v := range catOf(st, obj, 0) {
			if v != loaded && !(len(x.sources(v)) == 1 && x.sources(v)[0] == x.sources(loaded)[0]) {
				c.viol("not loaded", in, st, "%s with another catalogue than the one that was loaded: %s", what, v)
			}
		}
	}
	st := newState()
	st.mem[gLoaded] = mkNil(gLoaded.T)
	c.runWith(fn, nil, st, &Hooks{
		Keep: func(st *State) []*Term { return []*Term{st.mem[gLoaded]} },
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case ci.Name == "os.UserHomeDir" || ci.Name == "os/user.Current":
				return outside(x, st, ci, func(o *Outcome, ok bool) {
					if !ok {
						o.St.set("nowhere", "1")
					}
				}), true
			case ci.Callee != nil && ci.Callee == newCat:
				c.met("catalogue made", ci.Instr)
				if st.get("nowhere") != "" {
					c.viol("no home", ci.Instr, st, "the catalogue is looked for although the user's directory is not known")
				}
				return apart(x, st, ci, nil), true
			case ci.Callee != nil && ci.Callee == initFn:
				c.met("catalogue loaded", ci.Instr)
				return apart(x, st, ci, func(o *Outcome, ok bool) {
					if ok {
						o.St.mem[gLoaded] = ci.Args[0]
					} else {
						o.St.mem[gLoaded] = mkNil(gLoaded.T)
					}
				}), true
			case ci.Callee != nil && ci.Callee == c.P.handler():
				serves(x, st, ci.Instr, "messages handled", ci.Args[0])
				return apart(x, st, ci, nil), true
			case strings.HasPrefix(ci.Name, "(*net/rpc.Server).Register") || strings.HasPrefix(ci.Name, "net/rpc.Register"):
				for _, a := range ci.Args {
					if v := unface(a); ptrElem(v.T) != nil && structOf(ptrElem(v.T)) != nil && namedOf(ptrElem(v.T)).Obj().Pkg() != nil && isModulePath(namedOf(ptrElem(v.T)).Obj().Pkg().Path()) {
						serves(x, st, ci.Instr, "commands offered", v)
					}
				}
			case c.catCall(ci) != "":
				serves(x, st, ci.Instr, "catalogue used", nil)
				return apart(x, st, ci, nil), true
			}
			return nil, false
		},
	})
}

func init() {
	register(&Rule{
		ID: "C44",
		Explain: "Typestate analysis from main: messages are handled, commands offered and the catalogue used only on paths where Init has succeeded on the very catalogue they work with, " +
			"and the catalogue is looked for only where the user's directory is known; a goroutine inherits the state in which it is started.",
		Units: func(P *Program) []string { return []string{relName(P.mainFunc())} },
		Run:   ruleC44, Min: map[string]int{"catalogue made": 1, "catalogue loaded": 1, "messages handled": 1, "commands offered": 1},
	})
}
