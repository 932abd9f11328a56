package main

// C26 (received datagrams)

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// netRead: a call that receives from the network; the buffer it fills
func netRead(ci *CallInfo) *Term {
	n := ci.Name
	i := strings.LastIndex(n, ".")
	if i < 0 || !strings.HasPrefix(n[i+1:], "Read") {
		return nil
	}
	recv := strings.TrimLeft(n[:i], "(*")
	if ci.Method == nil && !strings.HasPrefix(recv, "net.") {
		return nil
	}
	if ci.Method != nil && (ci.Method.Pkg() == nil || ci.Method.Pkg().Path() != "net") {
		return nil
	}
	for _, a := range ci.Args {
		if e := sliceElemT(a.T); e != nil && isByteT(e) {
			return a
		}
	}
	return nil
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// cell: something followed about an object, forgotten with it
func cell(name string, obj *Term, t types.Type) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:" + name, A: []*Term{obj}, T: types.NewPointer(t)})
}

// touching calls f for every slice of bytes that can be reached from a value
func touching(st *State, v *Term, f func(s *Term)) {
	seen := map[*Term]bool{}
	var walk func(v *Term, d int)
	walk = func(v *Term, d int) {
		if v == nil || v.T == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		if e := sliceElemT(v.T); e != nil && isByteT(e) {
			f(v)
			return
		}
		switch v.K {
		case KIface, KClosure, KStruct, KTuple:
			for _, a := range v.A {
				walk(a, d+1)
			}
			return
		}
		if !hasRefs(v.T, 0) {
			return
		}
		r := rootOf(v)
		for a, w := range st.mem {
			if a.K != KApp && rootOf(a) == r {
				walk(w, d+1)
			}
		}
		if w := st.mem[v]; w != nil {
			walk(w, d+1)
		}
	}
	walk(v, 0)
}

// related: the two may be the same object, as far as joins tell
func related(x *Exec, a, b *Term) bool {
	roots := func(t *Term) map[*Term]bool {
		out := map[*Term]bool{}
		for _, s := range x.sources(t) {
			out[rootOf(s)] = true
		}
		return out
	}
	ra := roots(a)
	for s := range roots(b) {
		if ra[s] {
			return true
		}
	}
	return false
}

func ruleC26(c *Ctx, u string) {
	tBool := types.Typ[types.Bool]
	isObj := func(t *Term) bool { return t.K == KAlloc || t.K == KMake }
	bytesObj := func(t *Term) bool {
		if e := sliceElemT(t.T); e != nil {
			return isByteT(e)
		}
		if a, ok := isArray(ptrElem(t.T)); ok {
			return isByteT(a.Elem())
		}
		return false
	}
	site := func(obj *Term) string { return fmt.Sprint("handed from ", obj.Pos) }
	// bounds: where the slice lies in its object
	bounds := func(s *Term) (*Term, *Term, *Term) {
		if s.K == KSlice {
			return rootOf(s), s.A[1], s.A[2]
		}
		return s, mkInt(0, tInt), mkLen(s)
	}
	got := func(st *State, s *Term) (end *Term, ok bool) {
		r, _, _ := bounds(s)
		end = st.mem[cell("received", r, tInt)]
		return end, end != nil && !(end.K == KSym && end.Name == "none")
	}
	// handing on: what another goroutine gets
	hand := func(x *Exec, st *State, in ssa.Instruction, v *Term, cut bool) {
		touching(st, v, func(s *Term) {
			r, _, hi := bounds(s)
			if end, ok := got(st, s); ok {
				c.met("handed", in)
				if cut && !st.eqInt(hi, end) {
					c.viol("length", in, st, "what is handed on is not cut to the bytes received: %s, received up to %s", s, end)
				}
			}
			st.mem[cell("handed", r, tBool)] = mkBool(true)
			for a := range st.mem { // whatever may be the same buffer
				if a.K == KApp && a.Name == "ghost:handed" && a.A[0] != r && related(x, a.A[0], r) {
					st.mem[a] = mkBool(true)
				}
			}
			st.set(site(r), "1") // keeps the paths apart
			if !isObj(r) {
				st.set("handed opaque", "1")
			}
		})
	}
	h := &Hooks{
		Alloc: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, obj *Term) {
			if bytesObj(obj) {
				st.set(site(obj), "")
				st.mem[cell("handed", obj, tBool)] = mkBool(false)
				st.mem[cell("received", obj, tInt)] = mkSym("none", tInt)
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if b := netRead(ci); b != nil {
				c.met("read", ci.Instr)
				r := rootOf(b)
				bad := st.get("handed opaque") != ""
				if h := st.mem[cell("handed", r, tBool)]; h != nil {
					v, known := st.eval(h)
					bad = !known || v
				} else if isObj(r) || len(x.sources(r)) > 1 {
					bad = true
				}
				if bad {
					c.viol("reused", ci.Instr, st, "a datagram may be received into memory in which an earlier one is still being handled: %s", r)
				}
				return nil, false
			}
			if ci.IsGo {
				return nil, false
			}
			isParse := ci.Callee != nil && (ci.Callee == c.P.Func("flu/messages", "Parse") || ci.Callee == c.P.Func("flu/messages", "ParseAsDataPacket"))
			if ci.Callee == c.P.handler() && ci.Callee != nil || isParse {
				for _, a := range ci.Args {
					if e := sliceElemT(a.T); e == nil || !isByteT(e) {
						continue
					}
					if contains(a, func(s *Term) bool { return s.K == KApp && strings.HasPrefix(s.Name, "recv") }) {
						continue // checked where it was sent
					}
					c.met("handled", ci.Instr)
					_, _, hi := bounds(a)
					if end, ok := got(st, a); ok {
						if !st.eqInt(hi, end) {
							c.viol("length", ci.Instr, st, "what is handled is not cut to the bytes received: %s, received up to %s", a, end)
						}
						continue
					}
					last := st.mem[gReceived]
					if r := rootOf(a); !isObj(r) && r.K != KApp || last == nil || !st.eqInt(mkLen(a), last) {
						c.viol("length", ci.Instr, st, "what is handled is not shown to be the bytes received: %s", a)
					}
				}
				if ci.Callee == c.P.handler() {
					return apart(x, st, ci, nil), true
				}
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			b := netRead(ci)
			if b == nil || len(rets) == 0 || !isInt(rets[0].T) {
				return
			}
			r, lo, _ := bounds(b)
			st.mem[cell("received", r, tInt)] = x.arith(st, tokADD, lo, rets[0], tInt)
			st.mem[gReceived] = rets[0]
		},
		Go: func(x *Exec, st, child *State, ci *CallInfo) {
			for _, l := range [][]*Term{ci.Args, ci.Binds, {ci.FnVal}} {
				for _, v := range l {
					hand(x, st, ci.Instr, v, false)
					if v != nil && v.K == KAlloc { // a captured variable
						hand(x, st, ci.Instr, st.load(v), false)
					}
				}
			}
		},
		Merge: func(x *Exec, a, b, out *BState) {
			join := func(va, vb, vo *Term) {
				if va == nil || vb == nil || vo == nil || va == vo && vb == vo || sliceElemT(vo.T) == nil || !isByteT(sliceElemT(vo.T)) || rootOf(vo) != vo {
					return
				}
				ok := true
				for i, v := range []*Term{va, vb} {
					s := a.st
					if i == 1 {
						s = b.st
					}
					h := s.mem[cell("handed", rootOf(v), tBool)]
					if h == nil {
						if v.K != KNil {
							return
						}
						continue
					}
					t, known := s.eval(h)
					ok = ok && known && !t
				}
				out.st.mem[cell("handed", vo, tBool)] = mkBool(!ok)
			}
			for k, v := range out.env {
				join(a.env[k], b.env[k], v)
			}
			for k, v := range out.st.mem {
				join(a.st.mem[k], b.st.mem[k], v)
			}
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			hand(x, st, in, val, true)
		},
	}
	st := newState()
	st.mem[gReceived] = mkInt(-1, tInt)
	c.runWith(c.P.byRel(u), nil, st, c.cutCat(nil), h)
}

var gReceived = ghost("bytes received last", tInt)

func init() {
	register(&Rule{
		ID: "C26",
		Explain: "Ownership analysis of receive buffers: wherever the program receives from the network, the buffer is a new object or one no slice of which has been captured by a goroutine or sent on a channel since it was made; " +
			"what is captured, sent or decoded ends where the received bytes end.",
		Units: func(P *Program) []string {
			return []string{relName(P.mainFunc()), relName(P.Method("flu", "Server", "StartDownload"))}
		},
		Run: ruleC26, Min: map[string]int{"read": 3, "handled": 2},
	})
}
