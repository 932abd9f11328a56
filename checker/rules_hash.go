package main

// C34 (hashing)

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashing follows reads from one input into a digest
type hashing struct {
	c     *Ctx
	input func(t *Term) bool // the input that is to be hashed
}

func hashedLen(h *Term) *Term {
	for h.K == KIface {
		h = h.A[0]
	}
	return U.mk(Term{K: KApp, Name: "hashedlen", A: []*Term{h}, T: types.NewPointer(tInt64)})
}

var tInt64 = types.Typ[types.Int64]

func termIn(s string) *Term {
	id, err := strconv.Atoi(s)
	if err != nil {
		return nil
	}
	return termByID(id)
}

// source: what a reader reads from
func (h *hashing) source(t *Term) *Term {
	for t != nil {
		switch {
		case t.K == KIface:
			t = t.A[0]
		case t.K == KApp && (strings.HasPrefix(t.Name, "bufio.NewReader") || strings.HasPrefix(t.Name, "bufio.NewReaderSize")):
			t = t.A[0]
		default:
			return t
		}
	}
	return t
}

// pending: bytes read that have not been hashed
func (h *hashing) pending(st *State) bool {
	n := termIn(st.get("~n"))
	return st.get("pending") != "" && !(n != nil && st.leq(n, mkInt(0, n.T)))
}

func (h *hashing) settle(x *Exec, st *State, in ssa.Instruction) {
	if h.pending(st) {
		h.c.viol("unhashed", in, st, "bytes that were read may not be hashed")
	}
	st.set("pending", "")
	if st.get("rerr") != "" {
		h.c.viol("read error ignored", in, st, "reading goes on after a read error")
	}
}

// add n bytes to what the digest has seen
func (h *hashing) add(x *Exec, st *State, in ssa.Instruction, d, n *Term) {
	g := hashedLen(d)
	if o := termIn(st.get("digest")); o != nil && o != g.A[0] {
		if old := st.mem[hashedLen(o)]; old != nil && !st.eqInt(old, mkInt(0, old.T)) {
			h.c.viol("unhashed", in, st, "the input is spread over several digests")
		}
	}
	st.set("summed", "")
	st.set("sizeok", "")
	st.set("digest", fmt.Sprint(g.A[0].ID))
	old := st.mem[g]
	if old == nil {
		old = mkInt(0, tInt64)
	}
	st.mem[g] = x.arith(st, tokADD, old, n, tInt64)
}

func (h *hashing) hooks() *Hooks {
	c := h.c
	digest := func(x *Exec, st *State, t *Term) bool { return x.hasAttr(st, t, "digest") }
	return &Hooks{
		Keep: func(st *State) []*Term {
			var ks []*Term
			for _, k := range []string{"~n", "digest", "whole", "pending"} {
				if t := termIn(st.get(k)); t != nil {
					ks = append(ks, t)
					if k == "digest" {
						ks = append(ks, hashedLen(t))
					}
				}
			}
			return ks
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case (ci.Name == "io.Copy" || ci.Name == "io.CopyBuffer") && digest(x, st, ci.Args[0]):
				h.settle(x, st, ci.Instr)
				c.met("read", ci.Instr)
				c.met("hashed", ci.Instr)
				if !h.input(h.source(ci.Args[1])) {
					c.viol("other input", ci.Instr, st, "something else than the input is hashed: %s", ci.Args[1])
				}
				outs := x.extern(st, ci)
				for i := range outs {
					o := &outs[i]
					h.add(x, o.St, ci.Instr, ci.Args[0], o.Ret[0])
					if failed(o) {
						o.St.set("rerr", "1")
					} else {
						o.St.set("eof", "1")
					}
				}
				return outs, true
			case ci.Name == "os.ReadFile" || ci.Name == "io.ReadAll" || ci.Name == "io/ioutil.ReadAll" || ci.Name == "io/ioutil.ReadFile":
				c.met("read", ci.Instr)
				if !h.input(h.source(ci.Args[0])) {
					c.viol("other input", ci.Instr, st, "something else than the input is read: %s", ci.Args[0])
				}
				outs := x.extern(st, ci)
				for i := range outs {
					o := &outs[i]
					if failed(o) {
						o.St.set("rerr", "1")
					} else {
						o.St.set("eof", "1")
						o.St.set("whole", fmt.Sprint(o.Ret[0].ID))
						o.St.set("pending", "1")
						o.St.set("~n", "")
					}
				}
				return outs, true
			case isReadCall(ci.Name) && (h.input(h.source(ci.Args[0])) || h.reads(x, st, ci)):
				h.settle(x, st, ci.Instr)
				c.met("read", ci.Instr)
				if st.get("eof") != "" {
					c.viol("reads on", ci.Instr, st, "reading goes on after the end of the input")
				}
				bi := len(ci.Args) - 1
				for i, a := range ci.Args {
					if isSliceT(a.T) {
						bi = i
					}
				}
				outs := x.extern(st, ci)
				for i := range outs {
					o := &outs[i]
					st := o.St
					st.set("pending", fmt.Sprint(ci.Args[bi].ID))
					st.set("~n", fmt.Sprint(o.Ret[0].ID))
					if e := o.Ret[len(o.Ret)-1]; st.nilness(e) == 2 {
						if isEOF(e) {
							st.set("eof", "1")
						} else {
							st.set("rerr", "1")
						}
					} else if st.nilness(e) == 0 {
						c.viol("read error ignored", ci.Instr, st, "outcome of a read not understood")
					}
				}
				return outs, true
			case (ci.Name == "(hash.Hash).Write" || ci.Name == "(io.Writer).Write") && digest(x, st, ci.Args[0]):
				c.met("hashed", ci.Instr)
				h.add(x, st, ci.Instr, ci.Args[0], mkLen(ci.Args[1]))
				p, n := termIn(st.get("pending")), termIn(st.get("~n"))
				s := ci.Args[1]
				switch {
				case st.get("whole") != "" && s == termIn(st.get("whole")):
					st.set("pending", "")
				case p == nil || n == nil:
					c.viol("hashed twice", ci.Instr, st, "bytes are hashed that were not read just before: %s", s)
				case !sliceOf(st, s, p, n):
					c.viol("unhashed", ci.Instr, st, "the bytes hashed are not those that were read: %s", s)
				}
				st.set("pending", "")
			case ci.Name == "(hash.Hash).Sum" && digest(x, st, ci.Args[0]):
				if n, ok := mkLen(ci.Args[1]).isConstInt(); ci.Args[1].K != KNil && !(ok && n == 0) {
					c.viol("other value", ci.Instr, st, "the digest is appended to other bytes: %s", ci.Args[1])
				}
				st.set("summed", "")
				if d := termIn(st.get("digest")); d == hashedLen(ci.Args[0]).A[0] {
					st.set("summed", "1")
				}
			case ci.Name == "(hash.Hash).Reset":
				if len(st.locks()) >= 0 && st.mem[hashedLen(ci.Args[0])] != nil {
					c.viol("unhashed", ci.Instr, st, "bytes already hashed are forgotten")
				}
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			if len(rets) == 1 && digest(x, st, rets[0]) && st.get("digest") == "" {
				g := hashedLen(rets[0])
				if ci.Name != "crypto/sha1.New" {
					c.viol("other value", ci.Instr, st, "the hash is not SHA-1: %s", ci.Name)
				}
				st.set("digest", fmt.Sprint(g.A[0].ID))
				st.mem[g] = mkInt(0, tInt64)
			}
		},
		Edge: func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) {
			if st.get("pending") != "" && !h.pending(st) {
				st.set("pending", "") // nothing was read
			}
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K == KAddrF && val != nil && isInt(val.T) {
				if e := ptrElem(addr.A[0].T); namedOf(e) == c.P.Named("common", "ChunkReader") && structOf(e).Field(addr.F).Name() == "Size" {
					n := mkInt(0, tInt64)
					if d := termIn(st.get("digest")); d != nil && st.mem[hashedLen(d)] != nil {
						n = st.mem[hashedLen(d)]
					}
					st.set("sizeok", "")
					if st.eqInt(stripInt(val), n) || st.eqInt(val, n) {
						st.set("sizeok", "1")
					}
				}
			}
			if p := termIn(st.get("pending")); p != nil && addr.K == KAddrI && rootOf(addr) == rootOf(p) && st.get("pending") != "1" && h.reading(in) {
				c.viol("changed", in, st, "bytes that were read are changed before they are hashed")
			}
		},
	}
}

// reading: the store is not the read itself
func (h *hashing) reading(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return true
	}
	if f := call.Common().StaticCallee(); f != nil {
		return !isReadCall(f.RelString(nil))
	}
	return call.Common().Method == nil || call.Common().Method.Name() != "Read"
}

func (h *hashing) reads(x *Exec, st *State, ci *CallInfo) bool {
	for _, a := range ci.Args {
		if h.input(h.source(a)) {
			return true
		}
	}
	return false
}

// sliceOf: s is p[:n]
func sliceOf(st *State, s, p, n *Term) bool {
	pb, plo := p, mkInt(0, tInt)
	if p.K == KSlice {
		pb, plo = p.A[0], p.A[1]
	}
	sb, slo := s, mkInt(0, tInt)
	if s.K == KSlice {
		sb, slo = s.A[0], s.A[1]
	}
	return pb == sb && st.eqInt(plo, slo) && st.eqInt(mkLen(s), n)
}

func isEOF(e *Term) bool {
	eof := false
	contains(e, func(t *Term) bool {
		if t.K == KGlobal && strings.HasSuffix(t.Name, "EOF") || strings.Contains(t.Name, "EOF") {
			eof = true
		}
		return false
	})
	return eof
}

func ruleC34(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	file := map[*Term]bool{}
	isFile := isString(fn.Params[0].Type())
	h := &hashing{c: c}
	h.input = func(t *Term) bool {
		if t == nil {
			return false
		}
		return file[t] || t == ra.arg(0)
	}
	c.run(fn, ra.hooks(), h.hooks(), &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if isFile && (ci.Name == "os.Open" || ci.Name == "os.OpenFile") {
				outs := x.extern(st, ci)
				for i := range outs {
					if !failed(&outs[i]) && ci.Args[0] == ra.arg(0) {
						file[outs[i].Ret[0]] = true
					}
				}
				return outs, true
			}
			if !isFile && strings.HasSuffix(ci.Name, "SectionReader).Seek") && ci.Args[0] == ra.arg(0) && st.get("pending")+st.get("eof") == "" && st.get("rerr") == "" {
				if o, ok := ci.Args[1].isConstInt(); ok && o != 0 {
					c.viol("unhashed", ci.Instr, st, "hashing does not start at the beginning")
				}
			}
			return nil, false
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			in := fn.Blocks[0].Instrs[0]
			bad := st.get("rerr") != ""
			if e := rets[len(rets)-1]; isErrorT(e.T) {
				if st.nilness(e) == 2 {
					return
				}
			} else if e := fld(st, rets[0], "Err"); e != nil && st.nilness(e) == 2 {
				c.met("error kept", in)
				return
			}
			c.met("hash returned", in)
			if bad {
				c.viol("read error ignored", in, st, "a hash is returned without an error after reading failed")
			}
			if st.get("eof") == "" {
				c.viol("incomplete", in, st, "a hash is returned before the end of the input was reached")
			}
			// the value
			v := rets[0]
			if b := fldAddr(v, "Hash"); b != nil {
				v = b
			}
			data := st.load(mkAddrF(v, 0))
			whole := termIn(st.get("whole"))
			for _, s := range x.sources(data) {
				ok := false
				contains(s, func(t *Term) bool {
					if t.K == KApp && t.Name == "hash.Sum" {
						ok = st.get("summed") != ""
						if whole != nil && !ok {
							contains(t.A[0], func(w *Term) bool { ok = ok || w == whole; return false })
							if ok {
								st.set("pending", "")
							}
						}
					}
					return false
				})
				if !ok {
					c.viol("other value", in, st, "what is returned is not the hash of what was read: %s", s)
				}
			}
			if h.pending(st) {
				c.viol("unhashed", in, st, "a hash is returned although bytes that were read may not be hashed")
			}
			if s := fld(st, rets[0], "Size"); s != nil {
				c.met("size reported", in)
				n := termIn(st.get("digest"))
				if n != nil {
					n = st.mem[hashedLen(n)]
				}
				if n == nil {
					n = mkInt(0, tInt64)
				}
				if st.get("sizeok") == "" && !st.eqInt(stripInt(s), n) && !st.eqInt(s, n) {
					c.viol("size", in, st, "the size reported is not the number of bytes hashed: %s, not %s", s, n)
				}
			}
		},
	})
}

func init() {
	register(&Rule{
		ID: "C34",
		Explain: "Typestate analysis of the hashing loops, with every read forked into data, data at the end, end of input and error: on every path the bytes of each read are written to the digest once, unchanged, before the next read or the end; " +
			"a hash is returned only after the end of the input; a read error is followed by no further read and is handed on; the reported size equals the sum of the lengths hashed.",
		Units: func(P *Program) []string {
			return []string{relName(P.Func("common", "HashFile")), relName(P.Func("common", "NewChunkReader"))}
		},
		Run: ruleC34, Min: map[string]int{"read": 2, "hashed": 2, "hash returned": 2, "size reported": 1, "error kept": 1},
	})
}
