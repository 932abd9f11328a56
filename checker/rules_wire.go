package main

// C02, C03: message kinds and decoders

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// messageTypes: the implementers of messages.Message, pointer types
func (P *Program) messageTypes() []*types.Named {
	n := P.Named("flu/messages", "Message")
	if n == nil {
		panic("type messages.Message not found")
	}
	var out []*types.Named
	for _, t := range P.implementers(n) {
		if m := namedOf(t); m != nil && m.Obj().Exported() {
			out = append(out, m)
		}
	}
	if len(out) == 0 {
		panic("messages.Message has no implementers")
	}
	return out
}

func (P *Program) msgMethod(n *types.Named, name string) *ssa.Function {
	return P.Method("flu/messages", n.Obj().Name(), name)
}

// decoders: exported functions that turn bytes from a peer or from disk into a value
func (P *Program) decoders() []*ssa.Function {
	var out []*ssa.Function
	for _, d := range [][2]string{{"flu/messages", "Parse"}, {"flu/messages", "ParseAsDataPacket"}, {"common/bitset", "Deserialize"}} {
		f := P.Func(d[0], d[1])
		if f == nil {
			panic("decoder " + d[1] + " not found")
		}
		out = append(out, f)
	}
	f := P.Method("flu/messages", "DataPacket", "Split")
	if f == nil {
		panic("decoder DataPacket.Split not found")
	}
	return append(out, f)
}

// dynNamed: the module type behind an interface or pointer value
func dynNamed(st *State, t *Term) *types.Named {
	if t == nil {
		return nil
	}
	if d := st.dynType(t); d != nil {
		return namedOf(d)
	}
	if t.K == KIface {
		return namedOf(t.DT)
	}
	if e := ptrElem(t.T); e != nil {
		return namedOf(e)
	}
	return nil
}

// counted: the loop tests, once per round, a counter that moves by a constant towards a bound that does
// not move, or steps through a map, string or slice
func counted(fi *fnInfo, l *Loop) bool {
	in := func(v ssa.Value) bool { // computed inside the loop
		i, ok := v.(ssa.Instruction)
		return ok && l.blocks[i.Block()]
	}
	var steps func(v ssa.Value, phi *ssa.Phi, d int) (int, bool) // v = phi moved up (1), down (-1) or unchanged (0)
	steps = func(v ssa.Value, phi *ssa.Phi, d int) (int, bool) {
		if d > 8 {
			return 0, false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if v == phi {
				return 0, true
			}
			dir, set := 0, false
			for _, e := range v.Edges {
				s, ok := steps(e, phi, d+1)
				if !ok || set && s != dir {
					return 0, false
				}
				dir, set = s, true
			}
			return dir, set
		case *ssa.Convert:
			return steps(v.X, phi, d+1)
		case *ssa.BinOp:
			k, ok := v.Y.(*ssa.Const)
			x := v.X
			if !ok && v.Op == token.ADD {
				k, ok = v.X.(*ssa.Const)
				x = v.Y
			}
			if !ok || k.Value == nil {
				return 0, false
			}
			s, ok := steps(x, phi, d+1)
			if !ok {
				return 0, false
			}
			n := k.Int64()
			switch v.Op {
			case token.ADD:
			case token.SUB:
				n = -n
			case token.SHR, token.QUO:
				if n < 1 || v.Op == token.QUO && n < 2 {
					return 0, false
				}
				n = -1
			default:
				return 0, false
			}
			if n > 0 && s >= 0 {
				return 1, true
			}
			if n < 0 && s <= 0 {
				return -1, true
			}
			return s, n == 0
		}
		return 0, false
	}
	var base func(v ssa.Value) *ssa.Phi
	base = func(v ssa.Value) *ssa.Phi {
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == l.header {
				return v
			}
		case *ssa.Convert:
			return base(v.X)
		case *ssa.BinOp:
			if _, ok := v.Y.(*ssa.Const); ok {
				return base(v.X)
			}
			if _, ok := v.X.(*ssa.Const); ok {
				return base(v.Y)
			}
		}
		return nil
	}
	var fixed func(v ssa.Value, d int) bool
	fixed = func(v ssa.Value, d int) bool {
		if !in(v) {
			return true
		}
		if d > 4 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Convert:
			return fixed(v.X, d+1)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return fixed(v.Call.Args[0], d+1)
			}
		case *ssa.UnOp: // a field nobody assigns inside the loop
			if v.Op == token.MUL {
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					for b := range l.blocks {
						for _, i := range b.Instrs {
							if s, ok := i.(*ssa.Store); ok {
								if f2, ok := s.Addr.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
									return false
								}
							}
						}
					}
					return true
				}
			}
		case *ssa.BinOp:
			return fixed(v.X, d+1) && fixed(v.Y, d+1)
		}
		return false
	}
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		leaves := false
		for _, s := range b.Succs {
			if !l.blocks[s] {
				leaves = true
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !leaves {
			continue
		}
		every := true // every way round passes this test
		for _, p := range l.header.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				every = false
			}
		}
		if !every {
			continue
		}
		switch c := iff.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				return true
			}
		case *ssa.BinOp:
			for k := 0; k < 2; k++ {
				v, bound, op := c.X, c.Y, c.Op
				if k == 1 {
					v, bound = c.Y, c.X
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}[op]
				}
				phi := base(v)
				if phi == nil || !fixed(bound, 0) {
					continue
				}
				if !l.blocks[b.Succs[0]] { // leaves when true
					op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.NEQ: token.EQL, token.EQL: token.NEQ}[op]
				}
				dir, good := 0, true
				for i, e := range phi.Edges {
					if !l.blocks[phi.Block().Preds[i]] {
						continue
					}
					s, ok := steps(e, phi, 0)
					if !ok || s == 0 || dir != 0 && s != dir {
						good = false
					}
					dir = s
				}
				if !good || dir == 0 {
					continue
				}
				if dir > 0 && (op == token.LSS || op == token.LEQ) || dir < 0 && (op == token.GTR || op == token.GEQ) ||
					op == token.NEQ && isUnsigned(v.Type()) && dir < 0 {
					return true
				}
			}
		}
	}
	return false
}

// endlessLoops reports the loops of the analysed functions that are not counted
func (c *Ctx) endlessLoops(rule string) {
	var fns []*ssa.Function
	for f := range c.x.fns {
		if c.P.inMod(f) && hasBody(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return relName(fns[i]) < relName(fns[j]) })
	for _, f := range fns {
		fi := c.x.info(f)
		seen := map[*Loop]bool{}
		for _, b := range fi.rpo {
			for l := fi.loops[b]; l != nil; l = l.parent {
				if seen[l] {
					continue
				}
				seen[l] = true
				at := l.header.Instrs[0]
				for _, i := range l.header.Instrs {
					if i.Pos().IsValid() {
						at = i
						break
					}
				}
				c.met(rule, at)
				if !counted(fi, l) {
					c.viol(rule, at, nil, "a loop of the decoder is not bounded by a counter")
				}
			}
		}
	}
}

func isByteSliceElem(addr *Term) bool {
	e := ptrElem(addr.T)
	if e == nil {
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// madeUp flags paths that read bytes of a buffer nobody filled
func madeUp() *Hooks {
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Builtin == "copy" && len(ci.Args) == 2 {
				r := rootOf(ci.Args[0])
				if r.K == KMake && st.leq(mkLen(ci.Args[0]), mkLen(ci.Args[1])) {
					st.setAttr(r, "filled")
				}
			}
			return nil, false
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if s, ok := in.(*ssa.Store); ok && addr.K == KAddrI && isByteSliceElem(addr) {
				_ = s
				st.setAttr(rootOf(addr), "filled")
			}
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K != KAddrI || !isByteSliceElem(addr) {
				return
			}
			if r := rootOf(addr); r.K == KMake && !st.attr(r, "filled") {
				st.set("madeup", "y")
			}
		},
	}
}

func init() {
	register(&Rule{
		ID: "C03",
		Explain: "Abstract interpretation of every decoder (datagram, transfer packet, transfer header, stored bitmap) on input of unknown length and content: each index, " +
			"slice, conversion and allocation is an obligation entailed by the path's facts, no explicit panic is reachable, every loop is bounded by a counter that moves " +
			"towards a fixed limit, and no path that read from a buffer nobody filled ends without an error.",
		Units: func(P *Program) []string { return names(P.decoders()) },
		Run: func(c *Ctx, u string) {
			fn := c.P.byRel(u)
			h := c.totality("decode", totalOpts{})
			h = compose(h, madeUp(), &Hooks{
				Panic: func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
					if x.quiet == 0 {
						c.viol("decode panic", in, st, "a panic is reachable")
					}
				},
				Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
					if fr.Caller != nil || x.quiet > 0 || len(rets) == 0 || !isErrorT(rets[len(rets)-1].T) {
						return
					}
					c.metAt("decode result", relName(fn))
					if st.get("madeup") != "" && st.nilness(rets[len(rets)-1]) != 2 {
						c.violAt("decode result", c.P.pos(fn.Pos()), relName(fn), st, "bytes that were not in the input end up in a value returned without an error")
					}
				},
			})
			c.run(fn, h)
			c.endlessLoops("decode loop")
		},
		Min: map[string]int{"decode bounds": 8, "decode slice": 2, "decode result": 2, "decode loop": 2},
	})
	register(&Rule{
		ID: "C02",
		Explain: "For each message type the constant result of Type() and ResponseType() and the first byte Serialize stores on every path are computed by abstract interpretation " +
			"and compared; the types Parse returns, and the tag the path demands, are compared with them; and HandleMessage is analysed once per message type Parse can return, " +
			"looking for the effect that kind must reach (an answer of its response kind, a transfer's data, the upload's queue, the waiting request's channel).",
		Units: func(P *Program) []string {
			us := []string{"tags"}
			for _, m := range P.messageTypes() {
				us = append(us, m.Obj().Name())
			}
			return us
		},
		Run: runC02,
		Min: map[string]int{"tag": 7, "encoded tag": 7, "decoded tag": 6, "dispatch": 6, "response tag": 3},
	})
}

// tagOf a message type: the constant its Type method returns
func (P *Program) tagOf(n *types.Named) (int64, bool) {
	f := P.msgMethod(n, "Type")
	if f == nil {
		return 0, false
	}
	t := P.constResult(f)
	if t == nil {
		return 0, false
	}
	return t.isConstInt()
}

// answerTo: the type of message that answers a request
func (P *Program) answerTo(n *types.Named) *types.Named {
	name := n.Obj().Name()
	if name == "OpenConnectionRequest" {
		return P.Named("flu/messages", "DataPacket")
	}
	if strings.HasSuffix(name, "Request") {
		return P.Named("flu/messages", strings.TrimSuffix(name, "Request")+"Response")
	}
	return nil
}

func runC02(c *Ctx, u string) {
	P := c.P
	if u != "tags" {
		c.dispatch(P.Named("flu/messages", u))
		return
	}
	parse := P.Func("flu/messages", "Parse")
	if parse == nil {
		panic("messages.Parse not found")
	}
	byTag := map[int64]*types.Named{}
	tags := map[*types.Named]int64{}
	for _, n := range P.messageTypes() {
		f := P.msgMethod(n, "Type")
		tag, ok := P.tagOf(n)
		c.metAt("tag", relName(f))
		if !ok {
			c.violAt("tag", P.pos(f.Pos()), relName(f), nil, "Type does not return a constant")
			continue
		}
		if o := byTag[tag]; o != nil {
			c.violAt("tag", P.pos(f.Pos()), relName(f), nil, "%s and %s share the tag %d", n.Obj().Name(), o.Obj().Name(), tag)
		}
		byTag[tag] = n
		tags[n] = tag
	}
	for _, n := range P.messageTypes() {
		tag, known := tags[n]
		if !known {
			continue
		}
		// the first byte on the wire
		f := P.msgMethod(n, "Serialize")
		at := map[*Term][]*Term{}
		for _, o := range c.run(f, &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K == KAddrI && isByteSliceElem(addr) {
				at[addr] = append(at[addr], val)
			}
		}}) {
			c.metAt("encoded tag", relName(f))
			for _, v := range firstBytes(c.x, o.Ret[0], at, map[*Term]bool{}) {
				if k, ok := v.isConstInt(); !ok || k != tag {
					c.violAt("encoded tag", P.pos(f.Pos()), relName(f), o.St, "the first byte is %s, not the tag %d", v, tag)
				}
			}
		}
		// the answer it announces
		f = P.msgMethod(n, "ResponseType")
		want := P.answerTo(n)
		if f == nil {
			if want != nil {
				c.violAt("response tag", "", n.Obj().Name(), nil, "a request without ResponseType")
			}
			continue
		}
		c.metAt("response tag", relName(f))
		t := P.constResult(f)
		k, ok := int64(0), false
		if t != nil {
			k, ok = t.isConstInt()
		}
		if want == nil || !ok || byTag[k] != want {
			c.violAt("response tag", P.pos(f.Pos()), relName(f), nil, "announces responses of tag %d, which is not the tag of its response", k)
		}
	}
	// what Parse makes of a first byte
	got := map[*types.Named]bool{}
	st := newState()
	x := newExec(P, &Hooks{})
	c.x = x
	args := x.rootArgs(parse, st)
	for _, o := range c.runWith(parse, args, st) {
		if o.St.nilness(o.Ret[1]) == 2 {
			continue
		}
		n := dynNamed(o.St, o.Ret[0])
		if n == nil {
			c.violAt("decoded tag", P.pos(parse.Pos()), relName(parse), o.St, "a message of unknown type is returned")
			continue
		}
		got[n] = true
		c.metAt("decoded tag", n.Obj().Name())
		b := o.St.load(mkAddrI(args[0], mkInt(0, tInt)))
		tag := tags[n]
		if v, known := o.St.eval(mkCmp(token.EQL, b, mkInt(tag, b.T))); !known || !v {
			c.violAt("decoded tag", P.pos(parse.Pos()), relName(parse), o.St, "a %s is decoded from a datagram whose first byte need not be its tag %d", n.Obj().Name(), tag)
		}
	}
	// every kind has a decoder
	if f := P.Func("flu/messages", "ParseAsDataPacket"); f != nil {
		for _, o := range c.run(f) {
			if o.St.nilness(o.Ret[len(o.Ret)-1]) != 2 || !isErrorT(o.Ret[len(o.Ret)-1].T) {
				if n := dynNamed(o.St, o.Ret[0]); n != nil && n.Obj().Name() == "DataPacket" {
					got[n] = true
				}
			}
		}
	}
	for _, n := range P.messageTypes() {
		if !got[n] {
			c.violAt("decoded tag", P.pos(parse.Pos()), relName(parse), nil, "no decoder returns a %s", n.Obj().Name())
		}
	}
}

// firstBytes of a slice value: what was stored at its first element (at collects those stores)
func firstBytes(x *Exec, s *Term, at map[*Term][]*Term, seen map[*Term]bool) []*Term {
	var out []*Term
	for _, v := range x.sources(s) {
		if seen[v] {
			continue
		}
		seen[v] = true
		if v.K == KApp && v.Name == "append" && len(v.A) > 1 {
			empty := v.A[0].K == KNil
			if n, ok := mkLen(v.A[0]).isConstInt(); ok && n == 0 {
				empty = true
			}
			if empty {
				out = append(out, firstBytes(x, v.A[1], at, seen)...)
			} else {
				out = append(out, firstBytes(x, v.A[0], at, seen)...)
			}
			continue
		}
		f := firstOf(v)
		if vs := at[f]; len(vs) > 0 {
			out = append(out, vs...)
		} else {
			out = append(out, v)
		}
	}
	return out
}

// dispatch: HandleMessage on a message of one type
func (c *Ctx) dispatch(n *types.Named) {
	P := c.P
	h := P.handler()
	name := n.Obj().Name()
	if name == "DataPacket" { // never sent to the datagram port
		c.metAt("dispatch", name)
		return
	}
	reached := map[string]bool{}
	var msg *Term
	isMsg := func(st *State, t *Term) bool {
		return t != nil && (t == msg || t.K == KIface && t.A[0] == msg)
	}
	answer := P.answerTo(n)
	c.run(h, &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee != nil && ci.Callee == P.Func("flu/messages", "Parse") && ci.Frame != nil && ci.Frame.Fn == h {
				pt := types.NewPointer(n)
				if msg == nil {
					msg = mkParam("message", pt)
				}
				st.setNil(msg, 2)
				m := U.mk(Term{K: KIface, A: []*Term{msg}, T: ci.Results.At(0).Type(), DT: pt})
				return []Outcome{{st, []*Term{m, mkNil(ci.Results.At(1).Type())}}}, true
			}
			if ci.Callee != nil && answer != nil && ci.Callee == P.msgMethod(answer, "Serialize") {
				reached["answer"] = true
			}
			return nil, false
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if isMsg(st, val) {
				reached["waiter"] = true
			}
			if namedOf(val.T) == n { // a copy of the message
				reached["queue"] = true
			}
		},
		Panic: func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
			c.viol("dispatch", in, st, "a %s ends in a panic", name)
		},
	})
	c.metAt("dispatch", name)
	if msg == nil {
		c.violAt("dispatch", P.pos(h.Pos()), relName(h), nil, "the handler does not decode its datagrams")
		return
	}
	switch {
	case answer != nil:
		if !reached["answer"] {
			c.violAt("dispatch", P.pos(h.Pos()), relName(h), nil, "a %s is never answered with a %s", name, answer.Obj().Name())
		}
	case strings.HasSuffix(name, "Response"):
		if !reached["waiter"] {
			c.violAt("dispatch", P.pos(h.Pos()), relName(h), nil, "a %s never reaches a waiting request", name)
		}
	case strings.HasSuffix(name, "Ack"):
		if !reached["queue"] && !reached["waiter"] {
			c.violAt("dispatch", P.pos(h.Pos()), relName(h), nil, "a %s never reaches its upload", name)
		}
	}
}
