package main

// C01: every peer message decodes to what was encoded

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decoderOf: the function that turns bytes into messages of this kind
func (P *Program) decoderOf(n *types.Named) *ssa.Function {
	var general *ssa.Function
	for _, f := range P.decoders() {
		if f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() == 0 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		if p := ptrElem(t); p != nil && namedOf(p) == n {
			return f
		}
		if isIface(t) {
			general = f
		}
	}
	return general
}

// roundTrip compares what is decoded with what was encoded
type roundTrip struct {
	c    *Ctx
	l    *layout
	in   ssa.Instruction
	m    *Term
	n    *types.Named
	st   *State // before encoding
	long bool   // lists and names beyond the format's limits
}

// lists: the fields of variable length
func varFields(n *types.Named) []int {
	var out []int
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		if t := s.Field(i).Type(); isString(t) || isSliceT(t) && !isByte(elemType(t)) {
			out = append(out, i)
		}
	}
	return out
}

// the longest list of numbers and string of bytes that must survive
const maxNumbers, maxName = 254, 255

func ruleC01(c *Ctx, u string) {
	if u == "Split" {
		ruleSplit(c)
		return
	}
	name, long := u, false
	if i := strings.IndexByte(u, ' '); i > 0 {
		name, long = u[:i], true
	}
	for _, n := range c.P.messageTypes() {
		if n.Obj().Name() != name {
			continue
		}
		enc, dec := c.P.msgMethod(n, "Serialize"), c.P.decoderOf(n)
		if enc == nil || dec == nil {
			panic("no encoder or decoder for " + u)
		}
		st := newState()
		r := &roundTrip{c: c, l: &layout{}, in: firstInstr(enc), m: mkParam("m", types.NewPointer(n)), n: n, long: long}
		st.setNil(r.m, 2)
		s := structOf(n)
		for i := 0; i < s.NumFields(); i++ {
			f := st.load(mkAddrF(r.m, i))
			if ptrElem(f.T) != nil {
				st.setNil(f, 2)
			}
			if isSliceT(f.T) && structOf(elemType(f.T)) != nil { // counted in 16 bits
				st.addFact(linOf(mkLen(f)).scale(bigNeg).addK(65535))
			}
			if isSliceT(f.T) && isInt(elemType(f.T)) && !isByte(elemType(f.T)) {
				if long {
					st.addFact(linOf(mkLen(f)).addK(-maxNumbers - 1))
				} else {
					st.addFact(linOf(mkLen(f)).scale(bigNeg).addK(maxNumbers))
				}
			}
		}
		r.l.elemFacts = r.assume
		r.st = st.clone()
		if composed(c, r.l, enc, dec, []*Term{r.m}, st, nil, r.check) == 0 {
			c.viol("refused", r.in, st, "messages of this kind are not encoded")
		}
		return
	}
	panic("no message type " + u)
}

// assume: names are short, or long; what is referred to exists
func (r *roundTrip) assume(st *State, a *Term) {
	s := structOf(ptrElem(a.T))
	for f := 0; s != nil && f < s.NumFields(); f++ {
		switch v := r.st.load(mkAddrF(a, f)); { // before encoding
		case isString(v.T) && r.long:
			st.addFact(linOf(mkLen(v)).addK(-maxName - 1))
		case isString(v.T):
			st.addFact(linOf(mkLen(v)).scale(bigNeg).addK(maxName))
		case ptrElem(v.T) != nil:
			st.setNil(v, 2)
		}
	}
}

func (r *roundTrip) check(x *Exec, o *Outcome) {
	c := r.c
	if failed(o) {
		c.viol("refused", r.in, o.St, "a message may be refused when it is decoded")
		return
	}
	got := o.Ret[0]
	if dynNamed(o.St, got) != r.n && namedOf(ptrElem(got.T)) != r.n {
		c.viol("kind", r.in, o.St, "a message is decoded as another kind: %s", got)
		return
	}
	if got.K == KIface {
		got = got.A[0]
	}
	c.met("decoded", r.in)
	s := structOf(r.n)
	for i := 0; i < s.NumFields(); i++ {
		v, w := o.St.load(mkAddrF(got, i)), r.st.load(mkAddrF(r.m, i))
		if !r.same(o.St, v, w) {
			c.viol("field", r.in, o.St, "%s of a decoded %s is not what was encoded: %s", s.Field(i).Name(), r.n.Obj().Name(), v)
		}
	}
}

// same: the value decoded is the value encoded
func (r *roundTrip) same(st *State, v, w *Term) bool {
	if v == w {
		return true
	}
	t := w.T
	switch {
	case isInt(t):
		return stripSame(v) == stripSame(w) || st.eqInt(v, w)
	case ptrElem(t) != nil:
		return v.K != KNil && r.same(st, st.load(v), r.st.load(w))
	case isString(t), isBytes(t), isByteArray(t):
		return r.sameBytes(st, v, w)
	case isSliceT(t):
		n := mkLen(v)
		if !st.eqInt(n, mkLen(w)) && !(st.leq(n, mkLen(w)) && st.leq(mkInt(maxNumbers, tInt), n)) {
			return false
		}
		if structOf(elemType(t)) != nil {
			return st.eqInt(n, mkLen(w)) && r.l.sameFields(st, v, w, n)
		}
		return r.l.sameList(st, v, w, n)
	case structOf(t) != nil:
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if !r.same(st, mkField(v, i), mkField(w, i)) {
				return false
			}
		}
		return true
	}
	return false
}

func isByteArray(t types.Type) bool {
	at, ok := isArray(t)
	return ok && isByte(at.Elem())
}

// sameBytes: all bytes of a string, slice or array
func (r *roundTrip) sameBytes(st *State, v, w *Term) bool {
	var n, cw *Term
	if at, ok := isArray(w.T); ok {
		n, v, cw = mkInt(at.Len(), tInt), unarr(v), unarr(w)
	} else {
		n, cw = mkLen(w), r.st.content(w)
	}
	if v == cw {
		return true
	}
	if v.K == KArrLit { // an array of single bytes
		k, ok := n.isConstInt()
		if !ok || int64(len(v.A)) != k {
			return false
		}
		for i, b := range v.A {
			b = stripSame(b)
			if b.K != KApp || b.Name != "byteof" || unarr(b.A[0]) != cw || b.A[1] != mkInt(int64(i), tInt) {
				return false
			}
		}
		return true
	}
	sp := r.l.readBack(st, v)
	return sp != nil && sp.A[0] == cw && st.eqInt(sp.A[1], n)
}

// ruleSplit: the header of a transfer is read as C21 finds it written
func ruleSplit(c *Ctx) {
	fn := c.P.Method("flu/messages", "DataPacket", "Split")
	if fn == nil {
		panic("DataPacket.Split not found")
	}
	st := newState()
	m := mkParam("m", types.NewPointer(c.P.Named("flu/messages", "DataPacket")))
	st.setNil(m, 2)
	data := st.load(fldAddr(m, "Data"))
	in := firstInstr(fn)
	st.addFact(linOf(mkLen(data)).addK(-24))
	// what C21 finds in every opening packet: hash, size, data
	hash := mkParam("hash", types.Typ[types.String])
	size := mkParam("size", types.Typ[types.Uint32])
	l := &layout{wire: data, coded: mkParam("header", types.NewSlice(tByte))}
	st.mem[spanCell(l.coded, mkInt(0, tInt))] = mkApp("span", types.Typ[types.String], hash, mkInt(20, tInt))
	st.mem[segCell(l.coded, mkInt(20, tInt), 4, "be")] = size
	for _, o := range c.runWith(fn, []*Term{m}, st, l.hooks()) {
		if failed(&o) {
			c.viol("refused", in, o.St, "a transfer's first packet may be refused")
			continue
		}
		c.met("header", in)
		for _, v := range o.Ret {
			ok := true
			switch {
			case isInt(v.T):
				ok = o.St.eqInt(stripSame(v), size)
			case isBytes(v.T):
				ok = v.K == KSlice && v.A[0] == data && o.St.eqInt(v.A[1], mkInt(24, tInt)) && o.St.eqInt(v.A[2], mkLen(data))
			case namedOf(v.T) != nil || ptrElem(v.T) != nil && namedOf(ptrElem(v.T)) != nil:
				if isErrorT(v.T) {
					continue
				}
				if ptrElem(v.T) != nil {
					v = o.St.load(v)
				}
				sp := l.readBack(o.St, v)
				ok = sp != nil && sp.A[0] == hash
			}
			if !ok {
				c.viol("header", in, o.St, "the header of a transfer is not read as it was written: %s", v)
			}
		}
	}
}

func init() {
	register(&Rule{
		ID: "C01",
		Explain: "Composition, by abstract interpretation, of each encoder with the decoder of its kind: the decoder is run on the symbolic bytes the encoder makes (which byte holds which part of which field), for fields of every value " +
			"and lists and names of every length. It must accept them and return the same kind with every field equal to the field encoded; lists and names beyond the format's limits must come back as their beginning. " +
			"The header of a transfer is split at the positions where C21 finds it written. Rules: 'refused', 'kind', 'field', 'header'.",
		Units: func(P *Program) []string {
			out := []string{"Split"}
			for _, n := range P.messageTypes() {
				out = append(out, n.Obj().Name())
				if len(varFields(n)) > 0 {
					out = append(out, n.Obj().Name()+" long")
				}
			}
			return out
		},
		Run: ruleC01,
		Min: map[string]int{"decoded": 6, "header": 1},
	})
}
