package main

// C33 (bitmaps)

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type bitFields struct{ words, size, wordBits int }

func (c *Ctx) bitFields() bitFields {
	b := bitFields{-1, -1, 0}
	s := structOf(c.P.bitsetType())
	for i := 0; i < s.NumFields(); i++ {
		switch {
		case isSliceT(s.Field(i).Type()):
			b.words = i
			if n, _, ok := intBits(elemType(s.Field(i).Type())); ok {
				b.wordBits = int(n)
			}
		case isInt(s.Field(i).Type()):
			b.size = i
		}
	}
	if b.words < 0 || b.size < 0 || b.wordBits == 0 {
		panic("Bitset does not keep a slice of words and a size")
	}
	return b
}

// bitOf decides expressions over one word w and the mask m of one bit
type bitOf struct {
	st   *State
	x    *Term // the bit's index
	bits int
	word func(t *Term) bool // the word the bit is in
}

func constOf(t *Term) (*big.Int, bool) {
	if t.K != KConst || t.C == nil || t.C.Kind() != constant.Int {
		return nil, false
	}
	v, ok := new(big.Int).SetString(t.C.ExactString(), 10)
	return v, ok
}

func stripInt(t *Term) *Term {
	for t.K == KConv && isInt(t.T) && isInt(t.A[0].T) && sizes.Sizeof(t.T) >= sizes.Sizeof(t.A[0].T) {
		t = t.A[0]
	}
	return t
}

func (b *bitOf) shift() int64 {
	n := int64(0)
	for 1<<uint(n) < b.bits {
		n++
	}
	return n
}

// index: t is x / word size
func (b *bitOf) index(t *Term) bool {
	t = stripInt(t)
	if t.K != KBin || stripInt(t.A[0]) != stripInt(b.x) {
		return false
	}
	k, ok := constOf(t.A[1])
	switch {
	case !ok:
		return false
	case t.Op == token.QUO:
		return k.Int64() == int64(b.bits)
	case t.Op == token.SHR:
		return k.Int64() == b.shift()
	}
	return false
}

// place: t is x % word size
func (b *bitOf) place(t *Term) bool {
	for t.K == KConv && isInt(t.T) && isInt(t.A[0].T) {
		t = t.A[0] // below the word size, fits every type
	}
	if t.K != KBin {
		return false
	}
	k, ok := constOf(t.A[1])
	switch {
	case !ok:
	case t.Op == token.REM && stripInt(t.A[0]) == stripInt(b.x):
		return k.Int64() == int64(b.bits)
	case t.Op == token.AND && stripInt(t.A[0]) == stripInt(b.x):
		return k.Int64() == int64(b.bits-1)
	case t.Op == token.SUB: // x - (x / 64) * 64
	}
	return false
}

// table of a bitwise expression: values for (w, m) = 00, 10, 01, 11
type bitTable [4]bool

func (b *bitOf) table(t *Term) (bitTable, bool) {
	t = stripInt(t)
	if b.word(t) {
		return bitTable{false, true, false, true}, true
	}
	if k, ok := constOf(t); ok {
		if k.Sign() == 0 {
			return bitTable{}, true
		}
		all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b.bits)), big.NewInt(1))
		if k.Cmp(all) == 0 || k.Cmp(big.NewInt(-1)) == 0 {
			return bitTable{true, true, true, true}, true
		}
		return bitTable{}, false
	}
	switch t.K {
	case KUn:
		if t.Op != token.XOR {
			return bitTable{}, false
		}
		a, ok := b.table(t.A[0])
		for i := range a {
			a[i] = !a[i]
		}
		return a, ok
	case KBin:
		if t.Op == token.SHL {
			if k, ok := constOf(t.A[0]); ok && k.Int64() == 1 && b.place(t.A[1]) {
				if n, _, ok := intBits(t.T); ok && int(n) == b.bits {
					return bitTable{false, false, true, true}, true
				}
			}
			return bitTable{}, false
		}
		p, ok1 := b.table(t.A[0])
		q, ok2 := b.table(t.A[1])
		if !ok1 || !ok2 {
			return bitTable{}, false
		}
		var r bitTable
		for i := range r {
			switch t.Op {
			case token.AND:
				r[i] = p[i] && q[i]
			case token.OR:
				r[i] = p[i] || q[i]
			case token.XOR:
				r[i] = p[i] != q[i]
			case token.AND_NOT:
				r[i] = p[i] && !q[i]
			default:
				return bitTable{}, false
			}
		}
		return r, true
	}
	return bitTable{}, false
}

// isSet: the condition says whether the bit is set; or that it is not
func (b *bitOf) isSet(t *Term) (yes, no bool) {
	if t.K == KUn && t.Op == token.NOT {
		no, yes = b.isSet(t.A[0])
		return
	}
	if t.K != KBin || len(t.A) != 2 || !isInt(t.A[0].T) {
		return false, false
	}
	eq := t.Op == token.EQL
	p, q := t.A[0], t.A[1]
	if k, ok := constOf(p); ok && k.Sign() >= 0 {
		p, q = q, p
		switch t.Op {
		case token.LSS: // 0 < e
			if k.Sign() == 0 {
				eq = false
				break
			}
			return false, false
		case token.EQL, token.NEQ:
		default:
			return false, false
		}
	} else {
		switch t.Op {
		case token.GTR: // e > 0
			if k, ok := constOf(q); !ok || k.Sign() != 0 {
				return false, false
			}
		case token.EQL, token.NEQ:
		default:
			return false, false
		}
	}
	k, isK := constOf(q)
	// (w >> place) & 1
	e := stripInt(p)
	if e.K == KBin && e.Op == token.AND {
		a, o := stripInt(e.A[0]), e.A[1]
		if v, ok := constOf(a); ok && v.Int64() == 1 {
			a, o = stripInt(e.A[1]), e.A[0]
		}
		if v, ok := constOf(o); ok && v.Int64() == 1 && a.K == KBin && a.Op == token.SHR && b.word(stripInt(a.A[0])) && b.place(a.A[1]) && isK {
			switch k.Int64() {
			case 0:
				return !eq, eq
			case 1:
				return eq, !eq
			}
			return false, false
		}
	}
	f, ok := b.table(p)
	if !ok {
		return false, false
	}
	g, ok := b.table(q)
	if !ok || f[0] != g[0] || f[1] != g[1] {
		return false, false // depends on other bits
	}
	// the mask has exactly one bit
	switch {
	case f[2] == g[2] && f[3] != g[3]: // equal exactly when the bit is clear
		return !eq, eq
	case f[2] != g[2] && f[3] == g[3]:
		return eq, !eq
	}
	return false, false
}

// known value of the bit
func (b *bitOf) known() (val, known bool) {
	for t, v := range b.st.truth {
		if yes, no := b.isSet(t); yes || no {
			return v == yes, true
		}
	}
	return false, false
}

func ruleC33(c *Ctx, u string) {
	fn := c.P.byRel(u)
	bf := c.bitFields()
	ra := &rootArgsOf{}
	set := c.P.bitsetType()
	m := fn.Name()
	recv := fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == set
	mutator := recv && (m == "Set" || m == "Unset" || m == "Fill")
	single := recv && (m == "Set" || m == "Unset" || m == "Get") && len(fn.Params) == 2 && isInt(fn.Params[1].Type())

	// operand an address lies in, or nil
	var operand func(x *Exec, st *State, t *Term, d int) *Term
	operand = func(x *Exec, st *State, t *Term, d int) *Term {
		if d > 8 {
			return nil
		}
		for _, o := range owner(x, t, 0) {
			if o.K == KApp && o.Name == "append" {
				if st.eqInt(mkCap(o.A[0]), mkInt(0, tInt)) || st.eqInt(mkLen(o.A[0]), mkCap(o.A[0])) {
					continue
				}
				if p := operand(x, st, o.A[0], d+1); p != nil {
					return p
				}
			}
			for i := range fn.Params {
				if o == ra.arg(i) {
					return o
				}
			}
		}
		return nil
	}
	// bigEnough: a bitmap made of the operands is as large as they are; what they have in common, as the smaller
	bigEnough := func(st *State, size *Term) bool {
		n, of := 0, 0
		for i, p := range fn.Params {
			if namedOf(ptrElem(p.Type())) == set {
				of++
				if st.leq(st.load(mkAddrF(ra.arg(i), bf.size)), size) {
					n++
				}
			}
		}
		return n == of || m == "Intersect" && n > 0
	}
	wordsAddr := func() *Term { return mkAddrF(ra.arg(0), bf.words) }
	bit := func(x *Exec, st *State) *bitOf {
		return &bitOf{st: st, x: ra.arg(1), bits: bf.wordBits, word: nil}
	}
	withWord := func(x *Exec, b *bitOf) *bitOf {
		b.word = func(t *Term) bool {
			return t.K == KLoad && t.A[0].K == KAddrI && b.index(t.A[0].A[1]) && (t.A[0].A[0] == b.st.load(wordsAddr()) || operand(x, b.st, t.A[0], 0) == ra.arg(0))
		}
		return b
	}
	c.run(fn, ra.hooks(), &Hooks{
		Enter: func(x *Exec, st *State, fr *Frame) {
			if fr.Caller == nil && !fr.Go && single && m == "Set" { // no memory holds more bits
				st.addFact(linOf(mkInt(1<<60, ra.arg(1).T)).sub(linOf(ra.arg(1))))
				size := st.load(mkAddrF(ra.arg(0), bf.size)) // never negative
				st.addFact(linOf(size))
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if f := ci.Callee; f != nil && f != fn && !single && c.bitQuery(f) {
				return []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}, true // a unit of its own
			}
			if ci.Name == "builtin:copy" {
				// a grown copy of the words
				dst, src := ci.Args[0], ci.Args[1]
				if dst.K == KMake && src == st.load(wordsAddr()) && st.leq(mkLen(src), mkLen(dst)) {
					st.set("grown", st.get("grown")+fmt.Sprintf("<%d>", dst.ID))
				}
			}
			return nil, false
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			op := operand(x, st, addr, 0)
			if mutator && addr.K == KAddrI && addr.A[0] == st.load(wordsAddr()) {
				op = ra.arg(0)
			}
			if op == nil {
				return
			}
			if _, isStruct := op.T.Underlying().(*types.Struct); isStruct {
				return
			}
			if val != nil && val.K == KApp && val.Name == "elems" && mutator && op == ra.arg(0) {
				return // seen when the result is stored
			}
			c.met("operand written", in)
			if !mutator || op != ra.arg(0) {
				c.viol("operand changed", in, st, "%s writes to the memory of its operand: %s", relName(fn), addr)
				return
			}
			switch {
			case addr.K == KAddrF && addr.A[0] == op && addr.F == bf.size:
				if !st.leq(st.load(addr), val) {
					c.viol("size", in, st, "the size of the bitmap may shrink: %s", val)
				}
			case addr.K == KAddrF && addr.A[0] == op && addr.F == bf.words:
				old := st.load(addr)
				ok := val == old
				if val.K == KApp && val.Name == "append" && val.A[0] == old {
					add := val.A[1]
					if add.K == KSlice {
						add = add.A[0]
					}
					ok = add.K == KMake || add.K == KNil || add.K == KZero || add.K == KAlloc && zeroArray(st, add)
				}
				if val.K == KMake && contained(st.get("grown"), val.ID) {
					ok = true
				}
				if !ok {
					c.viol("other bits", in, st, "the words of the bitmap are replaced by something else than themselves and further zeros: %s", val)
				}
			case addr.K == KAddrI && addr.A[0] == st.load(wordsAddr()):
				if m == "Fill" {
					return
				}
				if !single {
					c.viol("other bits", in, st, "a word of the bitmap is written")
					return
				}
				c.met("bit changed", in)
				b := withWord(x, bit(x, st))
				if !b.index(addr.A[1]) {
					c.viol("other bits", in, st, "the word written is not the one of the bit named: %s", addr.A[1])
					return
				}
				t, ok := b.table(val)
				want := bitTable{false, true, true, true}
				if m == "Unset" {
					want = bitTable{false, true, false, false}
				}
				if v, known := b.known(); known && ok { // this value of the bit only
					if v {
						t[2] = want[2]
					} else {
						t[3] = want[3]
					}
				}
				if !ok || t != want {
					c.viol("other bits", in, st, "%s does more or less than change the bit named: %s", m, val)
				}
				st.set("changed", "1")
			default:
				c.viol("other bits", in, st, "%s writes %s", m, addr)
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			for _, r := range rets {
				if namedOf(ptrElem(r.T)) == set || namedOf(r.T) == set {
					if mutator {
						continue
					}
					c.metAt("bitmap made", relName(fn))
					bad := func(o *Term) bool {
						for i := range fn.Params {
							if o == ra.arg(i) {
								return true
							}
						}
						return false
					}
					if size := st.load(mkAddrF(r, bf.size)); ptrElem(r.T) != nil && !bigEnough(st, size) {
						c.violAt("size", c.P.pos(fn.Pos()), relName(fn), st, "the size of the result may not include every bit it takes over: %s", size)
					}
					if b := sharedRefs(x, st, r, bad, map[*Term]bool{}); b != nil {
						c.violAt("operand shared", c.P.pos(fn.Pos()), relName(fn), st, "the result shares memory with an operand: %s", b)
					}
				}
			}
			if !single {
				return
			}
			b := withWord(x, bit(x, st))
			words := mkLen(st.load(wordsAddr()))
			w := mkInt(int64(bf.wordBits), b.x.T)
			beyond := b.beyond(st.load(wordsAddr())) || st.leq(words, x.arith(st, token.QUO, b.x, w, b.x.T)) ||
				st.leq(words, x.arith(st, token.SHR, b.x, mkInt(b.shift(), b.x.T), b.x.T))
			switch m {
			case "Set":
				c.metAt("bit changed", relName(fn))
				if v, known := b.known(); st.get("changed") == "" && !(known && v) {
					c.violAt("not changed", c.P.pos(fn.Pos()), relName(fn), st, "Set may return without setting the bit")
				}
				if size := st.load(mkAddrF(ra.arg(0), bf.size)); !st.leq(x.arith(st, token.ADD, x.convert(st, b.x, size.T), mkInt(1, size.T), size.T), size) {
					c.violAt("size", c.P.pos(fn.Pos()), relName(fn), st, "the size of the bitmap may not include the bit that was set: %s", size)
				}
			case "Unset":
				if v, known := b.known(); st.get("changed") == "" && !(known && !v) && !beyond {
					c.violAt("not changed", c.P.pos(fn.Pos()), relName(fn), st, "Unset may return without clearing the bit")
				}
			case "Get":
				c.metAt("bit read", relName(fn))
				r := rets[0]
				yes, _ := b.isSet(r)
				if v, known := st.eval(r); known {
					w, k := b.known()
					yes = k && v == w || !v && beyond
				}
				if !yes {
					c.violAt("misread", c.P.pos(fn.Pos()), relName(fn), st, "Get does not return the bit named: %s", r)
				}
			}
		},
	})
}

// bitUnits: the bitmap's exported methods and the list-making ones they use
func (P *Program) bitUnits() []*ssa.Function {
	us := P.exportedMethods(P.bitsetType())
	for _, fn := range P.all {
		if fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() || fn.Signature.Recv() == nil || fn.Synthetic != "" ||
			namedOf(fn.Signature.Recv().Type()) != P.bitsetType() || fn.Signature.Results().Len() != 1 {
			continue
		}
		if t := fn.Signature.Results().At(0).Type(); isSliceT(t) && isInt(elemType(t)) && !types.Identical(elemType(t), P.wordType()) {
			us = append(us, fn)
		}
	}
	return us
}

// bitQuery: one of the bitmap's methods other than those that change it
func (c *Ctx) bitQuery(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || namedOf(r.Type()) != c.P.bitsetType() || f.Name() == "Set" || f.Name() == "Unset" || f.Name() == "Fill" {
		return false
	}
	unit := false
	for _, u := range c.P.bitUnits() {
		unit = unit || u == f
	}
	if !unit {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if isSliceT(t) && types.Identical(elemType(t), c.P.wordType()) || ptrElem(t) != nil || len(moduleStructs(t, map[types.Type]bool{})) > 0 && hasMutexOrBits(c.P, t) {
			return false
		}
	}
	return true
}

func contained(list string, id int) bool {
	return len(list) > 0 && indexOf(list, fmt.Sprintf("<%d>", id)) >= 0
}

func indexOf(s, p string) int {
	for i := 0; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p {
			return i
		}
	}
	return -1
}

// zeroArray: the array has not been written to
func zeroArray(st *State, a *Term) bool {
	for t, v := range st.mem {
		if rootOf(t) == a && v != nil {
			if k, ok := constOf(v); v.K != KZero && !(ok && k.Sign() == 0) {
				return false
			}
		}
	}
	return true
}

// beyond: the facts say that the bit's word is beyond the end
func (b *bitOf) beyond(words *Term) bool {
	n := mkLen(words)
	for t, v := range b.st.truth {
		if t.K != KBin || len(t.A) != 2 || !isInt(t.A[0].T) {
			continue
		}
		p, q, op := t.A[0], t.A[1], t.Op
		if !v {
			switch op {
			case token.LSS:
				op, p, q = token.LEQ, q, p
			case token.LEQ:
				op, p, q = token.LSS, q, p
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				continue
			}
		}
		switch op {
		case token.GTR, token.GEQ:
			p, q = q, p
		case token.LSS, token.LEQ:
		default:
			continue
		}
		// p <= q
		if stripInt(p) == n && b.index(q) {
			return true
		}
	}
	return false
}

func init() {
	register(&Rule{
		ID: "C33",
		Explain: "Bit-level value analysis of the bitmap's operations: in Set and Unset every word written is word x/64, its new value is, as a Boolean function of the old word and the single-bit mask x%64, the old word with exactly that bit set or cleared, and no path leaves without it; " +
			"Get returns exactly that bit, or false only where the facts put x/64 beyond the words; words are only ever replaced by themselves followed by zeros and the size never decreases; every other operation writes nothing its operands can reach, returns no memory of theirs, and makes bitmaps of sufficient size.",
		Units: func(P *Program) []string {
			var us []string
			for _, f := range P.bitUnits() {
				us = append(us, relName(f))
			}
			return us
		},
		Run: ruleC33, Min: map[string]int{"bit changed": 2, "bit read": 1, "bitmap made": 3, "operand written": 3},
	})
}
