package main

// Layouts: which bytes of a buffer hold what, and what a decoder makes of them

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tByte = types.Typ[types.Uint8]

// layout follows what is written to buffers of bytes, and answers reads of the bytes wire from what
// was written to coded.
//
// Cells kept:
//
//	ghost:seg:W:ORDER(base, lo)              the W bytes at lo (a number) of base hold this integer
//	ghost:span(base, lo)                     a copy of this content starts at lo (its length is that of span's A[1])
//	ghost:0:arr:W:ORDER(base, start, src)    this many elements of src follow one another from start
//	ghost:0:out(base, src)                   the first so many elements of base equal those of src
//	ghost:snap(r)                            what was appended to make r, as it was then
//	ghost:0:used(base), ghost:0:dirty(r)     base is part of something appended to; r was changed by somebody else
//	ghost:run:ITEM(base, start, src)         from start to its end base holds an item for each of so many elements of src
//	ghost:0:fld:F(base, src)                 field F of the first so many elements of base is that of src's
type layout struct {
	wire, coded *Term
	rs          *runs
	elemFacts   func(st *State, addr *Term) // what is assumed of every element
}

func isBytes(t types.Type) bool {
	if p := ptrElem(t); p != nil {
		if at, ok := isArray(p); ok {
			return isByte(at.Elem())
		}
		return false
	}
	return isSliceT(t) && isByte(elemType(t))
}

func segCell(base, lo *Term, w int64, order string) *Term {
	if w == 1 {
		order = "be"
	}
	return U.mk(Term{K: KApp, Name: fmt.Sprintf("ghost:seg:%d:%s", w, order), A: []*Term{base, lo}, T: types.NewPointer(tInt64)})
}

func spanCell(base, lo *Term) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:span", A: []*Term{base, lo}, T: types.NewPointer(types.Typ[types.String])})
}

func arrCell(base, start, src *Term, w int64, order string) *Term {
	return U.mk(Term{K: KApp, Name: fmt.Sprintf("ghost:0:arr:%d:%s", w, order), A: []*Term{base, start, src}, T: types.NewPointer(tInt)})
}

func outCell(base, src *Term) *Term {
	for base.K == KSlice && base.A[1].K == KConst && base.A[1] == mkInt(0, tInt) {
		base = base.A[0]
	}
	return U.mk(Term{K: KApp, Name: "ghost:0:out", A: []*Term{base, src}, T: types.NewPointer(tInt)})
}

func about2(a, base *Term) bool {
	return a.K == KApp && strings.HasPrefix(a.Name, "ghost:") && len(a.A) > 1 && a.A[0] == base
}

func width(name string) int64 {
	var w int64
	var rest string
	for _, p := range []string{"ghost:seg:", "ghost:0:arr:"} {
		if strings.HasPrefix(name, p) {
			fmt.Sscanf(name[len(p):], "%d:%s", &w, &rest)
		}
	}
	return w
}

func orderOf(name string) string {
	if strings.HasSuffix(name, "le") {
		return "le"
	}
	return "be"
}

// extent of what a cell says, if it is a segment or a span
func extent(st *State, a, v *Term) (lo, hi *Lin) {
	lo = linOf(a.A[1])
	if a.Name == "ghost:span" {
		return lo, lo.add(linOf(v.A[1]))
	}
	return lo, lo.addK(width(a.Name))
}

func (l *layout) forget(st *State, base *Term, lo, hi *Lin) {
	for _, a := range ghosts(st, base) {
		v := st.mem[a]
		if !isSegment(a) {
			continue
		}
		slo, shi := extent(st, a, v)
		if st.entails(lo.sub(shi)) || st.entails(slo.sub(hi)) {
			continue
		}
		delete(st.mem, a)
	}
}

func ghosts(st *State, base *Term) []*Term {
	var out []*Term
	for a := range st.mem {
		if about2(a, base) {
			if v := st.mem[a]; a.Name == "ghost:span" && !(v != nil && v.K == KApp && v.Name == "span") {
				continue // different things on different paths
			}
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// element: the value is the element of a slice
func element(v *Term) (src, idx *Term) {
	v = stripSame(v)
	if v.K == KLoad && v.A[0].K == KAddrI {
		return v.A[0].A[0], v.A[0].A[1]
	}
	return nil, nil
}

func (l *layout) store(x *Exec, st *State, in ssa.Instruction, addr, val *Term) {
	if addr.K == KAddrF && addr.A[0].K == KAddrI && val != nil {
		l.field(x, st, addr.A[0].A[0], addr.A[0].A[1], addr.F, val)
	}
	l.changed(st, addr)
	if addr.K != KAddrI {
		return
	}
	base, lo := addr.A[0], addr.A[1]
	if s := structOf(ptrElem(addr.T)); s != nil && val != nil && structOf(val.T) != nil {
		for f := 0; f < s.NumFields(); f++ {
			l.field(x, st, base, lo, f, mkField(val, f))
		}
		return
	} else if s != nil && !(val != nil && val.K == KApp && val.Name == "elems") {
		for _, a := range ghosts(st, base) {
			if strings.HasPrefix(a.Name, "ghost:0:fld:") && !st.leq(st.mem[a], lo) {
				delete(st.mem, a)
			}
		}
	}
	if !isBytes(base.T) {
		l.out(x, st, base, lo, val)
		return
	}
	if val != nil && val.K == KApp && val.Name == "elems" {
		return // what append itself writes
	}
	if marked(st, "used", base) || isAppend(base) {
		l.shared(st, base, lo)
	}
	for _, a := range ghosts(st, base) {
		if strings.HasPrefix(a.Name, "ghost:run:") && !st.lss(lo, a.A[1]) {
			delete(st.mem, a)
		}
	}
	var v *Term
	w, order := int64(1), "be"
	switch {
	case val.K == KApp && strings.HasPrefix(val.Name, "put"):
		order = val.Name[3:5]
		fmt.Sscanf(val.Name[5:], "%d", &w)
		v = val.A[0]
	case val.K == KApp && val.Name == "bytes" && len(val.A) == 2:
		n := linOf(val.A[1])
		l.forget(st, base, linOf(lo), linOf(lo).add(n))
		src := val.A[0]
		st.mem[spanCell(base, normIdx(lo))] = mkApp("span", types.Typ[types.String], st.content(src), val.A[1])
		for _, a := range ghosts(st, base) {
			if strings.HasPrefix(a.Name, "ghost:0:arr") {
				l.clash(st, a, linOf(lo), linOf(lo).add(n))
			}
		}
		return
	case isByte(val.T):
		v = val
	default:
		l.forget(st, base, linOf(lo), linOf(mkLen(base)))
		for _, a := range ghosts(st, base) {
			if strings.HasPrefix(a.Name, "ghost:0:arr") {
				delete(st.mem, a)
			}
		}
		return
	}
	end := linOf(lo).addK(w)
	l.forget(st, base, linOf(lo), end)
	if _, k := lo.isConstInt(); k {
		st.mem[segCell(base, normIdx(lo), w, order)] = v
	}
	src, idx := element(v)
	done := false
	for _, a := range ghosts(st, base) {
		if !strings.HasPrefix(a.Name, "ghost:0:arr") {
			continue
		}
		c := st.mem[a]
		if src != nil && a.A[2] == src && width(a.Name) == w && (w == 1 || orderOf(a.Name) == order) && st.eqInt(idx, c) &&
			st.eqInt(lo, linTerm(linOf(a.A[1]).add(linOf(c).scale(big.NewInt(w))))) {
			st.mem[a] = x.arith(st, token.ADD, c, mkInt(1, tInt), tInt)
			done = true
			continue
		}
		l.clash(st, a, linOf(lo), end)
	}
	if src != nil && !done && st.eqInt(idx, mkInt(0, tInt)) {
		st.mem[arrCell(base, normIdx(lo), src, w, order)] = mkInt(1, tInt)
	}
}

// shared: bytes are written to a buffer that was appended to, or is the result of appending
func (l *layout) shared(st *State, base, lo *Term) {
	if isAppend(base) {
		if _, k := lo.isConstInt(); !k {
			st.mem[markCell("dirty", base)] = mkInt(1, tInt)
		}
		return
	}
	// scratch buffers are read as they were when they were appended
	for a := range st.mem {
		if a.K == KApp && a.Name == "ghost:snap" && isAppend(a.A[0]) && appendedTo(a.A[0], base) {
			st.mem[markCell("dirty", a.A[0])] = mkInt(1, tInt)
		}
	}
}

// appendedTo: the base was appended to
func appendedTo(r, base *Term) bool {
	for isAppend(r) || r.K == KSlice {
		r = r.A[0]
	}
	return r == base
}

// clash: an array loses what is overwritten
func (l *layout) clash(st *State, a *Term, lo, hi *Lin) {
	start := linOf(a.A[1])
	end := start.add(linOf(st.mem[a]).scale(big.NewInt(width(a.Name))))
	if st.entails(lo.sub(end)) || st.entails(start.sub(hi)) {
		return
	}
	delete(st.mem, a)
}

// out: an element of a list is set
func (l *layout) out(x *Exec, st *State, base, idx, val *Term) {
	src, at, w := each(val)
	if src != nil && st.eqInt(at, linTerm(linOf(idx).scale(big.NewInt(w)))) {
		c := st.mem[outCell(base, src)]
		if c == nil {
			c = mkInt(0, tInt)
		}
		if st.eqInt(c, idx) {
			for _, a := range ghosts(st, base) {
				if a.Name == "ghost:0:out" && a.A[1] != src {
					delete(st.mem, a)
				}
			}
			st.mem[outCell(base, src)] = x.arith(st, token.ADD, c, mkInt(1, tInt), tInt)
			return
		}
	}
	for _, a := range ghosts(st, base) {
		if a.Name == "ghost:0:out" && !st.leq(st.mem[a], idx) {
			delete(st.mem, a)
		}
	}
}

// all: every element of the list equals that of src at the same place
func all(st *State, list, src *Term) bool {
	if list == nil {
		return false
	}
	n := mkLen(list)
	if st.eqInt(n, mkInt(0, tInt)) {
		return true
	}
	for list.K == KSlice && st.eqInt(list.A[1], mkInt(0, tInt)) {
		list = list.A[0]
	}
	v := st.mem[outCell(list, src)]
	return v != nil && st.leq(n, v)
}

// grown: elements are added to a list
func (l *layout) grown(x *Exec, st *State, list, more, r *Term) {
	if !isSliceT(list.T) || isByte(elemType(list.T)) || more.K != KSlice {
		return
	}
	k, ok := linOf(mkLen(more)).isConst()
	if !ok || k.Int64() > 8 {
		return
	}
	n := linOf(mkLen(list))
	if s := structOf(elemType(list.T)); s != nil && k.Int64() == 1 {
		for f := 0; f < s.NumFields(); f++ {
			if v := st.mem[oneCell(more.A[0], f)]; v != nil && st.eqInt(more.A[1], mkInt(0, tInt)) && v.K == KAddrI && isZero(st, linOf(v.A[1]).sub(n)) && allFields(st, list, v.A[0], f) {
				st.mem[fldCell(r, v.A[0], f)] = mkLen(r)
			}
		}
		return
	}
	var src *Term
	for i := int64(0); i < k.Int64(); i++ {
		s, at, w := each(st.load(mkAddrI(more.A[0], linTerm(linOf(more.A[1]).addK(i)))))
		if s == nil || src != nil && s != src || !isZero(st, linOf(at).sub(n.addK(i).scale(big.NewInt(w)))) {
			return
		}
		src = s
	}
	if src != nil && all(st, list, src) {
		st.mem[outCell(r, src)] = mkLen(r)
	}
}

// merge: a list that on both sides agrees with the same source does so afterwards
func (l *layout) merge(x *Exec, a, b, out *BState) {
	srcs := map[*Term]bool{}
	type field struct {
		src *Term
		f   int
	}
	flds := map[field]bool{}
	for _, bs := range []*BState{a, b} {
		for c := range bs.st.mem {
			if c.K == KApp && c.Name == "ghost:0:out" {
				srcs[c.A[1]] = true
			}
			if f := 0; c.K == KApp && strings.HasPrefix(c.Name, "ghost:0:fld:") {
				fmt.Sscanf(c.Name, "ghost:0:fld:%d", &f)
				flds[field{c.A[1], f}] = true
			}
		}
	}
	if len(srcs)+len(flds) == 0 {
		return
	}
	for v, t := range out.env {
		if t == nil || !isSliceT(t.T) || t.K == KNil {
			continue
		}
		p, q := a.env[v], b.env[v]
		if p == nil || q == nil || p == t && q == t {
			continue
		}
		for s := range srcs {
			if all(a.st, p, s) && all(b.st, q, s) && !all(out.st, t, s) {
				out.st.mem[outCell(t, s)] = mkLen(t)
			}
		}
		for s := range flds {
			if allFields(a.st, p, s.src, s.f) && allFields(b.st, q, s.src, s.f) && !allFields(out.st, t, s.src, s.f) {
				out.st.mem[fldCell(t, s.src, s.f)] = mkLen(t)
			}
		}
	}
}

// each: an element read back from a buffer: of which list, how many bytes after its first element, and
// how wide
func each(v *Term) (src, at *Term, w int64) {
	v = stripSame(v)
	if v.K == KApp && strings.HasPrefix(v.Name, "each:") {
		fmt.Sscanf(v.Name, "each:%d", &w)
		return v.A[0], v.A[1], w
	}
	if s, i := element(v); s != nil {
		return s, i, 1
	}
	return nil, nil, 0
}

// piece: byte k (0 the least significant) of an integer
func piece(v *Term, k int64) (*Term, int64) {
	for {
		switch {
		case v.K == KConv && isInt(v.A[0].T) && isInt(v.T):
			b1, _, _ := intBits(v.T)
			b2, _, _ := intBits(v.A[0].T)
			if k*8 < int64(b1) && k*8 < int64(b2) {
				v = v.A[0]
				continue
			}
		case v.K == KBin && v.Op == token.SHR:
			if n, ok := v.A[1].isConstInt(); ok && n%8 == 0 {
				v, k = v.A[0], k+n/8
				continue
			}
		case v.K == KApp && v.Name == "piece":
			if k == 0 {
				n, _ := v.A[1].isConstInt()
				v, k = v.A[0], n
				continue
			}
		}
		return v, k
	}
}

func mkPiece(v *Term, k int64) *Term {
	v, k = piece(v, k)
	if c, ok := v.isConstInt(); ok {
		return mkInt(c>>(8*uint(k))&255, tByte)
	}
	if k == 0 && isByte(v.T) {
		return v
	}
	if isString(v.T) {
		return mkApp("byteof", tByte, v, mkInt(k, tInt))
	}
	return mkApp("piece", tByte, v, mkInt(k, tInt))
}

// at: byte lo of what was encoded, or a wider integer there
func (l *layout) at(x *Exec, st *State, b *Term, lo *Lin, w int64, order string, t types.Type, d int) *Term {
	if d > 8 {
		return nil
	}
	if b.K == KSlice {
		return l.at(x, st, b.A[0], lo.add(linOf(b.A[1])), w, order, t, d+1)
	}
	if isString(b.T) && w == 1 {
		return mkApp("byteof", tByte, st.content(b), linTerm(lo))
	}
	if isAppend(b) {
		if marked(st, "dirty", b) {
			return nil
		}
		if !overlaps(st, bit{off: lo, w: w}, l.own(st, b, newLin(0))) {
			n := linOf(mkLen(b.A[0]))
			switch {
			case st.entails(n.sub(lo).addK(-w)):
				return l.at(x, st, b.A[0], lo, w, order, t, d+1)
			case st.entails(lo.sub(n)):
				return l.at(x, st, appended(st, b), lo.sub(n), w, order, t, d+1)
			}
		}
	}
	if p, rel := l.inRun(st, b, lo, lo.addK(w)); p != nil {
		el := mkAddrI(p.src, p.k)
		if l.elemFacts != nil {
			l.elemFacts(st, el)
		}
		v := l.at(x, st, p.it.buf, rel, w, order, t, d+1)
		if v == nil {
			return nil
		}
		return subst(v, p.it.elem, el)
	}
	gs := ghosts(st, b)
	for _, a := range gs {
		if strings.HasPrefix(a.Name, "ghost:0:arr") && width(a.Name) == w && (w == 1 || orderOf(a.Name) == order) {
			rel := lo.sub(linOf(a.A[1]))
			n := linOf(st.mem[a]).scale(big.NewInt(w))
			if st.entails(rel) && st.entails(n.sub(rel).addK(-w)) {
				return mkApp(fmt.Sprintf("each:%d", w), t, a.A[2], linTerm(rel))
			}
		}
	}
	for _, a := range gs { // exactly this
		if strings.HasPrefix(a.Name, "ghost:seg") && width(a.Name) == w && (w == 1 || orderOf(a.Name) == order) && isZero(st, lo.sub(linOf(a.A[1]))) {
			return l.typed(st, st.mem[a], t)
		}
	}
	if w == 1 {
		for _, a := range gs { // part of a number in a list
			if !strings.HasPrefix(a.Name, "ghost:0:arr") {
				continue
			}
			rel, W := lo.sub(linOf(a.A[1])), width(a.Name)
			k, ok := modulo(st, rel, W)
			if rel = rel.addK(-k); !ok || !st.entails(rel) || !st.entails(linOf(st.mem[a]).scale(big.NewInt(W)).sub(rel).addK(-W)) {
				continue
			}
			if orderOf(a.Name) == "be" {
				k = W - 1 - k
			}
			return mkPiece(mkApp(fmt.Sprintf("each:%d", W), elemType(a.A[2].T), a.A[2], linTerm(rel)), k)
		}
		for _, a := range gs { // part of something wider
			switch {
			case strings.HasPrefix(a.Name, "ghost:seg"):
				if k, ok := lo.sub(linOf(a.A[1])).isConst(); ok && k.Sign() >= 0 && k.Int64() < width(a.Name) {
					i := k.Int64()
					if orderOf(a.Name) == "be" {
						i = width(a.Name) - 1 - i
					}
					return mkPiece(st.mem[a], i)
				}
			case a.Name == "ghost:span":
				sp := st.mem[a]
				rel := lo.sub(linOf(a.A[1]))
				if st.entails(rel) && st.entails(linOf(sp.A[1]).sub(rel).addK(-1)) {
					return mkApp("byteof", tByte, sp.A[0], linTerm(rel))
				}
			}
		}
	} else if v := l.assemble(x, st, func(i int64) *Term { return l.at(x, st, b, lo.addK(i), 1, "be", tByte, d+1) }, w, order); v != nil {
		return l.typed(st, v, t)
	}
	if w == 1 {
		if k, ok := lo.isConst(); ok {
			if v := st.mem[mkAddrI(b, mkInt(k.Int64(), tInt))]; v != nil && v.K != KSym {
				return v
			}
		}
	}
	return nil
}

// modulo: the remainder, if it is known
func modulo(st *State, e *Lin, w int64) (int64, bool) {
	W := big.NewInt(w)
	for _, t := range e.atoms() {
		if new(big.Int).Mod(e.c[t], W).Sign() == 0 {
			continue
		}
		found := false
		for _, f := range st.facts { // an equation for it
			c := f.c[t]
			if c == nil || new(big.Int).Abs(c).Cmp(bigOne) != 0 {
				continue
			}
			r := e.sub(f.scale(new(big.Int).Mul(c, e.c[t])))
			rest := true
			for _, c := range r.c {
				rest = rest && new(big.Int).Mod(c, W).Sign() == 0
			}
			if rest && st.entails(f.scale(bigNeg)) {
				e, found = r, true
				break
			}
		}
		if !found {
			return 0, false
		}
	}
	return new(big.Int).Mod(e.k, W).Int64(), true
}

func isZero(st *State, e *Lin) bool {
	if k, ok := e.isConst(); ok {
		return k.Sign() == 0
	}
	return st.entails(e) && st.entails(e.scale(bigNeg))
}

// assemble: bytes that are those of one integer, in order
func (l *layout) assemble(x *Exec, st *State, at func(i int64) *Term, w int64, order string) *Term {
	var whole *Term
	for i := int64(0); i < w; i++ {
		b := at(i)
		if b == nil || isString(b.T) || b.K == KApp && b.Name == "byteof" {
			return nil
		}
		v, k := piece(b, 0)
		want := i
		if order == "be" {
			want = w - 1 - i
		}
		if k != want || whole != nil && v != whole {
			return nil
		}
		whole = v
	}
	if b, _, ok := intBits(whole.T); !ok || int64(b) > 8*w && !l.fits(st, whole, w) {
		return nil
	}
	return whole
}

// rejoined: an integer put together again from all its bytes, each shifted to its place
func rejoined(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	parts := map[int64]*Term{}
	var split func(t *Term) bool
	split = func(t *Term) bool {
		if t.K == KBin && t.Op == op && op != token.ADD {
			return split(t.A[0]) && split(t.A[1])
		}
		e := linOf(t)
		if e.k.Sign() != 0 || len(e.c) == 0 || len(e.c) > 1 && op != token.ADD {
			return false
		}
		for at, c := range e.c {
			k := int64(0)
			for ; k < 8 && c.Cmp(new(big.Int).Lsh(bigOne, uint(8*k))) != 0; k++ {
			}
			for at.K == KConv && at.Exact && isInt(at.A[0].T) {
				at = at.A[0]
			}
			if k == 8 || parts[k] != nil || !isByte(at.T) {
				return false
			}
			parts[k] = at
		}
		return true
	}
	if !split(a) || !split(b) {
		return nil
	}
	var whole *Term
	w := int64(len(parts))
	for k := int64(0); k < w; k++ {
		if parts[k] == nil {
			return nil
		}
		v, i := piece(parts[k], 0)
		if i != k || whole != nil && v != whole {
			return nil
		}
		whole = v
	}
	if bits, _, ok := intBits(whole.T); !ok || w < 2 || int64(bits) > 8*w && !(&layout{}).fits(st, whole, w) {
		return nil
	}
	return (&layout{}).typed(st, whole, t)
}

func (l *layout) fits(st *State, v *Term, w int64) bool {
	lim := new(big.Int).Lsh(bigOne, uint(8*w))
	e := linOf(v)
	return st.entails(e) && st.entails(e.scale(bigNeg).add(linOf(bigConst(new(big.Int).Sub(lim, bigOne)))))
}

func (l *layout) typed(st *State, v *Term, t types.Type) *Term {
	if types.Identical(v.T, t) {
		return v
	}
	if v.K == KConst {
		return wrapConst(v.C, t)
	}
	if v.K == KConv && types.Identical(v.A[0].T, t) && v.Exact {
		return v.A[0]
	}
	return U.mk(Term{K: KConv, A: []*Term{v}, T: t, Exact: st.inRange(v, t)})
}

// span: the content of bytes lo to hi of what was encoded
func (l *layout) span(st *State, b *Term, lo, hi *Lin, d int) *Term {
	if d > 8 {
		return nil
	}
	if b.K == KSlice {
		o := linOf(b.A[1])
		return l.span(st, b.A[0], lo.add(o), hi.add(o), d+1)
	}
	for _, a := range ghosts(st, b) {
		if a.Name == "ghost:span" {
			sp := st.mem[a]
			o := linOf(a.A[1])
			if isZero(st, lo.sub(o)) && isZero(st, hi.sub(o).sub(linOf(sp.A[1]))) {
				return sp
			}
		}
	}
	if isAppend(b) {
		if marked(st, "dirty", b) {
			return nil
		}
		n := linOf(mkLen(b.A[0]))
		switch {
		case len(l.own(st, b, newLin(0))) > 0 && overlaps(st, bit{off: lo, n: linTerm(hi.sub(lo))}, l.own(st, b, newLin(0))):
		case st.entails(n.sub(hi)):
			return l.span(st, b.A[0], lo, hi, d+1)
		case st.entails(lo.sub(n)):
			return l.span(st, appended(st, b), lo.sub(n), hi.sub(n), d+1)
		}
		return nil
	}
	if p, rel := l.inRun(st, b, lo, hi); p != nil {
		el := mkAddrI(p.src, p.k)
		if sp := l.span(st, p.it.buf, rel, rel.add(substLin(hi.sub(lo), el, p.it.elem)), d+1); sp != nil {
			return subst(sp, p.it.elem, el)
		}
		return nil
	}
	if isZero(st, lo) && isZero(st, hi.sub(linOf(mkLen(b)))) && b.K != KMake {
		return mkApp("span", types.Typ[types.String], st.content(b), mkLen(b))
	}
	return nil
}

func (l *layout) ofWire(b *Term) bool { return l.wire != nil && b == l.wire }

func (l *layout) hooks() *Hooks {
	return &Hooks{
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			l.store(x, st, in, addr, val)
		},
		Read: func(x *Exec, st *State, addr *Term, w int64, order string, t types.Type) *Term {
			if !l.ofWire(addr.A[0]) {
				return nil
			}
			return l.at(x, st, l.coded, linOf(addr.A[1]), w, order, t, 0)
		},
		After: func(x *Exec, st *State, ci *CallInfo, r []*Term) {
			if ci.Builtin == "append" && len(r) == 1 {
				l.grown(x, st, ci.Args[0], ci.Args[1], r[0])
			}
			if len(r) == 1 {
				l.snap(st, r[0])
			}
		},
		Merge: func(x *Exec, a, b, out *BState) {
			l.merge(x, a, b, out)
			l.mergeRuns(x, a, b, out)
		},
		LoopIter: func(x *Exec, fr *Frame, header *ssa.BasicBlock, head, tail *BState) { l.reg().head = head },
		Edge:     func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) { l.bounded(st) },
		Keep: func(st *State) []*Term {
			var out []*Term
			if l.coded != nil {
				out = append(out, l.coded)
			}
			if l.rs != nil {
				for _, it := range l.rs.items {
					out = append(out, it.buf)
				}
			}
			return out
		},
		Alloc: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, obj *Term) {
			delete(st.mem, markCell("held", obj))
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			for a := addr; l.elemFacts != nil; a = a.A[0] {
				if a.K == KAddrI && structOf(ptrElem(a.T)) != nil {
					l.elemFacts(st, a)
				}
				if a.K != KAddrF {
					break
				}
			}
		},
	}
}

// readBack: the content, if it is made of bytes read from the wire
func (l *layout) readBack(st *State, c *Term) *Term {
	c = unarr(c)
	for c.K == KApp && c.Name == "content" && len(c.A) == 1 || c.K == KConv && isSliceT(c.A[0].T) {
		c = c.A[0]
	}
	if c.K == KSlice && l.ofWire(c.A[0]) {
		return l.span(st, l.coded, linOf(c.A[1]), linOf(c.A[2]), 0)
	}
	if l.ofWire(c) {
		return l.span(st, l.coded, newLin(0), linOf(mkLen(c)), 0)
	}
	return nil
}
