package main

// Runs: buffers that hold one item for each element of a list, one after the other

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// item is what a buffer holds for one element of a list, in terms of the element's address
type item struct {
	key  string
	elem *Term // stands for the element's address
	size *Lin
	buf  *Term // a virtual buffer that holds the item
	bits []bit
}

// bit: some bytes of a buffer and what they hold
type bit struct {
	off *Lin
	w   int64 // 0: a span
	ord string
	v   *Term // integer, or content
	n   *Term // length of a span
}

// run: base holds items for src[:count] from start to its end
type run struct {
	it                *item
	start, src, count *Term
}

// posn: the position of item K of a run
type posn struct {
	it            *item
	start, src, k *Term
	t             *Term
}

type runs struct {
	items map[string]*item
	pos   map[*Term]*posn
	head  *BState // of the loop that was gone round last
}

func (l *layout) reg() *runs {
	if l.rs == nil {
		l.rs = &runs{items: map[string]*item{}, pos: map[*Term]*posn{}}
	}
	return l.rs
}

func subst(t, from, to *Term) *Term { return rebuild(t, map[*Term]*Term{from: to}, map[*Term]*Term{}) }

func substLin(e *Lin, from, to *Term) *Lin {
	r := newLin(0)
	r.k.Set(e.k)
	for _, t := range e.atoms() {
		r = r.add(linOf(subst(t, from, to)).scale(e.c[t]))
	}
	return r
}

func mentions(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.A {
		if a != nil && mentions(a, x, seen) {
			return true
		}
	}
	return false
}

// appended: what was appended, as it was then
func appended(st *State, b *Term) *Term {
	if v := st.mem[snapCell(b)]; v != nil {
		return v
	}
	return b.A[1]
}

func snapCell(b *Term) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:snap", A: []*Term{b, b}, T: types.NewPointer(b.T)})
}

func markCell(kind string, b *Term) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:0:" + kind, A: []*Term{b, b}, T: types.NewPointer(tInt)})
}

func marked(st *State, kind string, b *Term) bool {
	v := st.mem[markCell(kind, b)]
	return v != nil && !st.eqInt(v, mkInt(0, tInt))
}

func isAppend(b *Term) bool { return b.K == KApp && b.Name == "append" && len(b.A) == 2 }

// snap: bytes are appended to a buffer
func (l *layout) snap(st *State, r *Term) {
	if r == nil || st.mem[snapCell(r)] != nil || !isAppend(r) || !isSliceT(r.T) || !isByte(elemType(r.T)) {
		return
	}
	base := func(t *Term) *Term {
		for t.K == KSlice {
			t = t.A[0]
		}
		return t
	}
	st.mem[markCell("used", base(r.A[0]))] = mkInt(1, tInt)
	m := r.A[1]
	if isString(m.T) || isAppend(base(m)) || m.K == KConv {
		st.mem[markCell("used", base(m))] = mkInt(1, tInt)
		return
	}
	bits := l.collect(st, m, newLin(0), 0)
	if len(bits) == 0 {
		bits = []bit{{off: newLin(0), v: st.content(m), n: mkLen(m)}}
	}
	v := mkSym("appended", m.T)
	put := func(b *Term, bits []bit) {
		for _, x := range bits {
			lo := linTerm(x.off)
			if x.w == 0 {
				st.mem[spanCell(b, lo)] = mkApp("span", types.Typ[types.String], x.v, x.n)
			} else {
				st.mem[segCell(b, lo, x.w, x.ord)] = x.v
			}
		}
	}
	put(v, bits)
	lo := newLin(0)
	if m.K == KSlice {
		lo = linOf(m.A[1])
	}
	for _, a := range ghosts(st, base(m)) {
		switch {
		case strings.HasPrefix(a.Name, "ghost:0:arr"):
			st.mem[arrCell(v, linTerm(linOf(a.A[1]).sub(lo)), a.A[2], width(a.Name), orderOf(a.Name))] = st.mem[a]
		case strings.HasPrefix(a.Name, "ghost:run:") && st.eqInt(mkLen(m), mkLen(base(m))):
			st.mem[runCell(v, strings.TrimPrefix(a.Name, "ghost:run:"), a.A[1], a.A[2])] = st.mem[a]
		}
	}
	st.addFact(linOf(mkLen(v)).sub(linOf(mkLen(m))))
	st.addFact(linOf(mkLen(m)).sub(linOf(mkLen(v))))
	st.mem[snapCell(r)] = v
}

func runCell(base *Term, key string, start, src *Term) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:run:" + key, A: []*Term{base, start, src}, T: types.NewPointer(tInt)})
}

func isSegment(a *Term) bool {
	return strings.HasPrefix(a.Name, "ghost:seg") || a.Name == "ghost:span"
}

// collect: what the bytes of a buffer are known to hold, at places counted from off
func (l *layout) collect(st *State, b *Term, off *Lin, d int) []bit {
	if d > 12 {
		return nil
	}
	if isString(b.T) {
		return []bit{{off: off, v: st.content(b), n: mkLen(b)}}
	}
	if b.K == KConv && (isString(b.A[0].T) || isSliceT(b.A[0].T)) {
		return l.collect(st, b.A[0], off, d+1)
	}
	if b.K == KSlice {
		lo := linOf(b.A[1])
		var out []bit
		for _, x := range l.collect(st, b.A[0], off.sub(lo), d+1) {
			n := newLin(x.w)
			if x.w == 0 {
				n = linOf(x.n)
			}
			if st.entails(x.off.sub(off)) && st.entails(off.add(linOf(mkLen(b))).sub(x.off).sub(n)) {
				out = append(out, x)
			}
		}
		return out
	}
	if isAppend(b) {
		if marked(st, "dirty", b) {
			return nil
		}
		out := append(l.collect(st, b.A[0], off, d+1), l.collect(st, appended(st, b), off.add(linOf(mkLen(b.A[0]))), d+1)...)
		own := l.own(st, b, off)
		if len(own) == 0 {
			return out
		}
		var keep []bit
		for _, x := range out {
			if !overlaps(st, x, own) {
				keep = append(keep, x)
			}
		}
		return append(keep, own...)
	}
	own := l.own(st, b, off)
	if n, ok := mkLen(b).isConstInt(); ok && n <= 16 && len(own) == 0 {
		for i := int64(0); i < n; i++ {
			if v := st.mem[mkAddrI(b, mkInt(i, tInt))]; v != nil {
				own = append(own, bit{off: off.addK(i), w: 1, ord: "be", v: v})
			}
		}
	}
	return own
}

func (l *layout) own(st *State, b *Term, off *Lin) []bit {
	var out []bit
	for _, a := range ghosts(st, b) {
		v := st.mem[a]
		switch {
		case a.Name == "ghost:span":
			out = append(out, bit{off: off.add(linOf(a.A[1])), v: v.A[0], n: v.A[1]})
		case strings.HasPrefix(a.Name, "ghost:seg"):
			out = append(out, bit{off: off.add(linOf(a.A[1])), w: width(a.Name), ord: orderOf(a.Name), v: v})
		}
	}
	return out
}

func (x bit) end() *Lin {
	if x.w == 0 {
		return x.off.add(linOf(x.n))
	}
	return x.off.addK(x.w)
}

func overlaps(st *State, x bit, own []bit) bool {
	for _, y := range own {
		if !st.entails(y.off.sub(x.end())) && !st.entails(x.off.sub(y.end())) {
			return true
		}
	}
	return false
}

func (l *layout) runsOf(st *State, b *Term) []run {
	var out []run
	for _, a := range ghosts(st, b) {
		if strings.HasPrefix(a.Name, "ghost:run:") {
			out = append(out, run{l.reg().items[strings.TrimPrefix(a.Name, "ghost:run:")], a.A[1], a.A[2], st.mem[a]})
		}
	}
	return out
}

// element addresses within a term
func elemAddrs(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.K == KAddrI && isSliceT(t.A[0].T) {
		out[t] = true
	}
	for _, a := range t.A {
		elemAddrs(a, out, seen)
	}
}

// extract: the item that was added for src[k] by appends
func (l *layout) extract(st *State, pieces []*Term, k *Term) (*item, *Term) {
	var bits []bit
	off := newLin(0)
	for _, p := range pieces {
		bits = append(bits, l.collect(st, appended(st, p), off, 0)...)
		off = off.add(linOf(mkLen(p.A[1])))
	}
	as := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, x := range bits {
		elemAddrs(x.v, as, seen)
	}
	var el *Term
	for a := range as {
		if l.wire != nil && mentions(a, l.wire, map[*Term]bool{}) || !st.eqInt(a.A[1], k) {
			continue
		}
		if el != nil && el != a {
			return nil, nil
		}
		el = a
	}
	if el == nil {
		return nil, nil
	}
	hole := mkParam("elem "+shortType(el.T), el.T)
	var keys []string
	for i := range bits {
		x := &bits[i]
		x.off, x.v = substLin(x.off, el, hole), subst(x.v, el, hole)
		s := fmt.Sprintf("%s|%d|%s|%d", x.off.key(), x.w, x.ord, x.v.ID)
		if x.w == 0 {
			x.n = subst(x.n, el, hole)
			s += fmt.Sprintf("|%d", x.n.ID)
		}
		keys = append(keys, s)
	}
	sort.Strings(keys)
	size := substLin(off, el, hole)
	for _, t := range size.atoms() {
		if !mentions(t, hole, map[*Term]bool{}) {
			return nil, nil
		}
	}
	key := fmt.Sprintf("%d;%s;%s", hole.ID, size.key(), strings.Join(keys, ";"))
	it := l.reg().items[key]
	if it == nil {
		it = &item{key: key, elem: hole, size: size, bits: bits, buf: mkParam("item "+key, types.NewSlice(tByte))}
		l.reg().items[key] = it
	}
	return it, el.A[0]
}

// known: the cells of the virtual buffers are put into a state
func (l *layout) known(st *State) {
	for _, it := range l.reg().items {
		for _, x := range it.bits {
			lo := linTerm(x.off)
			if x.w == 0 {
				st.mem[spanCell(it.buf, lo)] = mkApp("span", types.Typ[types.String], x.v, x.n)
			} else {
				st.mem[segCell(it.buf, lo, x.w, x.ord)] = x.v
			}
		}
	}
}

// grownTo: the runs of a buffer that was made from base by appending
func (l *layout) runsTo(st *State, b, other *Term) []run {
	if rs := l.runsOf(st, b); rs != nil {
		return rs
	}
	var pieces []*Term
	for b != other && isAppend(b) && len(l.runsOf(st, b)) == 0 {
		if marked(st, "dirty", b) || len(l.own(st, b, newLin(0))) > 0 {
			return nil
		}
		pieces = append([]*Term{b}, pieces...)
		b = b.A[0]
	}
	if len(pieces) == 0 {
		return nil
	}
	if b == other && len(l.runsOf(st, b)) == 0 {
		it, src := l.extract(st, pieces, mkInt(0, tInt))
		if it == nil {
			return nil
		}
		return []run{{it, mkLen(b), src, mkInt(1, tInt)}}
	}
	var out []run
	for _, r := range l.runsOf(st, b) {
		if it, src := l.extract(st, pieces, r.count); it == r.it && src == r.src {
			out = append(out, run{it, r.start, src, linTerm(linOf(r.count).addK(1))})
		}
	}
	return out
}

// size of the item for src[k]
func (it *item) at(src, k *Term) *Lin { return substLin(it.size, it.elem, mkAddrI(src, normIdx(k))) }

func (l *layout) posTerm(it *item, start, src, k *Term) *Term {
	k = normIdx(k)
	t := U.mk(Term{K: KApp, Name: "pos:" + it.key, A: []*Term{start, src, k}, T: tInt})
	if l.reg().pos[t] == nil {
		l.reg().pos[t] = &posn{it, start, src, k, t}
	}
	return t
}

// isPos: the value is the position of item k
func (l *layout) isPos(st *State, v *Term, it *item, start, src, k *Term) bool {
	e := linOf(v)
	for d := 0; d < 3; d++ {
		if st.eqInt(k, mkInt(0, tInt)) {
			return isZero(st, e.sub(linOf(start)))
		}
		if isZero(st, e.sub(linOf(l.posTerm(it, start, src, k)))) {
			return true
		}
		k = linTerm(linOf(k).addK(-1))
		e = e.sub(it.at(src, k))
	}
	return false
}

type mergedSlot struct{ a, b, out, head *Term }

func (l *layout) slots(a, b, out *BState, want func(t types.Type) bool) []mergedSlot {
	var r []mergedSlot
	for v, t := range out.env {
		if t != nil && want(t.T) && a.env[v] != nil && b.env[v] != nil {
			s := mergedSlot{a: a.env[v], b: b.env[v], out: t}
			if a == b && l.reg().head != nil {
				s.head = l.reg().head.env[v]
			}
			r = append(r, s)
		}
	}
	for c, t := range out.st.mem {
		if c.K != KApp && t != nil && want(t.T) && a.st.mem[c] != nil && b.st.mem[c] != nil {
			s := mergedSlot{a: a.st.mem[c], b: b.st.mem[c], out: t}
			if a == b && l.reg().head != nil {
				s.head = l.reg().head.st.mem[c]
			}
			r = append(r, s)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].out.ID < r[j].out.ID })
	return r
}

func (l *layout) mergeRuns(x *Exec, a, b, out *BState) {
	bufs := l.slots(a, b, out, func(t types.Type) bool { return isSliceT(t) && isByte(elemType(t)) })
	var ints []mergedSlot
	for _, s := range bufs {
		if s.a == s.b && s.a == s.out || s.out.K == KNil || len(l.runsOf(out.st, s.out)) > 0 {
			continue
		}
		p, q := l.runsTo(a.st, s.a, s.b), l.runsTo(b.st, s.b, s.a)
		if a == b && s.head != nil && p == nil { // the first time round
			p = l.runsTo(a.st, s.a, s.head)
			q = p
		}
		for _, r := range append(append([]run(nil), q...), p...) {
			ka, kb := countIn(a.st, s.a, p, r), countIn(b.st, s.b, q, r)
			if ka == nil || kb == nil {
				continue
			}
			if ints == nil {
				ints = l.slots(a, b, out, func(t types.Type) bool { return isInt(t) })
			}
			n := l.index(a.st, b.st, ints, ka, kb)
			if n == nil {
				continue
			}
			c := runCell(s.out, r.it.key, r.start, r.src)
			if out.st.mem[c] != nil {
				continue
			}
			out.st.mem[c] = n
			end := linOf(mkLen(s.out)).sub(linOf(l.posTerm(r.it, r.start, r.src, n)))
			if k, ok := r.it.size.isConst(); ok {
				end = linOf(mkLen(s.out)).sub(linOf(r.start)).sub(linOf(n).scale(k))
			}
			out.st.addFact(end)
			out.st.addFact(end.scale(bigNeg))
			// what lies before the run
			pre := l.collect(a.st, s.a, newLin(0), 0)
			for _, y := range pre {
				if !a.st.entails(linOf(r.start).sub(y.end())) {
					continue
				}
				lo := linTerm(y.off)
				if y.w == 0 {
					out.st.mem[spanCell(s.out, lo)] = mkApp("span", types.Typ[types.String], y.v, y.n)
				} else {
					out.st.mem[segCell(s.out, lo, y.w, y.ord)] = y.v
				}
			}
		}
	}
	if l.wire == nil {
		return
	}
	// how far a decoder has read
	rs := l.runsOf(out.st, l.coded)
	if len(rs) == 0 {
		return
	}
	ints = l.slots(a, b, out, func(t types.Type) bool { return isInt(t) })
	cursors := ints
	for _, s := range bufs { // or how much is left
		p, q, r := wirePart(s.a), wirePart(s.b), wirePart(s.out)
		if p != nil && q != nil && r != nil {
			cursors = append(cursors[:len(cursors):len(cursors)], mergedSlot{a: p.A[1], b: q.A[1], out: r.A[1]})
		}
	}
	for _, c := range cursors {
		if c.a == c.b {
			continue
		}
		for _, i := range ints {
			if i.a == i.b || i == c {
				continue
			}
			for _, r := range rs {
				for d := int64(0); d < 2; d++ {
					ia, ib, io := linTerm(linOf(i.a).addK(d)), linTerm(linOf(i.b).addK(d)), linTerm(linOf(i.out).addK(d))
					if l.isPos(a.st, c.a, r.it, r.start, r.src, ia) && l.isPos(b.st, c.b, r.it, r.start, r.src, ib) {
						e := linOf(c.out).sub(linOf(l.posTerm(r.it, r.start, r.src, io)))
						out.st.addFact(e)
						out.st.addFact(e.scale(bigNeg))
					}
				}
			}
		}
	}
}

func countIn(st *State, b *Term, rs []run, r run) *Term {
	for _, o := range rs {
		if o.it == r.it && o.src == r.src && st.eqInt(o.start, r.start) {
			return o.count
		}
	}
	if len(rs) == 0 && st.eqInt(mkLen(b), r.start) {
		return mkInt(0, tInt)
	}
	return nil
}

// index: a number that is ka on one side and kb on the other
func (l *layout) index(a, b *State, ints []mergedSlot, ka, kb *Term) *Term {
	for _, i := range ints {
		for d := int64(0); d < 2; d++ {
			if isZero(a, linOf(i.a).addK(d).sub(linOf(ka))) && isZero(b, linOf(i.b).addK(d).sub(linOf(kb))) {
				return linTerm(linOf(i.out).addK(d))
			}
		}
	}
	return nil
}

// bounded: items that exist lie within the buffer
func (l *layout) bounded(st *State) {
	if l.wire == nil {
		return
	}
	for _, r := range l.runsOf(st, l.coded) {
		zero := l.posTerm(r.it, r.start, r.src, mkInt(0, tInt))
		var ps []*posn
		for _, p := range l.reg().pos {
			if p.it == r.it && p.src == r.src && p.start == r.start && (p.t == zero || mentionedIn(st, p.t)) {
				ps = append(ps, p)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].t.ID < ps[j].t.ID })
		for _, p := range ps {
			if p.t == zero {
				e := linOf(p.t).sub(linOf(r.start))
				st.addFact(e)
				st.addFact(e.scale(bigNeg))
			}
			if !st.lss(p.k, r.count) || !st.leq(mkInt(0, tInt), p.k) {
				continue
			}
			st.addFact(linOf(mkLen(l.coded)).sub(linOf(p.t)).sub(r.it.at(r.src, p.k)))
			if l.elemFacts != nil {
				l.elemFacts(st, mkAddrI(r.src, p.k))
			}
		}
	}
}

func mentionedIn(st *State, t *Term) bool {
	for _, f := range st.facts {
		if _, ok := f.c[t]; ok {
			return true
		}
	}
	return false
}

// inRun: the item that holds bytes lo to hi of a buffer, and where in it they are
func (l *layout) inRun(st *State, b *Term, lo, hi *Lin) (*posn, *Lin) {
	for _, r := range l.runsOf(st, b) {
		var ps []*posn
		for _, p := range l.reg().pos {
			if p.it == r.it && p.src == r.src && p.start == r.start {
				ps = append(ps, p)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].t.ID < ps[j].t.ID })
		for _, p := range ps {
			if p.k != mkInt(0, tInt) && !mentionedIn(st, p.t) {
				continue
			}
			rel := lo.sub(linOf(p.t))
			if st.entails(rel) && st.entails(r.it.at(r.src, p.k).add(linOf(p.t)).sub(hi)) && st.lss(p.k, r.count) && st.leq(mkInt(0, tInt), p.k) {
				// in terms of the element's place-holder
				return p, l.rel(st, p, rel)
			}
		}
	}
	return nil, nil
}

func (l *layout) rel(st *State, p *posn, rel *Lin) *Lin {
	for _, x := range p.it.bits { // one of the places known
		o := substLin(x.off, p.it.elem, mkAddrI(p.src, p.k))
		if isZero(st, rel.sub(o)) {
			return x.off
		}
	}
	return substLin(rel, mkAddrI(p.src, p.k), p.it.elem)
}

// lists of structures ---------------------------------------------------------------

func fldCell(base, src *Term, f int) *Term {
	for base.K == KSlice && base.A[1] == mkInt(0, tInt) {
		base = base.A[0]
	}
	return U.mk(Term{K: KApp, Name: fmt.Sprintf("ghost:0:fld:%d", f), A: []*Term{base, src}, T: types.NewPointer(tInt)})
}

// oneCell: the element of which the first of a few elements has this field
func oneCell(base *Term, f int) *Term {
	return U.mk(Term{K: KApp, Name: fmt.Sprintf("ghost:one:%d", f), A: []*Term{base, base}, T: types.NewPointer(types.NewPointer(tInt))})
}

// allFields: this field of every element is that of the element of src at the same place
func allFields(st *State, list, src *Term, f int) bool {
	if list == nil {
		return false
	}
	n := mkLen(list)
	if st.eqInt(n, mkInt(0, tInt)) {
		return true
	}
	v := st.mem[fldCell(list, src, f)]
	return v != nil && st.leq(n, v)
}

// changed: something is written that an element may refer to
func (l *layout) changed(st *State, addr *Term) {
	r := rootOf(addr)
	if st.freshRoot(r) && !marked(st, "held", r) {
		return
	}
	for a := range st.mem {
		if a.K == KApp && (strings.HasPrefix(a.Name, "ghost:0:fld:") || strings.HasPrefix(a.Name, "ghost:one:")) {
			var f int
			fmt.Sscanf(a.Name[strings.LastIndexByte(a.Name, ':')+1:], "%d", &f)
			e := sliceElemT(a.A[0].T)
			if at, ok := isArray(ptrElem(a.A[0].T)); ok {
				e = at.Elem()
			}
			if s := structOf(e); s == nil || partOf(addr, ptrElem(s.Field(f).Type())) {
				delete(st.mem, a)
			}
		}
	}
}

// partOf: the address is that of part of something of this type
func partOf(addr *Term, t types.Type) bool {
	for t != nil && (addr.K == KAddrF || addr.K == KAddrI) {
		if types.Identical(ptrElem(addr.T), t) {
			return true
		}
		addr = addr.A[0]
	}
	return t != nil && ptrElem(addr.T) != nil && types.Identical(ptrElem(addr.T), t)
}

// origin: the element of which a value is this field
func (l *layout) origin(st *State, v *Term, f int) (src, idx *Term) {
	whole := v
	if p := ptrElem(v.T); p != nil {
		if v.K == KNil {
			return nil, nil
		}
		v = st.load(v)
		if structOf(p) != nil && structOf(p).NumFields() != 1 {
			return nil, nil
		}
	}
	if !isInt(v.T) {
		sp := l.readBack(st, v)
		if sp == nil {
			return nil, nil
		}
		n := linOf(mkLen(sp.A[0]))
		if at, ok := isArray(stripArr(v).T); ok {
			n = newLin(at.Len())
		} else if ptrElem(whole.T) != nil {
			n = newLin(20)
		}
		if a := valAddr(sp.A[0]); a != nil && a.K == KAddrF && a.A[0].K == KAddrI && l.elemFacts != nil {
			l.elemFacts(st, a.A[0])
		}
		if e := linOf(sp.A[1]); !isZero(st, e.sub(n)) && !(isString(whole.T) && st.entails(e.addK(-maxName)) && st.entails(n.sub(e))) {
			return nil, nil
		}
		v = sp.A[0]
	} else {
		v = stripSame(v)
	}
	for d := 0; d < 10 && v != nil; d++ {
		if v.K == KAddrF && v.F == f && v.A[0].K == KAddrI && structOf(ptrElem(v.A[0].T)) != nil {
			return v.A[0].A[0], v.A[0].A[1]
		}
		switch {
		case v.K == KApp && (v.Name == "arr" || v.Name == "content") && len(v.A) == 1, v.K == KStruct && len(v.A) == 1:
			v = v.A[0]
		case v.K == KAddrF:
			v = v.A[0]
		case v.K == KLoad || v.K == KFieldV:
			v = valAddr(v)
		case v.K == KSlice && v.A[1] == mkInt(0, tInt):
			v = v.A[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func stripArr(v *Term) *Term {
	if v.K == KStruct && len(v.A) == 1 {
		return v.A[0]
	}
	return v
}

// field: a field of an element of a list is set
func (l *layout) field(x *Exec, st *State, base, idx *Term, f int, val *Term) {
	src, at := l.origin(st, val, f)
	if src != nil && ptrElem(val.T) != nil {
		h := markCell("held", val)
		if v := st.mem[h]; v != nil && !st.eqInt(v, mkInt(0, tInt)) {
			src = nil // one object in two elements
		}
		st.mem[h] = mkInt(1, tInt)
	}
	if o := oneCell(base, f); src != nil && ptrElem(base.T) != nil && st.eqInt(idx, mkInt(0, tInt)) {
		st.mem[o] = mkAddrI(src, at)
	} else {
		delete(st.mem, o)
	}
	if src != nil && st.eqInt(at, idx) {
		c := fldCell(base, src, f)
		n := st.mem[c]
		if n == nil {
			n = mkInt(0, tInt)
		}
		if st.eqInt(n, idx) {
			st.mem[c] = x.arith(st, tokADD, n, mkInt(1, tInt), tInt)
			return
		}
	}
	for _, a := range ghosts(st, base) {
		if a.Name == fmt.Sprintf("ghost:0:fld:%d", f) && !st.leq(st.mem[a], idx) {
			delete(st.mem, a)
		}
	}
}

// sameFields: every field of the first n elements is that of src
func (l *layout) sameFields(st *State, list, src, n *Term) bool {
	if st.eqInt(n, mkInt(0, tInt)) {
		return true
	}
	s := structOf(elemType(list.T))
	for f := 0; f < s.NumFields(); f++ {
		v := st.mem[fldCell(list, src, f)]
		if v == nil || !st.leq(n, v) {
			return false
		}
	}
	return true
}
