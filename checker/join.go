package main

// Merging of abstract states: at joins, loop heads and function exits.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	instr *ssa.Defer
	ci    *CallInfo
}

// BState: state inside a function body
type BState struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []deferRec
}

func (b *BState) clone() *BState {
	return &BState{st: b.st.clone(), env: cp(b.env), defers: append([]deferRec(nil), b.defers...)}
}

type slot struct {
	name string
	v    ssa.Value // environment slot
	addr *Term     // memory slot
	ret  int       // result slot
	t    types.Type
}

func (bs *BState) slotVal(sl slot, rets []*Term) *Term {
	switch {
	case sl.v != nil:
		return bs.env[sl.v]
	case sl.addr != nil:
		return bs.st.load(sl.addr)
	}
	return rets[sl.ret]
}

// desc: abstraction of a value used in merge keys
func desc(st *State, v *Term, ints bool) string {
	if v == nil {
		return "-"
	}
	if v.K == KTuple {
		var s []string
		for _, a := range v.A {
			s = append(s, desc(st, a, ints))
		}
		return "<" + strings.Join(s, ",") + ">"
	}
	switch {
	case isBool(v.T):
		if b, ok := st.eval(v); ok {
			if b {
				return "t"
			}
			return "f"
		}
		return "b"
	case isNilable(v.T):
		n := st.nilness(v)
		d := []string{"?", "N", "P"}[n]
		if v.isParam() && ptrElem(v.T) != nil {
			d += fmt.Sprint(v.ID)
		}
		if isIface(v.T) && n != 1 {
			if t := st.dynType(v); t != nil {
				d += fmt.Sprint(typeID(t))
			}
			if c, ok := st.errClass(v); ok {
				d += c
			}
		}
		if _, ok := v.T.Underlying().(*types.Signature); ok && (v.K == KClosure || v.K == KFunc) {
			d += fmt.Sprintf("c%d", v.ID)
		}
		return d
	case ints && isInt(v.T) && v.K == KConst:
		return v.C.ExactString()
	}
	return ""
}

func liveSorted(env map[ssa.Value]*Term) []ssa.Value {
	vs := make([]ssa.Value, 0, len(env))
	for v := range env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

// key: states with different keys are not merged (unless they become too many)
func (bs *BState) key(rets []*Term, ints bool, maxGen int) string {
	var b strings.Builder
	b.WriteString(bs.st.clKey())
	b.WriteString("|")
	for _, d := range bs.defers {
		fmt.Fprintf(&b, "d%p,", d.instr)
	}
	for _, v := range liveSorted(bs.env) {
		d := desc(bs.st, bs.env[v], ints)
		if d != "" && d != "-" {
			b.WriteString(v.Name() + d + ",")
		}
	}
	for _, r := range rets {
		b.WriteString("r" + desc(bs.st, r, ints) + ",")
	}
	var cells []string
	for a, v := range bs.st.mem {
		if maxGen > 0 && (a.Gen > maxGen || hasElem(a)) {
			continue
		}
		if isErrorT(v.T) || isBool(v.T) || isNilable(v.T) && ptrElem(v.T) != nil && a.K != KAddrI {
			if n := bs.st.nilness(v); n != 0 || isBool(v.T) {
				cells = append(cells, fmt.Sprintf("%d%s", a.ID, desc(bs.st, v, ints)))
			}
		}
	}
	sort.Strings(cells)
	b.WriteString(strings.Join(cells, ","))
	return b.String()
}

// hasElem: the address lies in a slice, array or map element
func hasElem(a *Term) bool {
	for {
		switch a.K {
		case KAddrI, KAddrM:
			return true
		case KAddrF:
			a = a.A[0]
		default:
			return false
		}
	}
}

// joiner names the symbols of one merge point
type joiner struct {
	x      *Exec
	name   string
	stable bool // loop head: symbols persist between passes
	narrow bool // only keep facts, invent none
	guards *guardSet
	gen    int // terms newer than this do not survive (loop heads); 0: all survive
	syms   map[string]*Term
	vers   map[string]int
	isJ    map[*Term]bool
}

func (x *Exec) newJoiner(name string, stable bool, gen int) *joiner {
	return &joiner{x: x, name: name, stable: stable, gen: gen, syms: map[string]*Term{}, vers: map[string]int{}, isJ: map[*Term]bool{}}
}

func (j *joiner) sym(slotName string, t types.Type) *Term {
	if s, ok := j.syms[slotName]; ok {
		return s
	}
	s := U.mk(Term{K: KSym, Name: "φ" + j.name + "·" + slotName, T: t, Inst: U.freshInst()})
	// a unique name is required: instance numbers provide it
	j.syms[slotName] = s
	j.isJ[s] = true
	return s
}

func (j *joiner) old(t *Term) bool { return j.gen == 0 || t.Gen <= j.gen }

// combine merges a and b (b may be nil: only normalise a for a loop head).
func (j *joiner) combine(a, b *BState, ra, rb []*Term) (*BState, []*Term) {
	if b == nil {
		b, rb = a, ra
	}
	out := &BState{st: newState(), env: map[ssa.Value]*Term{}}
	o := out.st
	o.trace = a.st.trace
	if a.st.trace == nil || b.st.trace != nil && b.st.trace.n < a.st.trace.n {
		o.trace = b.st.trace
	}
	o.cl = cp(a.st.cl)
	out.defers = append([]deferRec(nil), a.defers...)

	// slots
	var slots []slot
	for _, v := range liveSorted(a.env) {
		if _, ok := b.env[v]; ok {
			slots = append(slots, slot{name: v.Name(), v: v, t: v.Type()})
		}
	}
	for i := range ra {
		var t types.Type
		if ra[i] != nil {
			t = ra[i].T
		}
		slots = append(slots, slot{name: fmt.Sprintf("ret%d", i), ret: i, t: t})
	}
	// objects
	for r, z := range a.st.objs {
		z2, ok := b.st.objs[r]
		if !j.old(r) {
			continue
		}
		if ok {
			o.objs[r] = z && z2
		} else {
			o.objs[r] = z
		}
	}
	for r, z := range b.st.objs {
		if _, ok := a.st.objs[r]; !ok && j.old(r) {
			o.objs[r] = z
		}
	}
	// memory
	addrs := map[*Term]bool{}
	for m := range a.st.mem {
		addrs[m] = true
	}
	for m := range b.st.mem {
		addrs[m] = true
	}
	for _, m := range sortedTerms(addrs) {
		r := rootOf(m)
		if !j.old(m) {
			if j.old(r) && o.objs[r] {
				o.objs[r] = false
				o.vers[rootKey(r)] = j.ver(rootKey(r))
			}
			continue
		}
		_, inA := a.st.objs[r]
		_, inB := b.st.objs[r]
		isObj := r.K == KAlloc || r.K == KMake
		switch {
		case isObj && inA && !inB:
			if v, ok := a.st.mem[m]; ok && j.old(v) {
				o.mem[m] = v
			} else if ok {
				o.mem[m] = j.sym(fmt.Sprintf("m%d", m.ID), ptrElem(m.T))
			}
			continue
		case isObj && inB && !inA:
			if v, ok := b.st.mem[m]; ok && j.old(v) {
				o.mem[m] = v
			} else if ok {
				o.mem[m] = j.sym(fmt.Sprintf("m%d", m.ID), ptrElem(m.T))
			}
			continue
		}
		if t := ptrElem(m.T); t != nil {
			slots = append(slots, slot{name: fmt.Sprintf("m%d", m.ID), addr: m, t: t})
		}
	}
	// versions
	vk := map[string]bool{}
	for k := range a.st.vers {
		vk[k] = true
	}
	for k := range b.st.vers {
		vk[k] = true
	}
	for k := range vk {
		if r := keyRoot[k]; r != nil && !j.old(r) {
			continue
		}
		x, y := a.st.vers[k], b.st.vers[k]
		if x == y && (j.gen == 0 || x <= j.gen) {
			o.vers[k] = x
		} else {
			o.vers[k] = j.ver(k)
		}
	}
	// published
	for t := range a.st.pub {
		if j.old(t) {
			o.pub[t] = true
		}
	}
	for t := range b.st.pub {
		if j.old(t) {
			o.pub[t] = true
		}
	}

	// values
	type jslot struct {
		sl     slot
		j      *Term
		va, vb *Term
	}
	var js []jslot
	subA, subB := map[*Term]*Term{}, map[*Term]*Term{}
	rets := make([]*Term, len(ra))
	set := func(sl slot, v *Term) {
		switch {
		case sl.v != nil:
			out.env[sl.v] = v
		case sl.addr != nil:
			o.mem[sl.addr] = v
		default:
			rets[sl.ret] = v
		}
	}
	var addSlot func(sl slot, va, vb *Term) *Term
	addSlot = func(sl slot, va, vb *Term) *Term {
		if va == nil || vb == nil {
			return nil
		}
		if va == vb && j.old(va) {
			return va
		}
		if va.K == KTuple && vb.K == KTuple && len(va.A) == len(vb.A) {
			as := make([]*Term, len(va.A))
			for i := range as {
				as[i] = addSlot(slot{name: fmt.Sprintf("%s.%d", sl.name, i), t: va.A[i].T}, va.A[i], vb.A[i])
			}
			return mkTuple(va.T, as)
		}
		if va.K == KStruct || vb.K == KStruct {
			n := len(va.A)
			if va.K != KStruct {
				n = len(vb.A)
			}
			as := make([]*Term, n)
			for i := range as {
				fa, fb := mkField(va, i), mkField(vb, i)
				as[i] = addSlot(slot{name: fmt.Sprintf("%s.%d", sl.name, i), t: fa.T}, fa, fb)
			}
			return mkStruct(sl.t, as)
		}
		if pa, pb := wirePart(va), wirePart(vb); pa != nil && pb != nil && pa.A[0] == pb.A[0] && j.old(pa.A[0]) {
			lo := addSlot(slot{name: sl.name + ".lo", t: tInt}, pa.A[1], pb.A[1])
			hi := addSlot(slot{name: sl.name + ".hi", t: tInt}, pa.A[2], pb.A[2])
			return U.mk(Term{K: KSlice, A: []*Term{pa.A[0], lo, hi}, T: va.T})
		}
		t := sl.t
		if t == nil {
			t = va.T
		}
		s := j.sym(sl.name, t)
		j.x.noteJoin(s, va)
		j.x.noteJoin(s, vb)
		js = append(js, jslot{sl, s, va, vb})
		subA[s], subB[s] = va, vb
		return s
	}
	for _, sl := range slots {
		va, vb := a.slotVal(sl, ra), b.slotVal(sl, rb)
		if sl.addr != nil && sl.addr.K == KApp && strings.HasPrefix(sl.addr.Name, "ghost:0:") {
			// a count: none where it is not kept
			if a.st.mem[sl.addr] == nil {
				va = mkInt(0, tInt)
			}
			if b.st.mem[sl.addr] == nil {
				vb = mkInt(0, tInt)
			}
		}
		set(sl, addSlot(sl, va, vb))
	}
	memoA, memoB := map[*Term]*Term{}, map[*Term]*Term{}
	inA := func(t *Term) *Term { return rebuild(t, subA, memoA) }
	inB := func(t *Term) *Term { return rebuild(t, subB, memoB) }
	// a term survives if it is old, or built from old terms and symbols of this merge
	okMemo := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if r, k := okMemo[t]; k {
			return r
		}
		r := false
		if _, k := subA[t]; k {
			r = true
		} else if j.isJ[t] {
			r = false
		} else if j.old(t) {
			r = true
		} else if t.Inst == 0 && len(t.A) > 0 {
			r = true
			for _, c := range t.A {
				if !ok(c) {
					r = false
					break
				}
			}
		} else if t.K == KLoad && t.Inst != 0 && len(t.A) > 0 {
			r = ok(t.A[0]) && o.version(t.A[0]) == t.Inst
		}
		okMemo[t] = r
		return r
	}
	linIn := func(l *Lin, f func(*Term) *Term) *Lin {
		r := newLin(0)
		r.k.Set(l.k)
		for t, c := range l.c {
			r = r.addScaled(linOf(f(t)), c)
		}
		return r
	}
	linOK := func(l *Lin) bool {
		for t := range l.c {
			if !ok(t) {
				return false
			}
		}
		return true
	}
	seen := map[string]bool{}
	try := func(l *Lin) {
		l = l.tighten()
		if _, c := l.isConst(); c {
			return
		}
		k := l.key()
		if seen[k] {
			return
		}
		seen[k] = true
		if !linOK(l) {
			return
		}
		la, lb := linIn(l, inA), linIn(l, inB)
		if (a.st.entails(la) || a.st.congruent(la)) && (b.st.entails(lb) || b.st.congruent(lb)) {
			o.addFact(l)
		}
	}
	for _, f := range a.st.facts {
		try(f)
	}
	if !j.narrow {
		for _, f := range b.st.facts {
			try(f)
		}
	}
	// integer candidates
	type ij struct {
		j      *Term
		va, vb *Lin
		gen    bool // invent facts about it
	}
	var ints []ij
	for _, s := range js {
		switch {
		case isByte(s.j.T) || s.sl.addr != nil && hasElem(s.sl.addr):
		case isInt(s.j.T):
			ints = append(ints, ij{s.j, linOf(s.va), linOf(s.vb), !j.narrow || s.va != s.j})
		case isSliceT(s.j.T) || isString(s.j.T):
			ints = append(ints, ij{mkLen(s.j), linOf(mkLen(s.va)), linOf(mkLen(s.vb)), !j.narrow || s.va != s.j})
		}
	}
	if traceJoin {
		defer func(n int) {
			fmt.Fprintf(os.Stderr, "join %s narrow %v ints %d facts %d/%d -> %d fm %d\n", j.name, j.narrow, len(ints), len(a.st.facts), len(b.st.facts), len(o.facts), fmCalls-n)
			if os.Getenv("TRACEJ") == "3" {
				for _, f := range js {
					fmt.Fprintln(os.Stderr, "      ", f.j, f.sl.addr, f.va, f.vb, f.j.T)
				}
			}
			if os.Getenv("TRACEJ") == "2" {
				for _, f := range o.facts {
					fmt.Fprintln(os.Stderr, "      ", f)
				}
			}
		}(fmCalls)
	}
	// restate a fact about the merged value v for the symbol p
	restate := func(p *Term, v *Lin, f *Lin) {
		as := v.atoms()
		if len(as) != 1 || new(big.Int).Abs(v.c[as[0]]).Cmp(bigOne) != 0 {
			return
		}
		at := as[0]
		c, has := f.c[at]
		if !has {
			return
		}
		// at = (J - k) * sign
		rest := f.clone()
		delete(rest.c, at)
		e := linAtom(p)
		e.k.Sub(e.k, v.k)
		try(rest.addScaled(e.scale(v.c[at]), c))
	}
	// conditions of the loop are bounds worth keeping even when a stronger one fails
	if j.guards != nil {
		for _, f := range j.guards.fs {
			try(f)
			for _, p := range ints {
				restate(p.j, p.vb, f)
			}
		}
	}
	// facts between several merged values, restated for their symbols
	for side, fs := range [][]*Lin{a.st.facts, b.st.facts} {
		by := map[*Term][]*Lin{}
		for _, p := range ints {
			v := p.va
			if side == 1 {
				v = p.vb
			}
			as := v.atoms()
			if len(as) != 1 || v.c[as[0]].Cmp(bigOne) != 0 || as[0] == p.j {
				continue
			}
			e := linAtom(p.j)
			e.k.Sub(e.k, v.k)
			by[as[0]] = append(by[as[0]], e)
		}
		for _, f := range fs {
			n := 0
			for t := range f.c {
				if len(by[t]) > 0 {
					n++
				}
			}
			if n < 2 || n > 3 {
				continue
			}
			es := []*Lin{f}
			for _, t := range f.atoms() {
				var next []*Lin
				for _, e := range es {
					if len(by[t]) == 0 {
						next = append(next, e)
					}
					for _, r := range by[t] {
						if len(next) == 8 {
							break
						}
						d := e.clone()
						delete(d.c, t)
						next = append(next, d.addScaled(r, f.c[t]))
					}
				}
				es = next
			}
			for _, e := range es {
				try(e)
			}
		}
	}
	anyGen := false
	for _, p := range ints {
		anyGen = anyGen || p.gen
	}
	if anyGen {
		pool := map[*Term]bool{}
		addPool := func(fs []*Lin) {
			for _, f := range fs {
				for t := range f.c {
					if len(pool) < 24 && !isByte(t.T) && ok(t) {
						pool[t] = true
					}
				}
			}
		}
		addPool(a.st.facts)
		addPool(b.st.facts)
		for _, p := range ints {
			for t := range p.va.c {
				if ok(t) {
					pool[t] = true
				}
			}
			for t := range p.vb.c {
				if ok(t) {
					pool[t] = true
				}
			}
		}
		ps := sortedTerms(pool)
		for _, p := range ints {
			if !p.gen {
				continue
			}
			J := linAtom(p.j)
			try(J)
			for _, v := range []*Lin{p.va, p.vb} {
				if linOK(v) {
					try(J.sub(v))
					try(v.sub(J))
				}
			}
			// facts about the merged values, restated for the symbol
			for side, v := range []*Lin{p.va, p.vb} {
				fs := a.st.facts
				if side == 1 {
					fs = b.st.facts
				}
				for _, f := range fs {
					restate(p.j, v, f)
				}
			}
			for _, q := range ps {
				if q == p.j {
					continue
				}
				Q := linAtom(q)
				try(Q.sub(J))
				try(J.sub(Q))
				try(Q.sub(J).addK(-1))
			}
		}
		// linear relations that hold of the values on both sides: e*P = f*Q + k
		for i := range ints {
			for k := range ints {
				if i == k || !ints[i].gen && !ints[k].gen {
					continue
				}
				p, q := ints[i], ints[k]
				for _, side := range [][2]*Lin{{p.va, q.va}, {p.vb, q.vb}} {
					as := side[1].atoms()
					if len(as) == 0 {
						continue
					}
					cq := side[1].c[as[0]]
					cp := side[0].c[as[0]]
					if cp == nil || cp.Sign() == 0 || cq.Sign() < 0 {
						continue
					}
					da, c1 := p.va.scale(cq).sub(q.va.scale(cp)).isConst()
					db, c2 := p.vb.scale(cq).sub(q.vb.scale(cp)).isConst()
					if !c1 || !c2 || da.Cmp(db) != 0 {
						continue
					}
					e := linAtom(p.j).scale(cq).sub(linAtom(q.j).scale(cp))
					e.k.Sub(e.k, da)
					try(e)
					try(e.scale(bigNeg))
					break
				}
			}
		}
		// linear relations between variables that change by constant steps
		for i := range ints {
			for k := range ints {
				if i == k || !ints[i].gen && !ints[k].gen {
					continue
				}
				p, q := ints[i], ints[k]
				dp, c1 := p.vb.sub(p.va).isConst()
				dq, c2 := q.vb.sub(q.va).isConst()
				if !c1 || !c2 || dq.Sign() == 0 || dp.Sign() == 0 || !linOK(p.va) || !linOK(q.va) {
					continue
				}
				// dq*(P - va_p) = dp*(Q - va_q)
				e := linAtom(p.j).sub(p.va).scale(dq).sub(linAtom(q.j).sub(q.va).scale(dp))
				try(e)
				try(e.scale(bigNeg))
			}
		}
	}
	// nilness, truth, dynamic types, attributes
	for _, s := range js {
		if isNilable(s.j.T) {
			na, nb := a.st.nilness(s.va), b.st.nilness(s.vb)
			if na == nb && na != 0 {
				o.nilf[s.j] = na
			} else if na == 1 || nb == 1 || a.st.attr(s.va, "maybenil") || b.st.attr(s.vb, "maybenil") {
				o.setAttr(s.j, "maybenil")
			}
			if isIface(s.j.T) {
				ta, tb := a.st.dynType(s.va), b.st.dynType(s.vb)
				if ta != nil && tb != nil && types.Identical(ta, tb) {
					o.dyn[s.j] = ta
				}
			}
		}
		if isBool(s.j.T) {
			x, k1 := a.st.eval(s.va)
			y, k2 := b.st.eval(s.vb)
			if k1 && k2 && x == y {
				o.truth[s.j] = x
			}
		}
		// attributes hold if they hold for both
		names := map[string]bool{}
		for k := range a.st.attrs {
			names[k.a] = true
		}
		for k := range b.st.attrs {
			names[k.a] = true
		}
		names["fresh"] = true
		for n := range names {
			if n == "maybenil" {
				continue
			}
			if j.x.hasAttr(a.st, s.va, n) && j.x.hasAttr(b.st, s.vb, n) {
				o.setAttr(s.j, n)
			}
		}
		if a.st.pub[rootOf(s.va)] || b.st.pub[rootOf(s.vb)] {
			o.pub[s.j] = true
		}
		if contains(s.va, func(t *Term) bool {
			return t.K == KAlloc || t.K == KMake || a.st.attr(t, "mayfresh") || a.st.attr(t, "fresh")
		}) ||
			contains(s.vb, func(t *Term) bool {
				return t.K == KAlloc || t.K == KMake || b.st.attr(t, "mayfresh") || b.st.attr(t, "fresh")
			}) {
			o.setAttr(s.j, "mayfresh")
		}
	}
	for t, n := range a.st.nilf {
		if ok(t) && o.nilf[t] == 0 && b.st.nilness(inB(t)) == n && a.st.nilness(inA(t)) == n {
			o.nilf[t] = n
		}
	}
	for t := range b.st.nilf {
		if ok(t) && o.nilf[t] == 0 {
			if n := a.st.nilness(inA(t)); n != 0 && n == b.st.nilness(inB(t)) {
				o.nilf[t] = n
			}
		}
	}
	tryTruth := func(t *Term) {
		if _, done := o.truth[t]; done || !ok(t) {
			return
		}
		x, k1 := a.st.eval(inA(t))
		y, k2 := b.st.eval(inB(t))
		if k1 && k2 && x == y {
			o.truth[t] = x
		}
	}
	for t := range a.st.truth {
		tryTruth(t)
	}
	for t := range b.st.truth {
		tryTruth(t)
	}
	for t, d := range a.st.dyn {
		if ok(t) && o.dyn[t] == nil {
			if e := b.st.dynType(inB(t)); e != nil && types.Identical(d, e) {
				if f := a.st.dynType(inA(t)); f != nil && types.Identical(d, f) {
					o.dyn[t] = d
				}
			}
		}
	}
	for k := range a.st.attrs {
		if !ok(k.t) {
			continue
		}
		if k.a == "maybenil" || k.a == "mayfresh" || k.a == "volatile" || strings.HasPrefix(k.a, "vol:") {
			o.attrs[k] = true
			continue
		}
		if _, isJ := subA[k.t]; isJ {
			continue
		}
		if j.x.hasAttr(b.st, k.t, k.a) {
			o.attrs[k] = true
		}
	}
	for k := range b.st.attrs {
		if (k.a == "maybenil" || k.a == "mayfresh" || k.a == "volatile" || strings.HasPrefix(k.a, "vol:")) && ok(k.t) {
			o.attrs[k] = true
		}
	}
	return out, rets
}

// wirePart: part of the bytes that a decoder is given
func wirePart(v *Term) *Term {
	if v.K == KApp && v.Name == "wire" {
		return U.mk(Term{K: KSlice, A: []*Term{v, mkInt(0, tInt), mkLen(v)}, T: v.T})
	}
	if v.K == KSlice && v.A[0].K == KApp && v.A[0].Name == "wire" {
		return v
	}
	return nil
}

func (j *joiner) ver(k string) int {
	if v, ok := j.vers[k]; ok {
		return v
	}
	v := U.freshInst()
	j.vers[k] = v
	return v
}

func sameState(a, b *BState) bool {
	if len(a.env) != len(b.env) || len(a.st.mem) != len(b.st.mem) || len(a.st.facts) != len(b.st.facts) ||
		len(a.st.nilf) != len(b.st.nilf) || len(a.st.truth) != len(b.st.truth) || len(a.st.dyn) != len(b.st.dyn) ||
		len(a.st.attrs) != len(b.st.attrs) || len(a.st.pub) != len(b.st.pub) || len(a.st.cl) != len(b.st.cl) || len(a.defers) != len(b.defers) ||
		len(a.st.objs) != len(b.st.objs) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.st.mem {
		if b.st.mem[k] != v {
			return false
		}
	}
	for k := range a.st.fkey {
		if !b.st.fkey[k] {
			return false
		}
	}
	for k, v := range a.st.nilf {
		if b.st.nilf[k] != v {
			return false
		}
	}
	for k, v := range a.st.truth {
		if w, ok := b.st.truth[k]; !ok || w != v {
			return false
		}
	}
	for k := range a.st.attrs {
		if !b.st.attrs[k] {
			return false
		}
	}
	for k := range a.st.pub {
		if !b.st.pub[k] {
			return false
		}
	}
	for k, v := range a.st.objs {
		if w, ok := b.st.objs[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.st.cl {
		if b.st.cl[k] != v {
			return false
		}
	}
	for k, v := range a.st.vers {
		if b.st.vers[k] != v {
			return false
		}
	}
	return true
}

var traceJoin = os.Getenv("TRACEJ") != ""

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// noteJoin remembers what a merged symbol stands for
func (x *Exec) noteJoin(s, v *Term) {
	if s == v || v == nil {
		return
	}
	for _, o := range x.joined[s] {
		if o == v {
			return
		}
	}
	x.joined[s] = append(x.joined[s], v)
}

// sources of a value: what it was before any merge
func (x *Exec) sources(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if vs := x.joined[t]; len(vs) > 0 {
			for _, v := range vs {
				walk(v)
			}
			return
		}
		out = append(out, t)
	}
	walk(t)
	return out
}
