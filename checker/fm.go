package main

// Entailment between linear integer inequalities: Fourier-Motzkin elimination over the
// facts relevant to the goal. Sound and incomplete: "false" means not proved.

import (
	"math"
	"math/big"
	"math/bits"
	"sort"
)

// 128-bit constants
type i128 struct {
	hi int64
	lo uint64
}

func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(c), lo}
}
func (a i128) neg() i128 {
	lo, b := bits.Sub64(0, a.lo, 0)
	return i128{-a.hi - int64(b), lo}
}
func (a i128) sign() int {
	switch {
	case a.hi < 0:
		return -1
	case a.hi == 0 && a.lo == 0:
		return 0
	}
	return 1
}
func (a i128) less(b i128) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }
func (a i128) big() bool        { return a.hi > 1<<30 || a.hi < -(1<<30) }
func (a i128) mul(c int64) (i128, bool) {
	n := false
	if a.hi < 0 {
		a, n = a.neg(), !n
	}
	if c < 0 {
		c, n = -c, !n
	}
	h1, l1 := bits.Mul64(a.lo, uint64(c))
	h2, l2 := bits.Mul64(uint64(a.hi), uint64(c))
	if h2 != 0 || l2 > 1<<61 || h1 > 1<<61 {
		return i128{}, false
	}
	r := i128{int64(h1 + l2), l1}
	if n {
		r = r.neg()
	}
	return r, true
}

// floor division by a positive number
func (a i128) div(g int64) i128 {
	if a.hi >= 0 {
		q1 := uint64(a.hi) / uint64(g)
		r := uint64(a.hi) % uint64(g)
		q0, _ := bits.Div64(r, a.lo, uint64(g))
		return i128{int64(q1), q0}
	}
	// floor(-x/g) = -ceil(x/g) = -((x+g-1)/g)
	x := a.neg().add(i128{0, uint64(g - 1)})
	return x.div(g).neg()
}

type lmono struct {
	id int
	c  int64
}

// fl: sum of monomials plus constant >= 0; monomials sorted by id
type fl struct {
	links  []int // atoms its atoms are derived from (divisions, masks)
	linked bool
	m      []lmono
	k      i128
}

func (l *Lin) fast() *fl {
	if l.f != nil {
		return l.f
	}
	r := &fl{}
	for t, c := range l.c {
		if !c.IsInt64() || c.Int64() > 1<<56 || c.Int64() < -(1<<56) {
			return nil
		}
		r.m = append(r.m, lmono{t.ID, c.Int64()})
	}
	sort.Slice(r.m, func(i, j int) bool { return r.m[i].id < r.m[j].id })
	b := new(big.Int).Abs(l.k)
	if b.BitLen() > 90 {
		return nil
	}
	r.k.lo = new(big.Int).And(b, maxU64).Uint64()
	r.k.hi = new(big.Int).Rsh(b, 64).Int64()
	if l.k.Sign() < 0 {
		r.k = r.k.neg()
	}
	return r
}

var maxU64 = new(big.Int).SetUint64(1<<64 - 1)

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (f *fl) tighten() {
	var g int64
	for _, m := range f.m {
		g = gcd64(g, m.c)
		if g == 1 {
			return
		}
	}
	if g <= 1 {
		return
	}
	for i := range f.m {
		f.m[i].c /= g
	}
	f.k = f.k.div(g)
}

func (f *fl) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, m := range f.m {
		h = (h ^ uint64(m.id)) * 1099511628211
		h = (h ^ uint64(m.c)) * 1099511628211
	}
	return h
}

func sameMonos(a, b []lmono) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// combine p (positive coefficient of id) and n (negative) to eliminate id; nil: overflow, dropped
func elim(p, n *fl, id int) *fl {
	var a, b int64
	for _, m := range p.m {
		if m.id == id {
			a = m.c
		}
	}
	for _, m := range n.m {
		if m.id == id {
			b = -m.c
		}
	}
	g := gcd64(a, b)
	a, b = a/g, b/g // b*p + a*n
	r := &fl{m: make([]lmono, 0, len(p.m)+len(n.m)-2)}
	const lim = 1 << 30
	mul := func(x, y int64) (int64, bool) {
		if x > lim || x < -lim || y > lim || y < -lim {
			h, l := bits.Mul64(uint64(abs64(x)), uint64(abs64(y)))
			if h != 0 || l > 1<<60 {
				return 0, false
			}
		}
		return x * y, true
	}
	i, j := 0, 0
	for i < len(p.m) || j < len(n.m) {
		var id2 int
		var c int64
		ok := true
		switch {
		case j >= len(n.m) || i < len(p.m) && p.m[i].id < n.m[j].id:
			id2 = p.m[i].id
			c, ok = mul(p.m[i].c, b)
			i++
		case i >= len(p.m) || n.m[j].id < p.m[i].id:
			id2 = n.m[j].id
			c, ok = mul(n.m[j].c, a)
			j++
		default:
			id2 = p.m[i].id
			var x, y int64
			x, ok = mul(p.m[i].c, b)
			if ok {
				y, ok = mul(n.m[j].c, a)
			}
			c = x + y
			i++
			j++
		}
		if !ok {
			return nil
		}
		if c != 0 {
			r.m = append(r.m, lmono{id2, c})
		}
	}
	k1, ok1 := p.k.mul(b)
	k2, ok2 := n.k.mul(a)
	if !ok1 || !ok2 {
		return nil
	}
	r.k = k1.add(k2)
	if r.k.big() {
		return nil
	}
	r.tighten()
	return r
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

var intrMemo = map[*Term][]*fl{}

func intrinsicFast(t *Term) []*fl {
	if r, ok := intrMemo[t]; ok {
		return r
	}
	r := []*fl{}
	for _, l := range intrinsic(t) {
		if f := l.fast(); f != nil {
			r = append(r, f)
		}
	}
	intrMemo[t] = r
	return r
}

var relStamp []int
var relNow int
var idTerm []*Term

func termByID(id int) *Term { return U.byID[id] }

func stamp(id int) bool {
	for id >= len(relStamp) {
		relStamp = append(relStamp, make([]int, len(relStamp)+1024)...)
	}
	if relStamp[id] == relNow {
		return false
	}
	relStamp[id] = relNow
	return true
}
func stamped(id int) bool { return id < len(relStamp) && relStamp[id] == relNow }

// entails decides whether facts imply goal >= 0
func (s *State) entails(goal *Lin) bool {
	if k, ok := goal.isConst(); ok {
		return k.Sign() >= 0 || infeasibleConst(s)
	}
	for _, m := range s.models {
		if m.violates(goal) {
			modelHits++
			return false
		}
	}
	if g := goal.fast(); g != nil {
		for _, f := range s.facts {
			if f.f != nil && sameMonos(f.f.m, g.m) && !g.k.less(f.f.k) {
				return true
			}
		}
	}
	neg := goal.scale(bigNeg)
	neg.k.Sub(neg.k, bigOne)
	r, m := infeasible(s.facts, neg)
	if r {
		fmYes++
	} else if m == nil {
		fmGiveUp++
	}
	if m != nil {
		// components the facts do not connect are independent: solutions combine
		ms := make([]model, 0, len(s.models)+1)
		for i, o := range s.models {
			if len(s.models) >= 20 && i < 4 {
				continue
			}
			ms = append(ms, unite(o, m))
		}
		if len(s.models) > 0 {
			m = unite(m, s.models[len(s.models)-1])
		}
		var good []model
		for _, m := range append(ms, m) {
			if s.satisfies(m) {
				good = append(good, m)
			}
		}
		s.models = good
	}
	return r
}

// satisfies: no fact whose atoms the model determines fails in it, and none is left half open
func (s *State) satisfies(m model) bool {
	for _, f := range s.facts {
		touch := false
		for t := range f.c {
			if _, ok := m[t.ID]; ok {
				touch = true
				break
			}
		}
		if touch {
			if r, ok := m.eval(f); !ok || r < -1e-3 {
				return false
			}
		}
	}
	return true
}

func infeasibleConst(s *State) bool { return false }

// model: a rational solution of the facts over some atoms; a goal that fails in it is not
// entailed, which spares the elimination (only precision depends on its arithmetic)
type model map[int]float64

var modelHits, fmYes, fmGiveUp int

func (m model) eval(l *Lin) (float64, bool) {
	r, _ := new(big.Float).SetInt(l.k).Float64()
	if r > 1<<50 || r < -(1<<50) {
		return 0, false
	}
	for t, c := range l.c {
		v, ok := m[t.ID]
		if !ok || v > 1<<50 || v < -(1<<50) || !c.IsInt64() {
			return 0, false
		}
		r += v * float64(c.Int64())
	}
	return r, true
}

func (m model) violates(goal *Lin) bool {
	r, ok := m.eval(goal)
	return ok && r < -1e-3
}

func unite(o, m model) model {
	n := 0
	for id := range m {
		if _, ok := o[id]; !ok {
			n++
		}
	}
	if n == 0 {
		return o
	}
	r := make(model, len(o)+n)
	for id, v := range o {
		r[id] = v
	}
	for id, v := range m {
		if _, ok := o[id]; !ok {
			r[id] = v
		}
	}
	return r
}

// keepModels drops the models a new fact excludes or does not determine
func (s *State) keepModels(f *Lin) {
	if len(s.models) == 0 {
		return
	}
	var out []model
	for _, m := range s.models {
		touch := false
		for t := range f.c {
			if _, ok := m[t.ID]; ok {
				touch = true
			}
		}
		if touch {
			if r, ok := m.eval(f); !ok || r < 0 {
				continue
			}
		}
		out = append(out, m)
	}
	s.models = out
}

var fmCalls int

type elimStep struct {
	id     int
	ps, ns []*fl
}

// backSub builds a solution from the elimination order
var seed uint64 = 88172645463325252

func backSub(steps []elimStep) model {
	m := model{}
	for i := len(steps) - 1; i >= 0; i-- {
		st := steps[i]
		lo, hi := math.Inf(-1), math.Inf(1)
		bound := func(f *fl) float64 {
			r := f.k.float()
			var a float64
			for _, x := range f.m {
				if x.id == st.id {
					a = float64(x.c)
				} else {
					r += float64(x.c) * m[x.id]
				}
			}
			return -r / a
		}
		for _, p := range st.ps {
			lo = math.Max(lo, bound(p))
		}
		for _, n := range st.ns {
			hi = math.Min(hi, bound(n))
		}
		if lo > hi+1e-6*(1+math.Abs(hi)) {
			return nil
		}
		seed = seed*6364136223846793005 + 1442695040888963407
		rnd := float64(seed>>40) / float64(1<<24) // [0,1)
		base := 0.0
		if lo > 0 {
			base = lo
		} else if hi < 0 {
			base = hi
		}
		w := 1000.0
		if hi-lo < 3 {
			w = (hi - lo) / 2
		}
		a, b := math.Max(lo, base-w), math.Min(hi, base+w)
		v := a + (b-a)*rnd
		if f := math.Round(v); f >= lo && f <= hi {
			v = f
		}
		m[st.id] = v
	}
	return m
}

func (a i128) float() float64 { return float64(a.hi)*18446744073709551616.0 + float64(a.lo) }

func infeasible(facts []*Lin, extra *Lin) (bool, model) {
	fmCalls++
	if k, ok := extra.isConst(); ok && k.Sign() < 0 {
		return true, nil
	}
	ef := extra.fast()
	if ef == nil {
		return false, nil
	}
	// facts relevant to the goal
	relNow++
	cs := []*fl{ef}
	var work []int
	push := func(f *fl) {
		for _, m := range f.m {
			if stamp(m.id) {
				work = append(work, m.id)
			}
		}
	}
	push(ef)
	used := make([]bool, len(facts))
	for rounds := 0; len(work) > 0 && rounds < 6; rounds++ {
		w := work
		work = nil
		for _, id := range w {
			for _, f := range intrinsicFast(termByID(id)) {
				cs = append(cs, f)
				push(f)
			}
		}
		for i, l := range facts {
			if used[i] {
				continue
			}
			f := l.f
			if f == nil {
				continue
			}
			hit := len(f.m) == 0
			for _, m := range f.m {
				if stamped(m.id) {
					hit = true
					break
				}
			}
			if !hit {
				if !f.linked {
					f.linked = true
					for _, m := range f.m {
						if t := termByID(m.id); t.K == KBin {
							for _, g := range intrinsicFast(t) {
								for _, n := range g.m {
									if n.id != m.id {
										f.links = append(f.links, n.id)
									}
								}
							}
						}
					}
				}
				for _, id := range f.links {
					if stamped(id) {
						hit = true
						break
					}
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, f)
				push(f)
			}
		}
	}
	for _, id := range work {
		cs = append(cs, intrinsicFast(termByID(id))...)
	}
	return fm(cs)
}

var fmLimit = 160

type fmCount struct{ pos, neg int }

// fm: true if the constraints (each >= 0) are infeasible
func fm(cs []*fl) (bool, model) {
	dedupe := func(cs []*fl) ([]*fl, bool) {
		best := make(map[uint64]int, len(cs))
		out := cs[:0:0]
	next:
		for _, c := range cs {
			if len(c.m) == 0 {
				if c.k.sign() < 0 {
					return nil, true
				}
				continue
			}
			h := c.hash()
			for {
				o, ok := best[h]
				if !ok {
					best[h] = len(out)
					out = append(out, c)
					continue next
				}
				if sameMonos(out[o].m, c.m) {
					if c.k.less(out[o].k) {
						out[o] = c
					}
					continue next
				}
				h++
			}
		}
		return out, false
	}
	cs, bad := dedupe(cs)
	if bad {
		return true, nil
	}
	var steps []elimStep
	for {
		// contradiction between opposite constraints is found by elimination
		cnt := map[int]*fmCount{}
		var ids []int
		for _, c := range cs {
			for _, m := range c.m {
				e := cnt[m.id]
				if e == nil {
					e = &fmCount{}
					cnt[m.id] = e
					ids = append(ids, m.id)
				}
				if m.c > 0 {
					e.pos++
				} else {
					e.neg++
				}
			}
		}
		if len(ids) == 0 {
			return false, backSub(steps)
		}
		pick, bestCost := -1, 1<<30
		for _, id := range ids {
			e := cnt[id]
			cost := e.pos*e.neg - e.pos - e.neg
			if cost < bestCost || cost == bestCost && id < pick {
				bestCost, pick = cost, id
			}
		}
		var rest, ps, ns []*fl
		for _, c := range cs {
			s := 0
			for _, m := range c.m {
				if m.id == pick {
					s = 1
					if m.c < 0 {
						s = -1
					}
					break
				}
			}
			switch s {
			case 0:
				rest = append(rest, c)
			case 1:
				ps = append(ps, c)
			default:
				ns = append(ns, c)
			}
		}
		if len(ps)*len(ns) > 4*fmLimit {
			return false, nil
		}
		steps = append(steps, elimStep{pick, ps, ns})
		for _, p := range ps {
			for _, n := range ns {
				if r := elim(p, n, pick); r != nil {
					rest = append(rest, r)
				}
			}
		}
		cs, bad = dedupe(rest)
		if bad {
			return true, nil
		}
		if len(cs) > fmLimit {
			return false, nil // give up: not proved
		}
	}
}
