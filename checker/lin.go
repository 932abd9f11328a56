package main

// Linear integer facts: a small exact-rational Fourier-Motzkin entailment test
// over the linear inequalities that guards on a path establish.

import (
	"fmt"
	"go/constant"
	"go/token"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Lin struct {
	c map[*Term]*big.Int
	k *big.Int
	f *fl // fast form, for facts
}

func newLin(k int64) *Lin { return &Lin{c: map[*Term]*big.Int{}, k: big.NewInt(k)} }
func linAtom(t *Term) *Lin {
	return &Lin{c: map[*Term]*big.Int{t: big.NewInt(1)}, k: big.NewInt(0)}
}
func (l *Lin) clone() *Lin {
	r := &Lin{c: make(map[*Term]*big.Int, len(l.c)), k: new(big.Int).Set(l.k)}
	for t, v := range l.c {
		r.c[t] = v
	}
	return r
}
func (l *Lin) addScaled(o *Lin, s *big.Int) *Lin {
	r := l.clone()
	r.k.Add(r.k, new(big.Int).Mul(o.k, s))
	for t, v := range o.c {
		x := new(big.Int).Mul(v, s)
		if y, ok := r.c[t]; ok {
			x.Add(x, y)
		}
		if x.Sign() == 0 {
			delete(r.c, t)
		} else {
			r.c[t] = x
		}
	}
	return r
}

var bigOne = big.NewInt(1)
var bigNeg = big.NewInt(-1)

func (l *Lin) add(o *Lin) *Lin           { return l.addScaled(o, bigOne) }
func (l *Lin) sub(o *Lin) *Lin           { return l.addScaled(o, bigNeg) }
func (l *Lin) scale(s *big.Int) *Lin     { return newLin(0).addScaled(l, s) }
func (l *Lin) addK(n int64) *Lin         { r := l.clone(); r.k.Add(r.k, big.NewInt(n)); return r }
func (l *Lin) isConst() (*big.Int, bool) { return l.k, len(l.c) == 0 }

func (l *Lin) atoms() []*Term {
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}
func (l *Lin) key() string {
	var b strings.Builder
	for _, t := range l.atoms() {
		b.WriteString(strconv.Itoa(t.ID))
		b.WriteByte('*')
		b.WriteString(l.c[t].String())
		b.WriteByte(' ')
	}
	b.WriteString(l.k.String())
	return b.String()
}
func (l *Lin) String() string {
	var b strings.Builder
	for _, t := range l.atoms() {
		fmt.Fprintf(&b, "%s*%s + ", l.c[t], t)
	}
	b.WriteString(l.k.String() + " >= 0")
	return b.String()
}

// normalise by gcd, tightening the constant (integers)
func (l *Lin) tighten() *Lin {
	if len(l.c) == 0 {
		return l
	}
	g := new(big.Int)
	for _, v := range l.c {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	if g.Cmp(bigOne) == 0 {
		return l
	}
	r := newLin(0)
	for t, v := range l.c {
		r.c[t] = new(big.Int).Quo(v, g)
	}
	// floor division
	q, m := new(big.Int).DivMod(l.k, g, new(big.Int))
	_ = m
	r.k = q
	return r
}

var linMemo = map[*Term]*Lin{}

// linOf gives the linear form of an integer term.
func linOf(t *Term) *Lin {
	if r, ok := linMemo[t]; ok {
		return r
	}
	r := linOf1(t)
	linMemo[t] = r
	return r
}

func linOf1(t *Term) *Lin {
	switch t.K {
	case KConst:
		if t.C.Kind() == constant.Int {
			if n, ok := new(big.Int).SetString(t.C.ExactString(), 10); ok {
				return &Lin{c: map[*Term]*big.Int{}, k: n}
			}
		}
	case KConv:
		if t.Exact {
			return linOf(t.A[0])
		}
	case KBin:
		if !t.Exact {
			return linAtom(t)
		}
		switch t.Op {
		case token.ADD:
			return linOf(t.A[0]).add(linOf(t.A[1]))
		case token.SUB:
			return linOf(t.A[0]).sub(linOf(t.A[1]))
		case token.MUL:
			a, b := linOf(t.A[0]), linOf(t.A[1])
			if k, ok := a.isConst(); ok {
				return b.scale(k)
			}
			if k, ok := b.isConst(); ok {
				return a.scale(k)
			}
		case token.SHL:
			if n, ok := t.A[1].isConstInt(); ok && n >= 0 && n < 64 {
				return linOf(t.A[0]).scale(new(big.Int).Lsh(bigOne, uint(n)))
			}
		}
	case KUn:
		if t.Op == token.SUB && t.Exact {
			return linOf(t.A[0]).scale(bigNeg)
		}
	}
	return linAtom(t)
}

func bigConst(n *big.Int) *Term {
	c := constant.MakeFromLiteral(new(big.Int).Abs(n).String(), token.INT, 0)
	if n.Sign() < 0 {
		c = constant.UnaryOp(token.SUB, c, 0)
	}
	return mkConst(c, tInt)
}

// linTerm turns a linear form back into a (canonical) term of type int.
func linTerm(l *Lin) *Term {
	if k, ok := l.isConst(); ok {
		return bigConst(k)
	}
	as := l.atoms()
	if len(as) == 1 && l.k.Sign() == 0 && l.c[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	var r *Term
	join := func(op token.Token, x *Term) {
		if r == nil {
			r = x
			return
		}
		r = U.mk(Term{K: KBin, Op: op, A: []*Term{r, x}, T: tInt, Exact: true})
	}
	kc := bigConst
	for pass := 0; pass < 2; pass++ {
		for _, a := range as {
			c := l.c[a]
			if (c.Sign() > 0) != (pass == 0) {
				continue
			}
			x := a
			abs := new(big.Int).Abs(c)
			if abs.Cmp(bigOne) != 0 {
				x = U.mk(Term{K: KBin, Op: token.MUL, A: []*Term{a, kc(abs)}, T: tInt, Exact: true})
			}
			if pass == 0 {
				join(token.ADD, x)
			} else {
				if r == nil {
					r = kc(new(big.Int))
				}
				join(token.SUB, x)
			}
		}
	}
	if l.k.Sign() > 0 {
		join(token.ADD, kc(l.k))
	} else if l.k.Sign() < 0 {
		join(token.SUB, kc(new(big.Int).Neg(l.k)))
	}
	return r
}

// interval: structural bounds of an integer term (nil = unbounded)
func interval(t *Term) (lo, hi *big.Int) {
	tlo, thi := typeRange(t.T)
	lo, hi = tlo, thi
	meet := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	switch t.K {
	case KConst:
		if t.C.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(t.C.ExactString(), 10)
			return n, n
		}
	case KLen, KCap:
		meet(big.NewInt(0), new(big.Int).Lsh(bigOne, 50))
	case KConv:
		if isInt(t.A[0].T) {
			l, h := interval(t.A[0])
			if t.Exact {
				meet(l, h)
			}
		}
	case KApp:
		switch t.Name {
		case "hash.Size":
			return big.NewInt(20), big.NewInt(20)
		}
	case KBin:
		al, ah := interval(t.A[0])
		bl, bh := interval(t.A[1])
		switch t.Op {
		case token.ADD:
			if t.Exact && al != nil && bl != nil {
				meet(new(big.Int).Add(al, bl), new(big.Int).Add(ah, bh))
			}
		case token.SUB:
			if t.Exact && al != nil && bl != nil {
				meet(new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl))
			}
		case token.MUL:
			if t.Exact && al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
				meet(new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh))
			}
		case token.AND:
			if al != nil && bl != nil {
				if bl.Sign() >= 0 {
					meet(big.NewInt(0), bh)
				}
				if al.Sign() >= 0 {
					meet(big.NewInt(0), ah)
				}
			}
		case token.REM:
			if bl != nil && bl.Sign() > 0 {
				m := new(big.Int).Sub(bh, bigOne)
				if al != nil && al.Sign() >= 0 {
					meet(big.NewInt(0), m)
				} else {
					meet(new(big.Int).Neg(m), m)
				}
			}
		case token.QUO:
			if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
				meet(big.NewInt(0), new(big.Int).Quo(ah, bl))
			}
		case token.SHR:
			if al != nil && al.Sign() >= 0 {
				h := ah
				if n, ok := t.A[1].isConstInt(); ok && n >= 0 && n < 64 {
					h = new(big.Int).Rsh(ah, uint(n))
				}
				meet(big.NewInt(0), h)
			}
		}
	}
	return lo, hi
}

// intrinsic constraints of an atom
func intrinsic(t *Term) []*Lin {
	var out []*Lin
	lo, hi := interval(t)
	if lo != nil {
		l := linAtom(t)
		l.k.Sub(l.k, lo)
		out = append(out, l)
	}
	if hi != nil {
		l := linAtom(t).scale(bigNeg)
		l.k.Add(l.k, hi)
		out = append(out, l)
	}
	if t.K == KBin {
		x := t.A[0]
		var c *big.Int
		switch t.Op {
		case token.QUO:
			if n, ok := t.A[1].isConstInt(); ok && n > 0 {
				c = big.NewInt(n)
			}
		case token.SHR:
			if n, ok := t.A[1].isConstInt(); ok && n >= 0 && n < 63 {
				c = new(big.Int).Lsh(bigOne, uint(n))
			}
		case token.REM:
			if n, ok := t.A[1].isConstInt(); ok && n > 0 {
				// x%n = x - n*(x/n)
				if xl, _ := interval(x); xl != nil && xl.Sign() >= 0 {
					q := U.mk(Term{K: KBin, Op: token.QUO, A: t.A, T: t.T, Exact: true})
					e := linAtom(t).sub(linOf(x)).addScaled(linAtom(q), big.NewInt(n))
					out = append(out, e, e.scale(bigNeg))
				}
				// result bounded by operand for nonnegative operands
			}
		case token.AND:
			if bl, _ := interval(t.A[1]); bl != nil && bl.Sign() >= 0 {
				out = append(out, linOf(t.A[1]).sub(linAtom(t)))
			}
			if al, _ := interval(x); al != nil && al.Sign() >= 0 {
				out = append(out, linOf(x).sub(linAtom(t)))
			}
		}
		if c != nil {
			xl, _ := interval(x)
			if xl != nil && xl.Sign() >= 0 || t.Op == token.SHR {
				// c*q <= x <= c*q + c-1
				q := linAtom(t)
				e := linOf(x).addScaled(q, new(big.Int).Neg(c))
				out = append(out, e)
				f := e.scale(bigNeg)
				f.k.Add(f.k, new(big.Int).Sub(c, bigOne))
				out = append(out, f)
			} else {
				// truncated division: q may be 0 for slightly negative x; c*q - (c-1) <= x <= c*q + (c-1)
				e := linOf(x).addScaled(linAtom(t), new(big.Int).Neg(c))
				m := new(big.Int).Sub(c, bigOne)
				a := e.clone()
				a.k.Add(a.k, m)
				b := e.scale(bigNeg)
				b.k.Add(b.k, m)
				out = append(out, a, b)
			}
		}
	}
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}
