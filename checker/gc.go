package main

import "math/big"

// Forgetting: what a finished call leaves behind and nothing refers to any more. Forgetting
// facts and cells is always sound; it keeps states small.

func reDerivable(t *Term) bool {
	if t.K == KLoad {
		return true
	}
	if t.K == KApp {
		switch t.Name {
		case "content", "be2", "be4", "be8", "le2", "le4", "le8":
			return true
		}
	}
	return false
}

// gc drops everything about values that neither the roots nor the surviving memory mention
func (s *State) gc(rets []*Term, keep []*Term) {
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.A {
			mark(a)
		}
	}
	for _, r := range rets {
		mark(r)
	}
	for _, r := range keep {
		mark(r)
	}
	own := func(t *Term) bool { // a value whose identity was made by the call
		if t.Inst == 0 {
			return false
		}
		switch t.K {
		case KAlloc, KMake, KSym:
			return true
		case KApp:
			return !reDerivable(t)
		}
		return false
	}
	deadMemo := map[*Term]bool{}
	var dead func(t *Term) bool
	dead = func(t *Term) bool {
		if t.Gen == 0 || reach[t] {
			return false
		}
		if d, ok := deadMemo[t]; ok {
			return d
		}
		d := own(t)
		for _, a := range t.A {
			if d {
				break
			}
			d = dead(a)
		}
		deadMemo[t] = d
		return d
	}
	// live cells: their address involves no dead value
	done := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		deadMemo = map[*Term]bool{}
		for a, v := range s.mem {
			if done[a] || dead(a) {
				continue
			}
			done[a] = true
			changed = true
			mark(a)
			mark(v)
		}
	}
	for a := range s.mem {
		if !done[a] {
			delete(s.mem, a)
		}
	}
	for o := range s.objs {
		if dead(o) {
			delete(s.objs, o)
			delete(s.vers, rootKey(o))
		}
	}
	for k := range s.vers {
		if r := keyRoot[k]; r != nil && dead(r) {
			delete(s.vers, k)
		}
	}
	// what the dead values say about the others
	for i, f := range s.facts {
		if !s.fkey[f.scale(bigNeg).key()] {
			continue // not an equality
		}
		for _, t := range f.atoms() {
			c := f.c[t]
			if !dead(t) || new(big.Int).Abs(c).Cmp(bigOne) != 0 {
				continue
			}
			for k, g := range s.facts {
				d, has := g.c[t]
				if k == i || !has {
					continue
				}
				// g - (d/c) f
				if e := g.addScaled(f, new(big.Int).Neg(new(big.Int).Mul(d, c))); len(e.c) > 0 {
					s.addFact(e)
				}
			}
			break
		}
	}
	var fs []*Lin
	for _, f := range s.facts {
		d := false
		for t := range f.c {
			if dead(t) {
				d = true
				break
			}
		}
		if d {
			delete(s.fkey, f.key())
		} else {
			fs = append(fs, f)
		}
	}
	s.facts = fs
	for t := range s.nilf {
		if dead(t) {
			delete(s.nilf, t)
		}
	}
	for t := range s.truth {
		if dead(t) {
			delete(s.truth, t)
		}
	}
	for t := range s.dyn {
		if dead(t) {
			delete(s.dyn, t)
		}
	}
	for k := range s.attrs {
		if dead(k.t) {
			delete(s.attrs, k)
		}
	}
	for t := range s.pub {
		if dead(t) {
			delete(s.pub, t)
		}
	}
	var ms []model
	for _, m := range s.models {
		r := make(model, len(m))
		for id, v := range m {
			if !dead(U.byID[id]) {
				r[id] = v
			}
		}
		if len(r) > 0 {
			ms = append(ms, r)
		}
	}
	s.models = ms
}

// frameRoots are the values the callers of a function still hold
func frameRoots(f *Frame) []*Term {
	var out []*Term
	for ; f != nil; f = f.Caller {
		out = append(out, f.Args...)
		out = append(out, f.Binds...)
		if f.cur == nil {
			continue
		}
		for _, v := range f.cur.env {
			out = append(out, v)
		}
		for _, d := range f.cur.defers {
			out = append(out, d.ci.Args...)
			out = append(out, d.ci.Binds...)
			out = append(out, d.ci.FnVal)
		}
	}
	return out
}
