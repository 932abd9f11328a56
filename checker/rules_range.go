package main

// C39 (lists of ranges)

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rangeList: the list of ranges an operation of the bitmap makes
type rangeList struct {
	name string
	held bool // ranges of set bits (or of clear ones)
	of   bool // inside the ranges passed in (or the whole bitmap)
}

var rangeLists = []rangeList{{"Ranges", true, false}, {"Overlap", true, true}, {"UnfilledRanges", false, false}}

var (
	gNext    = ghost("0:next bit", tInt)      // the bits before it were read
	gLast    = ghost("0:last bit", tInt)      // of those to be read
	gRun     = ghost("0:start of run", tInt)  // of the run that is open
	gOwedLo  = ghost("0:owed from", tInt)     // a run that ended and is not listed yet
	gOwedHi  = ghost("0:owed to", tInt)       //
	gListed  = ghost("0:listed", tInt)        // length of the list being made
	gBefore  = ghost("0:listed before", tInt) // length of the list it becomes part of
	gTaken   = ghost("0:taken", tInt)         // so many elements of the ranges passed in
	gDueLo   = ghost("0:due from", tInt)      // a range passed in, of which nothing was read
	gDueHi   = ghost("0:due to", tInt)        //
	gSeen    = ghost("0:bits read", tInt)     // of no use but to keep terms alive
	rangeInt = []*Term{gNext, gLast, gRun, gOwedLo, gOwedHi, gListed, gBefore, gTaken, gDueLo, gDueHi, gSeen}
)

func ruleC39(c *Ctx, u string) {
	fn := c.P.byRel(u)
	var rl rangeList
	for _, r := range rangeLists {
		if r.name == fn.Name() {
			rl = r
		}
	}
	bf := c.bitFields()
	ra := &rootArgsOf{}
	get := c.P.Method("common/bitset", "Bitset", "Get")
	if get == nil {
		panic("Bitset.Get not found")
	}
	size := func(st *State) *Term { return st.load(mkAddrF(ra.arg(0), bf.size)) }
	num := func(x *Exec, st *State, t *Term) *Term { return x.convert(st, t, tInt) }
	// what was to be read has been read
	complete := func(st *State) bool {
		return st.get("scan") != "1" || st.lss(st.mem[gLast], st.mem[gNext]) || st.leq(size(st), st.mem[gNext])
	}
	settled := func(st *State) bool { // the range that is due holds nothing
		return st.get("due") == "" || st.lss(st.mem[gDueHi], st.mem[gDueLo]) || st.leq(size(st), st.mem[gDueLo])
	}
	plus := func(x *Exec, st *State, a *Term, n int64) *Term {
		return x.arith(st, token.ADD, a, mkInt(n, tInt), tInt)
	}
	isPair := func(t types.Type) bool {
		s := structOf(t)
		return s != nil && s.NumFields() == 2 && isInt(s.Field(0).Type()) && isInt(s.Field(1).Type())
	}
	rangeType := func(t types.Type) bool {
		return isSliceT(t) && (isPair(elemType(t)) || isInt(elemType(t)) && !types.Identical(elemType(t), c.P.wordType()))
	}
	// bound: the next number listed
	bound := func(x *Exec, st *State, in ssa.Instruction, v *Term) {
		v = stripNum(v)
		switch {
		case st.get("debt") != "":
		case st.get("open") != "" && complete(st):
			st.set("open", "")
			st.set("debt", "1")
			st.set("bit", "unknown")
			st.mem[gOwedLo] = st.mem[gRun]
			st.mem[gOwedHi] = plus(x, st, st.mem[gNext], -1)
		default:
			c.viol("no run", in, st, "%s is listed where no run of bits has ended", v)
			return
		}
		if st.get("half") == "" {
			st.set("half", "1")
			if !st.eqInt(v, st.mem[gOwedLo]) {
				c.viol("other bounds", in, st, "the run begins at %s, the range listed at %s", st.mem[gOwedLo], v)
			}
			return
		}
		st.set("half", "")
		st.set("debt", "")
		if !st.eqInt(v, st.mem[gOwedHi]) {
			c.viol("other bounds", in, st, "the run ends at %s, the range listed at %s", st.mem[gOwedHi], v)
		}
	}
	c.run(fn, ra.hooks(), &Hooks{
		Enter: func(x *Exec, st *State, fr *Frame) {
			if fr.Caller != nil || fr.Go {
				return
			}
			for _, g := range rangeInt {
				st.mem[g] = mkInt(0, tInt)
			}
			n := size(st)
			st.addFact(linOf(n))                               // not negative
			st.addFact(linOf(mkInt(1<<16, n.T)).sub(linOf(n))) // bits are numbered with 16 bits
			if !rl.of {
				st.set("due", "1")
				st.mem[gDueHi] = plus(x, st, num(x, st, n), -1)
			}
		},
		Edge: func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) {
			if st.get("scan") == "1" && complete(st) {
				st.set("scan", "done")
			}
		},
		Keep: func(st *State) []*Term {
			var ks []*Term
			for _, g := range rangeInt {
				ks = append(ks, st.mem[g])
			}
			return ks
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if !rl.of || addr.K != KAddrI || addr.A[0] != ra.arg(1) {
				return
			}
			k, i := st.mem[gTaken], num(x, st, addr.A[1])
			switch {
			case st.lss(i, k):
				return // once more
			case st.eqInt(i, k) || st.eqInt(i, plus(x, st, k, 1)):
				which, cell := "lo", gDueLo
				if !st.eqInt(i, k) {
					which, cell = "hi", gDueHi
				}
				if st.get("lo") == "" && st.get("hi") == "" {
					c.met("range taken", in)
					if !settled(st) {
						c.viol("range left out", in, st, "the range before this one may not have been looked at")
					}
					st.set("due", "")
				}
				st.set(which, "1")
				st.mem[cell] = num(x, st, val)
				if st.get("lo") != "" && st.get("hi") != "" {
					st.set("lo", "")
					st.set("hi", "")
					st.set("due", "1")
					st.mem[gTaken] = plus(x, st, k, 2)
				}
			default:
				c.viol("range left out", in, st, "the ranges passed in are not taken one after another: %s", i)
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee == get {
				return c.readBit(x, st, ci, rl, ra, num(x, st, size(st)), complete), true
			}
			if ci.Name != "builtin:append" || len(ci.Args) != 2 || !rangeType(ci.Results.At(0).Type()) {
				return nil, false
			}
			base, tail := ci.Args[0], ci.Args[1]
			in := ssa.Instruction(ci.Instr)
			listed, before := st.mem[gListed], st.mem[gBefore]
			zero := mkInt(0, tInt)
			if n, ok := constOf(mkLen(tail)); ok && tail.K == KSlice && tail.A[0].K == KAlloc && n.IsInt64() && n.Int64() <= 8 {
				c.met("range listed", in)
				cell := gListed
				switch {
				case st.eqInt(mkLen(base), listed) && (st.eqInt(before, zero) || !st.eqInt(listed, zero)):
				case st.eqInt(mkLen(base), before) && st.eqInt(listed, zero):
					cell = gBefore
				case st.eqInt(mkLen(base), listed):
				default:
					c.viol("list lost", in, st, "the list that is extended may not hold what was listed before: %s", base)
				}
				for k := int64(0); k < n.Int64(); k++ {
					v := st.load(mkAddrI(tail.A[0], mkInt(k, tInt)))
					if isPair(v.T) {
						bound(x, st, in, mkField(v, 0))
						bound(x, st, in, mkField(v, 1))
					} else {
						bound(x, st, in, v)
					}
				}
				st.mem[cell] = plus(x, st, st.mem[cell], n.Int64())
				return nil, false
			}
			if !st.eqInt(mkLen(tail), listed) || !st.eqInt(mkLen(base), before) {
				c.viol("list lost", in, st, "the list does not become part of all that was listed before")
			}
			st.mem[gBefore] = x.arith(st, token.ADD, before, listed, tInt)
			st.mem[gListed] = zero
			return nil, false
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go || len(rets) != 1 {
				return
			}
			bad := func(kind, f string, a ...interface{}) {
				c.violAt(kind, c.P.pos(fn.Pos()), relName(fn), st, f, a...)
			}
			c.metAt("list complete", relName(fn))
			zero := mkInt(0, tInt)
			n := mkLen(rets[0])
			switch {
			case st.get("half") != "" || st.get("debt") != "" || st.get("open") != "":
				bad("run left out", "a run of bits is not listed when the list is returned")
			case !complete(st):
				bad("bits left out", "not all bits were looked at: %s is the first that was not", st.mem[gNext])
			case !settled(st):
				bad("bits left out", "not all bits were looked at")
			case rl.of && (!st.leq(mkLen(ra.arg(1)), plus(x, st, st.mem[gTaken], 1))):
				bad("range left out", "not all ranges passed in were looked at")
			case !(st.eqInt(n, st.mem[gListed]) && st.eqInt(st.mem[gBefore], zero)) && !(st.eqInt(n, st.mem[gBefore]) && st.eqInt(st.mem[gListed], zero)):
				bad("list lost", "the list returned may not hold everything that was listed")
			}
		},
	})
}

// readBit: one bit is read
func (c *Ctx) readBit(x *Exec, st *State, ci *CallInfo, rl rangeList, ra *rootArgsOf, size *Term, complete func(*State) bool) []Outcome {
	in := ssa.Instruction(ci.Instr)
	c.met("bit read", in)
	i := x.convert(st, stripInt(ci.Args[1]), tInt)
	if ci.Args[0] != ra.arg(0) {
		c.viol("other bits", in, st, "a bit of another bitmap is read")
	}
	next := st.mem[gNext]
	one := mkInt(1, tInt)
	ret := func(st *State, v bool) Outcome { return Outcome{st, []*Term{mkBool(v)}} }
	end := func(st *State) { // the run that is open ends before the next bit
		if st.get("open") != "" {
			st.set("open", "")
			st.set("debt", "1")
			st.mem[gOwedLo] = st.mem[gRun]
			st.mem[gOwedHi] = x.arith(st, token.SUB, st.mem[gNext], one, tInt)
		}
	}
	first := st.get("due") != "" && st.eqInt(i, st.mem[gDueLo])
	switch {
	case complete(st) && (first || st.get("scan") == "" || !st.eqInt(i, next) && st.get("due") != ""):
		// the first bit of the next range
		switch {
		case st.get("open") != "" || st.get("debt") != "":
			c.viol("run left out", in, st, "a run of bits is not listed when the next range is looked at")
		case !first:
			c.viol("other bits", in, st, "the first bit looked at is not the first of the range: %s", i)
		}
		for _, k := range []string{"due", "open", "debt", "bit"} {
			st.set(k, "")
		}
		st.set("scan", "1")
		st.mem[gNext], st.mem[gLast] = st.mem[gDueLo], st.mem[gDueHi]
		next = i
	case st.eqInt(i, next):
	case st.leq(x.arith(st, token.SUB, next, one, tInt), i) && st.leq(i, next):
		// perhaps the bit that was read last
		var out []Outcome
		again := st.clone()
		again.addFact(linOf(next).sub(linOf(i)).addK(-1))
		if st.get("bit") == "" {
			out = append(out, ret(again, (st.get("open") != "") == rl.held))
		} else {
			out = append(out, ret(again.clone(), false))
			if !again.leq(size, i) {
				again.addFact(linOf(size).sub(linOf(i)).addK(-1))
				out = append(out, ret(again, true))
			}
		}
		if !st.lss(i, next) {
			st.addFact(linOf(i).sub(linOf(next)))
			out = append(out, c.readBit(x, st, ci, rl, ra, size, complete)...)
		}
		return out
	default:
		c.viol("bits left out", in, st, "the bits are not looked at one after another: %s after %s", i, next)
		st.mem[gNext] = i
	}
	if st.get("debt") != "" {
		c.viol("run left out", in, st, "a run of bits is not listed before the next bit is looked at")
		st.set("debt", "")
	}
	var out []Outcome
	last := st.mem[gLast]
	if st.get("scan") == "1" && !st.lss(last, i) {
		// one of those asked for
		for _, v := range []bool{true, false} {
			s := st.clone()
			s.addFact(linOf(last).sub(linOf(i)))
			if v {
				if s.leq(size, i) {
					continue
				}
				s.addFact(linOf(size).sub(linOf(i)).addK(-1))
			}
			if v == rl.held {
				if s.get("open") == "" {
					s.set("open", "1")
					s.mem[gRun] = i
				}
			} else {
				end(s)
			}
			s.set("bit", "")
			s.mem[gNext] = x.arith(s, token.ADD, i, one, tInt)
			out = append(out, ret(s, v))
		}
	}
	if !st.leq(i, last) {
		for _, v := range []bool{true, false} {
			s := st.clone()
			s.addFact(linOf(i).sub(linOf(last)).addK(-1))
			if v {
				if s.leq(size, i) {
					continue
				}
				s.addFact(linOf(size).sub(linOf(i)).addK(-1))
			}
			end(s) // whatever lies beyond is not part of the run
			s.mem[gNext] = x.arith(s, token.ADD, i, one, tInt)
			s.set("bit", "unknown")
			out = append(out, ret(s, v))
		}
	}
	return out
}

func init() {
	register(&Rule{
		ID: "C39",
		Explain: "Typestate analysis of the loops that make lists of ranges, with ghost variables for the next bit to be looked at, the run of bits that is open, the run that ended and is not listed yet, and the lengths of the lists: " +
			"every bit in question is looked at, in order; a range is listed exactly when a run has ended, with the run's own first and last bit, before the next bit is looked at; the list returned is as long as all that was listed. Overlap does so for each of the ranges passed in.",
		Units: func(P *Program) []string {
			var us []string
			for _, r := range rangeLists {
				if f := P.Method("common/bitset", "Bitset", r.name); f != nil {
					us = append(us, relName(f))
				}
			}
			return us
		},
		Run: ruleC39, Min: map[string]int{"bit read": 1, "range listed": 1, "list complete": 3},
	})
}
