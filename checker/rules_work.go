package main

// C45 (a download works through its missing chunks)

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	gWanted = ghost("0:missing chunks", types.NewPointer(types.Typ[types.Int]))
	gBusy   = ghost("0:busy host", types.NewPointer(types.Typ[types.Int]))
)

// downloadTable: the table of hosts a chunk is being requested from
func downloadTable(P *Program, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	n := P.Named("flu", "downloadKey")
	return ok && n != nil && namedOf(m.Key()) == n
}

// inRange: the chunk is one of those in some range of the list
func inRange(st *State, v, list *Term) bool {
	if list == nil || list.K == KNil {
		return false
	}
	v = stripNum(v)
	bound := func(t *Term) *Term { // the element a bound belongs to
		a := valAddr(stripNum(t))
		if a == nil || a.K != KAddrF || a.A[0].K != KAddrI || a.A[0].A[0] != list {
			return nil
		}
		return a.A[0]
	}
	if bound(v) != nil {
		return true
	}
	elems := map[*Term]bool{mkAddrI(list, mkInt(0, tInt)): true}
	for _, f := range st.facts {
		for t := range f.c {
			if e := bound(t); e != nil {
				elems[e] = true
			}
		}
	}
	for e := range elems {
		lo, hi := st.load(mkAddrF(e, 0)), st.load(mkAddrF(e, 1))
		if st.leq(lo, v) && st.leq(v, hi) {
			return true
		}
	}
	return false
}

// sameKey: both keys name the same file and host
func (d *download) sameKey(x *Exec, st *State, a, b *Term) bool {
	p, q := parts(a), parts(b)
	if a == b {
		return true
	}
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] && !st.eqInt(p[i], q[i]) && !(d.asked(x, st, p[i]) && d.asked(x, st, q[i])) {
			return false
		}
	}
	return true
}

// releases: the function, or one it calls, takes entries out of the table
func releases(P *Program, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || !P.inMod(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" && downloadTable(P, cc.Args[0].Type()) {
				return true
			}
			if releases(P, cc.StaticCallee(), seen) {
				return true
			}
		}
	}
	return false
}

func ruleC45(c *Ctx, u string) {
	fn := c.P.byRel(u)
	if pkgOfFunc(fn).Name() == "catalogue" {
		ruleC45cat(c, fn)
		return
	}
	d := &download{c: c, id: "C45", ra: &rootArgsOf{}, goodApp: map[*Term]bool{}, badApp: map[*Term]bool{}}
	st := newState()
	st.mem[gWanted] = mkNil(gWanted.T)
	st.mem[gBusy] = mkNil(gBusy.T)
	c.runWith(fn, nil, st, d.ra.hooks(), &Hooks{
		Keep: func(st *State) []*Term { return []*Term{st.mem[gWanted], st.mem[gBusy]} },
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee == nil || ci.Callee != c.P.Func("flu", "DialPeer") {
				return nil, false
			}
			c.met("chunk requested", ci.Instr)
			if !inRange(st, stripSame(ci.Args[3]), st.mem[gWanted]) {
				c.viol("not missing", ci.Instr, st, "a chunk is requested that the catalogue did not report as missing: %s", ci.Args[3])
			}
			if st.get("busy") == "" {
				c.viol("host busy", ci.Instr, st, "a chunk is requested from a host that is not marked as busy, or was so before")
			}
			return nil, false
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K != KAddrM || !downloadTable(c.P, addr.A[0].T) {
				return
			}
			c.met("host marked", in)
			if st.get("busy") != "" {
				c.viol("host kept", in, st, "the host asked before may still be marked as busy, and is never asked again")
			}
			st.set("busy", "1")
			if v, known := st.eval(st.load(mkHasCell(addr.A[0], addr.A[1]))); known && v {
				st.set("busy", "") // by another download
			}
			st.mem[gBusy] = addr.A[1]
		},
		MapDelete: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
			if !downloadTable(c.P, m.T) {
				return
			}
			c.met("host released", in)
			if st.get("busy") == "" || !d.sameKey(x, st, key, st.mem[gBusy]) {
				c.viol("other host", in, st, "a host is released that this download did not mark as busy: %s", key)
			}
			st.set("busy", "")
		},
		Go: func(x *Exec, st, child *State, ci *CallInfo) {
			if releases(c.P, ci.Callee, map[*ssa.Function]bool{}) {
				st.set("busy", "") // its task now
			} else {
				child.set("busy", "")
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller == nil && st.get("busy") != "" {
				c.violAt("host kept", c.P.pos(fr.Fn.Pos()), relName(fr.Fn), st, "the host may still be marked as busy when the download ends, and is never asked again")
			}
		},
	}, c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
		if m != "MissingChunks" {
			return
		}
		c.met("chunks sought", ci.Instr)
		o.St.mem[gWanted] = mkNil(gWanted.T)
		if !d.asked(x, o.St, ci.Args[1]) {
			c.viol("other file", ci.Instr, o.St, "missing chunks of another file are sought: %s", ci.Args[1])
		} else if ok {
			o.St.mem[gWanted] = o.Ret[0]
		}
	}), d.hooks())
}

// ruleC45cat: what is reported as missing are the clear bits of the file's own bitmap
func ruleC45cat(c *Ctx, fn *ssa.Function) {
	ra := &rootArgsOf{}
	of := map[*Term]*Term{}
	bf := c.bitFields()
	c.run(fn, ra.hooks(), &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if c.bitsetMethod(ci) != "UnfilledRanges" {
				return nil, false
			}
			rs := x.freshResults(st, ci.Results, ci.Name, ci.Args)
			b := bitmapAddr(st, ci.Args[0])
			if b.K == KAlloc { // a copy
				b = st.load(mkAddrF(b, bf.words))
			}
			of[rs[0]] = b
			return []Outcome{{st, rs}}, true
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			for a := addr; a != nil && (a.K == KAddrF || a.K == KAddrI); a = a.A[0] {
				b := a.A[0]
				for b.K == KSlice {
					b = b.A[0]
				}
				if of[b] != nil {
					c.viol("other chunks", in, st, "the list of missing chunks is changed: %s", addr)
				}
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go || st.nilness(rets[len(rets)-1]) == 2 {
				return
			}
			c.metAt("missing chunks", relName(fn))
			for _, s := range x.sources(rets[0]) {
				for s.K == KSlice {
					s = s.A[0]
				}
				if b := of[s]; b == nil || !c.heldUnder(st, b, ra.arg(1)) {
					c.violAt("other chunks", c.P.pos(fn.Pos()), relName(fn), st, "the chunks reported as missing are not the clear bits of the file's own bitmap: %s", s)
				}
			}
		},
	}, c.bitQueries())
}

func init() {
	register(&Rule{
		ID: "C45",
		Explain: "Value-flow and typestate analysis of downloads: every chunk requested lies inside a range that the catalogue, asked for the same file before, reported as missing; a host is marked as busy, and was not before, when a chunk is requested from it; " +
			"the mark is taken away, under the same file and host, on every path before the next host is marked and before the download ends. What the catalogue reports as missing are the clear bits of the bitmap of the record under the hash it was asked for.",
		Units: func(P *Program) []string {
			var us []string
			for _, f := range []*ssa.Function{P.Method("flu", "Server", "StartDownload"), P.Method("catalogue", "Cat", "MissingChunks")} {
				if f == nil {
					panic("StartDownload or MissingChunks not found")
				}
				us = append(us, relName(f))
			}
			return us
		},
		Run: ruleC45, Min: map[string]int{"chunk requested": 1, "host marked": 1, "host released": 1, "chunks sought": 1, "missing chunks": 1},
	})
}
