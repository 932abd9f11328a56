package main

// C21, C22, C35 (uploads)

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	gRequest = "request"  // the request being handled
	gReader  = "reader"   // the reader of the chunk asked for
	gTable   = "table"    // the table the session is listed in
	gTableK  = "tablekey" // under what
	gSession = "session"  // and the session
)

type uploads struct {
	c      *Ctx
	prop   string
	ra     *rootArgsOf
	req    *types.Named
	reader *types.Named
	closes []*Term // what was closed
	copied *Term   // where the copy being made ends
}

func (u *uploads) met(p, what string, in ssa.Instruction) {
	if u.prop == p {
		u.c.met(what, in)
	}
}

func (u *uploads) viol(p, rule string, in ssa.Instruction, st *State, f string, a ...interface{}) {
	if u.prop == p {
		u.c.viol(rule, in, st, f, a...)
	}
}

// note, noted: what is followed once per path
func note(st *State, name string, v *Term) {
	for a := range st.mem {
		if a.K == KApp && a.Name == "ghost:"+name {
			delete(st.mem, a)
		}
	}
	st.mem[ghost(name, v.T)] = v
}

func noted(st *State, name string) *Term {
	for a, v := range st.mem {
		if a.K == KApp && a.Name == "ghost:"+name {
			return v
		}
	}
	return nil
}

var gUnacked = ghost("unacked", tInt)

func (u *uploads) isReader(x *Exec, st *State, t *Term) bool {
	r := noted(st, gReader)
	if r == nil {
		return false
	}
	for _, s := range x.sources(rootOf(embedded(unface(t)))) {
		if s != r {
			return false
		}
	}
	return true
}

// ofReader: a value inside some reader of a chunk
func (u *uploads) ofReader(t *Term) bool {
	t = unface(t)
	for t != nil && t.K == KAddrF {
		t = t.A[0]
		if namedOf(ptrElem(t.T)) == u.reader {
			return true
		}
	}
	return false
}

func (u *uploads) sectionPos(st *State, r *Term) *Term {
	return cell("position", rootOf(embedded(unface(r))), tInt64)
}

// request: a field of the request
func (u *uploads) field(st *State, name string) *Term {
	m := noted(st, gRequest)
	if m == nil {
		return nil
	}
	return st.load(fldAddr(m, name))
}

func (u *uploads) chunkReader(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
	st := o.St
	if m == "Contains" && ok && len(ci.Args) > 1 {
		st.mem[cell("asked", o.Ret[0], types.Typ[types.Bool])] = mkBool(u.sameFile(x, st, ci.Args[1]))
		st.set("looked up", "1")
	}
	if m != "GetChunkReader" || !ok {
		return
	}
	u.met("C21", "reader", ci.Instr)
	if noted(st, gRequest) == nil {
		u.viol("C21", "request", ci.Instr, st, "a chunk is opened although no open request is being handled")
		return
	}
	if !u.sameFile(x, st, ci.Args[1]) {
		u.viol("C21", "other file", ci.Instr, st, "the file opened is not the one requested: %s", ci.Args[1])
	}
	if want := u.field(st, "Chunk"); !st.eqInt(stripSame(ci.Args[2]), stripSame(want)) {
		u.viol("C21", "other chunk", ci.Instr, st, "the chunk opened is not the one requested: %s", ci.Args[2])
	}
	r := o.Ret[0]
	note(st, gReader, r)
	st.mem[cell("position", r, tInt64)] = mkInt(0, tInt64)
	st.mem[gUnacked] = mkInt(0, tInt)
	st.set("reader", "open")
	st.set("acked", "")
}

// sameFile: the hash is the one requested, or that of the record found under it
func (u *uploads) sameFile(x *Exec, st *State, h *Term) bool {
	want := u.field(st, "Sha1Hash")
	if want == nil {
		return false
	}
	if sameContent(x, st, h, want) {
		return true
	}
	found := func(r *Term) bool {
		v := st.mem[cell("asked", r, types.Typ[types.Bool])]
		if v == nil {
			return false
		}
		t, known := st.eval(v)
		return known && t
	}
	if h.K == KAddrF && found(h.A[0]) {
		return true
	}
	// a copy of its hash
	if ptrElem(h.T) != nil {
		if v := st.load(h); v.K == KLoad && v.A[0].K == KAddrF && found(v.A[0].A[0]) {
			return true
		}
		for a, v := range st.mem {
			if a.K == KApp && a.Name == "ghost:asked" && found(a.A[0]) && v != nil {
				if f := fldAddr(a.A[0], "Sha1Hash"); f != nil && sameContent(x, st, h, f) {
					return true
				}
			}
		}
	}
	return false
}

func bufOf(s *Term) (root, lo, hi *Term) {
	if s.K == KSlice {
		return rootOf(s), s.A[1], s.A[2]
	}
	return s, mkInt(0, tInt), mkLen(s)
}

// written: part of a buffer is overwritten
func (u *uploads) written(st *State, root, lo, hi *Term) {
	apart := func(a, b *Term) bool { // [a,b) and what is written
		return st.leq(b, lo) || st.leq(hi, a)
	}
	z, h, e := mkInt(0, tInt), mkInt(20, tInt), mkInt(24, tInt)
	if !apart(z, h) {
		delete(st.mem, cell("hash", root, types.Typ[types.Bool]))
	}
	if !apart(h, e) {
		delete(st.mem, cell("size", root, types.Typ[types.Bool]))
	}
	a, b := st.mem[cell("readlo", root, tInt)], st.mem[cell("readhi", root, tInt)]
	if a != nil && b != nil && !apart(a, b) {
		delete(st.mem, cell("readlo", root, tInt))
		delete(st.mem, cell("readhi", root, tInt))
	}
}

func (u *uploads) send(x *Exec, st *State, ci *CallInfo, w, addr *Term) {
	in := ci.Instr
	opening := st.get("opened") == ""
	to := u.ra.arg(3)
	if addr != nil && to != nil {
		for _, s := range x.sources(unface(addr)) {
			if s != to && !sameContent(x, st, s, to) {
				u.viol("C21", "other peer", in, st, "a data packet is sent to another address than the one that asked: %s", addr)
			}
		}
	}
	d, off := u.c.wiredField(w, "Data"), u.c.wiredField(w, "Offset")
	root, lo, hi := bufOf(d)
	get := func(n string, t types.Type) *Term { return st.mem[cell(n, root, t)] }
	yes := func(n string) bool {
		v := get(n, types.Typ[types.Bool])
		if v == nil {
			return false
		}
		t, known := st.eval(v)
		return known && t
	}
	rlo, rhi, rat := get("readlo", tInt), get("readhi", tInt), get("readat", tInt64)
	if opening {
		u.met("C21", "opening packet", in)
		switch {
		case rlo == nil || rhi == nil || rat == nil:
			u.viol("C21", "opening", in, st, "the data of the opening packet is not what was read from the chunk requested: %s", d)
		case !st.eqInt(lo, mkInt(0, tInt)) || !st.eqInt(rlo, mkInt(24, tInt)) || !st.eqInt(hi, rhi):
			u.viol("C21", "opening", in, st, "the opening packet is not a header of 24 bytes followed by what was read: %s", d)
		case !st.eqInt(rat, mkInt(0, tInt64)):
			u.viol("C21", "opening", in, st, "the data of the opening packet does not start at the beginning of the chunk: %s", rat)
		case !st.eqInt(off, mkInt(0, off.T)):
			u.viol("C21", "opening", in, st, "the opening packet does not state position 0: %s", off)
		}
		if !yes("hash") {
			u.viol("C21", "announced hash", in, st, "the hash announced is not that of the chunk requested")
		}
		if !yes("size") {
			u.viol("C21", "announced size", in, st, "the size announced is not that of the chunk requested")
		}
		return
	}
	u.met("C21", "data packet", in)
	switch {
	case rlo == nil || rhi == nil || rat == nil:
		u.viol("C21", "data", in, st, "what is sent is not what was read from the chunk requested: %s", d)
	case !st.eqInt(lo, rlo) || !st.eqInt(hi, rhi):
		u.viol("C21", "data", in, st, "what is sent is not exactly what was read last: %s", d)
	case !st.eqInt(stripSame(off), stripSame(rat)):
		u.viol("C21", "position", in, st, "the position stated is not the one the data was read from: %s, read from %s", off, rat)
	}
	u.met("C35", "counted send", in)
	if want := u.field(st, "WindowCap"); want == nil || !st.lss(st.mem[gUnacked], stripSame(want)) {
		u.viol("C35", "window", in, st, "a packet may be sent although the receiver's window is full")
	}
}

func isAckChan(t types.Type, P *Program) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	e := ch.Elem()
	if p := ptrElem(e); p != nil {
		e = p
	}
	n := namedOf(e)
	return n != nil && n.Obj().Name() == "DataPacketAck" || msgChan(t, P)
}

func (u *uploads) worker(st *State) bool { return st.get("worker") != "" }

// waits: the worker waits for an ack
func (u *uploads) waits(x *Exec, st *State, in ssa.Instruction, chans []*Term) {
	if !u.worker(st) {
		return
	}
	u.met("C22", "worker waits", in)
	if st.get("stopped") != "" {
		u.viol("C22", "goes on", in, st, "the session waits on although it was told to stop or its peer fell silent")
	}
	if st.get("failed") != "" {
		u.viol("C22", "goes on", in, st, "the session waits on after an error")
	}
	timed := false
	for _, ch := range chans {
		if t := timerOf(ch); t != nil && len(t.A) > 0 && fixedTime(t.A[len(t.A)-1]) {
			timed = true
		}
	}
	if !timed {
		u.viol("C22", "silence", in, st, "the session does not end when its peer falls silent")
	}
	eof := st.get("eof") != ""
	if eof {
		told := false
		for _, ch := range chans {
			for _, s := range x.sources(ch) {
				if k := chanSite(s); k != "" && !isAckChan(ch.T, u.c.P) {
					told = told || st.get("token "+k) != ""
				}
			}
		}
		if !told {
			u.viol("C22", "end", in, st, "the session waits on after its last packet, with nothing to tell it to stop")
		}
	}
	if st.get("acked") != "" && !eof {
		u.met("C35", "refilled", in)
		if want := u.field(st, "WindowCap"); want == nil || !st.leq(stripSame(want), st.mem[gUnacked]) {
			u.viol("C35", "wedged", in, st, "the session waits for acks although its window may have room: %s sent and not acknowledged", st.mem[gUnacked])
		}
	}
}

// told: a signal waits on the channel from now on
func (u *uploads) told(x *Exec, st *State, ch *Term, closed bool) {
	if closed {
		u.closes = append(u.closes, ch)
	}
	for _, s := range x.sources(ch) {
		if k := chanSite(s); k != "" && (closed || st.leq(mkInt(1, tInt), stripSame(s.A[0]))) {
			st.set("token "+k, "1")
		}
	}
}

func (u *uploads) listed(st *State, in ssa.Instruction) {
	if st.get("listed") == "" {
		return
	}
	m, k, v := noted(st, gTable), noted(st, gTableK), noted(st, gSession)
	if m == nil || k == nil || v == nil {
		return
	}
	if t, known := st.eval(st.load(mkHasCell(m, k))); known && !t {
		st.set("listed", "")
	}
	if t, known := st.eval(mkCmp(tokEQL, st.load(mkAddrM(m, k)), v)); known && !t {
		st.set("listed", "")
	}
}

func (u *uploads) hooks() *Hooks {
	c := u.c
	tBool := types.Typ[types.Bool]
	return &Hooks{
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			for _, d := range c.P.decoders() {
				if ci.Callee == d && len(rets) > 0 && isIface(rets[0].T) {
					note(st, gRequest, mkApp("assert", types.NewPointer(u.req), rets[0]))
				}
			}
			if ci.Builtin == "copy" {
				root, lo, hi := bufOf(ci.Args[0])
				if r := noted(st, gReader); r != nil && st.eqInt(lo, mkInt(0, tInt)) && st.leq(mkInt(20, tInt), hi) {
					want := fldAddr(fldAddr(r, "Hash"), "Data")
					_, slo, shi := bufOf(ci.Args[1])
					n := x.arith(st, tokADD, slo, mkInt(20, tInt), tInt)
					if want != nil && st.eqInt(shi, n) && unarr(st.load(want)) == st.content(ci.Args[1]) {
						st.mem[cell("hash", root, tBool)] = mkBool(true)
					}
				}
			}
			if strings.HasSuffix(ci.Name, "Endian).PutUint32") && strings.Contains(ci.Name, "big") {
				root, lo, _ := bufOf(ci.Args[len(ci.Args)-2])
				v := ci.Args[len(ci.Args)-1]
				for v.K == KConv {
					v = v.A[0]
				}
				if r := noted(st, gReader); r != nil && st.eqInt(lo, mkInt(20, tInt)) && st.eqInt(v, fld(st, r, "Size")) {
					st.mem[cell("size", root, tBool)] = mkBool(true)
				}
			}
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K == KAddrI {
				root := rootOf(addr)
				hi := x.arith(st, tokADD, addr.A[1], mkInt(1, tInt), tInt)
				if cl, ok := in.(ssa.CallInstruction); ok && cl != nil {
					hi = mkInt(1<<40, tInt) // as far as the slice goes
					if b, ok := cl.Common().Value.(*ssa.Builtin); ok && b.Name() == "copy" && u.copied != nil {
						hi = u.copied
					}
				}
				u.written(st, root, addr.A[1], hi)
			}
			if addr.K == KAddrM && ptrElem(val.T) != nil && noted(st, gReader) != nil && reaches(x, st, val, noted(st, gReader)) {
				u.met("C22", "listed", in)
				note(st, gTable, addr.A[0])
				note(st, gTableK, addr.A[1])
				note(st, gSession, val)
				st.set("listed", "1")
			}
		},
		MapDelete: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
			t, k, v := noted(st, gTable), noted(st, gTableK), noted(st, gSession)
			if t == nil || m.T.String() != t.T.String() {
				return
			}
			u.met("C22", "removed", in)
			own, known := false, false
			if m == t && key == k {
				own, known = st.eval(mkCmp(tokEQL, st.load(mkAddrM(m, key)), v))
			}
			if !own || !known {
				u.viol("C22", "other session", in, st, "removes a table entry that may belong to another session")
				return
			}
			st.set("listed", "")
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			name, a := ci.Name, ci.Args
			if ci.IsGo && hasBody(ci.Callee) {
				return nil, false
			}
			switch lockOp(name) {
			case "unlock", "runlock":
				u.listed(st, ci.Instr)
			}
			if name == "(*sync.Once).Do" && len(a) > 1 && (a[1].K == KClosure || a[1].K == KFunc && hasBody(a[1].Fn)) {
				// done by the time the call returns, by whomever
				u.closes = nil
				x.Run(a[1].Fn, nil, a[1].A, st.clone(), ci.Frame, ci.Instr)
				for _, ch := range u.closes {
					u.told(x, st, ch, true)
				}
			}
			if ci.Builtin == "copy" {
				_, lo, _ := bufOf(a[0])
				n := mkLen(a[1])
				if m := mkLen(a[0]); st.leq(m, n) {
					n = m
				}
				u.copied = x.arith(st, tokADD, lo, n, tInt)
			}
			if ci.Builtin == "close" {
				once := false
				for f := ci.Frame; f != nil; f = f.Caller {
					if cl, ok := f.Site.(ssa.CallInstruction); ok && f.Site != nil {
						if g := cl.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*sync.Once)") {
							once = true
						}
					}
				}
				if u.met("C22", "closed", ci.Instr); !once {
					u.viol("C22", "closed twice", ci.Instr, st, "a channel of a session may be closed twice")
				}
				u.told(x, st, a[0], true)
				return nil, false
			}
			if len(a) > 0 && u.ofReader(a[0]) && strings.HasPrefix(name, "(*io.SectionReader).") {
				mine := u.isReader(x, st, a[0])
				pos := st.mem[u.sectionPos(st, a[0])]
				switch {
				case strings.HasSuffix(name, ".Seek"):
					w, k := a[2].isConstInt()
					p := mkSym("position", tInt64)
					if k && w == 0 {
						p = a[1]
					} else if k && w == 1 && pos != nil {
						p = x.arith(st, tokADD, pos, a[1], tInt64)
					}
					st.mem[u.sectionPos(st, a[0])] = p
					if o, ok := a[1].isConstInt(); ok && o >= 0 && k && w <= 1 {
						return []Outcome{{st, []*Term{p, mkNil(ci.Results.At(1).Type())}}}, true
					}
					return []Outcome{{st, []*Term{p, mkSym("err", ci.Results.At(1).Type())}}}, true
				case isReadCall(name):
					u.met("C21", "read", ci.Instr)
					if !mine {
						u.viol("C21", "earlier session", ci.Instr, st, "data is read from something else than the chunk requested: %s", a[0])
					}
					buf := a[1]
					at := pos
					if len(a) > 2 {
						at = a[2] // ReadAt
					}
					if at == nil {
						at = mkSym("position", tInt64)
					}
					root, lo, _ := bufOf(buf)
					outs := x.extern(st, ci)
					for i := range outs {
						o := &outs[i]
						n := o.Ret[0]
						if !failed(o) && o.St.leq(mkInt(1, tInt), mkLen(buf)) {
							o.St.addFact(linOf(n).addK(-1))
						}
						hi := x.arith(o.St, tokADD, lo, n, tInt)
						if len(a) == 2 {
							p := x.arith(o.St, tokADD, at, n, tInt64)
							o.St.addFact(linOf(p))
							o.St.mem[u.sectionPos(o.St, a[0])] = p
						}
						if failed(o) && o.Ret[1] != eofTerm(o.St) {
							o.St.set("failed", "1")
							continue
						}
						if mine {
							o.St.mem[cell("readlo", root, tInt)] = lo
							o.St.mem[cell("readhi", root, tInt)] = hi
							o.St.mem[cell("readat", root, tInt64)] = at
						}
						if failed(o) && u.worker(o.St) {
							o.St.set("eof", "1")
						}
					}
					return outs, true
				}
			}
			if strings.HasSuffix(name, ".Close") && len(a) > 0 && u.isReader(x, st, a[0]) && namedOf(ptrElem(a[0].T)) == u.reader {
				st.set("reader", "")
				return apart(x, st, ci, nil), true
			}
			if data, _, addr := netWrite(ci); data != nil {
				sent := false
				for _, w := range x.sources(rootOf(data)) {
					if isWire(w) && w.Name == "wire:DataPacket" {
						sent = true
						u.send(x, st, ci, w, addr)
					}
				}
				outs := outside(x, st, ci, nil)
				for _, o := range outs {
					if failed(&o) {
						o.St.set("failed", "1")
					}
					if sent {
						o.St.set("opened", "1")
						o.St.mem[gUnacked] = x.arith(o.St, tokADD, o.St.mem[gUnacked], mkInt(1, tInt), tInt)
					}
				}
				return outs, true
			}
			return nil, false
		},
		Alloc: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, obj *Term) {
			if _, ok := in.(*ssa.MakeChan); ok && isAckChan(obj.T, c.P) && noted(st, gReader) != nil {
				u.met("C35", "ack queue", in)
				if want := u.field(st, "WindowCap"); want == nil || !st.leq(stripSame(want), stripSame(obj.A[0])) {
					u.viol("C35", "ack queue", in, st, "the queue of acks is shorter than the window: %s", obj.A[0])
				}
			}
		},
		Fork: func(x *Exec, st *State, ch, val *Term) []*State {
			if !u.worker(st) || !isAckChan(ch.T, c.P) {
				return nil
			}
			un := st.mem[gUnacked]
			s := st.clone()
			var out []*State
			if s.assume(mkCmp(tokEQL, un, mkInt(0, tInt)), true) {
				out = append(out, s) // a surplus ack
			}
			st.addFact(linOf(un).addK(-1))
			st.mem[gUnacked] = x.arith(st, tokADD, un, mkInt(-1, tInt), tInt)
			return out
		},
		Recv: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				u.waits(x, st, in, []*Term{ch})
			}
			if !u.worker(st) {
				return
			}
			if isAckChan(ch.T, c.P) {
				st.set("acked", "1")
			} else {
				st.set("stopped", "1")
			}
		},
		Select: func(x *Exec, st *State, fr *Frame, in *ssa.Select, chans []*Term) {
			for k, s := range in.States {
				if s.Dir == types.SendOnly {
					if u.met("C22", "told or fed", in); in.Blocking {
						u.viol("C22", "blocks", in, st, "feeding or stopping a session may wait for ever")
					} else if u.worker(st) {
						u.told(x, st, chans[k], false)
					}
				}
			}
			if in.Blocking {
				u.waits(x, st, in, chans)
			}
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				u.met("C22", "told or fed", in)
				u.viol("C22", "blocks", in, st, "feeding or stopping a session may wait for ever")
			}
			u.told(x, st, ch, false)
		},
		Go: func(x *Exec, st, child *State, ci *CallInfo) {
			r := noted(st, gReader)
			mine := false
			for _, v := range append(append([]*Term{ci.FnVal}, ci.Args...), ci.Binds...) {
				mine = mine || r != nil && v != nil && reaches(x, st, v, r)
			}
			if mine {
				child.set("worker", "1")
				st.set("reader", "")
				st.set("listed", "")
				u.met("C22", "worker", ci.Instr)
				if st.get("opened") == "" {
					u.viol("C21", "opening", ci.Instr, st, "the session goes on without an opening packet")
				}
			} else {
				child.set("reader", "")
				child.set("listed", "")
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil {
				return
			}
			u.listed(st, nil)
			var in ssa.Instruction
			if fr.Go {
				in = fr.Site
			}
			what := "a session ends"
			if !u.worker(st) {
				what = "an upload that did not start ends"
			}
			if st.get("reader") != "" {
				u.viol("C22", "left open", in, st, "%s with its file open", what)
			}
			if st.get("listed") != "" {
				u.viol("C22", "left listed", in, st, "%s and stays in the table of sessions", what)
			}
		},
		Keep: func(st *State) []*Term {
			var out []*Term
			for a, v := range st.mem {
				if a.K == KApp && strings.HasPrefix(a.Name, "ghost:") {
					out = append(out, v)
					if a.Name == "ghost:asked" {
						out = append(out, a.A[0])
					}
				}
			}
			if w := u.field(st, "WindowCap"); w != nil {
				out = append(out, w)
			}
			return out
		},
	}
}

func ruleUploads(c *Ctx, prop, unit string) {
	u := &uploads{c: c, prop: prop, ra: &rootArgsOf{}, req: c.P.Named("flu/messages", "OpenConnectionRequest"), reader: c.P.Named("common", "ChunkReader")}
	if u.req == nil || u.reader == nil {
		panic("OpenConnectionRequest or ChunkReader not found")
	}
	st := newState()
	st.mem[gUnacked] = mkInt(0, tInt)
	c.runWith(c.P.byRel(unit), nil, st, u.ra.hooks(), c.cutParse(),
		c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) { u.chunkReader(x, o, ok, ci, m) }), c.wired(nil), u.hooks())
}

func init() {
	units := func(P *Program) []string { return []string{relName(P.handler())} }
	register(&Rule{
		ID: "C21",
		Explain: "Value-flow analysis from an open request to every data packet of its session: the reader is opened for the requested hash and chunk, every read of the session is from that reader, the opening packet is " +
			"the reader's hash and size and a read at position 0, and every later packet is exactly the bytes of the last read with the position before that read.",
		Units: units, Run: func(c *Ctx, u string) { ruleUploads(c, "C21", u) },
		Min: map[string]int{"reader": 1, "opening packet": 1, "data packet": 1, "read": 1},
	})
	register(&Rule{
		ID: "C22",
		Explain: "Typestate analysis of upload sessions: the worker never waits again after an error, a stop signal or its time limit, nor after the end of the data without a stop signal pending; every wait has a time limit; " +
			"on every way out the reader is closed and the session's own table entry (no other) is removed; nothing sent to a session can block the sender.",
		Units: units, Run: func(c *Ctx, u string) { ruleUploads(c, "C22", u) },
		Min: map[string]int{"worker waits": 1, "worker": 1, "listed": 1, "removed": 1, "told or fed": 1},
	})
	register(&Rule{
		ID: "C35",
		Explain: "Numeric abstract interpretation of the upload window with a ghost count of packets sent and not acknowledged (surplus acks leave it at zero): every send after the opening packet happens with the count below the " +
			"receiver's window, and every wait for acks after the first ack happens with the count at the window or the data at its end; the queue of acks holds a whole window.",
		Units: units, Run: func(c *Ctx, u string) { ruleUploads(c, "C35", u) },
		Min: map[string]int{"counted send": 1, "refilled": 1, "ack queue": 1},
	})
}
