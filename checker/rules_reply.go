package main

// C25 (requests and their answers)

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// netWrite: a call that sends bytes to the network; what is sent, and the address if it names one
func netWrite(ci *CallInfo) (data, conn, addr *Term) {
	n := ci.Name
	i := strings.LastIndex(n, ".")
	if i < 0 || !strings.HasPrefix(n[i+1:], "Write") || len(ci.Args) < 2 {
		return nil, nil, nil
	}
	recv := strings.TrimLeft(n[:i], "(*")
	if ci.Method == nil && !strings.HasPrefix(recv, "net.") || ci.Method != nil && (ci.Method.Pkg() == nil || ci.Method.Pkg().Path() != "net") {
		return nil, nil, nil
	}
	for _, a := range ci.Args[1:] {
		if e := sliceElemT(a.T); e != nil && isByteT(e) && data == nil {
			data = a
		} else if data != nil && isNilable(a.T) {
			addr = a
		}
	}
	return data, ci.Args[0], addr
}

// unface: the value inside an interface
func unface(t *Term) *Term {
	for t != nil && (t.K == KIface || t.K == KConv && isNilable(t.T)) {
		t = t.A[0]
	}
	return t
}

// embedded: the object a pointer to its first embedded field belongs to
func embedded(t *Term) *Term {
	for t != nil && t.K == KAddrF {
		s := structOf(ptrElem(t.A[0].T))
		if s == nil || !s.Field(t.F).Embedded() {
			break
		}
		t = t.A[0]
	}
	return t
}

type endpoint struct{ ip, port, whole *Term }

type replies struct {
	c      *Ctx
	ra     *rootArgsOf
	dialed map[*Term]endpoint
}

func (r *replies) address(st *State, a *Term) endpoint {
	a = unface(a)
	if ptrElem(a.T) != nil && fldAddr(a, "IP") != nil {
		return endpoint{fld(st, a, "IP"), fld(st, a, "Port"), a}
	}
	return endpoint{nil, nil, a}
}

func (r *replies) hooks(sent func(x *Exec, st *State, ci *CallInfo, w *Term, to endpoint)) *Hooks {
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if data, conn, addr := netWrite(ci); data != nil {
				for _, w := range x.sources(rootOf(data)) {
					if !isWire(w) {
						continue
					}
					to := endpoint{}
					if addr != nil {
						to = r.address(st, addr)
					} else {
						to = r.dialed[embedded(unface(conn))]
					}
					sent(x, st, ci, w, to)
				}
				return nil, false
			}
			if strings.HasPrefix(ci.Name, "net.Dial") && ci.Results.Len() == 2 {
				to := r.address(st, ci.Args[len(ci.Args)-1])
				return outside(x, st, ci, func(o *Outcome, ok bool) {
					if ok {
						r.dialed[embedded(unface(o.Ret[0]))] = to
					}
				}), true
			}
			return nil, false
		},
	}
}

func msgChan(t types.Type, P *Program) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	m := P.Named("flu/messages", "Message")
	e := ch.Elem()
	return m != nil && (types.Identical(e, m) || types.Implements(e, m.Underlying().(*types.Interface)))
}

// parts of a composite key
func parts(k *Term) []*Term {
	if k.K == KStruct {
		return k.A
	}
	return []*Term{k}
}

// waiterKey: the number and the kind in the key of a table of waiters
func waiterKey(x *Exec, k *Term) (id *Term, tag int64, ok bool) {
	for _, p := range parts(k) {
		b, isB := p.T.Underlying().(*types.Basic)
		if !isB || b.Info()&types.IsInteger == 0 {
			continue
		}
		if n, c := stripSame(p).isConstInt(); c && sizes.Sizeof(b) == 1 {
			tag, ok = n, true
		} else if sizes.Sizeof(b) >= 2 {
			id = p
		}
	}
	return id, tag, ok && id != nil
}

// request kinds and what answers them
func (P *Program) requestOf(answer *types.Named) *types.Named {
	for _, n := range P.messageTypes() {
		if a := P.answerTo(n); a != nil && a == answer && a.Obj().Name() != "DataPacket" {
			return n
		}
	}
	return nil
}

var (
	gReqID  = ghost("number of the request", types.Typ[types.Uint16])
	gWaiter = ghost("channel registered", types.NewPointer(types.Typ[types.Int]))
	gRegID  = ghost("number registered", types.Typ[types.Uint16])
)

// requester: what a request and the way it waits for its answer look like
type requester struct {
	table   bool   // waits at a table of waiters
	port    string // the field of the server that holds the port asked
	counter map[string]bool
}

func (r *replies) requester(fn *ssa.Function, report bool) requester {
	c := r.c
	out := requester{counter: map[string]bool{}}
	viol := func(rule string, in ssa.Instruction, st *State, f string, a ...interface{}) {
		if report {
			c.viol(rule, in, st, f, a...)
		}
	}
	met := func(rule string, in ssa.Instruction) {
		if report {
			c.met(rule, in)
		}
	}
	class := func(a *Term) string {
		if a.K != KAddrF || !isInt(ptrElem(a.T)) {
			return ""
		}
		return memClass(a)
	}
	type pend struct {
		in  ssa.Instruction
		st  *State
		msg string
	}
	badStore := map[string][]pend{}
	visited := map[ssa.Instruction]bool{}
	numbers := map[*Term]bool{} // the numbers requests were given
	var unregistered []pend
	taken := func(cl string, old bool) *Term {
		if old {
			return ghost("counter before "+cl, tInt)
		}
		return ghost("counter after "+cl, tInt)
	}
	st := newState()
	st.mem[gReqID] = mkSym("none", gReqID.T)
	st.mem[gWaiter] = mkNil(ptrElem(gWaiter.T))
	st.mem[gRegID] = mkSym("none", gRegID.T)
	server := c.P.Named("flu", "Server")
	for i, s := 0, structOf(server); i < s.NumFields(); i++ {
		if isInt(s.Field(i).Type()) {
			cl := "flu.Server." + s.Field(i).Name()
			st.mem[taken(cl, true)] = mkSym("none", tInt)
			st.mem[taken(cl, false)] = mkSym("none", tInt)
		}
	}
	h := &Hooks{
		Keep: func(st *State) []*Term {
			out := []*Term{st.mem[gReqID], st.mem[gWaiter]}
			for n := range numbers {
				out = append(out, n)
			}
			return out
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if cl := class(addr); cl != "" && st.mem[taken(cl, true)] != nil {
				if r := rootOf(addr); st.freshRoot(r) && st.objs[r] {
					return
				}
				visited[in] = true
				old := st.load(addr)
				if stripNum(old) == stripNum(st.mem[taken(cl, false)]) {
					old = st.mem[taken(cl, true)] // moved on again
				}
				if !next(x, st, val, old) {
					badStore[cl] = append(badStore[cl], pend{in, st, fmt.Sprintf("request numbers are not handed out one after the other: %s after %s", val, old)})
				}
				st.mem[taken(cl, true)] = old
				st.mem[taken(cl, false)] = val
			}
			if addr.K == KAddrM && msgChan(val.T, c.P) {
				met("registered", in)
				id, tag, ok := waiterKey(c.x, addr.A[1])
				if !ok {
					viol("registered", in, st, "a waiter is registered under a key that does not show number and kind: %s", addr.A[1])
					return
				}
				st.mem[gRegID] = id
				st.mem[gWaiter] = val
				st.set("registered", fmt.Sprint(tag))
				out.table = true
			}
		},
		MapDelete: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
			mt, ok := m.T.Underlying().(*types.Map)
			if !ok || !msgChan(mt.Elem(), c.P) {
				return
			}
			id, tag, ok := waiterKey(c.x, key)
			if ok && st.mem[gRegID] != nil && st.eqInt(stripSame(id), stripSame(st.mem[gRegID])) && st.get("registered") == fmt.Sprint(tag) {
				st.set("registered", "")
			}
		},
		Recv: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if msgChan(ch.T, c.P) {
				met("received", in)
				if w := st.mem[gWaiter]; w != ch {
					viol("other waiter", in, st, "an answer is taken from a channel other than the one registered for the request: %s", ch)
				}
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			in := fn.Blocks[0].Instrs[0]
			met("left", in)
			if st.get("registered") != "" {
				viol("left registered", in, st, "a request ends with its waiter still registered")
			}
			// the answer returned
			for _, v := range rets {
				n := namedOf(ptrElem(v.T))
				if n == nil || v.K == KNil || st.nilness(v) == 1 || c.P.requestOf(n) == nil {
					continue
				}
				if e := rets[len(rets)-1]; isErrorT(e.T) && st.nilness(e) == 2 {
					continue
				}
				met("answer taken", in)
				got := fld(st, v, "RequestID")
				id := st.mem[gReqID]
				same := id != nil && st.eqInt(stripSame(got), stripSame(id))
				for n := range numbers { // a number taken before the goroutine that sends it was started
					same = same || st.eqInt(stripSame(got), n)
				}
				if !same {
					viol("other request", in, st, "the answer to another request may be taken as the answer to this one: %s, not %s", fld(st, v, "RequestID"), id)
				}
			}
		},
	}
	c.runWith(fn, nil, st, c.cutCat(nil), c.cutParse(), r.ra.hooks(), h,
		c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
			if c.P.answerTo(n) == nil {
				return
			}
			id := fld(st, msg, "RequestID")
			if id == nil {
				return
			}
			met("request numbered", ci.Instr)
			st.mem[gReqID] = id
			numbers[stripSame(id)] = true
			// where does the number come from?
			s := id
			for s.K == KConv && isInt(s.T) && sizes.Sizeof(s.T) >= 2 {
				s = s.A[0]
			}
			for _, s := range x.sources(s) {
				cl := ""
				for g, v := range st.mem {
					if g.K == KApp && strings.HasPrefix(g.Name, "ghost:counter ") && v != nil && stripNum(v) == stripNum(s) {
						cl = g.Name[strings.LastIndex(g.Name, " ")+1:]
					}
				}
				if cl == "" && s.K == KApp && strings.HasPrefix(s.Name, "sync/atomic.Add") && len(s.A) == 2 {
					if k, ok := s.A[1].isConstInt(); ok && k == 1 {
						continue
					}
				}
				if cl == "" && s.K == KApp && strings.Contains(s.Name, "atomic.") && strings.Contains(s.Name, ".Add#") {
					if k, ok := s.A[len(s.A)-1].isConstInt(); ok && k == 1 {
						continue
					}
				}
				if cl == "" {
					viol("number", ci.Instr, st, "the number of a request is not taken from a counter that is moved on with it: %s", s)
					continue
				}
				out.counter[cl] = true
			}
		}),
		r.hooks(func(x *Exec, st *State, ci *CallInfo, w *Term, to endpoint) {
			n := c.P.Named("flu/messages", strings.TrimPrefix(w.Name, "wire:"))
			a := c.P.answerTo(n)
			if a == nil || c.wiredField(w, "RequestID") == nil {
				return
			}
			met("request sent", ci.Instr)
			if _, f := fieldOf(to.port); to.port != nil && f != "" {
				out.port = f
			}
			tag, _ := c.P.tagOf(a)
			id := c.wiredField(w, "RequestID")
			if g := st.mem[gRegID]; st.get("registered") != fmt.Sprint(tag) || g == nil || !st.eqInt(stripSame(g), stripSame(id)) {
				unregistered = append(unregistered, pend{ci.Instr, st, "a request is sent for whose number and kind of answer no waiter is registered"})
			}
		}))
	if report {
		for _, p := range unregistered {
			if out.table {
				viol("registered", p.in, p.st, "%s", p.msg)
			}
		}
		for cl := range out.counter {
			for _, p := range badStore[cl] {
				viol("number", p.in, p.st, "%s", p.msg)
			}
			r.otherStores(cl, visited)
		}
	}
	return out
}

// stripNum: conversions that keep at least 16 bits
func stripNum(t *Term) *Term {
	for t.K == KConv && isInt(t.T) && isInt(t.A[0].T) && sizes.Sizeof(t.T) >= 2 {
		t = t.A[0]
	}
	return t
}

// next: val is old + 1, up to multiples of 65536
func next(x *Exec, st *State, val, old *Term) bool {
	v := stripNum(val)
	if sizes.Sizeof(old.T) < 2 {
		return false
	}
	one := mkInt(1, old.T)
	if d := linOf(v).sub(linOf(old)); st.entails(d.addK(-1)) && st.entails(d.scale(bigNeg).addK(1)) {
		return true
	}
	if v.K == KBin {
		switch v.Op {
		case token.REM:
			if k, ok := v.A[1].isConstInt(); ok && k > 0 && k%65536 == 0 {
				return next(x, st, v.A[0], old)
			}
		case token.AND:
			for i := 0; i < 2; i++ {
				if k, ok := v.A[i].isConstInt(); ok && k > 0 && (k+1)%65536 == 0 {
					return next(x, st, v.A[1-i], old)
				}
			}
		case token.ADD:
			return stripNum(v.A[0]) == stripNum(old) && st.eqInt(v.A[1], one) || stripNum(v.A[1]) == stripNum(old) && st.eqInt(v.A[0], one)
		}
	}
	if k, ok := v.isConstInt(); ok && k == 0 {
		return st.leq(mkInt(65535, old.T), old) || st.leq(mkInt(65536, old.T), x.arith(st, tokADD, old, one, old.T))
	}
	return false
}

// otherStores: the counter is moved nowhere else
func (r *replies) otherStores(cl string, visited map[ssa.Instruction]bool) {
	for _, f := range r.c.P.all {
		if !r.c.P.inMod(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || visited[in] {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(ptrElem(fa.X.Type()))
				if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+structOf(n).Field(fa.Field).Name() != cl {
					continue
				}
				if _, own := fa.X.(*ssa.Alloc); own {
					continue
				}
				r.c.viol("number", in, nil, "the counter of request numbers is set elsewhere")
			}
		}
	}
}

func (r *replies) answers(fn *ssa.Function) {
	c := r.c
	var port string
	table := map[*types.Named]bool{}
	for _, f := range c.P.requesters() {
		q := (&replies{c: c, ra: &rootArgsOf{}, dialed: map[*Term]endpoint{}}).requester(f, false)
		for _, n := range c.P.messageTypes() {
			if a := c.P.answerTo(n); a != nil && strings.HasPrefix(f.Name(), strings.TrimSuffix(n.Obj().Name(), "Request")) || a != nil && strings.HasPrefix(n.Obj().Name(), "DiscoverHost") && f.Name() == "DiscoverHosts" {
				table[a] = q.table
				if q.table && q.port != "" {
					port = q.port
				}
			}
		}
	}
	asker := func() *Term {
		for i, p := range fn.Params {
			if n := namedOf(ptrElem(p.Type())); n != nil && n.Obj().Name() == "UDPAddr" {
				return r.ra.arg(i)
			}
		}
		return nil
	}
	c.run(fn, c.cutCat(nil), c.cutParse(), r.ra.hooks(),
		c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
			q := c.P.requestOf(n)
			if q == nil {
				return
			}
			c.met("answer numbered", ci.Instr)
			o, f := fieldOf(fld(st, msg, "RequestID"))
			if o == nil || f != "RequestID" || namedOf(ptrElem(o.T)) != q || !contains(o, func(t *Term) bool { return t.K == KApp && strings.Contains(t.Name, "messages.Parse") }) {
				c.viol("answer number", ci.Instr, st, "an answer does not repeat the number of the request it answers: %s", fld(st, msg, "RequestID"))
			}
		}),
		r.hooks(func(x *Exec, st *State, ci *CallInfo, w *Term, to endpoint) {
			n := c.P.Named("flu/messages", strings.TrimPrefix(w.Name, "wire:"))
			if c.P.requestOf(n) == nil {
				return
			}
			c.met("answer sent", ci.Instr)
			a := asker()
			if a == nil {
				return
			}
			ip, p := fld(st, a, "IP"), fld(st, a, "Port")
			same := func(u, v *Term) bool { return u != nil && (u == v || st.eqInt(u, v)) }
			switch {
			case to.whole == a && !table[n]:
			case to.ip == nil && to.whole != nil && contains(to.whole, func(t *Term) bool { return t == a || t == ip }):
			case to.ip == nil || !(to.ip == ip || sameBytes(st, to.ip, ip)):
				c.viol("answer address", ci.Instr, st, "an answer is sent to an address that is not the asker's: %s", to.ip)
			case table[n]:
				if _, f := fieldOf(to.port); f != port || port == "" {
					c.viol("answer address", ci.Instr, st, "an answer is sent to a port at which its request does not wait: %s", to.port)
				}
			case !same(to.port, p):
				c.viol("answer address", ci.Instr, st, "an answer is sent to a port at which its request does not wait: %s", to.port)
			}
		}),
		&Hooks{Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if !msgChan(ch.T, c.P) {
				return
			}
			c.met("delivered", in)
			a := valAddr(ch)
			if a == nil || a.K != KAddrM {
				c.viol("delivered", in, st, "a response is delivered to a channel that is not taken from the table of waiters: %s", ch)
				return
			}
			id, tag, ok := waiterKey(x, a.A[1])
			var o *Term
			f := ""
			if id != nil {
				o, f = fieldOf(id)
			}
			from := func(t *Term) *Term {
				var out *Term
				contains(t, func(s *Term) bool {
					if s.K == KApp && strings.Contains(s.Name, "messages.Parse") && out == nil {
						out = s
					}
					return false
				})
				return out
			}
			if !ok || o == nil || f != "RequestID" || from(o) == nil || from(o) != from(val) {
				c.viol("delivered", in, st, "a response is delivered to the waiter of another request: %s", a.A[1])
				return
			}
			n := namedOf(ptrElem(o.T))
			if k, isTag := c.P.tagOf(n); !isTag || k != tag || c.P.requestOf(n) == nil {
				c.viol("delivered", in, st, "a response is delivered to the waiter for another kind of response: %d", tag)
			}
		}})
}

// sameBytes: one is a view of the other
func sameBytes(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.K == KApp && strings.Contains(a.Name, ".To4") || a.K == KApp && strings.Contains(a.Name, ".To16") {
		return sameBytes(st, a.A[0], b)
	}
	return isSliceT(a.T) && isSliceT(b.T) && st.content(a) == st.content(b)
}

func (P *Program) requesters() []*ssa.Function {
	var out []*ssa.Function
	for _, m := range []string{"DiscoverHosts", "ListFilesOnHost"} {
		f := P.Method("flu", "Server", m)
		if f == nil {
			panic("Server." + m + " not found")
		}
		out = append(out, f)
	}
	return out
}

func init() {
	register(&Rule{
		ID: "C25",
		Explain: "Value-flow and typestate analysis of requests and answers: an answer's number is that field of the request parsed, its destination the asker's address (and the port at which requests of that kind wait); " +
			"request numbers come from a counter that every path moves on by one, modulo 65536, with the number it takes; a response goes only to the channel stored under its own number and tag; " +
			"a waiter is registered under number and kind before the request is sent, received from nowhere else, and removed on every way out; a response read directly has its number compared.",
		Units: func(P *Program) []string {
			out := []string{relName(P.handler())}
			for _, f := range P.requesters() {
				out = append(out, relName(f))
			}
			return out
		},
		Run: func(c *Ctx, u string) {
			fn := c.P.byRel(u)
			r := &replies{c: c, ra: &rootArgsOf{}, dialed: map[*Term]endpoint{}}
			if fn == c.P.handler() {
				r.answers(fn)
				return
			}
			r.requester(fn, true)
		},
		Min: map[string]int{"answer numbered": 2, "answer sent": 1, "delivered": 1, "request numbered": 2, "request sent": 2, "registered": 1, "received": 1, "answer taken": 1},
	})
}
