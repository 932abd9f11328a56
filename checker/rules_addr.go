package main

// C41 (whose address is used)

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// octetCopies: arrays of four octets filled one by one in a loop
type octetCopies struct {
	from   map[*Term]map[ssa.Instruction]*Term // array -> where its octets were taken from
	loaded map[*Term]map[*Term]bool            // value -> the arrays it was read from
}

var copies = &octetCopies{from: map[*Term]map[ssa.Instruction]*Term{}, loaded: map[*Term]map[*Term]bool{}}

// source: the one address copied into the array a value was read from
func (o *octetCopies) source(v *Term) *Term {
	if v.K == KArrLit {
		return nil
	}
	var out *Term
	for a := range o.loaded[v] {
		for _, s := range o.from[a] {
			if s == nil || out != nil && s != out {
				return nil
			}
			out = s
		}
	}
	return out
}

func isOctets(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() == 4 && isByteT(a.Elem())
}

func (o *octetCopies) hooks() *Hooks {
	note := func(val, addr *Term) {
		if val == nil || val.K == KZero || !isOctets(val.T) {
			return
		}
		if o.loaded[val] == nil {
			o.loaded[val] = map[*Term]bool{}
		}
		o.loaded[val][addr] = true
	}
	return &Hooks{
		Edge: func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) {
			for a := range o.from {
				note(st.mem[a], a)
			}
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K != KAddrI || ptrElem(addr.A[0].T) == nil || !isOctets(ptrElem(addr.A[0].T)) {
				return
			}
			if _, c := addr.A[1].isConstInt(); c {
				return
			}
			arr, ix := addr.A[0], addr.A[1]
			var src *Term
			if a := valAddr(stripSame(val)); a != nil && a.K == KAddrI && st.eqInt(a.A[1], ix) && fourLong(x, st, a.A[0]) {
				src = addrBase(x, st, a.A[0])
			}
			if src != nil && (st.leq(ix, mkInt(2, tInt)) || st.leq(mkInt(1, tInt), ix)) {
				src = nil // leaves out the last or the first
			}
			if o.from[arr] == nil {
				o.from[arr] = map[ssa.Instruction]*Term{}
			}
			o.from[arr][in] = src // the last time it is analysed counts
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			note(val, addr)
		},
	}
}

// behind: what may be read through a pointer that was merged
func behind(x *Exec, st *State, v *Term) []*Term {
	if v.K != KLoad || v.A[0].K != KSym {
		return nil
	}
	var out []*Term
	for _, s := range x.sources(v.A[0]) {
		if s == v.A[0] {
			return nil
		}
		if s.K != KNil {
			out = append(out, st.load(s))
		}
	}
	return out
}

// fourLong: an address of four octets
func fourLong(x *Exec, st *State, a *Term) bool {
	if bs := behind(x, st, a); bs != nil {
		for _, b := range bs {
			if !fourLong(x, st, b) {
				return false
			}
		}
		return true
	}
	if is4(a) || isOctets(a.T) || ptrElem(a.T) != nil && isOctets(ptrElem(a.T)) {
		return true
	}
	if a.K == KConv {
		return fourLong(x, st, a.A[0])
	}
	return isSliceT(a.T) && st.eqInt(mkLen(a), mkInt(4, tInt))
}

// addrBase: the address all of whose octets v holds, in order; nil if v is something else
func addrBase(x *Exec, st *State, v *Term) *Term {
	for d := 0; d < 12 && v != nil; d++ {
		if s := copies.source(v); s != nil {
			v = s
			continue
		}
		if bs := behind(x, st, v); len(bs) == 1 {
			v = bs[0]
			continue
		}
		switch {
		case v.K == KConv:
			v = v.A[0]
			continue
		case v.K == KApp && (v.Name == "arr" || strings.HasPrefix(v.Name, "content")) && len(v.A) >= 1:
			v = v.A[0]
			continue
		case v.K == KApp && (is4(v) || is16(v)):
			v = v.A[0]
			continue
		case v.K == KApp && v.Name == "slice2arr" || v.K == KLoad && v.A[0].K == KApp && v.A[0].Name == "slice2arr":
			if v.K == KLoad {
				v = v.A[0]
			}
			v = v.A[0]
			continue
		case v.K == KSlice:
			if v.A[1] != nil && !st.eqInt(v.A[1], mkInt(0, tInt)) {
				return nil
			}
			if at := ptrElem(v.A[0].T); at != nil {
				w := st.load(v.A[0])
				if valAddr(w) == v.A[0] {
					return v.A[0]
				}
				v = w
			} else {
				v = v.A[0]
			}
			continue
		case v.K == KArrLit && len(v.A) == 4:
			var base *Term
			for i, e := range v.A {
				b, ok := octet(x, st, e, i)
				if !ok || base != nil && b != base {
					return nil
				}
				base = b
			}
			return base
		case v.K == KApp && strings.Contains(v.Name, "net.IPv4") && len(v.A) == 4:
			var base *Term
			for i, e := range v.A {
				b, ok := octet(x, st, e, i)
				if !ok || base != nil && b != base {
					return nil
				}
				base = b
			}
			return base
		case v.K == KAlloc:
			w := st.load(v)
			if w == nil || valAddr(w) == v {
				return v
			}
			v = w
			continue
		}
		if a := valAddr(v); a != nil && rootOf(a).K == KAlloc {
			if w := st.load(a); w != nil && w != v {
				v = w
				continue
			}
		}
		return v
	}
	return v
}

func is4(t *Term) bool  { return t.K == KApp && strings.Contains(t.Name, "To4") && len(t.A) >= 1 }
func is16(t *Term) bool { return t.K == KApp && strings.Contains(t.Name, "To16") && len(t.A) >= 1 }

// octet: the address of which e is octet i
func octet(x *Exec, st *State, e *Term, i int) (*Term, bool) {
	e = stripSame(e)
	var arr, ix *Term
	if a := valAddr(e); a != nil && a.K == KAddrI {
		arr, ix = a.A[0], a.A[1]
	} else if e.K == KIndexV {
		arr, ix = e.A[0], e.A[1]
	} else {
		return nil, false
	}
	want := int64(i)
	if is16(arr) {
		want += 12
	}
	if !st.eqInt(ix, mkInt(want, tInt)) || !is16(arr) && !fourLong(x, st, arr) {
		return nil, false
	}
	return addrBase(x, st, arr), true
}

// broadcast: the address every host of the network listens to
func broadcast(x *Exec, st *State, ip *Term) bool {
	if ip == nil {
		return false
	}
	for _, v := range []*Term{ip, st.content(ip)} {
		for d := 0; d < 6 && v != nil; d++ {
			var es []*Term
			switch {
			case v.K == KArrLit && len(v.A) == 4:
				es = v.A
			case v.K == KArrLit && len(v.A) == 16:
				es = v.A[12:]
				for i, e := range v.A[:12] {
					if k, ok := stripSame(e).isConstInt(); !ok || k != map[bool]int64{true: 255}[i >= 10] {
						return false
					}
				}
			case v.K == KApp && strings.Contains(v.Name, "net.IPv4") && len(v.A) == 4:
				es = v.A
			}
			if es != nil {
				ok := true
				for _, e := range es {
					k, isC := stripSame(e).isConstInt()
					ok = ok && isC && (k == 255 || k == -1)
				}
				return ok
			}
			if v.K == KApp && strings.Contains(v.Name, "net.ParseIP") && strings.Contains(v.String(), `"255.255.255.255"`) {
				return true
			}
			if contains(v, func(t *Term) bool { return t.K == KGlobal && strings.Contains(t.String(), "IPv4bcast") }) {
				return true
			}
			switch {
			case v.K == KConv || v.K == KApp && (v.Name == "arr" || strings.HasPrefix(v.Name, "content")) && len(v.A) >= 1 || is4(v) || is16(v):
				v = v.A[0]
				continue
			}
			break
		}
	}
	return false
}

// ownPort: the field of the server in which NewServer keeps its port
func (c *Ctx) ownPort(report bool) string {
	fn := c.P.Func("flu", "NewServer")
	if fn == nil {
		panic("NewServer not found")
	}
	ra := &rootArgsOf{}
	server := c.P.Named("flu", "Server")
	name := ""
	outs := c.run(fn, c.cutCat(nil), ra.hooks())
	for i := range outs {
		o := &outs[i]
		var port *Term
		for j, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				port = ra.arg(j)
			}
		}
		for _, r := range o.Ret {
			if namedOf(ptrElem(r.T)) != server {
				continue
			}
			s := structOf(server)
			for k := 0; k < s.NumFields(); k++ {
				if isInt(s.Field(k).Type()) && port != nil && stripNum(o.St.load(mkAddrF(r, k))) == stripNum(port) {
					name = s.Field(k).Name()
				}
			}
		}
		if report {
			c.metAt("port kept", relName(fn))
			if name == "" {
				c.violAt("port", "", relName(fn), o.St, "the server does not keep the port it was given")
			}
		}
	}
	return name
}

func (c *Ctx) isOwnPort(v *Term, field string) bool {
	if v == nil || field == "" {
		return false
	}
	o, f := fieldOf(stripNum(v))
	return o != nil && f == field && namedOf(ptrElem(o.T)) == c.P.Named("flu", "Server")
}

// addrParams: the address and the port among the arguments of an operation that asks a host
func addrParams(fn *ssa.Function, arg func(int) *Term) (ip, port *Term) {
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Array:
			if t.Len() == 4 && isByteT(t.Elem()) {
				ip = arg(i)
			}
		case *types.Slice:
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "IP" {
				ip = arg(i)
			}
		case *types.Basic:
			if t.Kind() == types.Uint16 && ip != nil && port == nil {
				port = arg(i)
			}
		}
	}
	return
}

var gOutside = ghost("address known not to be loopback", types.NewPointer(types.Typ[types.Int]))

type addrRule struct {
	c    *Ctx
	r    *replies
	port string
	loop map[*Term]bool // addresses asked whether they are loopback
}

func (a *addrRule) asks(fn *ssa.Function) {
	c := a.c
	disc := fn == c.P.Method("flu", "Server", "DiscoverHosts")
	judge := func(x *Exec, st *State, in ssa.Instruction, to endpoint) {
		if disc {
			c.met("discovery sent", in)
			if !broadcast(x, st, to.ip) {
				c.viol("broadcast", in, st, "a discovery request is sent to an address at which not every host listens: %s", to.ip)
			}
			if !c.isOwnPort(to.port, a.port) {
				c.viol("broadcast", in, st, "a discovery request is sent to a port at which hosts do not listen: %s", to.port)
			}
			return
		}
		ip, port := addrParams(fn, a.r.ra.arg)
		if ip == nil || port == nil {
			return
		}
		c.met("request sent", in)
		if to.ip == nil && to.whole != nil && contains(to.whole, func(t *Term) bool { return t == ip }) && contains(to.whole, func(t *Term) bool { return t == port }) {
			return
		}
		if to.ip == nil || addrBase(x, st, st.content(to.ip)) != ip && addrBase(x, st, to.ip) != ip {
			c.viol("host asked", in, st, "a request is sent to another host than the one named: %s", to.ip)
		}
		if to.port == nil || stripNum(to.port) != stripNum(port) {
			c.viol("host asked", in, st, "a request is sent to another port than the one named: %s", to.port)
		}
	}
	resp := c.P.Named("flu/messages", "DiscoverHostResponse")
	received := func(v *Term) bool {
		return contains(v, func(t *Term) bool { return t.K == KApp && strings.HasPrefix(t.Name, "recv") })
	}
	good := map[*Term]bool{}
	each := c.eachIteration("answer kept", "an answer that was received is not among those returned")
	h := &Hooks{
		Recv: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if disc && msgChan(ch.T, c.P) && val != nil {
				good[val] = true
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if disc && ci.Builtin == "append" && len(ci.Args) == 2 && isSliceT(ci.Args[0].T) && namedOf(sliceElemT(ci.Args[0].T)) == resp {
				c.met("answer kept", ci.Instr)
				n, k := mkLen(ci.Args[1]).isConstInt()
				for i := int64(0); k && i < n && i < 8; i++ {
					e := elemAddr(ci.Args[1], i)
					v := st.load(e)
					from := hostOfValue(st, v, e)
					ok := received(from)
					contains(from, func(t *Term) bool { ok = ok || good[t]; return false })
					if !ok {
						c.viol("answer kept", ci.Instr, st, "a host that did not answer is returned: %s", v)
					}
				}
				each.mark(x, st, ci.Frame, ci.Instr)
			}
			return nil, false
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if !disc || fr.Caller != nil || fr.Go {
				return
			}
			for _, v := range rets {
				if !isSliceT(v.T) || namedOf(sliceElemT(v.T)) != resp {
					continue
				}
				for _, s := range x.sources(v) {
					for s.K == KApp && strings.HasPrefix(s.Name, "append") {
						s = s.A[0]
					}
					if s.K == KMake || s.K == KSlice {
						if n, ok := mkLen(s).isConstInt(); !ok || n != 0 {
							c.viol("answer kept", fn.Blocks[0].Instrs[0], st, "hosts that did not answer are returned: %s", s)
						}
					}
				}
			}
		},
	}
	c.run(fn, c.cutCat(nil), c.cutParse(), a.r.ra.hooks(), copies.hooks(), h, c.wired(nil),
		a.r.hooks(func(x *Exec, st *State, ci *CallInfo, w *Term, to endpoint) { judge(x, st, ci.Instr, to) }),
		each.hooks(nil))
	each.finish()
}

// announces: what a host says about itself
func (a *addrRule) announces(fn *ssa.Function) {
	c := a.c
	st := newState()
	st.mem[gOutside] = mkNil(gOutside.T)
	c.runWith(fn, nil, st, c.cutCat(nil), c.cutParse(), a.r.ra.hooks(), copies.hooks(), &Hooks{
		Keep: func(st *State) []*Term { return []*Term{st.mem[gOutside]} },
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if !strings.HasSuffix(ci.Name, ".IsLoopback") || len(ci.Args) == 0 || ci.Results.Len() != 1 {
				return nil, false
			}
			yes, no := st.clone(), st
			for _, s := range x.sources(ci.Args[0]) {
				if s = addrBase(x, st, s); s != nil {
					a.loop[s] = true
					no.mem[gOutside] = s
					yes.mem[gOutside] = mkNil(gOutside.T)
				}
			}
			return []Outcome{{no, []*Term{mkBool(false)}}, {yes, []*Term{mkBool(true)}}}, true
		},
	}, c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
		if n.Obj().Name() != "DiscoverHostResponse" {
			return
		}
		c.met("announced", ci.Instr)
		if p := fld(st, msg, "Port"); !c.isOwnPort(p, a.port) {
			c.viol("announced", ci.Instr, st, "a host announces a port that is not its own: %s", p)
		}
		v := fld(st, msg, "Address")
		b := addrBase(x, st, v)
		if b == nil {
			c.viol("announced", ci.Instr, st, "the address announced is not, octet by octet, one address of this host: %s", v)
			return
		}
		var all []*Term
		for _, s := range x.sources(b) {
			if bs := behind(x, st, s); bs != nil {
				all = append(all, bs...)
			} else {
				all = append(all, s)
			}
		}
		for _, s := range all {
			s = addrBase(x, st, s)
			if s == nil || s.K == KNil || s.K == KZero {
				continue
			}
			if !contains(s, func(t *Term) bool { return t.K == KApp && strings.Contains(t.Name, "net.Interface") }) {
				c.viol("announced", ci.Instr, st, "the address announced is not one of this host: %s", s)
				continue
			}
			known := false
			for _, q := range x.sources(st.mem[gOutside]) {
				known = known || q == s
			}
			if !known && (s == b && len(all) == 1 || !a.loop[s]) {
				c.viol("announced", ci.Instr, st, "the address announced may be the loopback address: %s", s)
			}
		}
	}))
}

func (a *addrRule) lists(fn *ssa.Function) {
	c := a.c
	target := c.P.Method("flu", "Server", "ListFilesOnHost")
	c.run(fn, c.cutCat(nil), a.r.ra.hooks(), copies.hooks(), &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee == nil || ci.Callee != target {
			return nil, false
		}
		c.met("list asked", ci.Instr)
		ip, port := addrParams(target, func(i int) *Term { return ci.Args[i] })
		want := fld(st, a.r.ra.arg(1), "IP")
		if want == nil {
			panic("ListRequest.IP not found")
		}
		if b := addrBase(x, st, ip); b == nil || b != want {
			c.viol("list asked", ci.Instr, st, "a list is asked of another host than the one named: %s", ip)
		}
		if !c.isOwnPort(port, a.port) {
			c.viol("list asked", ci.Instr, st, "a list is asked at a port at which hosts do not listen: %s", port)
		}
		return outside(x, st, ci, nil), true
	}})
}

func init() {
	dial := func(P *Program) *ssa.Function { return P.Func("flu", "DialPeer") }
	list := func(P *Program) *ssa.Function { return P.Method("cli", "Methods", "List") }
	register(&Rule{
		ID: "C41",
		Explain: "Value-flow analysis of the addresses requests are sent to and hosts announce: a discovery request goes to the broadcast address at the field in which NewServer keeps the server's port; " +
			"list and chunk requests go to exactly the four octets and the port passed in, and Methods.List passes the octets of the address named in the request, each in its place, and the server's port; " +
			"a discovery answer carries one non-loopback interface address of this host, each octet in its place, and the server's port; the hosts returned by a discovery are the answers received, all of them and nothing else.",
		Units: func(P *Program) []string {
			us := []string{"flu.NewServer", relName(P.handler())}
			for _, f := range P.requesters() {
				us = append(us, relName(f))
			}
			for _, f := range []*ssa.Function{dial(P), list(P)} {
				if f != nil {
					us = append(us, relName(f))
				}
			}
			return us
		},
		Run: func(c *Ctx, u string) {
			if u == "flu.NewServer" {
				c.ownPort(true)
				return
			}
			fn := c.P.byRel(u)
			a := &addrRule{c: c, r: &replies{c: c, ra: &rootArgsOf{}, dialed: map[*Term]endpoint{}}, loop: map[*Term]bool{}}
			a.port = c.ownPort(false)
			switch fn {
			case c.P.handler():
				a.announces(fn)
			case list(c.P):
				a.lists(fn)
			default:
				a.asks(fn)
			}
		},
		Min: map[string]int{"port kept": 1, "announced": 1, "discovery sent": 1, "request sent": 1, "list asked": 1, "answer kept": 1},
	})
}
