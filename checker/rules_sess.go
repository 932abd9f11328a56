package main

// C43 (upload sessions)

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sessionMap: a table of ongoing uploads
func sessionMap(P *Program, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	e := m.Elem()
	if p := ptrElem(e); p != nil {
		e = p
	}
	n := P.Named("flu", "SenderConnection")
	return n != nil && namedOf(e) == n
}

// wholePeer: what the key of a session leaves out of the peer's address
func wholePeer(x *Exec, st *State, key, peer *Term) string {
	ip, port := fld(st, peer, "IP"), stripNum(fld(st, peer, "Port"))
	var hasIP, hasPort bool
	for _, p := range parts(key) {
		switch p.T.Underlying().(type) {
		case *types.Basic:
			if isInt(p.T) {
				hasPort = hasPort || stripNum(p) == port
				continue
			}
			// a text made from the address
			if contains(p, func(t *Term) bool {
				return t == peer || t.K == KApp && strings.Contains(t.Name, "UDPAddr") && strings.Contains(t.Name, ".String") && len(t.A) > 0 && t.A[0] == peer
			}) {
				hasIP, hasPort = true, true
			}
			hasIP = hasIP || contains(p, func(t *Term) bool { return t == ip })
			hasPort = hasPort || contains(p, func(t *Term) bool { return stripNum(t) == port })
		case *types.Array:
			b := addrBase(x, st, p)
			hasIP = hasIP || b != nil && b == ip
		default:
			if contains(p, func(t *Term) bool {
				return t.K == KApp && strings.Contains(t.Name, "AddrPort") && len(t.A) > 0 && t.A[0] == peer
			}) {
				hasIP, hasPort = true, true
			}
		}
	}
	switch {
	case !hasIP:
		return "all octets of the peer's address"
	case !hasPort:
		return "the peer's port"
	}
	return ""
}

func ruleC43(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	peer := func() *Term {
		for i, p := range fn.Params {
			if n := namedOf(ptrElem(p.Type())); n != nil && n.Obj().Name() == "UDPAddr" {
				return ra.arg(i)
			}
		}
		panic("the handler is not told a peer's address")
	}
	ack := c.P.Named("flu/messages", "DataPacketAck")
	sender := c.P.Named("flu", "SenderConnection")
	c.run(fn, c.cutCat(nil), c.cutParse(), ra.hooks(), copies.hooks(), &Hooks{
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K == KAddrM && sessionMap(c.P, addr.A[0].T) {
				c.met("session kept", in)
				if w := wholePeer(x, st, addr.A[1], peer()); w != "" {
					c.viol("session kept", in, st, "a session is kept under a key that does not hold %s: %s", w, addr.A[1])
				}
			}
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			e := ch.T.Underlying().(*types.Chan).Elem()
			if p := ptrElem(e); p != nil {
				e = p
			}
			if namedOf(e) != ack {
				return
			}
			c.met("ack passed on", in)
			o, _ := fieldOf(ch)
			if o == nil || namedOf(ptrElem(o.T)) != sender {
				c.viol("ack passed on", in, st, "an ack is passed to something else than a session: %s", ch)
				return
			}
			a := valAddr(o)
			if a == nil || a.K != KAddrM || !sessionMap(c.P, a.A[0].T) {
				c.viol("ack passed on", in, st, "an ack is passed to a session that is not the one kept for its sender: %s", o)
				return
			}
			if w := wholePeer(x, st, a.A[1], peer()); w != "" {
				c.viol("ack passed on", in, st, "an ack is passed to a session found under a key that does not hold %s: %s", w, a.A[1])
			}
			off := val
			if ptrElem(val.T) != nil {
				off = fld(st, val, "Offset")
			} else if i := fieldIndex(ack, "Offset"); i >= 0 {
				off = mkField(val, i)
			}
			q, f := fieldOf(off)
			if q == nil || f != "Offset" || !contains(q, func(t *Term) bool { return t.K == KApp && strings.Contains(t.Name, "messages.Parse") }) {
				c.viol("ack passed on", in, st, "an ack is passed on with another offset than the one it was sent with: %s", off)
			}
		},
	})
}

func init() {
	register(&Rule{
		ID: "C43",
		Explain: "Value-flow analysis from HandleMessage: every session is stored in the table of uploads under a key that holds all four octets of its peer's address and all sixteen bits of its port, and an ack is sent, " +
			"with its own offset, only to the channel of the session found in that table under the complete address the ack came from.",
		Units: func(P *Program) []string { return []string{relName(P.handler())} },
		Run:   ruleC43, Min: map[string]int{"session kept": 1, "ack passed on": 1},
	})
}
