package main

// C32 (what the daemon exposes to the network)

import (
	"net"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopbackHost: the host part of a constant address names this machine only
func loopbackHost(addr string) bool {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		h = addr
	}
	if h == "localhost" {
		return true
	}
	ip := net.ParseIP(h)
	return ip != nil && ip.IsLoopback()
}

// exposure of an address, listener or connection: unix, loopback, public or ?
func exposure(st *State, network, addr *Term) string {
	if network != nil {
		s, ok := network.constStr()
		if !ok {
			return "?"
		}
		if strings.HasPrefix(s, "unix") {
			return "unix"
		}
	}
	if addr == nil {
		return "public"
	}
	for addr.K == KIface {
		addr = addr.A[0]
	}
	if s, ok := addr.constStr(); ok {
		if loopbackHost(s) {
			return "loopback"
		}
		return "public"
	}
	if n := namedOf(ptrElem(addr.T)); n != nil {
		switch n.Obj().Name() {
		case "UnixAddr", "UnixListener", "UnixConn":
			return "unix"
		case "TCPAddr", "UDPAddr", "IPAddr":
			if addr.K == KApp && strings.HasPrefix(addr.Name, "net.Resolve") {
				return exposure(st, nil, addr.A[len(addr.A)-1])
			}
			if ip := fld(st, addr, "IP"); ip != nil && loopbackIP(st, ip) {
				return "loopback"
			}
			return "public"
		}
	}
	return "?"
}

func loopbackIP(st *State, ip *Term) bool {
	switch {
	case ip.K == KApp && strings.HasPrefix(ip.Name, "net.IPv4"):
		n, ok := ip.A[0].isConstInt()
		return ok && n == 127
	case ip.K == KApp && strings.HasPrefix(ip.Name, "ParseIP"):
		s, ok := ip.A[0].constStr()
		return ok && loopbackHost(s)
	case ip.K == KLoad && ip.A[0].K == KGlobal:
		return ip.A[0].Name == "net.IPv6loopback"
	}
	return false
}

// listening: the exposure of what a call starts to listen on
func listening(st *State, name string, a []*Term) string {
	switch name {
	case "net.Listen", "net.ListenPacket", "crypto/tls.Listen":
		return exposure(st, a[0], a[1])
	case "(*net.ListenConfig).Listen", "(*net.ListenConfig).ListenPacket":
		return exposure(st, a[2], a[3])
	case "net.ListenUnix", "net.ListenUnixgram":
		return "unix"
	case "net.ListenTCP", "net.ListenUDP", "net.ListenIP":
		return exposure(st, a[0], a[1])
	}
	return "?"
}

func serving(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	p, f := strings.TrimLeft(name[:i], "(*"), name[i+1:]
	if !strings.HasPrefix(p, "net") && !strings.HasPrefix(p, "crypto/tls") {
		return false
	}
	return strings.HasPrefix(f, "Listen") || strings.HasPrefix(f, "Serve") || f == "HandleHTTP" || f == "FileListener" || f == "FilePacketConn" || f == "FileConn" ||
		f == "Accept" && strings.Contains(p, "rpc")
}

func ruleC32(c *Ctx, u string) {
	fn := c.P.byRel(u)
	listeners := map[*Term]string{}
	via := func(st *State, t *Term) string {
		out := ""
		for t.K == KIface {
			t = t.A[0]
		}
		if n := namedOf(ptrElem(t.T)); n != nil && n.Obj().Pkg().Path() == "net" && strings.HasPrefix(n.Obj().Name(), "Unix") {
			return "unix"
		}
		contains(t, func(s *Term) bool {
			if e, ok := listeners[s]; ok && out == "" {
				out = e
			}
			return false
		})
		if out == "" {
			return "?"
		}
		return out
	}
	rpc := map[*ssa.Function]bool{}
	for _, m := range c.P.rpcRoots() {
		rpc[m] = true
	}
	var peerPort *Term
	seen := map[ssa.Instruction]bool{}
	judge := func(x *Exec, st *State, ci *CallInfo) {
		name, a := ci.Name, ci.Args
		seen[ci.Instr] = true
		local := func(e, what string) {
			if e != "unix" && e != "loopback" {
				c.viol("exposed", ci.Instr, st, "%s can be reached from other hosts (%s)", what, e)
			}
		}
		switch {
		case strings.HasPrefix(name, "net.Listen") || strings.Contains(name, "ListenConfig)") || name == "crypto/tls.Listen":
			e := listening(st, name, a)
			udp := name == "net.ListenUDP"
			if s, ok := a[0].constStr(); ok && strings.HasPrefix(s, "udp") {
				udp = true
			}
			if udp && e == "public" {
				c.met("peer port", ci.Instr)
				var port *Term
				if ad := a[len(a)-1]; ad.K != KNil && ptrElem(ad.T) != nil {
					port = fld(st, ad, "Port")
				}
				if name == "net.ListenUDP" && (port == nil || peerPort == nil || !st.eqInt(port, peerPort)) {
					c.viol("exposed", ci.Instr, st, "a UDP port other than the peers' is opened to the network: %s", port)
				}
				return
			}
			local(e, "what listens here")
		case name == "net/http.ListenAndServe" || name == "net/http.ListenAndServeTLS":
			c.met("http", ci.Instr)
			local(exposure(st, nil, a[0]), "the HTTP server")
		case name == "(*net/http.Server).ListenAndServe" || name == "(*net/http.Server).ListenAndServeTLS":
			c.met("http", ci.Instr)
			local(exposure(st, nil, fld(st, a[0], "Addr")), "the HTTP server")
		case name == "net/http.Serve" || name == "net/http.ServeTLS":
			c.met("http", ci.Instr)
			local(via(st, a[0]), "the HTTP server")
		case name == "(*net/http.Server).Serve" || name == "(*net/http.Server).ServeTLS":
			c.met("http", ci.Instr)
			local(via(st, a[1]), "the HTTP server")
		case strings.HasSuffix(name, ".HandleHTTP") || strings.HasSuffix(name, "Server).ServeHTTP"):
			c.viol("rpc", ci.Instr, st, "CLI commands are offered over HTTP")
		case strings.HasSuffix(name, "rpc.Accept"), strings.HasSuffix(name, "rpc.ServeConn"), strings.HasSuffix(name, "rpc.ServeCodec"), strings.HasSuffix(name, "rpc.ServeRequest"),
			strings.Contains(name, "rpc.Server).Accept"), strings.Contains(name, "rpc.Server).Serve"):
			c.met("rpc", ci.Instr)
			t := a[0]
			if strings.Contains(name, ")") {
				t = a[1]
			}
			if e := via(st, t); e != "unix" {
				c.viol("rpc", ci.Instr, st, "CLI commands are offered on something that is not shown to be the Unix socket (%s)", e)
			}
		case strings.HasPrefix(name, "net/http.ServeFile"), strings.HasPrefix(name, "net/http.ServeContent"), strings.HasSuffix(name, "Mux).ServeHTTP"), strings.HasSuffix(name, "Handler).ServeHTTP"):
		default:
			c.viol("exposed", ci.Instr, st, "a service that is not understood: %s", name)
		}
	}
	hooks := &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee != nil && rpc[ci.Callee] && ci.Frame != nil && !rpc[ci.Frame.Fn] {
			c.viol("rpc", ci.Instr, st, "a CLI command is called from elsewhere in the daemon: %s", ci.Name)
		}
		if ci.Callee != nil && ci.Callee == c.P.handler() {
			c.met("messages", ci.Instr)
			return outside(x, st, ci, nil), true
		}
		if ci.Callee != nil && relName(ci.Callee) == "flu.NewServer" {
			for _, a := range ci.Args {
				if isInt(a.T) {
					peerPort = a
				}
			}
		}
		if !serving(ci.Name) {
			return nil, false
		}
		judge(x, st, ci)
		if strings.Contains(ci.Name, ".Listen") && ci.Results.Len() == 2 {
			e := listening(st, ci.Name, ci.Args)
			return outside(x, st, ci, func(o *Outcome, ok bool) {
				if ok {
					listeners[o.Ret[0]] = e
				}
			}), true
		}
		return nil, false
	}}
	c.run(fn, c.cutCat(nil), hooks)
	if u != relName(c.P.mainFunc()) {
		return
	}
	// sites main does not lead to
	for _, f := range c.P.all {
		if !c.P.inMod(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if n := namedOf(ptrElem(mi.X.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/rpc" && n.Obj().Name() == "Server" {
						c.viol("rpc", in, nil, "the RPC server is used as %s", mi.Type())
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok || seen[in] {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.Pkg == nil || !serving(g.String()) {
					continue
				}
				st := newState()
				x := newExec(c.P, compose(hooks))
				top := f
				for top.Parent() != nil {
					top = top.Parent()
				}
				x.Run(top, x.rootArgs(top, st), nil, st, nil, nil)
				if !seen[in] {
					c.fact("unreached", c.P.posOf(in))
				}
			}
		}
	}
}

func init() {
	register(&Rule{
		ID: "C32",
		Explain: "Every call by which the program starts to listen or to serve is enumerated, with the terms of its address followed on every path from main: streams are listened for only on Unix sockets or loopback addresses, " +
			"HTTP is served only on loopback, the only UDP port opened to the network is the one given to the peer server, the RPC service is attached only to connections of the Unix listener and never to HTTP, and its methods are called from nowhere else.",
		Units: func(P *Program) []string { return []string{relName(P.mainFunc())} },
		Run:   ruleC32, Min: map[string]int{"peer port": 1, "rpc": 1, "messages": 1},
	})
}
