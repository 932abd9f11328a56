package main

// C42 (what the commands ask for)

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cliRule follows what was typed to the request sent to the daemon
type cliRule struct {
	c  *Ctx
	ra *rootArgsOf
}

func (r *cliRule) words() *Term { return r.ra.arg(1) }

// word: the value is word i of what was typed
func (r *cliRule) word(st *State, v *Term, i int64) bool {
	if v == nil {
		return false
	}
	for v.K == KConv {
		v = v.A[0]
	}
	return v == st.load(elemAddr(r.words(), i))
}

// given: word i was typed
func (r *cliRule) given(st *State, i int64) (yes, no bool) {
	n := mkLen(r.words())
	return st.lss(mkInt(i, tInt), n), st.leq(n, mkInt(i, tInt))
}

const blankName = "blank hash"

// blanks: Blank writes a hash that is recognised
func (r *cliRule) hooks() *Hooks {
	blank := r.c.P.Method("common", "Sha1Hash", "Blank")
	return &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee == nil || ci.Callee != blank {
			return nil, false
		}
		h := ci.Args[0]
		s := structOf(ptrElem(h.T))
		for i := 0; i < s.NumFields(); i++ {
			st.store(mkAddrF(h, i), mkApp(blankName, s.Field(i).Type()))
		}
		return []Outcome{{st, []*Term{h}}}, true
	}}
}

// hash: what is wrong with the hash sent when word i names it (opt: it may be left out)
func (r *cliRule) hash(x *Exec, st *State, p *Term, i int64, opt bool) string {
	if st.nilness(p) != 2 {
		return "no hash may be sent"
	}
	yes, no := r.given(st, i)
	v := st.load(mkAddrF(p, 0))
	for _, v := range x.sources(v) {
		for v.K == KStruct && len(v.A) == 1 {
			v = v.A[0]
		}
		if v.K == KApp && v.Name == blankName {
			if !opt {
				return "no file is named"
			}
			if !no {
				return "the hash typed may be ignored"
			}
			continue
		}
		if !yes {
			return "a file may be named that was not typed"
		}
		w := v
		for w.K == KConv || w.K == KApp && (w.Name == "arr" || strings.HasPrefix(w.Name, "content") || w.Name == "slice2arr") && len(w.A) >= 1 {
			w = w.A[0]
		}
		if w.K != KApp || !strings.Contains(w.Name, "DecodeString") || !r.word(st, w.A[len(w.A)-1], i) {
			return fmt.Sprintf("the hash sent is not the one typed: %s", v)
		}
		if !st.eqInt(mkLen(w), mkInt(20, tInt)) {
			return "a text that is no hash may be sent as one"
		}
	}
	return ""
}

// tooMany: a number of words other than n may have been typed
func (r *cliRule) tooMany(st *State, n int64) bool {
	return !st.eqInt(mkLen(r.words()), mkInt(n, tInt))
}

func constString(t *Term) (string, bool) {
	for t.K == KConv || t.K == KIface {
		t = t.A[0]
	}
	if t.K == KConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (r *cliRule) sent(x *Exec, st *State, in ssa.Instruction, method string, req *Term) {
	c := r.c
	field := func(n string) *Term {
		v := fld(st, req, n)
		if v == nil {
			panic("field " + n + " of the request of " + method + " not found")
		}
		return v
	}
	bad := func(w string) {
		if w != "" {
			c.viol("asked", in, st, "%s: %s", method, w)
		}
	}
	name := strings.ToLower(method[strings.LastIndex(method, ".")+1:])
	c.met("asked "+name, in)
	for t, v := range st.truth {
		if t.K == KBin && t.Op == token.EQL && v {
			for i := 0; i < 2; i++ {
				if s, ok := constString(t.A[i]); ok && r.word(st, t.A[1-i], 0) && s != name {
					bad("sent when another command was typed: " + s)
				}
			}
		}
	}
	switch name {
	case "share":
		if !r.word(st, field("Filepath"), 1) {
			bad(fmt.Sprintf("the file named is not the one typed: %s", field("Filepath")))
		}
		if r.tooMany(st, 2) {
			bad("sent when not exactly one file may have been typed")
		}
	case "clean":
		if r.tooMany(st, 1) {
			bad("sent when more than the command may have been typed")
		}
	case "get":
		bad(r.hash(x, st, field("Sha1Hash"), 1, false))
		if r.tooMany(st, 2) {
			bad("sent when not exactly one hash may have been typed")
		}
	case "chims":
		bad(r.hash(x, st, field("Sha1Hash"), 1, true))
	case "list":
		bad(r.hash(x, st, field("Sha1Hash"), 2, true))
		yes, no := r.given(st, 1)
		ip := field("IP")
		for _, v := range x.sources(ip) {
			if st.nilness(v) == 1 || v.K == KNil || v.K == KZero || st.eqInt(mkLen(v), mkInt(0, tInt)) {
				if !no {
					bad("the address typed may be ignored")
				}
				continue
			}
			w := v
			for w.K == KConv || is4(w) || is16(w) {
				w = w.A[0]
			}
			switch {
			case !yes:
				bad("an address may be sent that was not typed")
			case w.K != KApp || !strings.Contains(w.Name, "ParseIP") || !r.word(st, w.A[len(w.A)-1], 1):
				bad(fmt.Sprintf("the address sent is not the one typed: %s", v))
			case st.nilness(w) != 2:
				bad("a text that is no address may be sent as one, and is taken to mean this host")
			}
		}
	}
}

func (r *cliRule) client(fn *ssa.Function) {
	c := r.c
	methods := map[string]rpcMethod{}
	for _, s := range c.P.rpcServices() {
		for _, m := range s.Methods {
			methods[s.Name+"."+m.Name] = m
		}
	}
	shown := func(t *Term) bool { return t.K == KApp && t.Name == "shown" }
	c.run(fn, r.ra.hooks(), r.hooks(), &Hooks{
		Keep: func(st *State) []*Term { return nil },
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case ci.Name == "(*net/rpc.Client).Call":
				m, ok := constString(ci.Args[1])
				if !ok {
					c.viol("asked", ci.Instr, st, "the method called in the daemon is not fixed: %s", ci.Args[1])
					return nil, false
				}
				req, res := unface(ci.Args[2]), unface(ci.Args[3])
				rm, ok := methods[m]
				if !ok {
					c.viol("asked", ci.Instr, st, "the daemon has no method %s", m)
					return nil, false
				}
				elem := func(t types.Type) types.Type {
					if p := ptrElem(t); p != nil {
						return p
					}
					return t
				}
				if !types.Identical(elem(rm.Arg), elem(req.T)) || !types.Identical(rm.Reply, res.T) {
					c.viol("asked", ci.Instr, st, "%s is called with values of other types: %s, %s", m, req.T, res.T)
					return nil, false
				}
				if ptrElem(req.T) == nil { // a request passed by value
					c.viol("asked", ci.Instr, st, "%s: the request is not passed by reference", m)
					return nil, false
				}
				r.sent(x, st, ci.Instr, m, req)
				outs := apart(x, st, ci, nil)
				for i := range outs {
					o := &outs[i]
					if failed(o) {
						o.St.set("pending", "error")
					} else {
						o.St.set("pending", "answer")
					}
				}
				return outs, true
			case strings.HasSuffix(ci.Name, ").Sprintf") && len(ci.Args) == 1 && ci.Results.Len() == 1 && (ci.Method != nil || ci.Callee != nil && c.P.inMod(ci.Callee)):
				return []Outcome{{st, []*Term{mkApp("shown", ci.Results.At(0).Type(), ci.Args[0])}}}, true
			case strings.HasPrefix(ci.Name, "fmt.Print") || strings.HasPrefix(ci.Name, "fmt.Fprint") || strings.HasPrefix(ci.Name, "log.") || strings.HasSuffix(ci.Name, ".WriteString"):
				p := st.get("pending")
				if p == "" || len(ci.Args) == 0 {
					return nil, false
				}
				vs := append([]*Term(nil), ci.Args...)
				if l := ci.Args[len(ci.Args)-1]; isSliceT(l.T) {
					n, _ := mkLen(l).isConstInt()
					for i := int64(0); i < n && i < 8; i++ {
						vs = append(vs, st.load(elemAddr(l, i)))
					}
				}
				for _, v := range vs {
					if v == nil {
						continue
					}
					switch {
					case p == "answer" && contains(v, shown), p == "error" && contains(v, func(t *Term) bool { return isErrorT(t.T) && t.K != KNil }):
						st.set("pending", "")
						c.met("shown "+p, ci.Instr)
					}
				}
			}
			return nil, false
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			if p := st.get("pending"); p != "" {
				c.viol("shown", fn.Blocks[0].Instrs[0], st, "a command ends without its %s having been shown", p)
			}
		},
	})
}

// daemon: the request's fields reach the operation they are meant for
func (r *cliRule) daemon(fn *ssa.Function) {
	c := r.c
	same := func(x *Exec, st *State, v *Term, name string) bool {
		want := fld(st, r.ra.arg(1), name)
		return want != nil && v != nil && (v == want || ptrElem(v.T) != nil && sameContent(x, st, v, want))
	}
	wrong := func(in ssa.Instruction, st *State, what string, v *Term) {
		c.viol("passed on", in, st, "%s is not the one of the request: %s", what, v)
	}
	c.run(fn, r.ra.hooks(), &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		switch c.catCall(ci) {
		case "":
		case "ShareFile":
			c.met("passed on ShareFile", ci.Instr)
			if !same(x, st, ci.Args[1], "Filepath") {
				wrong(ci.Instr, st, "the file shared", ci.Args[1])
			}
			return apart(x, st, ci, nil), true
		case "ListFiles":
			if ip := fld(st, r.ra.arg(1), "IP"); ip != nil {
				c.met("passed on ListFiles", ci.Instr)
				if st.nilness(ip) != 1 && !st.eqInt(mkLen(ip), mkInt(0, tInt)) {
					c.viol("passed on", ci.Instr, st, "this host's files are listed although another host was named")
				}
			}
			return apart(x, st, ci, nil), true
		default:
			return apart(x, st, ci, nil), true
		}
		switch c.foreign(ci, "flu", "Server") {
		case "":
			return nil, false
		case "StartDownload":
			c.met("passed on StartDownload", ci.Instr)
			if !same(x, st, ci.Args[1], "Sha1Hash") {
				wrong(ci.Instr, st, "the file downloaded", ci.Args[1])
			}
		case "DiscoverHosts":
			c.met("passed on DiscoverHosts", ci.Instr)
			if !same(x, st, ci.Args[1], "Sha1Hash") {
				wrong(ci.Instr, st, "the file sought", ci.Args[1])
			}
			if len(ci.Args) > 2 && ci.Args[2].K != KNil && !st.eqInt(mkLen(ci.Args[2]), mkInt(0, tInt)) {
				c.viol("passed on", ci.Instr, st, "hosts are asked for chunks nobody named")
			}
		case "ListFilesOnHost":
			c.met("passed on ListFilesOnHost", ci.Instr)
			if !same(x, st, ci.Args[3], "Sha1Hash") {
				wrong(ci.Instr, st, "the file listed", ci.Args[3])
			}
			if ip := fld(st, r.ra.arg(1), "IP"); st.nilness(ip) == 1 {
				c.viol("passed on", ci.Instr, st, "another host is asked although none was named")
			}
		}
		return apart(x, st, ci, nil), true
	}})
}

// dataOf: the address lies in the bytes of the hash h
func dataOf(addr, h *Term) bool {
	for a := addr; a != nil; a = a.A[0] {
		if a == h {
			return true
		}
		if a.K != KAddrF && a.K != KAddrI && a.K != KSlice {
			return false
		}
	}
	return false
}

// isBlank: true for twenty times FF and for nothing else
func (r *cliRule) isBlank(fn *ssa.Function) {
	c := r.c
	in := fn.Blocks[0].Instrs[0]
	ones := func(w int64, t types.Type) *Term {
		return mkConst(constant.MakeUint64(^uint64(0)>>(64-8*uint(w))), t)
	}
	whole := func(st *State) bool { // the hash is compared as a whole
		for t := range st.truth {
			if (t.K == KBin || t.K == KApp && strings.HasSuffix(t.Name, "Equal")) && !isInt(t.A[0].T) {
				return true
			}
		}
		return false
	}
	for k := int64(-1); k < 20; k++ { // -1: all bytes are FF; otherwise byte k is not
		k := k
		var looped, compared bool
		ra := &rootArgsOf{}
		outs := c.run(fn, ra.hooks(), &Hooks{
			Read: func(x *Exec, st *State, addr *Term, w int64, order string, t types.Type) *Term {
				if ra.fr == nil || !dataOf(addr, ra.arg(0)) {
					return nil
				}
				if k < 0 {
					return ones(w, t)
				}
				v := mkSym("byte", t)
				lo, ok := addr.A[1].isConstInt()
				if !ok {
					if !st.leq(addr.A[1], mkInt(18, tInt)) && !st.leq(mkInt(1, tInt), addr.A[1]) {
						looped = true
					}
				} else if lo <= k && k < lo+w {
					st.addFact(linOf(ones(w, t)).sub(linOf(v)).addK(-1))
				}
				return v
			},
			Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
				if strings.HasSuffix(ci.Name, "Equal") || strings.HasSuffix(ci.Name, "Compare") {
					compared = true
				}
				return nil, false
			},
			Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
				if _, arr := ptrElem(addr.T).Underlying().(*types.Array); arr {
					compared = compared || ra.fr != nil && dataOf(addr, ra.arg(0))
				}
				if structOf(ptrElem(addr.T)) != nil && ra.fr != nil && addr == ra.arg(0) {
					compared = true
				}
			},
		})
		c.met("blank recognised", in)
		for i := range outs {
			o := &outs[i]
			v, known := o.St.eval(o.Ret[0])
			switch {
			case whole(o.St) || compared:
			case k < 0 && (!known || !v):
				c.viol("blank", in, o.St, "the hash of twenty FF bytes may not be recognised as the blank one")
			case k >= 0 && !looped && (!known || v):
				c.viol("blank", in, o.St, "a hash whose byte %d is not FF may be taken for the blank one", k)
			}
		}
	}
}

// blank: writes FF to all twenty bytes
func (r *cliRule) blank(fn *ssa.Function) {
	c := r.c
	in0 := fn.Blocks[0].Instrs[0]
	ra := &rootArgsOf{}
	c.met("blank made", in0)
	all, wholly := false, false
	done := map[int64]bool{}
	outs := c.run(fn, ra.hooks(), &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if ra.fr == nil || !dataOf(addr, ra.arg(0)) {
			return
		}
		if addr.K != KAddrI || !isByte(ptrElem(addr.T)) || val.T == nil || !isInt(val.T) {
			wholly = true
			return
		}
		if k, ok := stripSame(val).isConstInt(); !ok || k != 255 && k != -1 {
			c.viol("blank", in, st, "the blank hash is made of other bytes than FF: %s", val)
		}
		if k, ok := addr.A[1].isConstInt(); ok {
			done[k] = true
		} else if !st.leq(addr.A[1], mkInt(18, tInt)) && !st.leq(mkInt(1, tInt), addr.A[1]) {
			all = true
		}
	}})
	if !all && !wholly && len(done) < 20 {
		c.viol("blank", in0, nil, "not all bytes of the blank hash are set")
	}
	for i := range outs {
		if o := &outs[i]; len(o.Ret) == 1 && o.Ret[0] != ra.arg(0) {
			c.viol("blank", in0, o.St, "Blank returns another hash than the one it blanks: %s", o.Ret[0])
		}
	}
}

func init() {
	register(&Rule{
		ID: "C42",
		Explain: "Value-flow analysis from the words typed to the operations carried out: at every rpc call in the CLI the request's fields are the words typed (the path itself, the 20 bytes decoded from the hash, the address parsed), " +
			"or blank exactly when left out; a malformed or surplus word leads to no call; the method exists in the daemon and takes these types; the answer or the error is printed on every path that returns; " +
			"in the daemon, each method passes the request's fields unchanged to its operation. Blank sets all twenty bytes to FF, and IsBlank, analysed once for each byte that may differ, is true for that hash only.",
		Units: func(P *Program) []string {
			us := []string{relName(P.Method("cli", "Client", "Run")), relName(P.Method("common", "Sha1Hash", "IsBlank")), relName(P.Method("common", "Sha1Hash", "Blank"))}
			return append(us, names(P.rpcRoots())...)
		},
		Run: func(c *Ctx, u string) {
			fn := c.P.byRel(u)
			r := &cliRule{c: c, ra: &rootArgsOf{}}
			switch fn {
			case c.P.Method("cli", "Client", "Run"):
				r.client(fn)
			case c.P.Method("common", "Sha1Hash", "IsBlank"):
				r.isBlank(fn)
			case c.P.Method("common", "Sha1Hash", "Blank"):
				r.blank(fn)
			default:
				r.daemon(fn)
			}
		},
		Min: map[string]int{"blank recognised": 1, "blank made": 1, "asked share": 1, "asked clean": 1, "asked get": 1, "asked chims": 1, "asked list": 1, "shown answer": 1, "shown error": 1,
			"passed on ShareFile": 1, "passed on ListFiles": 1, "passed on StartDownload": 1, "passed on DiscoverHosts": 1, "passed on ListFilesOnHost": 1},
	})
}
