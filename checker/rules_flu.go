package main

// The server: C18, C20-C27, C31, C32, C35, C36

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// catCall: the catalogue operation called from outside the catalogue
func (c *Ctx) catCall(ci *CallInfo) string {
	f := ci.Callee
	if f == nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != c.P.Named("catalogue", "Cat") || ci.Frame == nil {
		return ""
	}
	if fp := pkgOfFunc(ci.Frame.Fn); fp != nil && f.Pkg != nil && fp == f.Pkg.Pkg {
		return ""
	}
	return f.Name()
}

func pkgOfFunc(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return nil
	}
	return fn.Pkg.Pkg
}

// method of an exported type of the module, called from outside its package
func (c *Ctx) foreign(ci *CallInfo, pkg, typ string) string {
	f := ci.Callee
	if f == nil || f.Signature.Recv() == nil || ci.Frame == nil {
		return ""
	}
	n := c.P.Named(pkg, typ)
	if n == nil || namedOf(f.Signature.Recv().Type()) != n || pkgOfFunc(ci.Frame.Fn) == n.Obj().Pkg() {
		return ""
	}
	return f.Name()
}

// failed: the outcome of a call is its error
func failed(o *Outcome) bool {
	n := len(o.Ret)
	return n > 0 && o.Ret[n-1] != nil && isErrorT(o.Ret[n-1].T) && o.St.nilness(o.Ret[n-1]) == 2
}

// outside: a call that is not entered, with its outcomes
func outside(x *Exec, st *State, ci *CallInfo, on func(o *Outcome, ok bool)) []Outcome {
	outs := x.extern(st, ci)
	for i := range outs {
		o := &outs[i]
		ok := !failed(o)
		for _, t := range o.Ret {
			if ok && t != nil && ptrElem(t.T) != nil {
				o.St.setNil(t, 2)
			}
		}
		if on != nil {
			on(o, ok)
		}
	}
	return outs
}

// fld: the content of a named field of the struct a pointer leads to
func fld(st *State, p *Term, name string) *Term {
	a := fldAddr(p, name)
	if a == nil {
		return nil
	}
	return st.load(a)
}

func fldAddr(p *Term, name string) *Term {
	if p == nil {
		return nil
	}
	s := structOf(ptrElem(p.T))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkAddrF(p, i)
		}
	}
	return nil
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// serialized: the message type whose Serialize is called
func (c *Ctx) serialized(ci *CallInfo) *types.Named {
	f := ci.Callee
	if f == nil || f.Name() != "Serialize" || f.Signature.Recv() == nil {
		return nil
	}
	n := namedOf(f.Signature.Recv().Type())
	for _, m := range c.P.messageTypes() {
		if m == n {
			return n
		}
	}
	return nil
}

// wired: cuts the encoding of messages; the bytes are a term that shows the fields encoded
func (c *Ctx) wired(on func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term)) *Hooks {
	return &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		n := c.serialized(ci)
		if n == nil || pkgOfFunc(ci.Frame.Fn) == n.Obj().Pkg() {
			return nil, false
		}
		msg := ci.Args[0]
		if on != nil {
			on(x, st, ci, n, msg)
		}
		s := structOf(n)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			if ptrElem(msg.T) != nil {
				as = append(as, st.load(mkAddrF(msg, i)))
			} else {
				as = append(as, mkField(msg, i))
			}
		}
		r := mkApp("wire:"+n.Obj().Name(), ci.Results.At(0).Type(), as...)
		st.setNil(r, 2)
		return []Outcome{{st, []*Term{r}}}, true
	}}
}

// wiredField of an encoded message
func (c *Ctx) wiredField(w *Term, name string) *Term {
	n := c.P.Named("flu/messages", strings.TrimPrefix(w.Name, "wire:"))
	if i := fieldIndex(n, name); i >= 0 {
		return w.A[i]
	}
	return nil
}

func isWire(t *Term) bool { return t != nil && t.K == KApp && strings.HasPrefix(t.Name, "wire:") }

// cutCat: catalogue operations are not entered; each may succeed or fail
func (c *Ctx) cutCat(on func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string)) *Hooks {
	return &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		m := c.catCall(ci)
		if m == "" {
			return nil, false
		}
		return apart(x, st, ci, func(o *Outcome, ok bool) {
			if on != nil {
				on(x, o, ok, ci, m)
			}
		}), true
	}}
}

// apart: like outside, for calls that write to nothing the caller can see
func apart(x *Exec, st *State, ci *CallInfo, on func(o *Outcome, ok bool)) []Outcome {
	n := ci.Results.Len()
	outs := []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}
	if n > 0 && isErrorT(ci.Results.At(n-1).Type()) {
		f := st.clone()
		bad := x.freshResults(f, ci.Results, ci.Name, ci.Args)
		bad[n-1] = x.newErr(f, "err:"+ci.Name, ci.Args...)
		outs[0].Ret[n-1] = mkNil(ci.Results.At(n - 1).Type())
		outs = append(outs, Outcome{f, bad})
	}
	for i := range outs {
		o := &outs[i]
		ok := !failed(o)
		for _, t := range o.Ret {
			if ok && ptrElem(t.T) != nil {
				o.St.setNil(t, 2)
			}
		}
		if on != nil {
			on(o, ok)
		}
	}
	return outs
}

// cutParse: decoders are not entered; what they return is unknown
func (c *Ctx) cutParse() *Hooks {
	return &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		f := ci.Callee
		if f == nil || ci.Frame == nil {
			return nil, false
		}
		for _, d := range c.P.decoders() {
			if f == d && pkgOfFunc(ci.Frame.Fn) != pkgOfFunc(d) {
				return outside(x, st, ci, nil), true
			}
		}
		return nil, false
	}}
}

func sameContent(x *Exec, st *State, p, q *Term) bool {
	if p == q {
		return true
	}
	if p == nil || q == nil || ptrElem(p.T) == nil || ptrElem(q.T) == nil {
		return false
	}
	a, b := st.load(p), st.load(q)
	if a == b {
		return true
	}
	v, known := st.eval(mkCmp(tokEQL, a, b))
	return known && v
}

func ruleC18(c *Ctx, u string) {
	fn := c.P.byRel(u)
	if pkgOfFunc(fn).Name() == "catalogue" {
		ruleC18cat(c, u)
		return
	}
	ra := &rootArgsOf{}
	loose := map[*Term]bool{} // lists not restricted to the chunks asked for
	allowed := map[*Term]bool{}
	c.run(fn, ra.hooks(),
		c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
			if m != "Contains" || !ok {
				return
			}
			c.met("bitmap looked up", ci.Instr)
			if want := fldAddr(ra.arg(1), "Sha1Hash"); !sameContent(x, o.St, ci.Args[1], want) && !sameContent(x, o.St, ci.Args[1], o.St.load(want)) {
				c.viol("other file", ci.Instr, o.St, "the file looked up is not the one asked about: %s", ci.Args[1])
			}
			o.St.set("known", fmt.Sprint(o.Ret[0].ID))
		}),
		&Hooks{
			Keep: func(st *State) []*Term {
				return []*Term{st.load(fldAddr(ra.arg(1), "Chunks"))}
			},
			Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
				m := c.bitsetMethod(ci)
				if m == "" || ci.Results.Len() != 1 {
					return nil, false
				}
				outs := []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}
				if m != "Overlap" && m != "Ranges" {
					return outs, true
				}
				c.met("chunk list", ci.Instr)
				r := outs[0].Ret[0]
				recv := rootOf(ci.Args[0])
				for d := 0; d < 4 && (recv.K == KLoad || recv.K == KAlloc || recv.K == KApp && strings.Contains(recv.Name, ".Copy#")); d++ {
					if recv.K == KApp {
						recv = rootOf(recv.A[0])
					} else {
						recv = rootOf(bitmapSource(st, recv))
					}
				}
				if id := st.get("known"); id != "" && fmt.Sprint(recv.ID) == id {
					allowed[r] = true
				}
				asked := st.load(fldAddr(ra.arg(1), "Chunks"))
				if m == "Overlap" {
					if ci.Args[1] != asked {
						c.viol("not restricted", ci.Instr, st, "the held chunks are not compared with the chunks asked for")
					}
				} else if !st.leq(mkLen(asked), mkInt(0, tInt)) {
					loose[r] = true
				}
				return outs, true
			},
		},
		c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
			if n.Obj().Name() != "DiscoverHostResponse" {
				return
			}
			c.met("discovery answer", ci.Instr)
			for _, s := range x.sources(fld(st, msg, "Chunks")) {
				switch {
				case allowed[s] && loose[s]:
					c.viol("not restricted", ci.Instr, st, "all held chunks are announced although certain chunks may have been asked for")
				case allowed[s]:
				case st.get("known") == "" && (s.K == KNil || s.K == KZero || st.eqInt(mkLen(s), mkInt(0, tInt))):
				default:
					c.viol("advertised", ci.Instr, st, "the chunks announced are not taken from the bitmap of the file asked about: %s", s)
				}
			}
		}))
}

// bitmapSource: where a copied bitmap was taken from
func bitmapSource(st *State, a *Term) *Term {
	for d := 0; d < 6; d++ {
		if a.K == KAlloc {
			v := st.mem[a]
			if v == nil && structOf(ptrElem(a.T)) != nil {
				v = st.load(mkAddrF(a, 0))
			}
			if v == nil {
				v = st.load(a)
			}
			if v == nil || v == a {
				return a
			}
			if v.K == KStruct && len(v.A) > 0 {
				v = v.A[0]
			}
			a = v
			continue
		}
		if a.K == KLoad {
			a = a.A[0]
			continue
		}
		return a
	}
	return a
}

func init() {
	method := func(P *Program, pkg, typ, m string) string {
		f := P.Method(pkg, typ, m)
		if f == nil {
			panic(typ + "." + m + " not found")
		}
		return relName(f)
	}
	register(&Rule{
		ID: "C18",
		Explain: "Value-flow analysis of Cat.GetChunkReader and of the discovery responder: a catalogued file is opened for reading only on paths where its own record's bitmap was tested for the " +
			"very chunk asked for, and the chunk list of an answer is, on every path, Overlap of the chunks asked for (or Ranges when none were) with the bitmap of the record found under the hash asked about, or empty.",
		Units: func(P *Program) []string {
			return []string{method(P, "catalogue", "Cat", "GetChunkReader"), method(P, "flu", "Server", "RespondToDiscoverHosts")}
		},
		Run: ruleC18, Min: map[string]int{"mark tested": 1, "file opened for a peer": 1, "discovery answer": 1, "chunk list": 1, "bitmap looked up": 1},
	})
}

const (
	tokEQL = token.EQL
	tokADD = token.ADD
)

// stripSame: the value before conversions between integer types that lose no bits
func stripSame(t *Term) *Term {
	for t != nil && t.K == KConv {
		if isInt(t.T) && isInt(t.A[0].T) && !t.Exact && sizes.Sizeof(t.T) < sizes.Sizeof(t.A[0].T) {
			break
		}
		t = t.A[0]
	}
	return t
}

var sizes = types.SizesFor("gc", "amd64")
