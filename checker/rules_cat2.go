package main

// C16, C18 (catalogue part), C19, C37

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// notName: the facts exclude that the text is s
func notName(st *State, t *Term, s string) bool {
	v, known := st.eval(mkCmp(token.EQL, t, mkConst(constant.MakeString(s), t.T)))
	return known && !v
}

func ruleC16(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	rs := c.recordShape()
	c.run(fn, ra.hooks(), &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.K != KAddrM || !catMap(x, st, addr.A[0]) || val == nil {
			return
		}
		c.met("download registered", in)
		c.checkDownloadPath(x, st, in, st.load(mkAddrF(val, rs.path)), ra.arg(0), fn.Pkg.Pkg)
	}, Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		for _, e := range fsEffects(ci) {
			if e.Kind != "trunc" && e.Kind != "modify" {
				continue
			}
			c.met("file made for a download", ci.Instr)
			if contains(e.Path, func(t *Term) bool { return t == ra.arg(5) }) {
				c.checkDownloadPath(x, st, ci.Instr, e.Path, ra.arg(0), fn.Pkg.Pkg)
			}
		}
		return nil, false
	}})
}

// checkDownloadPath: a plain name directly inside the downloads directory
func (c *Ctx) checkDownloadPath(x *Exec, st *State, in ssa.Instruction, p, cat *Term, pkg *types.Package) {
	s := structOf(ptrElem(cat.T))
	dir := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "DefaultDownloadsDir" {
			dir = i
		}
	}
	if dir < 0 {
		panic("Cat.DefaultDownloadsDir not found")
	}
	want := st.load(mkAddrF(cat, dir))
	for _, q := range x.sources(p) {
		for q.K == KApp && (q.Name == "path/filepath.Clean#0" || q.Name == "path/filepath.Abs#0") {
			q = q.A[0]
		}
		if q.K != KApp || q.Name != "filepath.Join" || len(q.A) != 2 || q.A[0] != want {
			c.viol("path", in, st, "the file of a download is not a name joined to the downloads directory: %s", q)
			continue
		}
		for _, n := range x.sources(q.A[1]) {
			plain := n.K == KApp && (n.Name == "Base" || n.Name == "SplitFile")
			if !plain {
				// or refused when it holds a separator
				for _, f := range []string{"strings.Contains#0", "strings.ContainsRune#0", "strings.ContainsAny#0"} {
					for t, v := range st.truth {
						if !v && t.K == KApp && t.Name == f && t.A[0] == n {
							if s, ok := t.A[1].constStr(); ok && strings.Contains(s, "/") {
								plain = true
							}
							if k, ok := t.A[1].isConstInt(); ok && k == '/' {
								plain = true
							}
						}
					}
				}
			}
			if !plain {
				c.viol("path", in, st, "the name of a download is not reduced to a plain file name: %s", n)
				continue
			}
			for _, b := range []string{".", "..", "/"} {
				if b == "/" && n.Name != "Base" {
					b = "" // an empty name
				}
				c.metAt("name excluded", fmt.Sprintf("%q", b))
				if !notName(st, n, b) {
					c.viol("path", in, st, "a download named %q is not refused", b)
				}
			}
		}
	}
}

func (c *Ctx) bitsetMethod(ci *CallInfo) string {
	if ci.Callee == nil || ci.Callee.Signature.Recv() == nil || namedOf(ci.Callee.Signature.Recv().Type()) != c.P.bitsetType() {
		return ""
	}
	if ci.Frame != nil && ci.Frame.Fn.Pkg != nil && ci.Frame.Fn.Pkg.Pkg == c.P.bitsetType().Obj().Pkg() {
		return ""
	}
	return ci.Callee.Name()
}

func ruleC19(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	rs := c.recordShape()
	d := &disk{c: c, pi: c.pathFields()}
	reported := false
	d.event = func(x *Exec, st *State, in ssa.Instruction, ev string, a *Term) {
		if ev == "chunk written" && fn.Name() == "SaveChunk" {
			c.met("chunk written", in)
			if e := a; e != ra.arg(3) && !(st.content(e) == st.content(ra.arg(3)) && st.eqInt(mkLen(e), mkLen(ra.arg(3)))) {
				c.viol("marked before written", in, st, "what is written is not all of the chunk's data")
			} else {
				st.set("all", "1")
			}
		}
	}
	c.run(fn, ra.hooks(), d.hooks(), &Hooks{
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			if addr.K != KAddrI || fr == nil || !inBitset(fr, c.P.bitsetType()) && !strings.HasPrefix(memClass(addr), "common/bitset.") {
				return
			}
			if !types.Identical(elemType(addr.A[0].T), c.P.wordType()) || x.hasAttr(st, rootOf(addr), "fresh") {
				return
			}
			c.met("mark in a catalogued bitmap", in)
			if reported {
				return
			}
			switch {
			case fn.Name() != "SaveChunk":
				reported = true
				c.viol("marked", in, st, "%s changes the marks of a catalogued file", fn.Name())
			case st.get("marking") == "":
				c.viol("marked", in, st, "marks of a catalogued file are changed otherwise than by setting the saved chunk's")
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			m := c.bitsetMethod(ci)
			switch m {
			case "Set", "Unset", "Fill":
			default:
				return nil, false
			}
			c.met("marking call", ci.Instr)
			switch fn.Name() {
			case "SaveChunk":
				if m != "Set" {
					c.viol("marked", ci.Instr, st, "saving a chunk calls %s on a bitmap", m)
					break
				}
				if stripConv(ci.Args[1]) != ra.arg(2) {
					c.viol("marked", ci.Instr, st, "the chunk marked is not the chunk saved")
				}
				if st.get("all") == "" {
					c.viol("marked before written", ci.Instr, st, "the chunk is marked although its data has not been written successfully")
				}
				// the bitmap is the one of the record looked up
				if !contains(ci.Args[0], func(t *Term) bool { return t.K == KAddrM }) {
					if r := rootOf(ci.Args[0]); !c.heldByRecord(x, st, r, rs) {
						c.viol("marked", ci.Instr, st, "the bitmap marked is not that of the file's record")
					}
				} else if !underKey(x, st, ci.Args[0], ra.arg(1)) {
					c.viol("marked", ci.Instr, st, "the bitmap marked is not that of the file the chunk was saved for")
				}
				st.set("marking", "1")
			case "ShareFile":
				if m == "Fill" {
					st.set("filled", "1")
				}
			case "RegisterDownload":
				c.viol("marked", ci.Instr, st, "%s is called on the bitmap of a new download", m)
			default:
				if !x.hasAttr(st, rootOf(ci.Args[0]), "fresh") {
					c.viol("marked", ci.Instr, st, "%s calls %s on a catalogued bitmap", fn.Name(), m)
				}
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			if c.bitsetMethod(ci) == "Set" {
				st.set("marking", "")
			}
		},
	})
}

// heldByRecord: a record from the table points to the object
func (c *Ctx) heldByRecord(x *Exec, st *State, r *Term, rs *recordShape) bool {
	for a, v := range st.mem {
		if v == nil || rootOf(v) != r || a.K != KAddrF {
			continue
		}
		if namedOf(ptrElem(a.A[0].T)) == rs.named && contains(a, func(t *Term) bool { return t.K == KAddrM }) {
			return true
		}
	}
	return false
}

func ruleC18cat(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	rs := c.recordShape()
	pi := c.pathFields()
	c.run(fn, ra.hooks(), &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.bitsetMethod(ci) == "Get" && fn.Name() == "GetChunkReader" {
			c.met("mark tested", ci.Instr)
			yes, no := st, st.clone()
			own := underKey(x, st, ci.Args[0], ra.arg(1)) || c.heldByRecord(x, st, rootOf(ci.Args[0]), rs)
			if own && stripSame(ci.Args[1]) == ra.arg(2) {
				yes.set("held", "1")
			}
			return []Outcome{{yes, []*Term{mkBool(true)}}, {no, []*Term{mkBool(false)}}}, true
		}
		switch ci.Name {
		case "os.Open", "os.OpenFile", "os.ReadFile":
			if !strings.Contains(pi.class(x, ci.Args[0]), "user") {
				return nil, false
			}
			switch fn.Name() {
			case "GetChunkReader":
				c.met("file opened for a peer", ci.Instr)
				if st.get("held") == "" {
					c.viol("not held", ci.Instr, st, "a chunk is read without its own mark in the file's bitmap being set")
				}
				if rec := recordOf(ci.Args[0], rs); rec == nil || !underKey(x, st, rec, ra.arg(1)) {
					c.viol("not held", ci.Instr, st, "the file read is not the one of the record for the hash asked for")
				}
			}
		}
		return nil, false
	}})
}

func ruleC37(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	rs := c.recordShape()
	d := &disk{c: c, pi: c.pathFields()}
	isNew := func(st *State, m, k *Term) bool {
		has := st.load(mkHasCell(m, k))
		v, known := st.eval(has)
		return known && !v
	}
	var recHash func(st *State, rec *Term) *Term
	recHash = func(st *State, rec *Term) *Term { return st.load(mkAddrF(rec, rs.hash)) }
	d.event = func(x *Exec, st *State, in ssa.Instruction, ev string, a *Term) {
		switch ev {
		case "add":
			c.met("record added", in)
			m, k := a.A[0], a.A[1]
			if fn.Name() == "Init" {
				return // the table is being filled from disk
			}
			if !isNew(st, m, k) {
				c.viol("overwritten", in, st, "a record is added without the facts excluding that its hash is already catalogued")
			}
		case "delete":
			c.met("record removed", in)
			k := a.A[1]
			h := ra.arg(1)
			if h == nil || fn.Name() != "UnshareFile" {
				c.viol("removal", in, st, "%s removes a record", fn.Name())
			} else if k != st.load(h) && !sameHash(x, st, k, h, rs) {
				c.viol("removal", in, st, "the record removed is not that of the hash given: %s", k)
			}
		case "replace bitmap":
			if fn.Name() == "ShareFile" || fn.Name() == "RegisterDownload" {
				c.met("bitmap of a new record", in)
				if !c.checkedNew(x, st, d.to) {
					c.viol("overwritten", in, st, "a new chunk bitmap replaces the stored one before the hash is known not to be catalogued")
				}
			}
		}
	}
	c.run(fn, ra.hooks(), d.hooks(), &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.K != KAddrM || val == nil || ptrElem(val.T) == nil || namedOf(ptrElem(val.T)) != rs.named {
			return
		}
		// each record under its own hash
		c.met("record under its hash", in)
		if h := recHash(st, val); h != addr.A[1] {
			if fn.Name() == "Init" {
				return // both come from the stored index, see C14
			}
			c.viol("wrong hash", in, st, "a record with hash %s is stored under %s", h, addr.A[1])
		}
	}})
}

// sameHash: k is the hash of the record found under the hash h points to
func sameHash(x *Exec, st *State, k, h *Term, rs *recordShape) bool {
	t := k
	if t.K == KStruct && len(t.A) == 1 {
		t = t.A[0]
	}
	if t.K == KLoad {
		t = t.A[0]
	}
	for t.K == KAddrF {
		if namedOf(ptrElem(t.A[0].T)) == rs.named && t.F == rs.hash {
			rec := t.A[0]
			return rec.K == KLoad && rec.A[0].K == KAddrM && underKey(x, st, rec, h)
		}
		t = t.A[0]
	}
	return false
}

// checkedNew: the table is known not to hold the hash the path is named after
func (c *Ctx) checkedNew(x *Exec, st *State, p *Term) bool {
	for a, v := range st.mem {
		if a.K != KAddrM || a.F != 1 || v == nil || !catMap(x, st, a.A[0]) {
			continue
		}
		if b, known := st.eval(v); !known || b {
			continue
		}
		k := a.A[1]
		ls := []*Term{k}
		if k.K == KStruct {
			ls = k.A
		}
		ok := true
		for _, l := range ls {
			ok = ok && contains(p, func(t *Term) bool { return t == l })
		}
		if ok {
			return true
		}
	}
	return false
}

var _ = token.ADD

func init() {
	catUnits := func(P *Program) []string { return names(P.catRoots()) }
	one := func(m string) func(P *Program) []string {
		return func(P *Program) []string {
			f := P.Method("catalogue", "Cat", m)
			if f == nil {
				panic("Cat." + m + " not found")
			}
			return []string{relName(f)}
		}
	}
	register(&Rule{
		ID: "C16",
		Explain: "Value-flow analysis of every path of Cat.RegisterDownload: the path stored in the record that enters the table is the downloads directory joined with a name that is the " +
			"base name of the announced one and that the path's facts exclude to be '.', '..' or '/'.",
		Units: one("RegisterDownload"), Run: ruleC16, Min: map[string]int{"download registered": 1, "name excluded": 3},
	})
	register(&Rule{
		ID: "C19",
		Explain: "Typestate by abstract interpretation of every catalogue operation: words of a catalogued bitmap change only inside Set called by SaveChunk for the saved chunk's number on " +
			"that file's own bitmap, after a successful write of exactly the given data; registering a download marks nothing.",
		Units: func(P *Program) []string { return P.catOperations() }, Run: ruleC19, Min: map[string]int{"mark in a catalogued bitmap": 1, "marking call": 2, "chunk written": 1},
	})
	register(&Rule{
		ID: "C37",
		Explain: "Table facts by abstract interpretation of every catalogue operation: a record is stored only where the path's facts say its key was absent, under its own hash field; a new " +
			"bitmap replaces a stored one only when the table is known not to hold that hash; only UnshareFile removes, and only the key given.",
		Units: catUnits, Run: ruleC37, Min: map[string]int{"record added": 1, "record removed": 1, "record under its hash": 1, "bitmap of a new record": 1},
	})
}
