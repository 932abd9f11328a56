package main

// The catalogue: C10-C13, C16-C19, C37

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasRefs: values of the type can share memory
func hasRefs(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Interface:
		return !isErrorT(t)
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// sharedRefs: the references inside a value that lead into the object with the given root
func sharedRefs(x *Exec, st *State, t *Term, bad func(root *Term) bool, seen map[*Term]bool) *Term {
	if t == nil || seen[t] || t.K == KNil || t.K == KConst || t.K == KZero || t.T == nil {
		return nil
	}
	seen[t] = true
	if t.K == KTuple || t.K == KStruct || t.K == KArrLit {
		for _, a := range t.A {
			if r := sharedRefs(x, st, a, bad, seen); r != nil {
				return r
			}
		}
		return nil
	}
	if !hasRefs(t.T, 0) {
		return nil
	}
	if t.K == KIface {
		return sharedRefs(x, st, t.A[0], bad, seen)
	}
	if t.K == KApp && t.Name == "append" {
		for i, a := range t.A {
			if i > 0 && isSliceT(a.T) && !hasRefs(elemType(a.T), 0) {
				continue // elements are copied
			}
			if r := sharedRefs(x, st, a, bad, seen); r != nil {
				return r
			}
		}
		return nil
	}
	for _, o := range owner(x, t, 0) {
		if bad(o) {
			return t
		}
	}
	// what the object holds
	roots := []*Term{rootOf(t)}
	if len(x.joined[roots[0]]) > 0 {
		roots = x.sources(roots[0])
	}
	for _, r := range roots {
		if r.K == KApp && r.Name == "append" {
			if b := sharedRefs(x, st, r, bad, seen); b != nil {
				return b
			}
		}
		for a, v := range st.mem {
			if v != nil && rootOf(a) == r {
				if b := sharedRefs(x, st, v, bad, seen); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

// rootCapture remembers the arguments of the entry point
type rootArgsOf struct {
	fr *Frame
}

func (r *rootArgsOf) hooks() *Hooks {
	return &Hooks{Enter: func(x *Exec, st *State, fr *Frame) {
		if fr.Caller == nil && !fr.Go {
			r.fr = fr
		}
	}}
}

func (r *rootArgsOf) arg(i int) *Term {
	if r.fr == nil || i >= len(r.fr.Args) {
		return nil
	}
	return r.fr.Args[i]
}

func ruleC10(c *Ctx, u string) {
	fn := c.P.byRel(u)
	ra := &rootArgsOf{}
	bad := func(o *Term) bool { return o == ra.arg(0) || o.K == KGlobal }
	out := map[*types.Named]bool{}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		for _, n := range moduleStructs(fn.Signature.Results().At(i).Type(), map[types.Type]bool{}) {
			out[n] = true
		}
	}
	c.run(fn, ra.hooks(), &Hooks{
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			for i, r := range rets {
				if isErrorT(fn.Signature.Results().At(i).Type()) || !hasRefs(r.T, 0) {
					continue
				}
				c.metAt("returned reference", fmt.Sprintf("result %d of %s", i, relName(fn)))
				if b := sharedRefs(x, st, r, bad, map[*Term]bool{}); b != nil {
					c.violAt("shared result", c.P.pos(fn.Pos()), relName(fn), st, "result %d leads into the catalogue's own memory: %s", i, b)
				}
			}
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			// elements of the lists that are handed out
			if addr.K != KAddrI || val == nil || !hasRefs(val.T, 0) {
				return
			}
			e := val.T
			if val.K == KApp && val.Name == "elems" {
				return // the stores into the appended slice have been seen
			}
			n := namedOf(e)
			if n == nil {
				if p := ptrElem(e); p != nil {
					n = namedOf(p)
				}
			}
			if n == nil || !out[n] || !n.Obj().Exported() {
				return
			}
			c.met("element handed out", in)
			if b := sharedRefs(x, st, val, bad, map[*Term]bool{}); b != nil {
				c.viol("shared result", in, st, "an element of the result leads into the catalogue's own memory: %s", b)
			}
		},
	})
}

// errOf: the error among the results of a call, if it has one
func errOf(ci *CallInfo, rets []*Term) *Term {
	n := ci.Results.Len()
	if n == 0 || len(rets) != n || !isErrorT(ci.Results.At(n-1).Type()) {
		return nil
	}
	return rets[n-1]
}

func isClose(name string) bool { return strings.HasSuffix(name, ".Close") }

// expected: the error was recognised as one that is no failure
func expected(st *State, e *Term, absence bool) bool {
	if v, known := st.eval(mkApp("os.IsNotExist", types.Typ[types.Bool], e)); absence && known && v {
		return true
	}
	if v, known := st.eval(mkCmp(token.EQL, e, eofTerm(st))); known && v {
		return true
	}
	return false
}

func ruleC12(c *Ctx, u string) {
	fn := c.P.byRel(u)
	key := "failed"
	failure := func(st *State) *Term {
		if s := st.get(key); s != "" {
			id, _ := strconv.Atoi(s[:strings.Index(s, " ")])
			if e := termByID(id); !expected(st, e, strings.Contains(s, " -")) {
				return e
			}
		}
		return nil
	}
	what := func(st *State) string { s := st.get(key); return strings.TrimPrefix(s[strings.Index(s, " ")+1:], "-") }
	pi := c.pathFields()
	// absence is a legitimate answer to a question about a file, or when it is to be removed, and for the index, which the first start creates
	absence := func(x *Exec, ci *CallInfo) string {
		switch ci.Name {
		case "os.Stat", "os.Lstat", "os.Remove", "os.RemoveAll":
			return "-"
		}
		for _, a := range ci.Args {
			if a.T != nil && isString(a.T) && pi.class(x, a) == "index" {
				return "-"
			}
		}
		return ""
	}
	c.run(fn, &Hooks{
		Keep: func(st *State) []*Term {
			if s := st.get(key); s != "" {
				id, _ := strconv.Atoi(s[:strings.Index(s, " ")])
				return []*Term{termByID(id)}
			}
			return nil
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if failure(st) != nil {
				for _, e := range fsEffects(ci) {
					if e.Kind == "remove" || e.Kind == "mkdir" || e.Kind == "other" {
						continue
					}
					c.viol("carries on after failure", ci.Instr, st, "%s is done although %s failed", ci.Name, what(st))
				}
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			e := errOf(ci, rets)
			if e == nil || isClose(ci.Name) || ci.Name == "errors.New" || ci.Name == "fmt.Errorf" {
				return
			}
			for _, f := range fsEffects(ci) {
				if f.Kind == "remove" && f.Path != nil && strings.HasPrefix(pi.class(x, f.Path), "tmp:") {
					return // tidying up
				}
			}
			c.met("step that can fail", ci.Instr)
			if st.nilness(e) == 1 || e.K == KNil || e == eofTerm(st) {
				return
			}
			if st.nilness(e) == 2 && failure(st) == nil {
				st.set(key, fmt.Sprintf("%d %s%s", e.ID, absence(x, ci), ci.Name))
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			n := len(rets)
			if n == 0 || !isErrorT(fn.Signature.Results().At(n-1).Type()) {
				return
			}
			c.metAt("way out", relName(fn))
			if failure(st) != nil && st.nilness(rets[n-1]) != 2 {
				c.violAt("failure swallowed", c.P.pos(fn.Pos()), relName(fn), st, "%s returns no error although %s failed", fn.Name(), what(st))
			}
		},
	})
}

// --- what is on disk ---------------------------------------------------------------

// disk follows the index and the bitmaps from memory to disk
type disk struct {
	c     *Ctx
	pi    *pathInfo
	to    *Term // target of the replacement being reported
	event func(x *Exec, st *State, in ssa.Instruction, ev string, arg *Term)
}

// catMap: the table of records (not one that is being built)
func catMap(x *Exec, st *State, m *Term) bool {
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok || x.hasAttr(st, rootOf(m), "fresh") {
		return false
	}
	e := ptrElem(mt.Elem())
	return e != nil && structOf(e) != nil && namedOf(e) != nil && namedOf(e).Obj().Pkg() != nil && namedOf(e).Obj().Pkg().Name() == "catalogue"
}

func bump(st *State, k string) string {
	n, _ := strconv.Atoi(st.get(k))
	s := strconv.Itoa(n + 1)
	st.set(k, s)
	return s
}

// bitset types and the slice its bits live in
func (P *Program) bitsetType() *types.Named {
	n := P.Named("common/bitset", "Bitset")
	if n == nil {
		panic("type bitset.Bitset not found")
	}
	return n
}

// bitSlices: the roots of the slices a bitset holds
func (d *disk) bitSlices(st *State, recv *Term) []*Term {
	var out []*Term
	s := structOf(ptrElem(recv.T))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if isSliceT(s.Field(i).Type()) {
			out = append(out, rootOf(st.load(mkAddrF(recv, i))))
		}
	}
	return out
}

func inBitset(fr *Frame, n *types.Named) bool {
	r := fr.Fn.Signature.Recv()
	return r != nil && namedOf(r.Type()) == n
}

func bdKeys(st *State) []string {
	var out []string
	for k, v := range st.cl {
		if strings.HasPrefix(k, "bd:") && v != "" {
			out = append(out, k)
		}
	}
	return out
}

func (d *disk) hooks() *Hooks {
	bs := d.c.P.bitsetType()
	ev := func(x *Exec, st *State, in ssa.Instruction, e string, a *Term) {
		if d.event != nil {
			d.event(x, st, in, e, a)
		}
	}
	return &Hooks{
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			switch addr.K {
			case KAddrM:
				if !catMap(x, st, addr.A[0]) {
					return
				}
				ev(x, st, in, "add", addr)
				d.dirtyIndex(st)
				st.set("ixadd", "1")
			case KAddrI:
				if val == nil || fr == nil || !inBitset(fr, bs) && !strings.HasPrefix(memClass(addr), "common/bitset.") {
					return
				}
				if !types.Identical(elemType(addr.A[0].T), d.c.P.wordType()) {
					return // no word of a bitset
				}
				r := rootOf(addr)
				if r.K == KMake || r.K == KAlloc {
					held := false
					for a, v := range st.mem {
						if v != nil && a.K == KAddrF && isSliceT(v.T) && rootOf(v) == r {
							held = true
							break
						}
					}
					if !held {
						return // being made
					}
				}
				ev(x, st, in, "bit", addr)
				if k := fmt.Sprintf("bd:%d", r.ID); st.get(k) == "" || st.get("bdenc") != "" {
					st.set(k, bump(st, "bdgen"))
					st.set("bdenc", "")
				}
			}
		},
		MapDelete: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
			if !catMap(x, st, m) {
				return
			}
			ev(x, st, in, "delete", mkAddrM(m, key))
			d.dirtyIndex(st)
			st.set("ixdel", "1")
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			for _, e := range fsEffects(ci) {
				d.before(x, st, ci, e, ev)
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			if ci.Callee != nil && ci.Callee.Name() == "Serialize" && ci.Callee.Signature.Recv() != nil && namedOf(ci.Callee.Signature.Recv().Type()) == bs && len(rets) == 1 {
				data := rets[0]
				st.setAttr(data, "bitmapdata")
				st.set("bdenc", "1")
				for _, r := range d.bitSlices(st, ci.Args[0]) {
					if g := st.get(fmt.Sprintf("bd:%d", r.ID)); g != "" {
						st.setAttr(data, fmt.Sprintf("enc bd:%d=%s", r.ID, g))
					}
				}
				return
			}
			e := errOf(ci, rets)
			if e != nil && st.nilness(e) != 1 && e.K != KNil {
				return
			}
			if strings.HasPrefix(ci.Name, "encoding/json.Marshal") && len(rets) == 2 {
				if a := ci.Args[0]; a.K == KIface {
					for _, n := range moduleStructs(a.A[0].T, map[types.Type]bool{}) {
						if n.Obj().Pkg().Name() == "catalogue" {
							st.setAttr(rets[0], "indexdata")
							if st.get("ix") != "" {
								st.set("ixenc", "1")
							}
							st.setAttr(rets[0], "enc ix="+st.get("ix"))
						}
					}
				}
				return
			}
			for _, f := range fsEffects(ci) {
				d.done(x, st, ci, f, ev)
			}
		},
	}
}

func (d *disk) dirtyIndex(st *State) {
	if st.get("ix") == "" || st.get("ixenc") != "" {
		st.set("ix", bump(st, "ixgen"))
		st.set("ixenc", "")
	}
}

// wordType: the element type of the slice a bitset keeps its bits in
func (P *Program) wordType() types.Type {
	s := structOf(P.bitsetType())
	for i := 0; i < s.NumFields(); i++ {
		if isSliceT(s.Field(i).Type()) {
			return elemType(s.Field(i).Type())
		}
	}
	panic("Bitset keeps no slice")
}

func isCat(cl string) bool { return cl == "index" || cl == "bitmap" }

// before an effect
func (d *disk) before(x *Exec, st *State, ci *CallInfo, e fsEffect, ev func(*Exec, *State, ssa.Instruction, string, *Term)) {
	cl := d.pi.class(x, e.Path)
	switch e.Kind {
	case "trunc", "modify", "data":
		if isCat(cl) {
			ev(x, st, ci.Instr, "direct write", e.Path)
		}
	case "rename":
		to := d.pi.class(x, e.To)
		if isCat(cl) {
			ev(x, st, ci.Instr, "moved away", e.Path)
		}
		if isCat(to) {
			d.to = e.To
			ev(x, st, ci.Instr, "replace "+to, e.Path)
		}
	case "remove":
		if isCat(cl) {
			ev(x, st, ci.Instr, "remove "+cl, e.Path)
		}
	}
}

// done: after an effect that succeeded
func (d *disk) done(x *Exec, st *State, ci *CallInfo, e fsEffect, ev func(*Exec, *State, ssa.Instruction, string, *Term)) {
	holds := func(p, data *Term) {
		st.setAttr(p, "written")
		for k := range st.attrs {
			if k.t == data && (strings.HasPrefix(k.a, "enc ") || k.a == "indexdata" || k.a == "bitmapdata") {
				st.setAttr(p, "h:"+k.a)
			}
		}
	}
	stored := func(p *Term, cl string) {
		switch cl {
		case "index":
			if st.attr(p, "h:indexdata") && (st.get("ix") == "" || st.attr(p, "h:enc ix="+st.get("ix"))) {
				if st.get("ix") != "" && st.get("ixdel") != "" {
					st.set("delsaved", "1")
				}
				st.set("ix", "")
				st.set("ixsaved", "1")
			}
		case "bitmap":
			if st.attr(p, "h:bitmapdata") {
				for _, k := range bdKeys(st) {
					if st.attr(p, "h:enc "+k+"="+st.get(k)) {
						st.set(k, "")
					}
				}
				st.set("bmsaved", "1")
			}
		}
	}
	switch e.Kind {
	case "trunc":
		if e.Data != nil {
			holds(e.Path, e.Data)
			stored(e.Path, d.pi.class(x, e.Path))
		}
	case "data":
		if e.Path != nil && e.Data != nil {
			holds(e.Path, e.Data)
			stored(e.Path, d.pi.class(x, e.Path))
			if fromIndex(x, e.Path) {
				ev(x, st, ci.Instr, "chunk written", e.Data)
				st.set("chunk", "1")
			}
		}
	case "rename":
		stored(e.Path, d.pi.class(x, e.To))
	case "remove":
		if d.pi.class(x, e.Path) == "bitmap" {
			st.set("bmremoved", "1")
		}
	}
}

func ruleC11(c *Ctx, u string) {
	fn := c.P.byRel(u)
	d := &disk{c: c, pi: c.pathFields()}
	need := map[string][][2]string{
		"ShareFile":        {{"ixadd", "the record was not added to the index"}, {"ixsaved", "the index was not stored"}, {"bmsaved", "the chunk bitmap was not stored"}},
		"RegisterDownload": {{"ixadd", "the record was not added to the index"}, {"ixsaved", "the index was not stored"}, {"bmsaved", "the chunk bitmap was not stored"}},
		"UnshareFile":      {{"ixdel", "the record was not removed from the index"}, {"ixsaved", "the index was not stored"}, {"bmremoved", "the chunk bitmap was not deleted"}},
		"SaveChunk":        {{"chunk", "the chunk's bytes were not written"}, {"bdgen", "the chunk was not marked"}, {"bmsaved", "the chunk bitmap was not stored"}},
	}
	c.run(fn, d.hooks(), &Hooks{Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
		if fr.Caller != nil || fr.Go {
			return
		}
		n := len(rets)
		if n > 0 && isErrorT(fn.Signature.Results().At(n-1).Type()) && st.nilness(rets[n-1]) == 2 {
			return
		}
		c.metAt("successful return", relName(fn))
		pos := c.P.pos(fn.Pos())
		for _, k := range need[fn.Name()] {
			c.metAt("step required", relName(fn)+": "+k[0])
			if st.get(k[0]) == "" {
				c.violAt("not on disk", pos, relName(fn), st, "%s reports success although %s", fn.Name(), k[1])
			}
		}
		if st.get("ix") != "" {
			c.violAt("not on disk", pos, relName(fn), st, "%s reports success although the index changed after it was last stored", fn.Name())
		}
		for _, k := range bdKeys(st) {
			id, _ := strconv.Atoi(k[3:])
			if !x.hasAttr(st, termByID(id), "fresh") {
				c.violAt("not on disk", pos, relName(fn), st, "%s reports success although a chunk bitmap changed after it was last stored", fn.Name())
			}
		}
	}})
}

func ruleC13(c *Ctx, u string) {
	fn := c.P.byRel(u)
	d := &disk{c: c, pi: c.pathFields()}
	d.event = func(x *Exec, st *State, in ssa.Instruction, ev string, a *Term) {
		switch ev {
		case "direct write":
			c.viol("not atomic", in, st, "the catalogue's file %s is written in place", a)
		case "moved away":
			c.viol("not atomic", in, st, "the catalogue's file %s is moved away", a)
		case "replace index", "replace bitmap":
			c.met("replacement of a catalogue file", in)
			if !st.attr(a, "written") {
				c.viol("not atomic", in, st, "%s replaces a catalogue file without having been written successfully", a)
			}
			if ev == "replace index" && st.get("ix") != "" && st.get("ixadd") != "" {
				c.met("index stored after bitmap", in)
				if st.get("bmsaved") == "" {
					c.viol("order", in, st, "the index is stored with the new record before its chunk bitmap is")
				}
			}
		case "remove index":
			c.viol("not atomic", in, st, "the index is deleted")
		case "remove bitmap":
			c.met("removal of a bitmap", in)
			if st.get("delsaved") == "" {
				c.viol("order", in, st, "the chunk bitmap is deleted before the index is stored without its record")
			}
		}
	}
	c.run(fn, d.hooks())
}

// --- chunks -----------------------------------------------------------------------

// recordShape: which fields of the record hold what, seen when a download is registered
type recordShape struct {
	named                   *types.Named
	size, chunk, hash, prog int
	path                    int
	sizeT, chunkT           types.Type
}

func (c *Ctx) recordShape() *recordShape {
	rs := &recordShape{size: -1, chunk: -1, hash: -1, prog: -1, path: -1}
	fn := c.P.Method("catalogue", "Cat", "RegisterDownload")
	if fn == nil {
		panic("Cat.RegisterDownload not found")
	}
	ra := &rootArgsOf{}
	pi := c.pathFields()
	c.run(fn, ra.hooks(), &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.K != KAddrM || !catMap(x, st, addr.A[0]) || val == nil || ptrElem(val.T) == nil {
			return
		}
		s := structOf(ptrElem(val.T))
		rs.named = namedOf(ptrElem(val.T))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			v := st.load(mkAddrF(val, i))
			switch {
			case isInt(s.Field(i).Type()) && stripConv(v) == ra.arg(1):
				rs.size = i
			case isInt(s.Field(i).Type()) && stripConv(v) == ra.arg(3):
				rs.chunk = i
			case isString(s.Field(i).Type()) && pi.class(x, v) == "user":
				rs.path = i
			case namedOf(s.Field(i).Type()) != nil && namedOf(s.Field(i).Type()).Obj().Name() == "Sha1Hash":
				rs.hash = i
			case ptrElem(s.Field(i).Type()) != nil && structOf(ptrElem(s.Field(i).Type())) != nil && hasMutexOrBits(c.P, ptrElem(s.Field(i).Type())):
				rs.prog = i
			}
		}
	}})
	if rs.named == nil || rs.size < 0 || rs.chunk < 0 || rs.path < 0 || rs.hash < 0 {
		panic("cannot tell which fields of a catalogue record hold size, chunk size, path and hash of a registered download")
	}
	return rs
}

func hasMutexOrBits(P *Program, t types.Type) bool {
	for _, n := range moduleStructs(t, map[types.Type]bool{}) {
		if n == P.bitsetType() {
			return true
		}
	}
	return false
}

// recordOf: the record a path field was loaded from
func recordOf(p *Term, rs *recordShape) *Term {
	for p != nil && (p.K == KConv || p.K == KApp && p.Name == "filepath.Join" && len(p.A) == 1) {
		p = p.A[0]
	}
	if p == nil || p.K != KLoad || p.A[0].K != KAddrF {
		return nil
	}
	a := p.A[0]
	if namedOf(ptrElem(a.A[0].T)) != rs.named || a.F != rs.path {
		return nil
	}
	return a.A[0]
}

// underKey: the object was found in a table under the content of the given hash pointer
func underKey(x *Exec, st *State, rec, hash *Term) bool {
	found := false
	contains(rec, func(t *Term) bool {
		if t.K == KAddrM {
			k := t.A[1]
			if k.K == KLoad && k.A[0] == hash || k == st.load(hash) {
				found = true
			}
		}
		return false
	})
	return found
}

// chunkStart: off = chunk * chunkSize, multiplied in 64 bits
func chunkStart(st *State, off, chunk, size *Term) bool {
	l := linOf(off)
	if len(l.c) == 0 {
		return false
	}
	ok := false
	for a, k := range l.c {
		if k.Cmp(bigOne) != 0 || len(l.c) != 1 || l.k.Sign() != 0 {
			return false
		}
		if a.K == KBin && a.Op == token.MUL {
			b, _, isi := intBits(a.T)
			p, q := stripConv(a.A[0]), stripConv(a.A[1])
			c, s := stripConv(chunk), stripConv(size)
			ok = isi && b == 64 && (p == c && q == s || p == s && q == c)
		}
	}
	return ok
}

// unwrap reads sums and differences as mathematical ones
func unwrap(l *Lin) *Lin {
	for d := 0; d < 8; d++ {
		var at *Term
		for _, a := range l.atoms() {
			if a.K == KBin && (a.Op == token.ADD || a.Op == token.SUB) && !a.Exact {
				at = a
				break
			}
		}
		if at == nil {
			return l
		}
		k := l.c[at]
		e := linOf(at.A[0])
		if at.Op == token.ADD {
			e = e.add(linOf(at.A[1]))
		} else {
			e = e.sub(linOf(at.A[1]))
		}
		l = l.addScaled(linAtom(at), new(big.Int).Neg(k)).addScaled(e, k)
	}
	return l
}

// unwrapped: the state's facts, for sizes whose sums stay within 64 bits
func unwrapped(st *State) *State {
	s := st.clone()
	for _, f := range st.facts {
		s.addFact(unwrap(f))
	}
	return s
}

func ruleC17(c *Ctx, u string) {
	fn := c.P.byRel(u)
	rs := c.recordShape()
	ra := &rootArgsOf{}
	bs := c.P.bitsetType()
	pi := c.pathFields()
	c.run(fn, ra.hooks(), &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			// saving
			if fn.Name() == "SaveChunk" {
				for _, e := range fsEffects(ci) {
					if e.Kind != "data" || isCat(strings.TrimPrefix(pi.class(x, e.Path), "tmp:")) {
						continue
					}
					rec := recordOf(e.Path, rs)
					if rec == nil {
						c.viol("chunk range", ci.Instr, st, "a chunk is written to something that is not its record's file")
						continue
					}
					c.met("chunk written", ci.Instr)
					cs, sz := st.load(mkAddrF(rec, rs.chunk)), st.load(mkAddrF(rec, rs.size))
					if !strings.HasSuffix(ci.Name, ".WriteAt") || !chunkStart(st, ci.Args[2], ra.arg(2), cs) {
						c.viol("chunk range", ci.Instr, st, "the chunk's data is not written at chunk number times chunk size, computed in 64 bits")
						continue
					}
					n, start := linOf(mkLen(ci.Args[1])), linOf(ci.Args[2])
					rest := linOf(sz).sub(start)
					st := unwrapped(st)
					if !st.entails(linOf(cs).sub(n)) || !st.entails(rest.sub(n)) {
						c.viol("chunk range", ci.Instr, st, "data longer than the chunk can be written")
					} else if !st.entails(n.sub(linOf(cs))) && !st.entails(n.sub(rest)) {
						c.viol("chunk range", ci.Instr, st, "data shorter than the chunk can be written")
					}
				}
			}
			// serving
			if fn.Name() == "GetChunkReader" && ci.Name == "io.NewSectionReader" {
				c.met("chunk read", ci.Instr)
				f := ci.Args[0]
				rec := recordOf(filePath(f), rs)
				if rec == nil {
					c.viol("chunk range", ci.Instr, st, "a chunk is read from something that is not its record's file")
					return nil, false
				}
				cs, sz := st.load(mkAddrF(rec, rs.chunk)), st.load(mkAddrF(rec, rs.size))
				if !chunkStart(st, ci.Args[1], ra.arg(2), cs) {
					c.viol("chunk range", ci.Instr, st, "the chunk is not read from chunk number times chunk size, computed in 64 bits")
				}
				n, rest := unwrap(linOf(ci.Args[2])), linOf(sz).sub(linOf(ci.Args[1]))
				st := unwrapped(st)
				if !st.entails(n.sub(linOf(cs))) && !st.entails(n.sub(rest)) || !st.entails(linOf(cs).sub(n)) {
					c.viol("chunk range", ci.Instr, st, "the section read is not one chunk long")
				}
			}
			// chunk count
			if ci.Callee != nil && ci.Callee.Name() == "NewBitset" && ci.Callee.Pkg != nil && ci.Callee.Pkg.Pkg == bs.Obj().Pkg() && c.P.inCatalogue(ci.Frame.Fn) {
				c.met("chunk count", ci.Instr)
				if !c.ceilCount(st, ci.Args[0]) {
					c.viol("chunk count", ci.Instr, st, "the number of chunks is not the file size divided by the chunk size, rounded up: %s", ci.Args[0])
				}
			}
			return nil, false
		},
	})
}

// ceilCount: n = ceil(a/b) for some a and b
func (c *Ctx) ceilCount(st *State, n *Term) bool {
	l := linOf(n)
	for a, k := range l.c {
		if a.K != KBin || a.Op != token.QUO || k.Cmp(bigOne) != 0 || len(l.c) != 1 {
			continue
		}
		num, den := a.A[0], a.A[1]
		if b, _, ok := intBits(a.T); !ok || b != 64 {
			return false
		}
		if l.k.Sign() == 0 {
			// (x+d-1)/d
			rest := linOf(num).sub(linOf(den)).addK(1)
			if len(rest.c) == 1 && rest.k.Sign() == 0 {
				return true
			}
		}
		// x/d with the remainder known to be zero or not
		var v, known bool
		for _, ex := range []bool{false, true} {
			rem := U.mk(Term{K: KBin, Op: token.REM, A: []*Term{num, den}, T: a.T, Exact: ex})
			if !known {
				v, known = st.eval(mkCmp(token.EQL, rem, mkInt(0, a.T)))
			}
			if !known && st.entails(linOf(rem).addK(-1)) {
				v, known = false, true
			}
		}
		if known && v && l.k.Sign() == 0 {
			return true
		}
		if known && !v && l.k.IsInt64() && l.k.Int64() == 1 {
			return true
		}
	}
	return false
}

func init() {
	catUnits := func(P *Program) []string { return names(P.catRoots()) }
	register(&Rule{
		ID: "C10",
		Explain: "Ownership analysis by abstract interpretation of every catalogue operation: every reference inside a result, and inside every element put into a returned list, must lead " +
			"only to objects made by the operation itself, never (through any chain of loads) to the receiver or a global.",
		Units: catUnits, Run: ruleC10, Min: map[string]int{"returned reference": 6, "element handed out": 1},
	})
	register(&Rule{
		ID: "C12",
		Explain: "Error-flow analysis by abstract interpretation of every catalogue operation, NewCat and HashFile: each call that can fail is followed on its failing path; " +
			"unless the error is recognised as 'not there' or end of input, the operation must return a non-nil error and write nothing more.",
		Units: func(P *Program) []string {
			us := names(P.catRoots())
			for _, f := range []*ssa.Function{P.Func("catalogue", "NewCat"), P.Func("common", "HashFile")} {
				if f != nil {
					us = append(us, relName(f))
				}
			}
			return us
		},
		Run: ruleC12, Min: map[string]int{"step that can fail": 15, "way out": 10},
	})
	register(&Rule{
		ID: "C11",
		Explain: "Dirty/encoded/written/renamed typestate, by abstract interpretation, of the record table and of every chunk bitmap in every catalogue operation: on every return without " +
			"error nothing is dirty, and sharing, registering, unsharing and saving have taken each of their steps.",
		Units: func(P *Program) []string { return P.catOperations() }, Run: ruleC11, Min: map[string]int{"successful return": 8, "step required": 12},
	})
	register(&Rule{
		ID: "C13",
		Explain: "Ordering analysis of file-system effects on every path of every catalogue operation: index and bitmaps are only ever replaced by renaming a completely written other file; " +
			"the index with a new record replaces the old one only after that record's bitmap did, and a bitmap is deleted only after the index without its record was stored.",
		Units: catUnits, Run: ruleC13, Min: map[string]int{"replacement of a catalogue file": 1, "index stored after bitmap": 1, "removal of a bitmap": 1},
	})
	register(&Rule{
		ID: "C17",
		Explain: "Linear-arithmetic facts at the calls that write and read chunks: offset is chunk*ChunkSize in 64 bits, the written length is entailed to be min(ChunkSize, Size-offset), the " +
			"section read is a chunk, and every bitmap is made for ceil(Size/ChunkSize) chunks.",
		Units: catUnits, Run: ruleC17, Min: map[string]int{"chunk written": 1, "chunk read": 1, "chunk count": 1},
	})
}
