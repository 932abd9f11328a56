package main

// C30 (clean) and C31 (listings)

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOf: the struct address and field a value was loaded from
func fieldOf(v *Term) (*Term, string) {
	v = stripSame(v)
	if v == nil {
		return nil, ""
	}
	a := v
	if w := valAddr(v); w != nil {
		a = w
	}
	if a.K != KAddrF {
		return nil, ""
	}
	s := structOf(ptrElem(a.A[0].T))
	if s == nil {
		return nil, ""
	}
	return a.A[0], s.Field(a.F).Name()
}

// valAddr: the address a value was read from
func valAddr(v *Term) *Term {
	switch v.K {
	case KLoad:
		return v.A[0]
	case KFieldV:
		if a := valAddr(v.A[0]); a != nil && structOf(ptrElem(a.T)) != nil {
			return mkAddrF(a, v.F)
		}
	}
	return nil
}

// hashOrigin: the record whose hash a value, array, slice or pointer carries
func hashOrigin(st *State, v *Term) *Term {
	for d := 0; d < 12 && v != nil; d++ {
		if v.K == KAddrF && rootOf(v).K == KAlloc && structOf(ptrElem(v.T)) != nil {
			if w := st.load(mkAddrF(v, 0)); w != nil && valAddr(w) != mkAddrF(v, 0) {
				v = w
				continue
			}
		}
		switch {
		case v.K == KStruct && len(v.A) == 1:
			v = v.A[0]
			continue
		case v.K == KApp && (v.Name == "bytes" || strings.HasPrefix(v.Name, "content")) && len(v.A) >= 1:
			v = v.A[0]
			continue
		case v.K == KConv || v.K == KSlice:
			v = v.A[0]
			continue
		case v.K == KAlloc:
			if structOf(ptrElem(v.T)) != nil {
				v = st.load(mkAddrF(v, 0))
			} else {
				v = st.load(v)
			}
			continue
		}
		b, f := fieldOf(v)
		if b == nil {
			if v.K == KLoad {
				v = v.A[0]
				continue
			}
			return nil
		}
		if f == "Data" {
			v = b
			continue
		}
		if f == "Sha1Hash" {
			return b
		}
		return nil
	}
	return nil
}

// entry types of listings, with what their fields must hold
type entryField struct {
	from string // field of the source, or the bitmap query
	base bool   // base name only
}

type entryKind struct {
	dst, src [2]string
	fields   map[string]entryField
}

var entryKinds = []entryKind{
	{[2]string{"flu/messages", "ListFilesEntry"}, [2]string{"catalogue", "IndexRecordExport"}, map[string]entryField{
		"SizeInBytes": {from: "SizeInBytes"}, "ChunkCount": {from: "bits.Size"}, "ChunkSizeInBytes": {from: "ChunkSize"},
		"ChunksDownloaded": {from: "bits.Count"}, "Sha1Hash": {from: "Sha1Hash"}, "FileName": {from: "FilePath", base: true}}},
	{[2]string{"cli", "ListItem"}, [2]string{"catalogue", "IndexRecordExport"}, map[string]entryField{
		"SizeInBytes": {from: "SizeInBytes"}, "ChunkCount": {from: "bits.Size"}, "ChunkSizeInBytes": {from: "ChunkSize"},
		"ChunksDownloaded": {from: "bits.Count"}, "Sha1Hash": {from: "Sha1Hash"}, "FilePath": {from: "FilePath"}}},
	{[2]string{"cli", "ListItem"}, [2]string{"flu/messages", "ListFilesEntry"}, map[string]entryField{
		"SizeInBytes": {from: "SizeInBytes"}, "ChunkCount": {from: "ChunkCount"}, "ChunkSizeInBytes": {from: "ChunkSizeInBytes"},
		"ChunksDownloaded": {from: "ChunksDownloaded"}, "Sha1Hash": {from: "Sha1Hash"}, "FilePath": {from: "FileName"}}},
	{[2]string{"cli", "ChimResponse"}, [2]string{"flu/messages", "DiscoverHostResponse"}, map[string]entryField{
		"HostIP": {from: "Address"}, "HostPort": {from: "Port"}, "Chunks": {from: "Chunks"}}},
	{[2]string{"cli", "CleanResponseItem"}, [2]string{"catalogue", "IndexRecordExport"}, map[string]entryField{
		"FilePath": {from: "FilePath"}, "IndexedSha1Hash": {from: "Sha1Hash"}}},
}

// entryOrigin: where the value of one field comes from
func (c *Ctx) entryOrigin(x *Exec, st *State, v *Term, ft types.Type, want entryField) (rec *Term, from string, base bool) {
	for v != nil && v.K == KConv && (!isInt(v.T) || !isInt(ft) || sizes.Sizeof(v.T) >= sizes.Sizeof(ft)) {
		v = v.A[0] // all bits the field has room for
	}
	if v == nil {
		return nil, "", false
	}
	if v.K == KApp && (v.Name == "SplitFile" || v.Name == "Base") {
		r, f, _ := c.entryOrigin(x, st, v.A[0], ft, want)
		return r, f, true
	}
	if v.K == KApp && (v.Name == "bits.Size" || v.Name == "bits.Count") {
		if o, f := fieldOf(v.A[0]); f == "Progress" {
			return o, v.Name, false
		}
		return nil, "", false
	}
	if want.from == "Sha1Hash" {
		if r := hashOrigin(st, v); r != nil {
			return r, "Sha1Hash", false
		}
		return nil, "", false
	}
	r, f := fieldOf(v)
	return r, f, false
}

// checkEntry of a listing against the record it describes; the record's address
func (c *Ctx) checkEntry(x *Exec, st *State, in ssa.Instruction, n *types.Named, get func(i int) *Term) *Term {
	s := structOf(n)
	var kinds []entryKind
	for _, k := range entryKinds {
		if c.P.Named(k.dst[0], k.dst[1]) == n {
			kinds = append(kinds, k)
		}
	}
	var first string
	for q, k := range kinds {
		src := c.P.Named(k.src[0], k.src[1])
		var rec *Term
		bad := ""
		for i := 0; i < s.NumFields() && bad == ""; i++ {
			w, ok := k.fields[s.Field(i).Name()]
			if !ok {
				continue
			}
			v := get(i)
			r, f, base := c.entryOrigin(x, st, v, s.Field(i).Type(), w)
			switch {
			case r == nil || f != w.from || base != w.base:
				bad = fmt.Sprintf("%s.%s is not the %s of the file described: %s", n.Obj().Name(), s.Field(i).Name(), w.from, v)
			case namedOf(ptrElem(r.T)) != src:
				bad = fmt.Sprintf("%s.%s does not come from a %s", n.Obj().Name(), s.Field(i).Name(), src.Obj().Name())
			case rec != nil && r != rec:
				bad = fmt.Sprintf("%s.%s describes another file than the fields before it: %s", n.Obj().Name(), s.Field(i).Name(), v)
			}
			rec = r
		}
		if bad == "" {
			return rec
		}
		if first == "" || q > 0 && strings.Contains(first, "does not come from") {
			first = bad
		}
	}
	c.viol("entry", in, st, "%s", first)
	return nil
}

func (c *Ctx) entryType(t types.Type) *types.Named {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	if _, ptr := t.(*types.Pointer); ptr {
		return nil
	}
	for _, k := range entryKinds {
		if c.P.Named(k.dst[0], k.dst[1]) == n {
			return n
		}
	}
	return nil
}

// bitmapAddr: the bitmap a (possibly copied) bitmap was taken from
func bitmapAddr(st *State, a *Term) *Term {
	for d := 0; d < 6; d++ {
		if a.K == KApp && strings.Contains(a.Name, ".Copy#") {
			a = a.A[0]
			continue
		}
		if r := rootOf(a); r.K != KAlloc || structOf(ptrElem(a.T)) == nil {
			return a
		}
		v := st.load(mkAddrF(a, 0))
		if v == nil {
			return a
		}
		switch {
		case v.K == KLoad && v.A[0].K == KAddrF:
			a = v.A[0].A[0]
		case v.K == KFieldV && v.A[0].K == KLoad:
			a = v.A[0].A[0]
		case v.K == KFieldV && v.A[0].K == KFieldV && v.A[0].A[0].K == KLoad:
			a = mkAddrF(v.A[0].A[0].A[0], v.A[0].F)
		default:
			return a
		}
	}
	return a
}

// bitQueries: bitmap queries become terms over the bitmap
func (c *Ctx) bitQueries() *Hooks {
	return &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		m := c.bitsetMethod(ci)
		switch {
		case m == "" || ci.Results.Len() != 1:
			return nil, false
		case m == "Size" || m == "Count" || m == "Full":
			r := mkApp("bits."+m, ci.Results.At(0).Type(), bitmapAddr(st, ci.Args[0]))
			if isInt(r.T) {
				st.addFact(linOf(r))
			}
			return []Outcome{{st, []*Term{r}}}, true
		}
		return []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}, true
	}}
}

// ruleC31cat: what the catalogue hands out shows one record, field by field
func ruleC31cat(c *Ctx, fn *ssa.Function) {
	ra := &rootArgsOf{}
	rs := c.recordShape()
	exp := c.P.Named("catalogue", "IndexRecordExport")
	roles := map[string]int{"FilePath": rs.path, "SizeInBytes": rs.size, "ChunkSize": rs.chunk, "Sha1Hash": rs.hash, "Progress": rs.prog}
	type slot struct {
		rec *Term
		f   int
	}
	prov := map[*Term]map[slot]bool{} // fields of records a value was loaded from
	copies := map[*Term]map[*Term]bool{}
	add := func(m map[*Term]map[*Term]bool, k, v *Term) {
		if m[k] == nil {
			m[k] = map[*Term]bool{}
		}
		m[k][v] = true
	}
	note := func(v, addr *Term) {
		if v == nil || addr.K != KAddrF || namedOf(ptrElem(addr.A[0].T)) != rs.named {
			return
		}
		v = stripSame(v)
		if prov[v] == nil {
			prov[v] = map[slot]bool{}
		}
		prov[v][slot{addr.A[0], addr.F}] = true
	}
	origins := func(v *Term, f int) map[*Term]bool {
		res := map[*Term]bool{}
		if v == nil {
			return res
		}
		v = stripSame(v)
		for s := range prov[v] {
			if s.f == f {
				res[s.rec] = true
			}
		}
		if v.K == KLoad && v.A[0].K == KAddrF && v.A[0].F == f && namedOf(ptrElem(v.A[0].A[0].T)) == rs.named {
			res[v.A[0].A[0]] = true
		}
		return res
	}
	bitmap := func(v *Term) map[*Term]bool {
		res := map[*Term]bool{}
		contains(v, func(t *Term) bool {
			for a := range copies[t] {
				contains(a, func(b *Term) bool {
					for r := range origins(b, rs.prog) {
						res[r] = true
					}
					if b.K == KAddrF && b.F == rs.prog && namedOf(ptrElem(b.A[0].T)) == rs.named {
						res[b.A[0]] = true
					}
					return false
				})
			}
			return false
		})
		return res
	}
	check := func(x *Exec, st *State, in ssa.Instruction, get func(i int) *Term) *Term {
		var both map[*Term]bool
		s := structOf(exp)
		for i := 0; i < s.NumFields(); i++ {
			f, ok := roles[s.Field(i).Name()]
			if !ok {
				continue
			}
			v := get(i)
			var o map[*Term]bool
			if s.Field(i).Name() == "Progress" {
				o = bitmap(v)
			} else {
				o = origins(v, f)
			}
			if len(o) == 0 {
				c.viol("entry", in, st, "IndexRecordExport.%s is not the record's: %s", s.Field(i).Name(), v)
				return nil
			}
			if both == nil {
				both = o
				continue
			}
			for r := range both {
				if !o[r] {
					delete(both, r)
				}
			}
			if len(both) == 0 {
				c.viol("entry", in, st, "IndexRecordExport.%s belongs to another record than the fields before it", s.Field(i).Name())
				return nil
			}
		}
		for r := range both {
			return r
		}
		return nil
	}
	each := c.eachIteration("entry", "a record is left out of the list")
	c.run(fn, ra.hooks(), each.hooks(nil), &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			m := c.bitsetMethod(ci)
			if m == "" || ci.Results.Len() != 1 {
				return nil, false
			}
			outs := []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}
			if m == "Copy" {
				st.setNil(outs[0].Ret[0], 2)
				add(copies, outs[0].Ret[0], ci.Args[0])
			}
			return outs, true
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) { note(val, addr) },
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			note(val, addr)
			if val == nil || namedOf(val.T) != exp || addr.K != KAddrI {
				return
			}
			c.met("record exported", in)
			each.mark(x, st, fr, in)
			check(x, st, in, func(i int) *Term { return mkField(val, i) })
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go {
				return
			}
			if n := len(rets); isErrorT(rets[n-1].T) && st.nilness(rets[n-1]) == 2 {
				return
			}
			each.done(st)
			if rets[0] == nil || ptrElem(rets[0].T) == nil || namedOf(ptrElem(rets[0].T)) != exp || st.nilness(rets[0]) == 1 {
				return
			}
			c.metAt("record exported", relName(fn))
			rec := check(x, st, nil, func(i int) *Term { return st.load(mkAddrF(rets[0], i)) })
			if rec != nil && hashParam(fn) == 1 && fn.Signature.Params().Len() == 1 && !underKey(x, st, rec, ra.arg(1)) {
				c.viol("other file", nil, st, "the record handed out is not the one of the hash given")
			}
		},
	})
	each.finish()
}

// hashParam: the index (receiver first) of the only hash parameter
func hashParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if e := ptrElem(p.Type()); e != nil && namedOf(e) != nil && namedOf(e).Obj().Name() == "Sha1Hash" {
			return i
		}
	}
	return -1
}

func ruleC31(c *Ctx, u string) {
	fn := c.P.byRel(u)
	if pkgOfFunc(fn).Name() == "catalogue" {
		ruleC31cat(c, fn)
		return
	}
	ra := &rootArgsOf{}
	isCli := pkgOfFunc(fn).Name() == "cli"
	whole := map[*Term]bool{}  // lists of the whole catalogue
	single := map[*Term]bool{} // records looked up by the hash asked for
	remote := map[*Term]bool{}
	wantHash := func(st *State) *Term { return fld(st, ra.arg(1), "Sha1Hash") }
	lists := fn.Signature.Params().Len() > 0 && (namedOf(fn.Signature.Params().At(0).Type()) == c.P.Named("flu/messages", "ListFilesRequest") ||
		namedOf(fn.Signature.Params().At(0).Type()) == c.P.Named("cli", "ListRequest"))
	asked := func(x *Exec, st *State, h *Term) bool {
		w := wantHash(st)
		return !lists || w != nil && (h == w || sameContent(x, st, h, w))
	}
	cut := &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if c.foreign(ci, "common", "Sha1Hash") == "IsBlank" {
			return []Outcome{{st, []*Term{mkApp("blank", types.Typ[types.Bool], st.load(ci.Args[0]))}}}, true
		}
		if m := c.foreign(ci, "flu", "Server"); m != "" {
			return outside(x, st, ci, func(o *Outcome, ok bool) {
				if !ok {
					return
				}
				switch m {
				case "ListFilesOnHost":
					c.met("list of a peer", ci.Instr)
					remote[o.Ret[0]] = true
					if !asked(x, st, ci.Args[3]) {
						c.viol("other file", ci.Instr, st, "the peer is not asked for the hash the user gave")
					}
				case "DiscoverHosts":
					remote[o.Ret[0]] = true
				}
			}), true
		}
		return nil, false
	}}
	list := func(x *Exec, st *State, in ssa.Instruction, rec *Term) *Term {
		// the list the record is an element of
		if rec.K == KAddrI {
			return rec.A[0]
		}
		return nil
	}
	zero, listed := false, ssa.Instruction(nil)
	element := func(x *Exec, st *State, in ssa.Instruction, dst, rec *Term) {
		l := list(x, st, in, rec)
		if l == nil || dst.K != KAddrI {
			return
		}
		if i := rec.A[1]; st.eqInt(i, mkInt(0, i.T)) {
			zero = true
		} else {
			listed = in
		}
		if rootOf(l).K == KSlice && !st.eqInt(mkLen(l), mkLen(l.A[0])) {
			c.viol("entry", in, st, "only a part of the files is listed")
		}
		for _, s := range x.sources(dst.A[0]) {
			if s.K != KMake {
				return // appended
			}
		}
		if dst.A[1] != rec.A[1] && !st.eqInt(dst.A[1], rec.A[1]) {
			c.viol("entry", in, st, "an entry does not stand at the place of the file it describes")
		}
		if !st.eqInt(mkLen(dst.A[0]), mkLen(l)) {
			c.viol("entry", in, st, "the list does not have one entry for each file")
		}
	}
	each := c.eachIteration("entry", "a file is left out of the list")
	pending := func(x *Exec, st *State, fr *Frame) {
		id, _ := strconv.Atoi(st.get("pending"))
		e := termByID(id)
		if e == nil {
			return
		}
		st.set("pending", "")
		n := c.entryType(ptrElem(e.T))
		if rec := c.checkEntry(x, st, nil, n, func(i int) *Term { return st.load(mkAddrF(e, i)) }); rec != nil {
			element(x, st, nil, e, rec)
			c.checkListed(x, st, nil, rec, whole, single, remote)
		}
	}
	c.run(fn, ra.hooks(), cut, c.cutParse(), c.bitQueries(), each.hooks(pending),
		c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
			if !ok {
				return
			}
			switch m {
			case "ListFiles":
				c.met("catalogue listed", ci.Instr)
				whole[o.Ret[0]] = true
				if !isCli && lists {
					b := mkApp("blank", types.Typ[types.Bool], o.St.load(wantHash(o.St)))
					if v, known := o.St.eval(b); !known || !v {
						c.viol("whole list", ci.Instr, o.St, "the whole catalogue is listed although one file may have been asked for")
					}
				}
				if isCli && lists {
					if ip := fld(o.St, ra.arg(1), "IP"); o.St.nilness(ip) != 1 && !o.St.eqInt(mkLen(ip), mkInt(0, tInt)) {
						c.viol("whole list", ci.Instr, o.St, "the local catalogue is listed although a host may have been asked for")
					}
				}
			case "Contains", "ShareFile":
				single[o.Ret[0]] = true
				if m == "Contains" {
					c.met("file looked up", ci.Instr)
					if !asked(x, o.St, ci.Args[1]) {
						c.viol("other file", ci.Instr, o.St, "the file looked up is not the one asked for")
					}
				}
			}
		}),
		c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
			c.met("message sent", ci.Instr)
			s := structOf(n)
			for i := 0; i < s.NumFields(); i++ {
				v := st.load(mkAddrF(msg, i))
				if c.localPath(v) {
					c.viol("path disclosed", ci.Instr, st, "%s.%s carries a local path", n.Obj().Name(), s.Field(i).Name())
				}
			}
			if n.Obj().Name() == "ListFilesResponse" {
				c.met("list sent", ci.Instr)
				if v := fld(st, msg, "Files"); v != nil {
					for _, l := range x.sources(v) {
						if l.K != KMake && l.K != KNil && !(l.K == KApp && l.Name == "append") && l.K != KZero && l.K != KSlice {
							c.viol("entry", ci.Instr, st, "the list sent is not made here: %s", l)
						}
					}
				}
			}
		}),
		&Hooks{
			Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
				if val == nil {
					return
				}
				if n := namedOf(val.T); n != nil && n == c.P.Named("catalogue", "IndexRecordExport") && addr.K == KAddrI && !isCli {
					// a list of records made by the responder
					c.met("record listed", in)
					ok := false
					contains(val, func(t *Term) bool { ok = ok || single[t] || whole[t]; return false })
					if !ok {
						c.viol("other file", in, st, "a record of unknown origin is listed: %s", val)
					}
				}
				if addr.K == KAddrF && addr.A[0].K == KAddrI && c.entryType(ptrElem(addr.A[0].T)) != nil {
					// filled field by field; looked at when the iteration ends
					c.met("entry", in)
					each.mark(x, st, fr, in)
					st.set("pending", fmt.Sprint(addr.A[0].ID))
					return
				}
				n := c.entryType(val.T)
				if n == nil || addr.K != KAddrI {
					return
				}
				c.met("entry", in)
				each.mark(x, st, fr, in)
				rec := c.checkEntry(x, st, in, n, func(i int) *Term { return mkField(val, i) })
				if rec != nil {
					element(x, st, in, addr, rec)
					c.checkListed(x, st, in, rec, whole, single, remote)
				}
			},
			Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
				if fr.Caller != nil || fr.Go || len(rets) == 1 && isErrorT(rets[0].T) && st.nilness(rets[0]) == 2 {
					return
				}
				each.done(st)
				if len(rets) != 1 || ra.arg(2) == nil {
					return
				}
				p := ra.arg(2)
				n := c.entryType(ptrElem(p.T))
				if n == nil {
					return
				}
				c.metAt("entry", relName(fn))
				rec := c.checkEntry(x, st, nil, n, func(i int) *Term { return st.load(mkAddrF(p, i)) })
				if rec != nil {
					c.checkListed(x, st, nil, rec, whole, single, remote)
				}
			},
		})
	each.finish()
	if listed != nil && !zero {
		c.viol("entry", listed, nil, "the first file is never listed")
	}
}

// eachIteration: loops in which something is done in one iteration must do it in all
type eachIteration struct {
	c       *Ctx
	rule    string
	msg     string
	yes, no map[*ssa.BasicBlock]*State
	left    map[*ssa.BasicBlock]*State
	heads   map[*ssa.BasicBlock]bool
}

func (c *Ctx) eachIteration(rule, msg string) *eachIteration {
	return &eachIteration{c: c, rule: rule, msg: msg, yes: map[*ssa.BasicBlock]*State{}, no: map[*ssa.BasicBlock]*State{}, left: map[*ssa.BasicBlock]*State{}, heads: map[*ssa.BasicBlock]bool{}}
}

func loopKey(h *ssa.BasicBlock) string {
	return "did:" + relName(h.Parent()) + fmt.Sprint(h.Index)
}

// mark: the thing is done here
func (e *eachIteration) mark(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
	for f, i := fr, in; f != nil; f = f.Caller {
		if i != nil && i.Block() != nil {
			if l := x.info(f.Fn).loops[i.Block()]; l != nil {
				st.set(loopKey(l.header), "1")
				return
			}
		}
		i = f.Site
	}
}

// hooks; at: called when an iteration ends or the loop is left from inside
func (e *eachIteration) hooks(at func(x *Exec, st *State, fr *Frame)) *Hooks {
	return &Hooks{Edge: func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) {
		for l := fi.loops[from]; l != nil; l = l.parent {
			if !l.blocks[to] && from != l.header {
				st.set("left:"+loopKey(l.header), "1")
				e.heads[l.header] = true
			}
		}
		l := fi.loops[to]
		if l == nil || l.header != to {
			return
		}
		k := loopKey(to)
		if !l.blocks[from] {
			st.set(k, "")
			return
		}
		if at != nil {
			at(x, st, fr)
		}
		if st.get(k) != "" {
			e.yes[to] = st.clone()
		} else {
			e.no[to] = st.clone()
		}
		st.set(k, "")
	}}
}

// done: the operation succeeds here
func (e *eachIteration) done(st *State) {
	for h := range e.heads {
		if st.get("left:"+loopKey(h)) != "" && e.left[h] == nil {
			e.left[h] = st.clone()
		}
	}
}

func (e *eachIteration) finish() {
	for h := range e.yes {
		if st := e.left[h]; st != nil {
			e.c.viol(e.rule, h.Instrs[len(h.Instrs)-1], st, "%s: the loop is left early", e.msg)
		}
	}
	for h := range e.yes {
		if st := e.no[h]; st != nil {
			e.c.viol(e.rule, h.Instrs[len(h.Instrs)-1], st, "%s", e.msg)
		}
	}
}

// checkListed: the record stems from the catalogue or the peer's answer
func (c *Ctx) checkListed(x *Exec, st *State, in ssa.Instruction, rec *Term, sets ...map[*Term]bool) {
	ok := false
	check := func(t *Term) bool {
		for _, s := range sets {
			ok = ok || s[t]
		}
		return false
	}
	for _, r := range x.sources(rootOf(rec)) {
		ok = false
		contains(r, check)
		if !ok && (r.K == KMake || r.K == KApp && r.Name == "append" || r.K == KAlloc || r.K == KSlice) {
			continue // made here; its elements were checked when stored
		}
		if !ok && r.K != KNil && r.K != KZero {
			c.viol("entry", in, st, "an entry describes something else than a listed file: %s", r)
		}
	}
}

// localPath: the value shows a record's path beyond its base name
func (c *Ctx) localPath(v *Term) bool {
	if v == nil {
		return false
	}
	rec := c.P.Named("catalogue", "IndexRecordExport")
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.K == KApp && (t.Name == "SplitFile" || t.Name == "Base") {
			return false
		}
		if b, f := fieldOf(t); b != nil && f == "FilePath" && namedOf(ptrElem(b.T)) == rec {
			return true
		}
		for _, a := range t.A {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func hasExport(P *Program, t types.Type) []*types.Named {
	var res []*types.Named
	for _, n := range moduleStructs(t, map[types.Type]bool{}) {
		if n == P.Named("catalogue", "IndexRecordExport") {
			res = append(res, n)
		}
	}
	return res
}

func init() {
	register(&Rule{
		ID: "C31",
		Explain: "Value-flow analysis of the operations that answer or show listings: every entry's every field is traced to its own field (or bitmap query) of one and the same catalogue record " +
			"or peer entry, at the same place of a list of the same length; a request for one file leads to that record alone; no path beyond its base name reaches a message.",
		Units: func(P *Program) []string {
			us := names(P.rpcRoots())
			for _, f := range P.exportedMethods(P.Named("flu", "Server")) {
				if f != P.handler() { // its parts are analysed
					us = append(us, relName(f))
				}
			}
			for _, f := range P.exportedMethods(P.Named("catalogue", "Cat")) {
				if r := f.Signature.Results(); r.Len() > 0 && len(hasExport(P, r.At(0).Type())) > 0 {
					us = append(us, relName(f))
				}
			}
			return us
		},
		Run: ruleC31, Min: map[string]int{"entry": 4, "list sent": 1, "catalogue listed": 2, "file looked up": 1, "list of a peer": 1, "message sent": 2},
	})
}

// knownFull: the facts say that the record's bitmap is full
func knownFull(st *State, rec *Term) bool {
	for t, v := range st.truth {
		if t.K == KApp && t.Name == "bits.Full" && v {
			if o, f := fieldOf(t.A[0]); o == rec && f == "Progress" {
				return true
			}
		}
	}
	bits := fldAddr(rec, "Progress")
	return bits != nil && st.leq(mkApp("bits.Size", tInt, bits), mkApp("bits.Count", tInt, bits))
}

func ruleC30(c *Ctx, u string) {
	fn := c.P.byRel(u)
	if pkgOfFunc(fn).Name() == "catalogue" {
		c.rehashRule(fn)
		return
	}
	ra := &rootArgsOf{}
	whole := map[*Term]bool{}
	each := c.eachIteration("unreported", "a file looked at is not reported")
	forget := func(x *Exec, st *State, fr *Frame) { st.set("rehash", "") }
	c.run(fn, ra.hooks(), c.bitQueries(), each.hooks(forget),
		c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
			st := o.St
			switch m {
			case "ListFiles":
				if ok {
					whole[o.Ret[0]] = true
				}
			case "Contains", "FileComplete", "Get":
			case "Rehash":
				c.met("rehash", ci.Instr)
				st.setNil(o.Ret[0], 2) // also when it fails, C12
				rec := hashOrigin(st, ci.Args[1])
				switch {
				case rec == nil:
					c.viol("wrong file", ci.Instr, st, "the file rehashed is not one of the catalogue's list: %s", ci.Args[1])
				case ok:
					st.set("rehash", fmt.Sprint(rec.ID, " ", o.Ret[0].ID))
				default:
					st.set("rehash", fmt.Sprint(rec.ID, " 0"))
				}
			case "UnshareFile":
				c.met("file dropped", ci.Instr)
				rec := hashOrigin(st, ci.Args[1])
				if rec == nil {
					c.viol("dropped", ci.Instr, st, "the file dropped is not one of the catalogue's list: %s", ci.Args[1])
					return
				}
				c.checkListed(x, st, ci.Instr, rec, whole)
				if !knownFull(st, rec) {
					c.viol("dropped", ci.Instr, st, "a file is dropped that may not be complete")
				}
				var of, got int
				if n, _ := fmt.Sscan(st.get("rehash"), &of, &got); n != 2 || of != rec.ID {
					c.viol("dropped", ci.Instr, st, "a file is dropped that was not rehashed")
					return
				}
				if got == 0 {
					return
				}
				a, b := st.load(termByID(got)), st.load(fldAddr(rec, "Sha1Hash"))
				if v, known := st.eval(mkCmp(tokEQL, a, b)); known && !v {
					return
				}
				h := ci.Args[1]
				if v, known := st.eval(mkCmp(tokEQL, a, st.load(h))); known && !v {
					return
				}
				c.viol("dropped", ci.Instr, st, "a file is dropped although its hash may be unchanged")
			default:
				c.viol("catalogue changed", ci.Instr, st, "clean calls %s", m)
			}
		}),
		&Hooks{
			Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
				for _, e := range fsEffects(ci) {
					c.viol("file touched", ci.Instr, st, "clean itself changes files: %s", e.Kind)
				}
				return nil, false
			},
			Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
				if val == nil || addr.K != KAddrI {
					return
				}
				if n := c.entryType(val.T); n != nil {
					c.met("file reported", in)
					each.mark(x, st, fr, in)
					if rec := c.checkEntry(x, st, in, n, func(i int) *Term { return mkField(val, i) }); rec != nil {
						c.checkListed(x, st, in, rec, whole)
					}
				}
			},
			Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
				if fr.Caller == nil && !fr.Go && (len(rets) == 0 || st.nilness(rets[0]) != 2) {
					each.done(st)
				}
			},
		})
	each.finish()
}

// rehashRule: Cat.Rehash hashes the file of the record asked for, and reports what came out
func (c *Ctx) rehashRule(fn *ssa.Function) {
	ra := &rootArgsOf{}
	rs := c.recordShape()
	hashed := map[*Term]bool{}
	c.run(fn, ra.hooks(), &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee != c.P.Func("common", "HashFile") {
				return nil, false
			}
			c.met("file hashed", ci.Instr)
			if rec := recordOf(ci.Args[0], rs); rec == nil || !underKey(x, st, rec, ra.arg(1)) {
				c.viol("wrong file", ci.Instr, st, "the file hashed is not that of the record asked for: %s", ci.Args[0])
			}
			return outside(x, st, ci, func(o *Outcome, ok bool) {
				if ok {
					hashed[o.Ret[0]] = true
				}
			}), true
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go || len(rets) != 2 || st.nilness(rets[1]) == 2 {
				return
			}
			c.metAt("hash reported", relName(fn))
			if !hashed[rets[0]] {
				ok := false
				for h := range hashed {
					ok = ok || sameContent(x, st, rets[0], h)
				}
				if !ok {
					c.viol("wrong hash", nil, st, "the hash returned without an error is not the one computed from the file: %s", rets[0])
				}
			}
		},
	})
}

func init() {
	register(&Rule{
		ID: "C30",
		Explain: "Path-sensitive analysis of the clean command and of Cat.Rehash: UnshareFile is reached only on paths whose facts say that the same record's bitmap is full and that Rehash of the same hash failed or gave another hash; " +
			"no other changing operation and no file-system effect occurs; every iteration over the list records an entry of its own file; Rehash hashes the record's own file and returns that hash or an error.",
		Units: func(P *Program) []string {
			return []string{relName(P.Method("cli", "Methods", "Clean")), relName(P.Method("catalogue", "Cat", "Rehash"))}
		},
		Run: ruleC30, Min: map[string]int{"rehash": 1, "file dropped": 1, "file reported": 1, "file hashed": 1, "hash reported": 1},
	})
}
