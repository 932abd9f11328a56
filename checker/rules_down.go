package main

// C20, C27, C36 (downloads)

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	gHeld  = ghost("all chunks held", types.Typ[types.Bool])
	gWhole = ghost("hash of the whole file", types.NewPointer(types.Typ[types.Int]))
	gChunk = ghost("chunk dialled for", tInt)
)

// download analyses Server.StartDownload with everything outside package flu cut off
type download struct {
	c       *Ctx
	id      string
	ra      *rootArgsOf
	goodApp map[*Term]bool // results of appends that added only hosts which may be used
	badApp  map[*Term]bool
}

func (d *download) viol(id, rule string, in ssa.Instruction, st *State, f string, a ...interface{}) {
	if id == d.id {
		d.c.viol(rule, in, st, f, a...)
	}
}

func (d *download) met(id, rule string, in ssa.Instruction) {
	if id == d.id {
		d.c.met(rule, in)
	}
}

// hash: the hash that was asked for
func (d *download) asked(x *Exec, st *State, p *Term) bool {
	return p == d.ra.arg(1) || sameContent(x, st, p, d.ra.arg(1))
}

// host: the discovery answer a value is a field of
func (d *download) host(v *Term, field string) *Term {
	o, f := fieldOf(v)
	if o == nil || f != field || namedOf(ptrElem(o.T)) != d.c.P.Named("flu/messages", "DiscoverHostResponse") {
		return nil
	}
	return o
}

// usable: facts on the path show that the host r advertises chunks and is not this one
func (d *download) usable(st *State, r *Term) string {
	chunks := fld(st, r, "Chunks")
	if !st.lss(mkInt(0, tInt), mkLen(chunks)) {
		return "may advertise no chunk of the file"
	}
	addr := st.load(fldAddr(r, "Address"))
	other := false
	for t, v := range st.truth {
		eq := t.K == KBin && t.Op == tokEQL || t.K == KApp && strings.HasSuffix(t.Name, "Equal")
		if !eq || v {
			continue
		}
		has := func(f func(*Term) bool) bool {
			ok := false
			contains(t, func(s *Term) bool { ok = ok || f(s); return false })
			return ok
		}
		a, _ := fieldOf(addr)
		isAddr := func(s *Term) bool {
			o, f := fieldOf(s)
			return s == addr || o != nil && o == a && f == "Address" || s.K == KAddrF && s == fldAddr(r, "Address")
		}
		if t.K == KBin && isInt(t.A[0].T) && !d.sameOctet(st, t, isAddr) {
			continue
		}
		if has(isAddr) && has(d.local) {
			other = true
		}
	}
	if !other {
		return "may be this host"
	}
	return ""
}

// sameOctet: the same element of both addresses is compared
func (d *download) sameOctet(st *State, t *Term, isAddr func(*Term) bool) bool {
	var ix [2]*Term
	var addr, local bool
	for i, s := range t.A {
		if s.K == KLoad {
			s = s.A[0]
		}
		if s.K != KIndexV && s.K != KAddrI {
			return false
		}
		ix[i] = s.A[1]
		b := s.A[0]
		addr = addr || isAddr(b) || b.K == KLoad && isAddr(b.A[0])
		local = local || contains(b, d.local)
	}
	return addr && local && st.eqInt(ix[0], ix[1])
}

// local: the value is this host's address
func (d *download) local(t *Term) bool {
	own := func(q *Term) bool { return q.K == KApp && strings.HasSuffix(q.Name, ".LocalIP#0") }
	if own(t) {
		return true
	}
	copied := func(t *Term) bool { // octet by octet
		s := copies.source(t)
		return s != nil && contains(s, own)
	}
	if copied(t) {
		return true
	}
	src := d.c.x.sources(t)
	if len(src) == 0 || src[0] == t {
		return false
	}
	zero, filled := false, false
	for _, s := range src {
		switch {
		case s.K == KZero:
			zero = true // before it is filled
		case copied(s):
			filled = true
		case !contains(s, own):
			return false
		}
	}
	return !zero || filled
}

// good: every host in the slice was checked when it was put there
func (d *download) good(x *Exec, st *State, s *Term, seen map[*Term]bool) bool {
	if s == nil {
		return false
	}
	if seen[s] {
		return true
	}
	seen[s] = true
	switch {
	case s.K == KNil, s.K == KZero, st.eqInt(mkLen(s), mkInt(0, tInt)):
		return true
	case s.K == KApp && strings.HasPrefix(s.Name, "append") && d.goodApp[s]:
		return !d.badApp[s] && d.good(x, st, s.A[0], seen)
	case s.K == KSlice && ptrElem(s.A[0].T) == nil:
		return d.good(x, st, s.A[0], seen)
	}
	src := x.sources(s)
	if len(src) == 1 && src[0] == s {
		if s.K == KMake || s.K == KSlice {
			n, ok := mkLen(s).isConstInt()
			return ok && n == 0
		}
		return false
	}
	for _, v := range src {
		if !d.good(x, st, v, seen) {
			return false
		}
	}
	return true
}

// checkHost: r may be asked for data of the file
func (d *download) checkHost(x *Exec, st *State, in ssa.Instruction, r *Term, what string) {
	d.met("C27", what, in)
	why := d.usable(st, r)
	if why == "" {
		return
	}
	if a := valAddr(r); a != nil && a.K == KAddrI && d.good(x, st, a.A[0], map[*Term]bool{}) {
		return
	}
	if r.K == KAddrI && d.good(x, st, r.A[0], map[*Term]bool{}) {
		return
	}
	d.viol("C27", "host", in, st, "a host is asked (%s) that %s", what, why)
}

func (d *download) isHost(t types.Type) bool {
	n := d.c.P.Named("flu/messages", "DiscoverHostResponse")
	return namedOf(t) == n || ptrElem(t) != nil && namedOf(ptrElem(t)) == n
}

func (d *download) hooks() *Hooks {
	c := d.c
	fluMethod := func(ci *CallInfo, typ, m string) bool {
		return ci.Callee != nil && ci.Callee == c.P.Method("flu", typ, m)
	}
	split := c.P.Method("flu/messages", "DataPacket", "Split")
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case fluMethod(ci, "Server", "LocalIP"):
				return apart(x, st, ci, nil), true
			case fluMethod(ci, "Server", "DiscoverHosts"):
				d.met("C27", "discovery", ci.Instr)
				if !d.asked(x, st, ci.Args[1]) {
					d.viol("C27", "other file", ci.Instr, st, "hosts are sought for another file: %s", ci.Args[1])
				}
				return apart(x, st, ci, nil), true
			case fluMethod(ci, "Server", "ListFilesOnHost"):
				if !d.asked(x, st, ci.Args[3]) {
					d.viol("C27", "other file", ci.Instr, st, "metadata of another file is asked for: %s", ci.Args[3])
				}
				r, q := d.host(ci.Args[1], "Address"), d.host(ci.Args[2], "Port")
				if r == nil || q != r {
					d.viol("C27", "host", ci.Instr, st, "metadata is asked from an address that is not that of one discovered host: %s %s", ci.Args[1], ci.Args[2])
				} else {
					d.checkHost(x, st, ci.Instr, r, "metadata")
				}
				return apart(x, st, ci, nil), true
			case ci.Callee != nil && ci.Callee == split:
				return apart(x, st, ci, nil), true
			case fluMethod(ci, "RecvConnection", "Ack"), fluMethod(ci, "RecvConnection", "Close"):
				return apart(x, st, ci, nil), true
			case ci.Callee != nil && ci.Callee == c.P.Func("flu", "DialPeer"):
				a := ci.Args
				r, q := d.host(a[0], "Address"), d.host(a[1], "Port")
				if r == nil || q != r {
					d.viol("C27", "host", ci.Instr, st, "a chunk is requested from an address that is not that of one discovered host: %s %s", a[0], a[1])
				} else {
					d.checkHost(x, st, ci.Instr, r, "chunk")
				}
				if !d.asked(x, st, a[2]) {
					d.viol("C27", "other file", ci.Instr, st, "a chunk of another file is requested: %s", a[2])
				}
				st.mem[gChunk] = stripSame(a[3])
			case ci.Builtin == "append" && len(ci.Args) == 2 && isSliceT(ci.Args[0].T) && d.isHost(sliceElemT(ci.Args[0].T)):
				// which hosts are added?
				ok := true
				if n, k := mkLen(ci.Args[1]).isConstInt(); k && n < 8 {
					for i := int64(0); i < n; i++ {
						e := elemAddr(ci.Args[1], i)
						h := st.load(e)
						if ptrElem(h.T) == nil {
							h = hostOfValue(st, h, e)
						}
						ok = ok && d.usable(st, h) == ""
					}
				} else {
					ok = d.good(x, st, ci.Args[1], map[*Term]bool{})
				}
				st.set("~apphost", fmt.Sprint(ok))
			}
			return nil, false
		},
		After: func(x *Exec, st *State, ci *CallInfo, rets []*Term) {
			if s := st.get("~apphost"); s != "" && ci.Builtin == "append" {
				st.set("~apphost", "")
				if s == "true" {
					d.goodApp[rets[0]] = true
				} else {
					d.badApp[rets[0]] = true
				}
			}
		},
	}
}

func sliceElemT(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// elemAddr: the address of element i of a slice
func elemAddr(s *Term, i int64) *Term {
	if s.K == KSlice {
		if lo, ok := s.A[1].isConstInt(); ok {
			return mkAddrI(s.A[0], mkInt(lo+i, tInt))
		}
	}
	return mkAddrI(s, mkInt(i, tInt))
}

// hostOfValue: the place a struct value was copied from
func hostOfValue(st *State, v, at *Term) *Term {
	if v.K == KStruct && len(v.A) > 0 {
		if o, _ := fieldOf(v.A[0]); o != nil {
			return o
		}
	}
	if a := valAddr(v); a != nil {
		return a
	}
	return at
}

// sumOf: the data whose SHA-1 the term is
func sumOf(t *Term) *Term {
	var out *Term
	contains(t, func(s *Term) bool {
		if s.K == KApp && s.Name == "hash.Sum" && out == nil {
			out = s.A[0]
		}
		return false
	})
	return out
}

// verified: the path compared the SHA-1 of exactly these bytes with an announced hash
func (d *download) verified(x *Exec, st *State, buf *Term) (bool, string) {
	want := mkApp("cat", types.Typ[types.String], mkApp("empty:crypto/sha1.New", types.Typ[types.String]), st.content(buf))
	why := "its SHA-1 was not compared with the hash announced"
	for t, v := range st.truth {
		if !v || t.K != KBin || t.Op != tokEQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if sumOf(t.A[i]) != want {
				continue
			}
			why = "its SHA-1 was compared with something else than the hash the sender announced: " + t.A[1-i].String()
			if d.announced(x, st, t.A[1-i]) {
				return true, ""
			}
		}
	}
	return false, why
}

// announced: all sources of the value are hashes split off a packet
func (d *download) announced(x *Exec, st *State, v *Term) bool {
	ok := false
	var walk func(t *Term, depth int) bool
	walk = func(t *Term, depth int) bool {
		if t == nil || depth > 8 {
			return false
		}
		if t.K == KApp && strings.HasSuffix(t.Name, "DataPacket).Split#0") {
			ok = true
			return true
		}
		if t.K == KNil {
			return true
		}
		src := x.sources(t)
		if len(src) == 1 && src[0] == t {
			switch t.K {
			case KLoad, KFieldV, KAddrF, KConv, KIface:
				return walk(t.A[0], depth+1)
			}
			return false
		}
		for _, s := range src {
			if !walk(s, depth+1) {
				return false
			}
		}
		return true
	}
	return walk(v, 0) && ok
}

func ruleDownload(id string) func(c *Ctx, u string) {
	return func(c *Ctx, u string) {
		fn := c.P.byRel(u)
		switch {
		case pkgOfFunc(fn).Name() == "catalogue":
			ruleC36cat(c, fn)
			return
		case pkgOfFunc(fn).Name() == "cli":
			ruleC36cli(c, fn)
			return
		}
		d := &download{c: c, id: id, ra: &rootArgsOf{}, goodApp: map[*Term]bool{}, badApp: map[*Term]bool{}}
		visited := map[ssa.Instruction]bool{}
		st := newState()
		st.mem[gHeld] = mkBool(false)
		st.mem[gWhole] = mkNil(types.NewPointer(types.Typ[types.Int]))
		st.mem[gChunk] = mkSym("no chunk", tInt)
		c.runWith(fn, nil, st, d.ra.hooks(), copies.hooks(), d.hooks(),
			c.cutCat(func(x *Exec, o *Outcome, ok bool, ci *CallInfo, m string) {
				st, a := o.St, ci.Args
				visited[ci.Instr] = true
				switch m {
				case "SaveChunk":
					if !ok {
						return
					}
					d.met("C20", "chunk saved", ci.Instr)
					if !d.asked(x, st, a[1]) {
						d.viol("C20", "other file", ci.Instr, st, "data is saved under another file's hash: %s", a[1])
					}
					if ch := st.mem[gChunk]; ch == nil || !st.eqInt(stripSame(ch), stripSame(a[2])) {
						d.viol("C20", "other chunk", ci.Instr, st, "data is saved as another chunk than the one requested: %s, not %s", a[2], ch)
					}
					if yes, why := d.verified(x, st, a[3]); !yes {
						d.viol("C20", "unverified", ci.Instr, st, "data is saved although %s", why)
					}
					st.mem[gHeld] = mkBool(false)
					st.mem[gWhole] = mkNil(gWhole.T)
				case "RegisterDownload":
					if !ok {
						return
					}
					d.met("C27", "download registered", ci.Instr)
					d.checkMeta(x, st, ci)
				case "FileComplete":
					st.mem[gHeld] = mkBool(false)
					if ok {
						st.mem[gHeld] = o.Ret[0]
						if !d.asked(x, st, a[1]) {
							st.mem[gHeld] = mkBool(false)
							d.viol("C36", "other file", ci.Instr, st, "another file is tested for completeness: %s", a[1])
						}
					}
				case "Rehash":
					st.mem[gWhole] = mkNil(gWhole.T)
					if ok && d.asked(x, st, a[1]) && d.complete(st) {
						st.mem[gWhole] = o.Ret[0]
					}
				}
			}),
			&Hooks{
				Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
					if !strings.HasPrefix(ci.Name, "fmt.Print") && !strings.HasPrefix(ci.Name, "fmt.Fprint") && !strings.HasPrefix(ci.Name, "log.Print") {
						return nil, false
					}
					text := printed(st, ci)
					if !strings.Contains(text, "complete") || strings.Contains(text, "hunk") {
						return nil, false
					}
					d.met("C36", "announced", ci.Instr)
					if !d.complete(st) {
						d.viol("C36", "incomplete", ci.Instr, st, "the download is announced as complete although it is not known that all chunks are held")
					}
					w := st.mem[gWhole]
					if w == nil || st.nilness(w) != 2 {
						d.viol("C36", "not rehashed", ci.Instr, st, "the download is announced as complete although the whole file was not hashed again after its last chunk")
					} else if !sameContent(x, st, w, d.ra.arg(1)) {
						d.viol("C36", "not compared", ci.Instr, st, "the download is announced as complete although the file's hash may differ from the one asked for")
					}
					return nil, false
				},
			},
			c.wired(func(x *Exec, st *State, ci *CallInfo, n *types.Named, msg *Term) {
				if n.Obj().Name() != "OpenConnectionRequest" {
					return
				}
				d.met("C27", "chunk requested", ci.Instr)
				if !d.asked(x, st, fld(st, msg, "Sha1Hash")) {
					d.viol("C27", "other file", ci.Instr, st, "the request names another file: %s", fld(st, msg, "Sha1Hash"))
				}
				if ch := st.mem[gChunk]; ch == nil || !st.eqInt(stripSame(ch), stripSame(fld(st, msg, "Chunk"))) {
					d.viol("C20", "other chunk", ci.Instr, st, "the request names another chunk than the one to be saved: %s", fld(st, msg, "Chunk"))
				}
			}))
		// nothing else downloads
		for _, f := range c.P.all {
			if !c.P.inMod(f) || pkgOfFunc(f).Name() == "catalogue" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || visited[in] {
						continue
					}
					g := call.Common().StaticCallee()
					if g != nil && (g == c.P.Method("catalogue", "Cat", "SaveChunk") && id == "C20" || g == c.P.Method("catalogue", "Cat", "RegisterDownload") && id == "C27") {
						c.viol("elsewhere", in, nil, "%s is called outside a download", g.Name())
					}
				}
			}
		}
	}
}

// complete: the path has seen that the file is complete
func (d *download) complete(st *State) bool {
	h := st.mem[gHeld]
	if h == nil {
		return false
	}
	v, known := st.eval(h)
	return known && v
}

// checkMeta: a download is registered with the metadata of the file asked for
func (d *download) checkMeta(x *Exec, st *State, ci *CallInfo) {
	want := []string{"", "SizeInBytes", "ChunkCount", "ChunkSizeInBytes", "Sha1Hash", "FileName"}
	var entry *Term
	for i := 1; i < len(ci.Args) && i < len(want); i++ {
		o, f := fieldOf(ci.Args[i])
		if want[i] == "Sha1Hash" && d.asked(x, st, ci.Args[i]) {
			if entry != nil && o == nil {
				continue
			}
		} else if want[i] == "Sha1Hash" {
			d.viol("C27", "other file", ci.Instr, st, "a download is registered under a hash that may not be the one asked for: %s", ci.Args[i])
		}
		if o == nil || namedOf(ptrElem(o.T)) != d.c.P.Named("flu/messages", "ListFilesEntry") || f != want[i] {
			if want[i] == "Sha1Hash" {
				continue
			}
			d.viol("C27", "metadata", ci.Instr, st, "%s of the registered download is not the one in the host's answer: %s", want[i], ci.Args[i])
			continue
		}
		if entry == nil {
			entry = o
		}
		if o != entry {
			d.viol("C27", "metadata", ci.Instr, st, "the metadata is mixed from several entries")
		}
	}
	if entry == nil {
		return
	}
	if h := fld(st, entry, "Sha1Hash"); !d.asked(x, st, h) {
		d.viol("C27", "other file", ci.Instr, st, "a download is registered with the metadata of an entry whose hash may not be the one asked for")
	}
	from := false
	contains(entry, func(t *Term) bool {
		from = from || t.K == KApp && strings.Contains(t.Name, "ListFilesOnHost")
		return false
	})
	if !from {
		d.viol("C27", "metadata", ci.Instr, st, "the metadata does not come from a host's answer: %s", entry)
	}
}

// printed: the constant text a print call shows
func printed(st *State, ci *CallInfo) string {
	var b strings.Builder
	add := func(t *Term) {
		contains(t, func(s *Term) bool {
			if v, ok := s.constStr(); ok {
				b.WriteString(v + " ")
			}
			return false
		})
	}
	for _, a := range ci.Args {
		if isSliceT(a.T) {
			if n, ok := mkLen(a).isConstInt(); ok && n < 10 {
				for i := int64(0); i < n; i++ {
					add(st.load(elemAddr(a, i)))
				}
			}
		}
		add(a)
	}
	return b.String()
}

// ruleC36cat: a file is called complete only if every chunk is marked
func ruleC36cat(c *Ctx, fn *ssa.Function) {
	ra := &rootArgsOf{}
	c.run(fn, ra.hooks(), c.bitQueries(), &Hooks{
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil || fr.Go || st.nilness(rets[len(rets)-1]) == 2 {
				return
			}
			in := fn.Blocks[0].Instrs[0]
			c.met("complete", in)
			if v, known := st.eval(rets[0]); known && !v {
				return
			}
			if t := stripSame(rets[0]); t.K == KApp && t.Name == "bits.Full" && c.heldUnder(st, t.A[0], ra.arg(1)) {
				return
			}
			s := st.clone()
			if !s.assume(rets[0], true) {
				return
			}
			ok := false
			for t, v := range s.truth {
				ok = ok || t.K == KApp && t.Name == "bits.Full" && v && c.heldUnder(s, t.A[0], ra.arg(1))
			}
			var ts []*Term
			for t := range s.truth {
				contains(t, func(q *Term) bool {
					if q.K == KApp && q.Name == "bits.Count" {
						ts = append(ts, q)
					}
					return false
				})
			}
			for _, f := range s.facts {
				for t := range f.c {
					if t.K == KApp && t.Name == "bits.Count" {
						ts = append(ts, t)
					}
				}
			}
			for _, t := range ts {
				ok = ok || c.heldUnder(s, t.A[0], ra.arg(1)) && s.leq(mkApp("bits.Size", tInt, t.A[0]), t)
			}
			if !ok {
				c.viol("incomplete", in, st, "a file is called complete although chunks may be missing: %s", rets[0])
			}
		},
	})
}

// heldUnder: the bitmap belongs to the record found under the hash
func (c *Ctx) heldUnder(st *State, bits, hash *Term) bool {
	r := rootOf(bits)
	if underKey(c.x, st, bits, hash) {
		return true
	}
	for a, v := range st.mem {
		if v != nil && a.K == KAddrF && rootOf(v) == r && underKey(c.x, st, a, hash) {
			return true
		}
	}
	return false
}

// ruleC36cli: the hash the user gives is the one downloaded
func ruleC36cli(c *Ctx, fn *ssa.Function) {
	ra := &rootArgsOf{}
	c.run(fn, ra.hooks(), &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee == nil || ci.Callee != c.P.Method("flu", "Server", "StartDownload") {
			return nil, false
		}
		c.met("download", ci.Instr)
		want := st.load(fldAddr(ra.arg(1), "Sha1Hash"))
		if ci.Args[1] != want && !sameContent(x, st, ci.Args[1], want) {
			c.viol("other file", ci.Instr, st, "what is downloaded is not what was asked for: %s", ci.Args[1])
		}
		return apart(x, st, ci, nil), true
	}})
}

func init() {
	method := func(P *Program, pkg, typ, m string) string {
		f := P.Method(pkg, typ, m)
		if f == nil {
			panic(typ + "." + m + " not found")
		}
		return relName(f)
	}
	start := func(P *Program) []string { return []string{method(P, "flu", "Server", "StartDownload")} }
	register(&Rule{
		ID: "C20",
		Explain: "Value-flow analysis of downloads: on every path to a saved chunk a comparison held, of all 20 bytes, between the SHA-1 of exactly the bytes saved, with the content they have at that moment, " +
			"and a hash split off a packet of the connection; file and chunk number are those the connection was opened for; chunks are saved nowhere else.",
		Units: start, Run: ruleDownload("C20"), Min: map[string]int{"chunk saved": 1},
	})
	register(&Rule{
		ID: "C27",
		Explain: "Value-flow analysis of downloads: a download is registered only with the fields of one entry of a host's answer whose hash was compared with the requested one; hosts are asked for metadata or chunks only at address and port " +
			"of one discovery answer for the requested hash which, on the path or when it was put into the list of hosts, was seen to advertise chunks and to have another address than the local one; requests name the requested hash.",
		Units: start, Run: ruleDownload("C27"), Min: map[string]int{"download registered": 1, "metadata": 1, "chunk": 1, "discovery": 1, "chunk requested": 1},
	})
	register(&Rule{
		ID: "C36",
		Explain: "Typestate analysis: on every path to the announcement of a complete download, FileComplete was true for the requested hash after the last chunk was saved, then Rehash succeeded and its result was compared equal to that hash; " +
			"FileComplete is true only if the bitmap of the record under that hash is full; the CLI passes on the hash it was given.",
		Units: func(P *Program) []string {
			return append(start(P), method(P, "catalogue", "Cat", "FileComplete"), method(P, "cli", "Methods", "Get"))
		},
		Run: ruleDownload("C36"), Min: map[string]int{"announced": 1, "complete": 1, "download": 1},
	})
}
