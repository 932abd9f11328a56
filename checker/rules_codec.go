package main

// C01 (peer messages), C14 (restarts)

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// composed runs a decoder on what an encoder returns
func composed(c *Ctx, l *layout, enc, dec *ssa.Function, args []*Term, st *State, hs []*Hooks, check func(x *Exec, o *Outcome)) int {
	n := 0
	for _, o := range c.runWith(enc, args, st, append([]*Hooks{l.hooks()}, hs...)...) {
		if len(o.Ret) > 1 && failed(&o) {
			continue
		}
		n++
		s := o.St.clone()
		d := *l
		d.coded = o.Ret[0]
		d.wire = mkApp("wire", enc.Signature.Results().At(0).Type(), d.coded)
		s.setNil(d.wire, 2)
		d.reg()
		d.known(s)
		*l = d
		for _, r := range c.runWith(dec, []*Term{d.wire}, s, append([]*Hooks{l.hooks()}, hs...)...) {
			check(c.x, &r)
		}
		l.coded, l.wire = nil, nil
	}
	return n
}

func ruleBitmapRoundTrip(c *Ctx) {
	enc, dec := c.P.Method("common/bitset", "Bitset", "Serialize"), c.P.Func("common/bitset", "Deserialize")
	if enc == nil || dec == nil {
		panic("Bitset.Serialize or Deserialize not found")
	}
	bs := c.P.bitsetType()
	st := newState()
	b := mkParam("b", types.NewPointer(bs))
	st.setNil(b, 2)
	// what every bit set satisfies (C33)
	var words, size *Term
	s := bs.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := st.load(fldAddr(b, s.Field(i).Name()))
		switch {
		case isSliceT(f.T):
			words = f
		case isInt(f.T):
			size = f
		}
	}
	if words == nil || size == nil {
		panic("a bit set is not a list of words and a size")
	}
	st.addFact(linOf(size))
	st.addFact(linOf(mkLen(words)).scale(big.NewInt(64)).sub(linOf(size)))
	l := &layout{}
	var in ssa.Instruction = firstInstr(dec)
	n := composed(c, l, enc, dec, []*Term{b}, st, nil, func(x *Exec, o *Outcome) {
		if failed(o) {
			c.viol("refused", in, o.St, "a stored bitmap may be refused when it is loaded")
			return
		}
		c.met("bitmap read back", in)
		r := o.Ret[0]
		for i := 0; i < s.NumFields(); i++ {
			name := s.Field(i).Name()
			got := o.St.load(fldAddr(r, name))
			switch {
			case isSliceT(got.T):
				if !l.sameList(o.St, got, words, mkLen(words)) {
					c.viol("words", in, o.St, "the words of a bitmap that is read back are not those that were stored: %s", got)
				}
			case isInt(got.T):
				if !o.St.eqInt(stripSame(got), size) {
					c.viol("size", in, o.St, "the size of a bitmap that is read back is not the one that was stored: %s", got)
				}
			}
		}
	})
	if n == 0 {
		c.viol("refused", in, st, "bitmaps are not encoded")
	}
}

// sameList: a list read from the wire is the first n elements of src
func (l *layout) sameList(st *State, got, src, n *Term) bool {
	if !st.eqInt(mkLen(got), n) {
		return false
	}
	if st.eqInt(n, mkInt(0, tInt)) {
		return true
	}
	base := got
	if got.K == KSlice && st.eqInt(got.A[1], mkInt(0, tInt)) {
		base = got.A[0]
	}
	for _, a := range ghosts(st, base) {
		if a.Name == "ghost:0:out" && a.A[1] == src && st.leq(n, st.mem[a]) {
			return true
		}
	}
	return false
}

// the stored index ------------------------------------------------------------------

// indexCodec collects how records are written to and read from JSON
type indexCodec struct {
	c       *Ctx
	rs      *recordShape
	encoded map[string]map[string]string // table: leaf or KEY -> what it holds
	encSite map[string]ssa.Instruction
	decoded map[string]map[string]string // table: field or KEY -> what it is read from
	decSite map[string]ssa.Instruction
	leafT   map[string]string
	dirs    map[string]ssa.Instruction // where the index is kept: field path and name
	bdirs   map[string]ssa.Instruction // where bitmaps are kept: field path
}

// fieldPath: the fields that lead from the root object to the value
func fieldPath(t, root *Term) string {
	t = stripSame(t)
	p := ""
	for t != nil && t != root {
		switch {
		case t.K == KLoad:
			t = t.A[0]
		case t.K == KAddrF:
			p = fmt.Sprintf(".%d", t.F) + p
			t = t.A[0]
		case t.K == KFieldV:
			p = fmt.Sprintf(".%d", t.F) + p
			t = t.A[0]
		case t.K == KConv:
			t = t.A[0]
		default:
			return ""
		}
	}
	return p
}

// followPath: the value a field path leads to now
func followPath(st *State, root *Term, p string) *Term {
	v := root
	for _, s := range strings.Split(p, ".") {
		if s == "" {
			continue
		}
		i, _ := strconv.Atoi(s)
		if ptrElem(v.T) == nil || structOf(ptrElem(v.T)) == nil {
			return nil
		}
		v = st.load(mkAddrF(v, i))
	}
	return v
}

// unhex: the text a hash was read from
func unhex(v *Term) *Term {
	for v != nil {
		switch {
		case v.K == KApp && v.Name == "hex.DecodeString":
			return v.A[0]
		case v.K == KStruct && len(v.A) == 1 || v.K == KConv || v.K == KSlice && v.A[1].K == KConst || v.K == KApp && (v.Name == "arr" || v.Name == "content") && len(v.A) == 1:
			v = v.A[0]
		default:
			return nil
		}
	}
	return nil
}

func jsonName(t types.Type, i int) string {
	s := structOf(t)
	if s == nil {
		return ""
	}
	f := s.Field(i)
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if !f.Exported() || tag == "-" {
		return ""
	}
	if n := strings.Split(tag, ",")[0]; n != "" {
		return n
	}
	return f.Name()
}

// written: what a value to be encoded holds, of which record and key
func (k *indexCodec) written(v *Term) (string, *Term) {
	v = stripSame(v)
	if v.K == KApp && v.Name == "hex.EncodeToString" {
		a := v.A[0]
		for a.K == KApp && strings.HasPrefix(a.Name, "content") && len(a.A) == 1 || a.K == KConv || a.K == KSlice && a.A[1].K == KConst {
			a = a.A[0]
		}
		if n := namedOf(a.T); n == nil || n.Obj().Name() != "Sha1Hash" {
			switch a.K {
			case KLoad:
				a = a.A[0]
				if a.K == KAddrF {
					a = a.A[0]
				}
			case KFieldV:
				a = a.A[0]
			}
		}
		if s, o := k.written(a); s != "" {
			return "hex(" + s + ")", o
		}
		return "", nil
	}
	if a := valAddr(v); a != nil {
		v = a
	}
	if v.K == KAddrF && namedOf(ptrElem(v.A[0].T)) == k.rs.named {
		return fmt.Sprintf("record.%d", v.F), v.A[0]
	}
	if v.K == KSym || v.K == KApp {
		if n := namedOf(v.T); n != nil && n.Obj().Name() == "Sha1Hash" {
			return "key", v
		}
	}
	return "", nil
}

// leaf: the JSON leaf a decoded value was read from, in which table and under which key
func leaf(v *Term) (name string, m, key *Term) {
	v = stripSame(v)
	a := valAddr(v)
	if a == nil || a.K != KAddrF {
		return "", nil, nil
	}
	e := a.A[0]
	if e.K == KLoad { // a table of pointers
		e = e.A[0]
	}
	if e.K != KAddrM {
		return "", nil, nil
	}
	return jsonName(ptrElem(a.A[0].T), a.F), e.A[0], e.A[1]
}

// place: the JSON names that lead from what is encoded or decoded to the table
func place(v, table *Term, load func(*Term) *Term, d int) (string, bool) {
	if v == table {
		return "", true
	}
	if d > 4 || v == nil {
		return "", false
	}
	if p := ptrElem(v.T); p != nil && structOf(p) != nil {
		for i := 0; i < structOf(p).NumFields(); i++ {
			if s, ok := place(load(mkAddrF(v, i)), table, load, d+1); ok {
				if n := jsonName(p, i); n != "" {
					return "/" + n + s, true
				}
			}
		}
		return "", false
	}
	if s := structOf(v.T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if p, ok := place(mkField(v, i), table, load, d+1); ok {
				if n := jsonName(v.T, i); n != "" {
					return "/" + n + p, true
				}
			}
		}
	}
	return "", false
}

func (k *indexCodec) encode() (*Hooks, *eachIteration) {
	c := k.c
	type entry struct {
		table map[string]string
		in    ssa.Instruction
	}
	entries := map[*Term][]entry{}
	each := c.eachIteration("record left out", "a record may be left out of the stored index")
	h := each.hooks(nil)
	h.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.K != KAddrM || val == nil || !isString(addr.A[1].T) {
			return
		}
		vt := val.T
		if p := ptrElem(vt); p != nil {
			vt = p
		}
		s := structOf(vt)
		if s == nil || !k.P().inCatalogue(fr.Fn) {
			return
		}
		each.mark(x, st, fr, in)
		e := entry{map[string]string{}, in}
		var obj *Term
		keep := func(name, what string, o *Term) {
			if what == "" || name == "" {
				return
			}
			if what != "key" && what != "hex(key)" {
				if obj != nil && obj != o {
					c.viol("record mixed", in, st, "an entry of the stored index mixes two records: %s and %s", obj, o)
				}
				obj = o
			}
			e.table[name] = what
		}
		for i := 0; i < s.NumFields(); i++ {
			var v *Term
			if vt == val.T {
				v = mkField(val, i)
			} else {
				v = st.load(mkAddrF(val, i))
			}
			what, o := k.written(v)
			keep(jsonName(vt, i), what, o)
			if what != "" {
				k.leafT["w:"+jsonName(vt, i)] = s.Field(i).Type().String()
			}
		}
		what, o := k.written(addr.A[1])
		keep("KEY", what, o)
		if what == "hex(key)" && (obj == nil || obj.K != KLoad || obj.A[0].K != KAddrM || obj.A[0].A[1] != o) {
			c.viol("record mixed", in, st, "an entry of the stored index is not the record with that hash")
		}
		entries[addr.A[0]] = append(entries[addr.A[0]], e)
	}
	h.MapDelete = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
		if len(entries[m]) > 0 {
			c.viol("record left out", in, st, "an entry is removed from the index to be stored")
		}
	}
	h.Range = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m *Term) {
		if catMap(x, st, m) {
			st.set("ranged", "1")
		}
	}
	h.Call = func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Name != "encoding/json.Marshal" && ci.Name != "encoding/json.MarshalIndent" {
			return nil, false
		}
		v := ci.Args[0]
		if v.K == KIface {
			v = v.A[0]
		}
		for m, es := range entries {
			p, ok := place(v, m, st.load, 0)
			if !ok {
				continue
			}
			if st.get("ranged") == "" {
				c.viol("record left out", ci.Instr, st, "the index is encoded before its records are added")
			}
			each.done(st)
			for _, e := range es {
				c.met("index entry encoded", e.in)
				k.encoded[p+fmt.Sprint(tableKey(e.table))] = e.table
				k.encSite[p+fmt.Sprint(tableKey(e.table))] = e.in
				e.table["PLACE"] = p
			}
		}
		return nil, false
	}
	return h, each
}

func tableKey(t map[string]string) string {
	var l []string
	for a, b := range t {
		if a != "PLACE" {
			l = append(l, a+"="+b)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (k *indexCodec) P() *Program { return k.c.P }

func fileRead(d *Term) *Term {
	d = rootOf(d)
	if d.K == KApp && (strings.HasPrefix(d.Name, "os.ReadFile#0") || strings.HasPrefix(d.Name, "io/ioutil.ReadFile#0")) {
		return d.A[0]
	}
	return nil
}

// decode: loading the index
func (k *indexCodec) decode(each *eachIteration) *Hooks {
	c := k.c
	h := each.hooks(nil)
	h.Call = func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Name == "encoding/json.Unmarshal" {
			if p := fileRead(ci.Args[0]); p != nil {
				note(st, "loaded", p)
			}
			v := ci.Args[1]
			if v.K == KIface {
				v = v.A[0]
			}
			note(st, "target", v)
		}
		return nil, false
	}
	h.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		for a := addr; val != nil && a.K == KAddrF; a = a.A[0] {
			if namedOf(ptrElem(a.A[0].T)) == k.rs.named && x.hasAttr(st, a.A[0], "decoded") && val != st.load(addr) && a.F != k.rs.prog {
				c.viol("field", in, st, "a record is changed after it was loaded")
			}
		}
		if addr.K != KAddrM || val == nil || ptrElem(val.T) == nil || namedOf(ptrElem(val.T)) != k.rs.named {
			return
		}
		each.mark(x, st, fr, in)
		c.met("index entry decoded", in)
		t := map[string]string{}
		var table, key *Term
		from := func(name string, v *Term) {
			what := ""
			if n, m, kk := leaf(v); n != "" {
				what, table, key = "leaf."+n, m, kk
			}
			if s := unhex(v); s != nil {
				if n, m, kk := leaf(s); n != "" {
					what, table, key = "unhex(leaf."+n+")", m, kk
				} else {
					what = "unhex(KEY)"
					if key != nil && key != stripSame(s) {
						what = ""
					}
				}
			}
			if what != "" {
				t[name] = what
			}
		}
		s := structOf(k.rs.named)
		for i := 0; i < s.NumFields(); i++ {
			v := st.load(mkAddrF(val, i))
			from(fmt.Sprintf("record.%d", i), v)
			if n, _, _ := leaf(v); n != "" {
				if a := valAddr(stripSame(v)); a != nil {
					k.leafT["r:"+n] = ptrElem(a.T).String()
				}
			}
		}
		from("KEY", addr.A[1])
		if target := noted(st, "target"); target != nil && table != nil {
			if p, ok := place(target, table, st.load, 0); ok {
				t["PLACE"] = p
			}
		}
		k.decoded[tableKey(t)+t["PLACE"]] = t
		k.decSite[tableKey(t)+t["PLACE"]] = in
		st.setAttr(val, "decoded")
	}
	return h
}

// compare: everything is read from where it was written
func (k *indexCodec) compare() {
	c, s := k.c, structOf(k.rs.named)
	for en, enc := range k.encoded {
		for dn, dec := range k.decoded {
			in := k.decSite[dn]
			if enc["PLACE"] != dec["PLACE"] {
				c.viol("table", in, nil, "the records are stored at %q and read from %q", enc["PLACE"], dec["PLACE"])
			}
			check := func(name, what string) {
				src := dec[name]
				switch {
				case strings.HasPrefix(src, "leaf."):
					if enc[src[5:]] == what || what == "key" && enc[src[5:]] == fmt.Sprintf("record.%d", k.rs.hash) {
						return
					}
				case src == "unhex(KEY)":
					if w := enc["KEY"]; w == "hex("+what+")" || w == "hex(key)" && what == fmt.Sprintf("record.%d", k.rs.hash) ||
						what == "key" && w == fmt.Sprintf("hex(record.%d)", k.rs.hash) {
						return
					}
				case strings.HasPrefix(src, "unhex(leaf."):
					w := enc[strings.TrimSuffix(src[11:], ")")]
					if w == "hex("+what+")" || w == "hex(key)" && what == fmt.Sprintf("record.%d", k.rs.hash) ||
						what == "key" && w == fmt.Sprintf("hex(record.%d)", k.rs.hash) {
						return
					}
				}
				label := name
				if strings.HasPrefix(name, "record.") {
					i, _ := strconv.Atoi(name[7:])
					label = s.Field(i).Name()
				}
				c.viol("field", in, nil, "%s of a record is not restored from what was stored (stored: %s; read: %s)", label, tableKey(enc), src)
			}
			for i := 0; i < s.NumFields(); i++ {
				if ptrElem(s.Field(i).Type()) == nil {
					check(fmt.Sprintf("record.%d", i), fmt.Sprintf("record.%d", i))
				}
			}
			check("KEY", "key")
			for l, t := range k.leafT {
				if strings.HasPrefix(l, "r:") && k.leafT["w:"+l[2:]] != "" && k.leafT["w:"+l[2:]] != t {
					c.viol("type", in, nil, "%s is stored as %s and read as %s", l[2:], k.leafT["w:"+l[2:]], t)
				}
			}
		}
		_ = en
	}
}

// bitmapName: the directory of a path named after the hash of the record
func (k *indexCodec) bitmapName(st *State, p, rec *Term) *Term {
	for p != nil && (p.K == KConv || p.K == KApp && p.Name == "filepath.Join" && len(p.A) == 1) {
		p = p.A[0]
	}
	if p == nil || p.K != KApp || p.Name != "filepath.Join" || len(p.A) != 2 {
		return nil
	}
	n := p.A[1]
	if n.K != KApp || n.Name != "hex.EncodeToString" {
		return nil
	}
	a := mkAddrF(rec, k.rs.hash)
	if structOf(ptrElem(a.T)) != nil {
		a = mkAddrF(a, 0)
	}
	if unarr(n.A[0]) != unarr(st.content(a)) && unarr(n.A[0]) != unarr(st.load(a)) {
		return nil
	}
	return p.A[0]
}

func (k *indexCodec) sameDir(st *State, in ssa.Instruction, d, cat *Term) {
	p := fieldPath(d, cat)
	if p == "" {
		k.c.viol("bitmap path", in, st, "a bitmap is kept in %s, which is not a directory of the catalogue", d)
		return
	}
	k.bdirs[p] = in
}

// checkBitmap: the bitmap of a record is the file named after its hash
func (k *indexCodec) checkBitmap(x *Exec, st *State, in ssa.Instruction, rec, bm, cat *Term) {
	c := k.c
	s := structOf(ptrElem(bm.T))
	if s == nil {
		return
	}
	c.met("bitmap of a record", in)
	read := (*Term)(nil)
	for i := 0; i < s.NumFields(); i++ {
		a := mkAddrF(bm, i)
		t := s.Field(i).Type()
		if n := namedOf(t); n == c.P.bitsetType() {
			if ptrElem(t) != nil {
				a = st.load(a)
			}
			bs := structOf(n)
			for j := 0; j < bs.NumFields(); j++ {
				v := stripSame(st.load(mkAddrF(a, j)))
				va := valAddr(v)
				if va != nil && va.K == KAddrF && va.A[0].K == KApp && va.A[0].Name == "bits.parsed" {
					if va.F != j || read != nil && read != va.A[0] {
						c.viol("bitmap", in, st, "the bitmap of a record mixes parts of what was read")
					}
					read = va.A[0]
				} else if rec.K == KLoad {
					c.viol("bitmap", in, st, "a record that was loaded gets a bitmap that was not read from its file")
					return
				}
			}
		}
	}
	path := (*Term)(nil)
	for i := 0; i < s.NumFields(); i++ {
		if isString(s.Field(i).Type()) {
			path = st.load(mkAddrF(bm, i))
			d := k.bitmapName(st, path, rec)
			if d == nil {
				c.viol("bitmap path", in, st, "the bitmap of a record is kept at %s, which is not named after the record's hash", path)
			} else {
				k.sameDir(st, in, d, cat)
			}
		}
	}
	if read != nil {
		p := fileRead(read.A[0])
		d := (*Term)(nil)
		if p != nil {
			d = k.bitmapName(st, p, rec)
		}
		if d == nil {
			c.viol("bitmap path", in, st, "the bitmap of a record is read from %s, which is not named after the record's hash", read.A[0])
		} else {
			k.sameDir(st, in, d, cat)
		}
	}
}

func (k *indexCodec) bitmaps(ra *rootArgsOf, pi *pathInfo, load bool) *Hooks {
	c := k.c
	des := c.P.Func("common/bitset", "Deserialize")
	h := &Hooks{}
	h.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if val == nil {
			return
		}
		switch {
		case addr.K == KAddrF && addr.F == k.rs.prog && namedOf(ptrElem(addr.A[0].T)) == k.rs.named && rootOf(addr).K != KAlloc && val.K != KNil:
			k.checkBitmap(x, st, in, addr.A[0], val, ra.arg(0))
		case addr.K == KAddrM && ptrElem(val.T) != nil && namedOf(ptrElem(val.T)) == k.rs.named:
			if bm := st.load(mkAddrF(val, k.rs.prog)); rootOf(val).K == KAlloc && st.nilness(bm) != 0 && bm.K != KNil {
				k.checkBitmap(x, st, in, val, bm, ra.arg(0))
			}
		}
		if !load && addr.K == KAddrF && isString(val.T) {
			if p := fieldPath(addr, ra.arg(0)); p != "" && stripSame(val) != st.load(addr) {
				note(st, "moved"+p, mkBool(true))
				k.moved(p, in)
			}
		}
	}
	h.Call = func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee != nil && ci.Callee == des {
			s2 := st.clone()
			r := mkApp("bits.parsed", ci.Results.At(0).Type(), ci.Args[0])
			st.setNil(r, 2)
			return []Outcome{{st, []*Term{r, mkNil(ci.Results.At(1).Type())}}, {s2, []*Term{mkNil(ci.Results.At(0).Type()), x.newErr(s2, "err:"+ci.Name, ci.Args...)}}}, true
		}
		for _, e := range fsEffects(ci) {
			p := e.Path
			if e.Kind == "rename" {
				p = e.To
			} else if e.Kind != "trunc" && e.Kind != "modify" && e.Kind != "data" {
				continue
			}
			switch pi.class(x, p) {
			case "index":
				for p.K == KConv {
					p = p.A[0]
				}
				if p.K == KApp && p.Name == "filepath.Join" && len(p.A) == 2 {
					if name, ok := p.A[1].constStr(); ok {
						if d := fieldPath(p.A[0], ra.arg(0)); d != "" {
							k.dirs[d+"|"+name] = ci.Instr
							c.met("index written", ci.Instr)
							continue
						}
					}
				}
				c.viol("index path", ci.Instr, st, "the index is saved to %s, which is not a fixed name in a directory of the catalogue", p)
			}
		}
		return nil, false
	}
	return h
}

func (k *indexCodec) moved(p string, in ssa.Instruction) { k.dirs["moved"+p] = in }

func ruleIndexRoundTrip(c *Ctx) {
	pi := c.pathFields()
	k := &indexCodec{c: c, rs: c.recordShape(), encoded: map[string]map[string]string{}, decoded: map[string]map[string]string{},
		encSite: map[string]ssa.Instruction{}, decSite: map[string]ssa.Instruction{}, leafT: map[string]string{},
		dirs: map[string]ssa.Instruction{}, bdirs: map[string]ssa.Instruction{}}
	init := c.P.Method("catalogue", "Cat", "Init")
	if init == nil {
		panic("Cat.Init not found")
	}
	for _, fn := range c.P.catRoots() {
		if fn == init {
			continue
		}
		ra := &rootArgsOf{}
		h, each := k.encode()
		c.run(fn, ra.hooks(), h, k.bitmaps(ra, pi, false))
		each.finish()
	}
	ra := &rootArgsOf{}
	each := c.eachIteration("record lost", "a stored record may be dropped when the index is loaded")
	first := firstInstr(init)
	for _, o := range c.run(init, ra.hooks(), k.decode(each), k.bitmaps(ra, pi, true)) {
		if failed(&o) {
			continue
		}
		each.done(o.St)
		st, cat := o.St, ra.arg(0)
		from := noted(st, "loaded")
		if from == nil {
			c.viol("index path", first, st, "the catalogue may be opened without loading the stored index")
			continue
		}
		c.met("index loaded", first)
		for d := range k.dirs {
			i := strings.Index(d, "|")
			if i < 0 {
				continue
			}
			v := followPath(st, cat, d[:i])
			if v == nil || mkJoin(v.T, []*Term{v, mkConst(constant.MakeString(d[i+1:]), types.Typ[types.String])}) != from {
				c.viol("index path", k.dirs[d], st, "the index is saved to a place it is not loaded from: %s", from)
			}
			if in := k.dirs["moved"+d[:i]]; in != nil {
				c.viol("index path", in, st, "the directory of the index changes after it was loaded")
			}
		}
	}
	each.finish()
	paths := map[string]bool{}
	for p, in := range k.bdirs {
		paths[p] = true
		if len(paths) > 1 {
			c.viol("bitmap path", in, nil, "bitmaps are kept in more than one directory")
		}
		if m := k.dirs["moved"+p]; m != nil {
			c.viol("bitmap path", m, nil, "the directory of the bitmaps changes")
		}
	}
	k.compare()
	for _, t := range k.encoded {
		c.fact("noted", "stored: "+tableKey(t))
	}
	for _, t := range k.decoded {
		c.fact("noted", "read: "+tableKey(t))
	}
}

func init() {
	register(&Rule{
		ID: "C14",
		Explain: "Abstract interpretation of storing and loading. Index: on every path of every operation that stores the index, what each JSON leaf of a record's entry holds is read off and compared with the leaf each field and key is restored from at start-up; " +
			"no record may be left out on either side, and the file loaded is the file saved to from then on. Bitmaps: every record's bitmap is the file named after its own hash, in one directory, for writing and reading; the bits it gets are those decoded from that file. " +
			"Bitmap bytes: the decoder is run on the symbolic bytes the encoder makes; it must accept them and return the same words and size. " +
			"Rules: 'field', 'type', 'table', 'record mixed', 'record left out', 'record lost', 'index path', 'bitmap path', 'bitmap', 'words', 'size', 'refused'.",
		Units: func(P *Program) []string { return []string{"bitmap", "index"} },
		Run: func(c *Ctx, u string) {
			if u == "bitmap" {
				ruleBitmapRoundTrip(c)
			} else {
				ruleIndexRoundTrip(c)
			}
		},
		Min: map[string]int{"bitmap read back": 1, "index entry encoded": 1, "index entry decoded": 1, "index loaded": 1, "index written": 1, "bitmap of a record": 2},
	})
}

func firstInstr(fn *ssa.Function) ssa.Instruction { return fn.Blocks[0].Instrs[0] }
