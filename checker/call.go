package main

// Calls: dispatch, models of builtins and of functions outside the module, goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callInfo(fr *Frame, bs *BState, in ssa.CallInstruction) *CallInfo {
	c := in.Common()
	ci := &CallInfo{Instr: in, Pos: in.Pos(), Frame: fr, Results: c.Signature().Results()}
	if c.IsInvoke() {
		ci.Method = c.Method
		ci.FnVal = x.val(fr, bs, c.Value)
		ci.Args = append(ci.Args, ci.FnVal)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.Builtin = v.Name()
		case *ssa.Function:
			ci.Callee = v
		default:
			ci.FnVal = x.val(fr, bs, c.Value)
		}
	}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, x.val(fr, bs, a))
	}
	return ci
}

func (x *Exec) doCall(fr *Frame, bs *BState, in ssa.CallInstruction, v ssa.Value) []*BState {
	ci := x.callInfo(fr, bs, in)
	outs := x.call(bs.st, ci)
	var res []*BState
	for k, o := range outs {
		nb := &BState{st: o.St, env: bs.env, defers: bs.defers}
		if k < len(outs)-1 {
			nb.env = cp(bs.env)
			nb.defers = append([]deferRec(nil), bs.defers...)
		}
		n := ci.Results.Len()
		switch {
		case n == 1 && len(o.Ret) == 1:
			nb.env[v] = o.Ret[0]
		case n > 1:
			nb.env[v] = mkTuple(v.Type(), o.Ret)
		}
		res = append(res, nb)
	}
	return res
}

func (x *Exec) resolve(st *State, ci *CallInfo) {
	for ci.Callee == nil && ci.FnVal != nil && ci.Method == nil {
		t := ci.FnVal
		for t.K == KConv {
			t = t.A[0]
		}
		if t.K == KClosure {
			ci.Callee, ci.Binds = t.Fn, t.A
		} else if t.K == KFunc {
			ci.Callee = t.Fn
		}
		break
	}
	if ci.Callee == nil && ci.Method != nil {
		if dt := st.dynType(ci.FnVal); dt != nil {
			if fn := x.P.prog.LookupMethod(dt, ci.Method.Pkg(), ci.Method.Name()); fn != nil {
				ci.Callee = fn
				if ci.FnVal.K == KIface {
					ci.Args = append([]*Term{ci.FnVal.A[0]}, ci.Args[1:]...)
				} else {
					ci.Args = append([]*Term{mkApp("assert", dt, ci.FnVal)}, ci.Args[1:]...)
				}
			}
		}
	}
	switch {
	case ci.Callee != nil:
		ci.Name = ci.Callee.String()
	case ci.Builtin != "":
		ci.Name = "builtin:" + ci.Builtin
	case ci.Method != nil:
		ci.Name = ci.Method.FullName()
	default:
		ci.Name = "func value"
	}
}

func hasBody(fn *ssa.Function) bool { return fn != nil && len(fn.Blocks) > 0 }

func (x *Exec) call(st *State, ci0 *CallInfo) []Outcome {
	ci := new(CallInfo)
	*ci = *ci0
	if ci.Callee == nil && ci.Builtin == "" && ci.FnVal != nil {
		if !x.deref(st, ci.Frame, ci.Instr, ci.FnVal) {
			return nil
		}
	}
	x.resolve(st, ci)
	if x.H.Call != nil {
		if out, ok := x.H.Call(x, st, ci); ok {
			return x.after(ci, out)
		}
	}
	switch {
	case ci.Builtin != "":
		return x.after(ci, x.builtin(st, ci))
	case hasBody(ci.Callee):
		st.note(ci.Pos, "call "+ci.Callee.Name())
		out := x.Run(ci.Callee, ci.Args, ci.Binds, st, ci.Frame, ci.Instr)
		return x.after(ci, out)
	case ci.Callee != nil:
		return x.after(ci, x.extern(st, ci))
	case ci.Method != nil:
		var out []Outcome
		impls := x.P.implementers(ci.FnVal.T)
		if len(impls) == 0 {
			return x.after(ci, x.extern(st, ci))
		}
		for k, dt := range impls {
			s := st
			if k < len(impls)-1 {
				s = st.clone()
			}
			s.dyn[ci.FnVal] = dt
			out = append(out, x.call(s, ci0)...)
		}
		return out
	}
	// unknown function value: every function of that type whose value is taken
	var cands []*ssa.Function
	if ci.FnVal != nil {
		cands = x.P.funcsOfType(ci.FnVal.T)
	}
	if len(cands) == 0 {
		return x.after(ci, x.extern(st, ci))
	}
	var out []Outcome
	for k, fn := range cands {
		s := st
		if k < len(cands)-1 {
			s = st.clone()
		}
		c := new(CallInfo)
		*c = *ci
		c.Callee = fn
		c.Name = fn.String()
		c.Binds = nil
		for _, fv := range fn.FreeVars {
			c.Binds = append(c.Binds, mkAppInst("captured", fv.Type(), ci.FnVal))
			s.setNil(c.Binds[len(c.Binds)-1], 2)
		}
		if !hasBody(fn) {
			out = append(out, x.after(c, x.extern(s, c))...)
			continue
		}
		out = append(out, x.after(c, x.Run(fn, c.Args, c.Binds, s, ci.Frame, ci.Instr))...)
	}
	return out
}

func (x *Exec) after(ci *CallInfo, out []Outcome) []Outcome {
	if x.H.After != nil {
		for _, o := range out {
			x.H.After(x, o.St, ci, o.Ret)
		}
	}
	return out
}

func (x *Exec) freshResults(st *State, res *types.Tuple, name string, args []*Term) []*Term {
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, mkAppInst(fmt.Sprintf("%s#%d", name, i), res.At(i).Type(), args...))
	}
	return rs
}

// locks -------------------------------------------------------------------------

func (s *State) locks() []string {
	v := s.get("locks")
	if v == "" {
		return nil
	}
	return strings.Split(v, ",")
}

func (s *State) addLock(id string) {
	l := append(s.locks(), id)
	sort.Strings(l)
	s.set("locks", strings.Join(l, ","))
}

func (s *State) dropLock(id string) bool {
	l := s.locks()
	for i, e := range l {
		if e == id {
			l = append(append([]string{}, l[:i]...), l[i+1:]...)
			s.set("locks", strings.Join(l, ","))
			return true
		}
	}
	return false
}

var lockTerms = map[string]*Term{}

func lockID(t *Term) string {
	id := strconv.Itoa(t.ID)
	lockTerms[id] = t
	return id
}

func lockOp(name string) (op string) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "unlock"
	case "(*sync.RWMutex).RLock":
		return "rlock"
	case "(*sync.RWMutex).RUnlock":
		return "runlock"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return "try"
	}
	return ""
}

// havocShared forgets guarded data: other goroutines may have changed it since this one last held a lock
func (x *Exec) havocShared(st *State) {
	mut := x.P.mutable()
	seen := map[string]bool{}
	for a := range st.mem {
		c := classOf(a)
		if !mut[c] && !strings.HasPrefix(c, "M:") && !strings.HasPrefix(c, "H:") {
			continue
		}
		if st.freshRoot(rootOf(a)) {
			continue
		}
		delete(st.mem, a)
		seen[c] = true
	}
	for c := range mut {
		seen[c] = true
	}
	for c := range seen {
		st.bump(c)
	}
	for _, c := range x.P.mapClasses() {
		st.bump(c)
	}
	for o, z := range st.objs {
		if z && st.pub[o] {
			if _, ok := o.T.Underlying().(*types.Map); ok {
				st.objs[o] = false
				st.bump(rootKey(o))
			}
		}
	}
}

// builtins -----------------------------------------------------------------------

func (x *Exec) builtin(st *State, ci *CallInfo) []Outcome {
	a := ci.Args
	ret := func(ts ...*Term) []Outcome { return []Outcome{{st, ts}} }
	switch ci.Builtin {
	case "len":
		if _, ok := a[0].T.Underlying().(*types.Map); ok {
			return ret(U.mk(Term{K: KLen, A: []*Term{a[0]}, T: tInt, Inst: st.vers["M:"+shortType(a[0].T)]}))
		}
		if _, ok := a[0].T.Underlying().(*types.Chan); ok {
			return ret(mkAppInst("chanlen", tInt, a[0]))
		}
		return ret(mkLen(a[0]))
	case "cap":
		if _, ok := a[0].T.Underlying().(*types.Chan); ok {
			if a[0].K == KMake {
				return ret(normIdx(a[0].A[0]))
			}
			return ret(mkCap(a[0]))
		}
		c := mkCap(a[0])
		st.addFact(linOf(c).sub(linOf(mkLen(a[0]))))
		return ret(c)
	case "append":
		if len(a) == 1 {
			return ret(a[0])
		}
		r := mkAppInst("append", ci.Results.At(0).Type(), a[0], a[1])
		st.addFact(linOf(mkLen(r)).scale(bigNeg).addK(1 << 50))
		if x.H.Store != nil {
			x.H.Store(x, st, ci.Frame, ci.Instr, mkAddrI(r, mkLen(a[0])), mkApp("elems", a[1].T, a[1]))
		}
		return ret(r)
	case "copy":
		return ret(x.copySlice(st, ci, a[0], a[1]))
	case "delete":
		if x.H.MapDelete != nil {
			x.H.MapDelete(x, st, ci.Frame, ci.Instr, a[0], a[1])
		}
		st.store(mkHasCell(a[0], a[1]), mkBool(false))
		st.store(mkAddrM(a[0], a[1]), zeroTerm(elemType(a[0].T)))
		return ret()
	case "close", "print", "println", "clear":
		return ret()
	case "recover":
		return ret(mkAppInst("recover", ci.Results.At(0).Type()))
	case "min", "max":
		r := mkAppInst(ci.Builtin, ci.Results.At(0).Type(), a...)
		for _, v := range a {
			if isInt(v.T) {
				d := linOf(v).sub(linOf(r))
				if ci.Builtin == "max" {
					d = d.scale(bigNeg)
				}
				st.addFact(d)
			}
		}
		return ret(r)
	case "ssa:wrapnilchk":
		return ret(a[0])
	}
	x.undecided("builtin %s not analysed", ci.Builtin)
	return ret(x.freshResults(st, ci.Results, ci.Builtin, a)...)
}

// overwrite forgets the elements of b[lo:hi]
func (x *Exec) overwrite(st *State, b *Term, fr *Frame, in ssa.Instruction, val *Term) {
	base, lo, hi := b, mkInt(0, tInt), mkLen(b)
	if b.K == KSlice {
		base, lo, hi = b.A[0], b.A[1], b.A[2]
	}
	first := mkAddrI(base, lo)
	if x.H.Store != nil {
		x.H.Store(x, st, fr, in, first, val)
	}
	if st.lss(lo, hi) || !st.leq(hi, lo) {
		// every element in range
		for a := range st.mem {
			if a.K == KAddrI && a.A[0] == base {
				if st.lss(a.A[1], lo) || st.leq(hi, a.A[1]) {
					continue
				}
				st.mem[a] = mkSym("overwritten", ptrElem(a.T))
			}
		}
		inv := first
		r := rootOf(inv)
		c := classOf(inv)
		for a := range st.mem {
			if rootOf(a) != r && classOf(a) == c && st.mayAliasRoots(r, rootOf(a)) {
				st.mem[a] = mkSym("clobbered", ptrElem(a.T))
			}
		}
		if !(st.freshRoot(r) && st.objs[r]) {
			st.bump(c)
		}
		if ptrElem(base.T) != nil { // an array variable
			old := st.mem[base]
			at, _ := isArray(ptrElem(base.T))
			l, k1 := lo.isConstInt()
			h, k2 := hi.isConstInt()
			for a := range st.mem {
				if a.K == KAddrI && a.A[0] == base && !st.lss(a.A[1], lo) && !st.leq(hi, a.A[1]) {
					delete(st.mem, a)
				}
			}
			if k1 && k2 && at != nil && at.Len() <= 64 && old != nil {
				for i := int64(0); i < at.Len(); i++ {
					if a := mkAddrI(base, mkInt(i, tInt)); (i < l || i >= h) && st.mem[a] == nil {
						st.mem[a] = mkIndexV(old, mkInt(i, tInt))
					}
				}
			}
			st.mem[base] = mkSym("array", ptrElem(base.T))
		} else {
			if _, ok := st.objs[r]; ok {
				st.objs[r] = false
			}
			for a, v := range st.mem { // whole arrays this slice may view
				if e := ptrElem(a.T); e != nil && a.K != KAddrI {
					if _, ok := isArray(e); ok && v != nil && !x.unviewed[a] && rootOf(a) != r && st.mayAliasRoots(r, rootOf(a)) {
						st.mem[a] = mkSym("array", e)
					}
				}
			}
		}
		st.bump(rootKey(r))
	}
}

func (x *Exec) copySlice(st *State, ci *CallInfo, dst, src *Term) *Term {
	ld, ls := mkLen(dst), mkLen(src)
	var n *Term
	switch {
	case st.leq(ls, ld):
		n = ls
	case st.leq(ld, ls):
		n = ld
	default:
		n = mkAppInst("copied", tInt, dst, src)
		st.addFact(linOf(n))
		st.addFact(linOf(ld).sub(linOf(n)))
		st.addFact(linOf(ls).sub(linOf(n)))
	}
	c := st.content(src)
	if x.H.Load != nil {
		b := src
		lo := mkInt(0, tInt)
		if b.K == KSlice {
			b, lo = src.A[0], src.A[1]
		}
		if !isString(src.T) {
			x.H.Load(x, st, ci.Frame, ci.Instr, mkAddrI(b, lo), c)
		}
	}
	// filling a whole array
	if dst.K == KSlice {
		if e := ptrElem(dst.A[0].T); e != nil {
			if at, ok := isArray(e); ok {
				lo, k1 := dst.A[1].isConstInt()
				hi, k2 := dst.A[2].isConstInt()
				if k1 && k2 && lo == 0 && hi == at.Len() && st.eqInt(n, mkInt(at.Len(), tInt)) {
					if x.H.Store != nil {
						x.H.Store(x, st, ci.Frame, ci.Instr, mkAddrI(dst.A[0], lo2(0)), mkApp("bytes", src.T, src, n))
					}
					st.store(dst.A[0], mkArr(c, e))
					st.bump(rootKey(rootOf(dst)))
					return n
				}
			}
		}
	}
	whole := dst
	if n != ld {
		b, lo := dst, mkInt(0, tInt)
		if dst.K == KSlice {
			b, lo = dst.A[0], dst.A[1]
		}
		whole = U.mk(Term{K: KSlice, A: []*Term{b, lo, linTerm(linOf(lo).add(linOf(n)))}, T: dst.T})
	}
	x.overwrite(st, whole, ci.Frame, ci.Instr, mkApp("bytes", src.T, src, n))
	return n
}

func lo2(n int64) *Term { return mkInt(n, tInt) }

// functions outside the module -----------------------------------------------------

// elems of a variadic argument, if known
func (x *Exec) variadic(st *State, v *Term) ([]*Term, bool) {
	if v.K == KNil {
		return nil, true
	}
	if v.K == KSlice && v.A[0].K == KAlloc {
		lo, k1 := v.A[1].isConstInt()
		hi, k2 := v.A[2].isConstInt()
		if k1 && k2 && hi-lo <= 64 {
			var es []*Term
			for i := lo; i < hi; i++ {
				es = append(es, st.load(mkAddrI(v.A[0], mkInt(i, tInt))))
			}
			return es, true
		}
	}
	return nil, false
}

var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "strconv": true, "encoding/hex": true, "bytes": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "errors": true}

func pkgOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// readonly: the function does not write through its arguments
func readonly(name, pkg string) bool {
	switch pkg {
	case "fmt":
		return !strings.Contains(name, "can")
	case "strings", "path", "path/filepath", "strconv", "bytes", "errors", "log", "time", "sync", "unicode", "math", "net/rpc", "net/http", "net", "sync/atomic":
		return !strings.Contains(name, "Read") && !strings.Contains(name, ".Scan")
	case "os":
		return !strings.Contains(name, ").Read")
	case "encoding/hex":
		return strings.Contains(name, "ToString") || strings.Contains(name, "DecodeString")
	case "encoding/json":
		return strings.Contains(name, "Marshal") && !strings.Contains(name, "Unmarshal")
	}
	return false
}

func isReadCall(name string) bool {
	i := strings.LastIndex(name, ".")
	switch name[i+1:] {
	case "Read", "ReadAt", "ReadFrom", "ReadFromUDP", "ReadFromUDPAddrPort", "ReadMsgUDP", "ReadFull", "ReadAtLeast":
		return true
	}
	return false
}

func eofTerm(st *State) *Term {
	g := U.mk(Term{K: KGlobal, Name: "io.EOF", T: types.NewPointer(types.Universe.Lookup("error").Type())})
	return mkLoad(g, 0)
}

func (x *Exec) newErr(st *State, name string, args ...*Term) *Term {
	e := mkAppInst(name, types.Universe.Lookup("error").Type(), args...)
	st.setNil(e, 2)
	st.setAttr(e, "othererr")
	return e
}

func (x *Exec) extern(st *State, ci *CallInfo) []Outcome {
	name, a := ci.Name, ci.Args
	pkg := pkgOf(ci.Callee)
	if ci.Callee == nil && ci.Method != nil && ci.Method.Pkg() != nil {
		pkg = ci.Method.Pkg().Path()
	}
	ret := func(ts ...*Term) []Outcome { return []Outcome{{st, ts}} }
	rt := func(i int) types.Type { return ci.Results.At(i).Type() }

	if op := lockOp(name); op != "" {
		id := lockID(a[0])
		switch op {
		case "lock", "rlock":
			for _, l := range st.locks() {
				if l == id || l == id+"r" && op == "lock" {
					return nil // waits for itself: the path ends here
				}
			}
			if len(st.locks()) == 0 {
				x.havocShared(st)
			}
			if op == "rlock" {
				id += "r"
			}
			st.addLock(id)
		case "unlock":
			st.dropLock(id)
		case "runlock":
			st.dropLock(id + "r")
		case "try":
			s2 := st.clone()
			st.addLock(id)
			return []Outcome{{st, []*Term{mkBool(true)}}, {s2, []*Term{mkBool(false)}}}
		}
		return ret()
	}
	// functions called back
	outs := []Outcome{{st, nil}}
	for _, v := range a {
		if v.K == KClosure || v.K == KFunc && hasBody(v.Fn) {
			sig := v.T.Underlying().(*types.Signature)
			var more []Outcome
			for _, o := range outs {
				s := o.St.clone()
				var as []*Term
				for i := 0; i < sig.Params().Len(); i++ {
					as = append(as, mkSym("arg", sig.Params().At(i).Type()))
				}
				binds := v.A
				for _, r := range x.Run(v.Fn, as, binds, s, ci.Frame, ci.Instr) {
					more = append(more, Outcome{r.St, nil})
				}
			}
			outs = append(outs, more...)
		}
	}
	if len(outs) > 1 {
		var res []Outcome
		for _, o := range outs {
			c := *ci
			res = append(res, x.extern1(o.St, &c, pkg, rt)...)
		}
		return res
	}
	return x.extern1(st, ci, pkg, rt)
}

func (x *Exec) extern1(st *State, ci *CallInfo, pkg string, rt func(int) types.Type) []Outcome {
	name, a := ci.Name, ci.Args
	ret := func(ts ...*Term) []Outcome { return []Outcome{{st, ts}} }
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		return nil
	case "errors.New", "fmt.Errorf":
		return ret(x.newErr(st, "newerr", a...))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if es, ok := x.variadic(st, a[len(a)-1]); ok {
			as := append([]*Term{}, a[:len(a)-1]...)
			for _, e := range es {
				if e.K == KIface {
					e = e.A[0]
				}
				as = append(as, e)
			}
			return ret(mkApp(name, rt(0), as...))
		}
		return ret(mkAppInst(name, rt(0), a...))
	case "path/filepath.Join", "path.Join":
		if es, ok := x.variadic(st, a[0]); ok {
			return ret(mkJoin(rt(0), es))
		}
		return ret(mkAppInst("join?", rt(0), a...))
	case "path/filepath.Base", "path.Base":
		return ret(mkApp("Base", rt(0), a[0]))
	case "path.Split", "path/filepath.Split":
		return ret(mkApp("SplitDir", rt(0), a[0]), mkApp("SplitFile", rt(1), a[0]))
	case "crypto/sha1.New", "crypto/sha256.New", "crypto/md5.New", "crypto/sha512.New":
		h := mkAppInst(name, rt(0))
		st.setNil(h, 2)
		st.setAttr(h, "digest")
		st.mem[digestCell(h)] = mkApp("empty:"+name, types.Typ[types.String])
		return ret(h)
	case "crypto/sha1.Sum", "crypto/sha256.Sum256":
		d := mkApp("cat", types.Typ[types.String], mkApp("empty:crypto/sha1.New", types.Typ[types.String]), st.content(a[0]))
		return ret(mkArr(mkApp("hash.Sum", types.NewSlice(types.Typ[types.Uint8]), d), rt(0)))
	case "(hash.Hash).Sum":
		d := st.loadDigest(a[0])
		sum := mkApp("hash.Sum", rt(0), d)
		st.setNil(sum, 2)
		if a[1].K == KNil {
			return ret(sum)
		}
		if n, ok := mkLen(a[1]).isConstInt(); ok && n == 0 {
			return ret(sum)
		}
		return ret(mkAppInst("append", rt(0), a[1], sum))
	case "(hash.Hash).Reset":
		st.mem[digestCell(a[0])] = mkApp("empty:crypto/sha1.New", types.Typ[types.String])
		return ret()
	case "(hash.Hash).Size":
		return ret(mkInt(20, rt(0)))
	case "io.WriteString", "(io.Writer).Write", "(hash.Hash).Write":
		if x.hasAttr(st, a[0], "digest") {
			c := digestCell(a[0])
			st.mem[c] = mkApp("cat", types.Typ[types.String], st.loadDigest(a[0]), st.content(a[1]))
			return ret(mkLen(a[1]), mkNil(rt(1)))
		}
	case "io.Copy", "io.CopyBuffer":
		if x.hasAttr(st, a[0], "digest") {
			f := st.clone()
			c := digestCell(a[0])
			st.mem[c] = mkApp("catAll", types.Typ[types.String], st.loadDigest(a[0]), a[1])
			f.mem[c] = mkSym("digest", types.Typ[types.String])
			n1, n2 := mkAppInst("copied", rt(0), a[1]), mkAppInst("copied", rt(0), a[1])
			st.addFact(linOf(n1))
			f.addFact(linOf(n2))
			return []Outcome{{st, []*Term{n1, mkNil(rt(1))}}, {f, []*Term{n2, x.newErr(f, "err:"+name)}}}
		}
	case "bytes.Equal":
		return ret(mkCmp(token.EQL, st.content(a[0]), st.content(a[1])))
	case "bytes.Compare", "strings.Compare":
		r := mkApp(name, rt(0), st.content(a[0]), st.content(a[1]))
		return ret(r)
	case "(*crypto/subtle).ConstantTimeCompare", "crypto/subtle.ConstantTimeCompare":
		e := mkCmp(token.EQL, st.content(a[0]), st.content(a[1]))
		s2 := st.clone()
		var out []Outcome
		if st.assume(e, true) {
			out = append(out, Outcome{st, []*Term{mkInt(1, rt(0))}})
		}
		if s2.assume(e, false) {
			out = append(out, Outcome{s2, []*Term{mkInt(0, rt(0))}})
		}
		return out
	case "(net.IP).To4":
		s2 := st.clone()
		r := mkApp("To4", rt(0), a[0])
		st.setNil(r, 2)
		st.addFact(linOf(mkLen(r)).addK(-4))
		st.addFact(linOf(mkLen(r)).scale(bigNeg).addK(4))
		s2.note(ci.Pos, "not an IPv4 address")
		return []Outcome{{st, []*Term{r}}, {s2, []*Term{mkNil(rt(0))}}}
	case "net.ParseIP":
		s2 := st.clone()
		r := mkApp("ParseIP", rt(0), a[0])
		st.setNil(r, 2)
		return []Outcome{{st, []*Term{r}}, {s2, []*Term{mkNil(rt(0))}}}
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		return x.jsonMarshal(st, ci, rt)
	case "encoding/json.Unmarshal":
		if v := a[1]; v.K == KIface {
			if m := x.P.methodOf(v.DT, "UnmarshalJSON"); m != nil && hasBody(m) {
				s2 := st.clone()
				s2.note(ci.Pos, name+" fails")
				out := x.Run(m, []*Term{v.A[0], a[0]}, nil, st, ci.Frame, ci.Instr)
				return append(out, Outcome{s2, []*Term{x.newErr(s2, "err:"+name, v)}})
			}
		}
	case "encoding/hex.EncodeToString":
		return ret(mkApp("hex.EncodeToString", rt(0), st.content(a[0])))
	case "encoding/hex.DecodeString":
		s2 := st.clone()
		r := mkApp("hex.DecodeString", rt(0), a[0])
		st.setNil(r, 2)
		return []Outcome{{st, []*Term{r, mkNil(rt(1))}}, {s2, []*Term{mkApp("hex.partial", rt(0), a[0]), x.newErr(s2, "err:"+name, a...)}}}
	case "reflect.TypeOf":
		return ret(mkApp(name, rt(0), a...))
	case "(reflect.Type).NumField":
		if a[0].K == KApp && a[0].Name == "reflect.TypeOf" && a[0].A[0].K == KIface {
			if s, ok := a[0].A[0].A[0].T.Underlying().(*types.Struct); ok {
				return ret(mkInt(int64(s.NumFields()), rt(0)))
			}
		}
	case "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return ret(mkApp(name, rt(0), a[0]))
	case "errors.Is":
		if a[1] == eofTerm(st) {
			return ret(mkCmp(token.EQL, a[0], a[1]))
		}
		if a[1].K == KLoad && (a[1].A[0].Name == "os.ErrNotExist" || a[1].A[0].Name == "io/fs.ErrNotExist") {
			return ret(mkApp("os.IsNotExist", rt(0), a[0]))
		}
		return ret(mkApp(name, rt(0), a...))
	case "(error).Error":
		return ret(mkApp("Error", rt(0), a[0]))
	case "time.Now", "time.Since", "time.After", "time.NewTimer", "time.Tick", "time.NewTicker":
		r := mkAppInst(name, rt(0), a...)
		if isNilable(r.T) {
			st.setNil(r, 2)
		}
		return ret(r)
	case "(*io.SectionReader).Seek":
		// fails only for a negative position or an unknown origin
		if o, ok := a[1].isConstInt(); ok && o >= 0 {
			if w, ok := a[2].isConstInt(); ok && (w == 0 || w == 1) {
				r := mkAppInst(name+"#0", rt(0), a...)
				st.addFact(linOf(r))
				return ret(r, mkNil(rt(1)))
			}
		}
	case "(*io.SectionReader).Size", "(io/fs.FileInfo).Size", "(os.FileInfo).Size":
		r := mkApp(name, rt(0), a...)
		st.addFact(linOf(r))
		return ret(r)
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		if out, ok := x.binaryOp(st, ci, rt); ok {
			return out
		}
	}
	if isReadCall(name) {
		return x.readModel(st, ci, rt)
	}
	res := ci.Results
	n := res.Len()
	hasErr := n > 0 && isErrorT(rt(n-1))
	pure := purePkgs[pkg] && !strings.Contains(name, "Builder") && !strings.Contains(name, "Buffer") && !strings.Contains(name, "Reader")
	if pkg == "time" && !strings.Contains(name, "Timer") && !strings.Contains(name, "Ticker") && name != "time.Sleep" {
		pure = true
	}
	if !readonly(name, pkg) {
		x.havocArgs(st, ci)
	}
	mk := func(i int, s *State, ok bool) *Term {
		t := rt(i)
		nm := fmt.Sprintf("%s#%d", name, i)
		var r *Term
		if pure {
			r = mkApp(nm, t, a...)
		} else {
			r = mkAppInst(nm, t, a...)
		}
		return r
	}
	if !hasErr {
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, mk(i, st, true))
		}
		return ret(rs...)
	}
	// success
	ok, fail := st, st.clone()
	var r1, r2 []*Term
	for i := 0; i < n-1; i++ {
		v := mk(i, ok, true)
		if isNilable(v.T) {
			ok.setNil(v, 2)
		}
		r1 = append(r1, v)
		if isNilable(v.T) {
			r2 = append(r2, zeroTerm(v.T))
		} else {
			r2 = append(r2, mk(i, fail, false))
		}
	}
	if isWriteCall(name) && n == 2 && isInt(rt(0)) && len(a) > 1 && (isSliceT(a[1].T) || isString(a[1].T)) {
		r1[0] = mkLen(a[1])
		fail.addFact(linOf(r2[0]))
		fail.addFact(linOf(mkLen(a[1])).sub(linOf(r2[0])))
	} else {
		for i := 0; i < n-1; i++ {
			if strings.HasSuffix(name, ".Seek") {
				ok.addFact(linOf(r1[i]))
			}
		}
	}
	r1 = append(r1, mkNil(rt(n-1)))
	r2 = append(r2, x.newErr(fail, "err:"+name, a...))
	ok.note(ci.Pos, name+" succeeds")
	fail.note(ci.Pos, name+" fails")
	return []Outcome{{ok, r1}, {fail, r2}}
}

func isWriteCall(name string) bool {
	i := strings.LastIndex(name, ".")
	switch name[i+1:] {
	case "Write", "WriteAt", "WriteTo", "WriteToUDP", "WriteString", "WriteToUDPAddrPort":
		return true
	}
	return false
}

func mkJoin(t types.Type, es []*Term) *Term {
	var as []*Term
	for i, e := range es {
		if s, ok := e.constStr(); ok && s == "" {
			continue
		}
		if i == 0 && e.K == KApp && e.Name == "filepath.Join" {
			as = append(as, e.A...)
			continue
		}
		as = append(as, e)
	}
	return mkApp("filepath.Join", t, as...)
}

func digestCell(h *Term) *Term {
	for h.K == KIface {
		h = h.A[0]
	}
	return U.mk(Term{K: KApp, Name: "digest", A: []*Term{h}, T: types.NewPointer(types.Typ[types.String])})
}

func (s *State) loadDigest(h *Term) *Term {
	c := digestCell(h)
	if v, ok := s.mem[c]; ok {
		return v
	}
	return mkLoad(c, s.version(c))
}

func (x *Exec) havocArgs(st *State, ci *CallInfo) {
	for _, v := range ci.Args {
		x.havocVal(st, v, 3)
	}
}

func (x *Exec) havocVal(st *State, v *Term, d int) {
	if d == 0 {
		return
	}
	if v.K == KIface {
		x.havocVal(st, v.A[0], d)
		return
	}
	if v.K == KStruct {
		for _, f := range v.A {
			x.havocVal(st, f, d-1)
		}
		return
	}
	if isSliceT(v.T) {
		if st.nilness(v) != 1 {
			x.overwrite(st, v, nil, nil, mkSym("external", v.T))
		}
		return
	}
	if e := ptrElem(v.T); e != nil && (inModule(e) || explodes(e)) || e != nil && v.K == KAlloc {
		r := rootOf(v)
		st.havocRoot(r)
		return
	}
	if e := ptrElem(v.T); e != nil {
		if _, ok := e.Underlying().(*types.Struct); !ok && (v.K == KAddrF || v.K == KAddrI) {
			st.store(v, mkSym("external", e))
		}
	}
}

func (x *Exec) readModel(st *State, ci *CallInfo, rt func(int) types.Type) []Outcome {
	var buf *Term
	for _, v := range ci.Args {
		if isSliceT(v.T) {
			buf = v
		}
	}
	n := ci.Results.Len()
	if buf == nil || n < 2 || !isErrorT(rt(n-1)) {
		x.havocArgs(st, ci)
		return []Outcome{{st, x.freshResults(st, ci.Results, ci.Name, ci.Args)}}
	}
	x.overwrite(st, buf, ci.Frame, ci.Instr, mkApp("read", buf.T, ci.Args...))
	if len(ci.Args) > 0 && (strings.Contains(ci.Name, "SectionReader") || strings.Contains(ci.Name, "io.Reader")) {
		p := posCell(ci.Args[0])
		st.mem[p] = mkSym("pos", types.Typ[types.Int64])
	}
	mk := func(s *State, err *Term) Outcome {
		var rs []*Term
		for i := 0; i < n-1; i++ {
			r := mkAppInst(fmt.Sprintf("%s#%d", ci.Name, i), rt(i), ci.Args...)
			if isInt(r.T) {
				s.addFact(linOf(r))
				s.addFact(linOf(mkLen(buf)).sub(linOf(r)))
			} else if isNilable(r.T) {
				if err.K == KNil {
					s.setNil(r, 2)
				} else {
					r = zeroTerm(r.T)
				}
			}
			rs = append(rs, r)
		}
		return Outcome{s, append(rs, err)}
	}
	s2, s3 := st.clone(), st.clone()
	s2.note(ci.Pos, ci.Name+" fails")
	s3.note(ci.Pos, ci.Name+" reports the end of input")
	out := []Outcome{mk(st, mkNil(rt(n-1))), mk(s2, x.newErr(s2, "err:"+ci.Name, ci.Args...))}
	if !strings.Contains(ci.Name, "UDP") {
		e := eofTerm(s3)
		out = append(out, mk(s3, e))
	}
	return out
}

func posCell(r *Term) *Term {
	return U.mk(Term{K: KApp, Name: "pos", A: []*Term{r}, T: types.NewPointer(types.Typ[types.Int64])})
}

// binaryOp: encoding/binary byte orders
func (x *Exec) binaryOp(st *State, ci *CallInfo, rt func(int) types.Type) ([]Outcome, bool) {
	i := strings.LastIndex(ci.Name, ".")
	op := ci.Name[i+1:]
	order := "le"
	if strings.Contains(ci.Name, "bigEndian") {
		order = "be"
	}
	put := strings.HasPrefix(op, "Put")
	w := int64(0)
	switch {
	case strings.HasSuffix(op, "Uint16"):
		w = 2
	case strings.HasSuffix(op, "Uint32"):
		w = 4
	case strings.HasSuffix(op, "Uint64"):
		w = 8
	}
	if w == 0 {
		return nil, false
	}
	if strings.HasPrefix(op, "Append") { // of so many bytes, written first
		t := ci.Args[1].T
		tmp := U.mk(Term{K: KMake, T: t, A: []*Term{mkInt(w, tInt), mkInt(w, tInt)}, Inst: U.newInst(), Pos: ci.Instr.Pos()})
		st.objs[tmp] = true
		if x.H.Alloc != nil {
			x.H.Alloc(x, st, ci.Frame, ci.Instr, tmp)
		}
		x.overwrite(st, tmp, ci.Frame, ci.Instr, mkApp(fmt.Sprintf("put%s%d", order, w), types.Typ[types.Invalid], ci.Args[2]))
		r := mkAppInst("append", t, ci.Args[1], tmp)
		st.addFact(linOf(mkLen(r)).scale(bigNeg).addK(1 << 50))
		if x.H.Store != nil {
			x.H.Store(x, st, ci.Frame, ci.Instr, mkAddrI(r, mkLen(ci.Args[1])), mkApp("elems", t, tmp))
		}
		return []Outcome{{st, []*Term{r}}}, true
	}
	b := ci.Args[1]
	ok := st.leq(mkInt(w, tInt), mkLen(b))
	x.oblige(st, ci.Frame, ci.Instr, "bounds", ok, fmt.Sprintf("%s needs %d bytes of %s", op, w, b))
	if !ok {
		st.addFact(linOf(mkLen(b)).addK(-w))
	}
	if put {
		lo, base := mkInt(0, tInt), b
		if b.K == KSlice {
			base, lo = b.A[0], b.A[1]
		}
		rng := U.mk(Term{K: KSlice, A: []*Term{base, lo, linTerm(linOf(lo).addK(w))}, T: b.T})
		v := mkApp(fmt.Sprintf("put%s%d", order, w), types.Typ[types.Invalid], ci.Args[2])
		x.overwrite(st, rng, ci.Frame, ci.Instr, v)
		return []Outcome{{st, nil}}, true
	}
	base, lo := b, mkInt(0, tInt)
	if b.K == KSlice {
		base, lo = b.A[0], b.A[1]
	}
	addr := mkAddrI(base, lo)
	if x.H.Read != nil {
		if r := x.H.Read(x, st, addr, w, order, rt(0)); r != nil {
			return []Outcome{{st, []*Term{r}}}, true
		}
	}
	if x.H.Load != nil {
		x.H.Load(x, st, ci.Frame, ci.Instr, addr, mkApp(fmt.Sprintf("get%s%d", order, w), rt(0), addr))
	}
	ver := st.version(addr)
	if v := st.vers["E:uint8"]; v > ver {
		ver = v
	}
	if ptrElem(base.T) != nil {
		if v, ok := st.mem[base]; ok {
			return []Outcome{{st, []*Term{mkApp(fmt.Sprintf("%s%d", order, w), rt(0), v, lo)}}}, true
		}
	}
	r := U.mk(Term{K: KApp, Name: fmt.Sprintf("%s%d", order, w), A: []*Term{addr}, T: rt(0), Inst: ver})
	return []Outcome{{st, []*Term{r}}}, true
}

// jsonMarshal calls the value's own MarshalJSON, if it has one
func (x *Exec) jsonMarshal(st *State, ci *CallInfo, rt func(int) types.Type) []Outcome {
	v := ci.Args[0]
	if v.K == KIface {
		if m := x.P.methodOf(v.DT, "MarshalJSON"); m != nil && hasBody(m) {
			st.note(ci.Pos, "call "+m.Name())
			var out []Outcome
			for _, o := range x.Run(m, []*Term{v.A[0]}, nil, st, ci.Frame, ci.Instr) {
				if o.St.nilness(o.Ret[1]) != 2 {
					d := mkAppInst("json.Marshal", rt(0), v, o.Ret[0])
					o.St.setNil(d, 2)
					o.St.setNil(o.Ret[1], 1)
					out = append(out, Outcome{o.St, []*Term{d, mkNil(rt(1))}})
					f := o.St.clone()
					f.note(ci.Pos, ci.Name+" fails")
					out = append(out, Outcome{f, []*Term{mkNil(rt(0)), x.newErr(f, "err:"+ci.Name, v)}})
				} else {
					out = append(out, Outcome{o.St, []*Term{mkNil(rt(0)), o.Ret[1]}})
				}
			}
			return out
		}
	}
	f := st.clone()
	d := mkAppInst("json.Marshal", rt(0), v)
	st.setNil(d, 2)
	f.note(ci.Pos, ci.Name+" fails")
	return []Outcome{{st, []*Term{d, mkNil(rt(1))}}, {f, []*Term{mkNil(rt(0)), x.newErr(f, "err:"+ci.Name, v)}}}
}

// goroutines ----------------------------------------------------------------------

func (x *Exec) spawn(st *State, ci *CallInfo) {
	x.resolve(st, ci)
	for _, v := range ci.Args {
		st.publish(v)
	}
	for _, v := range ci.Binds {
		st.publish(v)
	}
	if ci.FnVal != nil {
		st.publish(ci.FnVal)
	}
	child := st.clone()
	child.set("locks", "")
	// captured variables written on either side
	if ci.Callee != nil {
		var mc *ssa.MakeClosure
		if c, ok := ci.Instr.Common().Value.(*ssa.MakeClosure); ok {
			mc = c
		}
		for k, fv := range ci.Callee.FreeVars {
			if k >= len(ci.Binds) {
				break
			}
			cell := ci.Binds[k]
			if storesTo(ci.Callee, fv, map[ssa.Value]bool{}) {
				st.setAttr(cell, "volatile")
				who := "vol:" + fv.Name() + "|" + relName(ci.Callee)
				if blockReaches(ci.Instr.Block(), ci.Instr.Block()) {
					who = "vol:|" // may be started again
				}
				st.setAttr(cell, who)
			}
			if mc != nil && k < len(mc.Bindings) {
				if x.P.storedAfter(mc.Bindings[k], ci.Instr, ci.Callee, fv) {
					child.setAttr(cell, "volatile")
				}
			}
		}
	}
	x.sharedFields(st, child, ci)
	if x.H.Go != nil {
		x.H.Go(x, st, child, ci)
	}
	if x.noSpawn {
		return
	}
	x.nSpawn++
	if !hasBody(ci.Callee) {
		x.call(child, ci)
		return
	}
	if x.H.Call != nil {
		if out, ok := x.H.Call(x, child, ci); ok {
			x.after(ci, out)
			return
		}
	}
	n := 0
	for f := ci.Frame; f != nil; f = f.Caller {
		if f.Fn == ci.Callee {
			n++
		}
	}
	if n > 0 {
		x.undecided("goroutine %s starts itself", ci.Callee)
		return
	}
	fi := ci.Callee
	x.fns[fi] = true
	fr := &Frame{Fn: fi, Args: ci.Args, Binds: ci.Binds, Go: true, Site: ci.Instr, Caller: nil, key: U.newInst()}
	fr.depth = ci.Frame.depth + 1
	if fr.depth > 60 {
		x.undecided("goroutines nested too deeply")
		return
	}
	info := x.info(fi)
	if x.H.Enter != nil {
		x.H.Enter(x, child, fr)
	}
	res := x.region(fr, info, nil, fi.Blocks[0], []*BState{{st: child, env: map[ssa.Value]*Term{}}})
	for _, r := range res.rets {
		if x.H.Leave != nil {
			x.H.Leave(x, r.bs.st, fr, r.rets)
		}
	}
}

// storesTo: does fn (or a closure in it) store to the captured variable?
func storesTo(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for k, b := range r.Bindings {
				if b == v && storesTo(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[k], seen) {
					return true
				}
			}
		}
	}
	return false
}

// storedAfter: is the variable stored to at a place reachable from the instruction?
func (p *Program) storedAfter(v ssa.Value, from ssa.Instruction, callee *ssa.Function, fv *ssa.FreeVar) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				dfs(s)
			}
		}
	}
	dfs(from.Block())
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v {
				continue
			}
			if !reach[from.Block()] && p.afterRecvFrom(r, callee) && !readsAfterSend(callee, fv) {
				continue
			}
			if reach[r.Block()] {
				// a fresh variable per iteration: storing before the spawn in a later round is another variable
				if a, ok := v.(*ssa.Alloc); ok && reach[a.Block()] && a.Block().Dominates(r.Block()) && r.Block().Dominates(from.Block()) {
					continue
				}
				return true
			}
			if r.Block() == from.Block() {
				after := false
				for _, in := range r.Block().Instrs {
					if in == from {
						after = true
					}
					if in == ssa.Instruction(r) && after {
						return true
					}
				}
			}
		case *ssa.MakeClosure:
			if ssa.Instruction(r) == from || r == fromClosure(from) {
				continue
			}
			for k, b := range r.Bindings {
				if b == v && storesTo(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[k], map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func fromClosure(in ssa.Instruction) *ssa.MakeClosure {
	if c, ok := in.(ssa.CallInstruction); ok {
		if m, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			return m
		}
	}
	return nil
}

// sharedFields: what one of the two goroutines stores into objects both know, the other cannot rely on
func (x *Exec) sharedFields(st, child *State, ci *CallInfo) {
	late := map[string]bool{} // stored by the parent and its callers from here on
	var at ssa.Instruction = ci.Instr
	for f := ci.Frame; f != nil && at != nil; f = f.Caller {
		for c := range x.P.fieldsStoredAfter(at) {
			late[c] = true
		}
		at = f.Site
	}
	mine := map[string]bool{}
	if ci.Callee != nil {
		mine = x.P.fieldsStored(ci.Callee)
	}
	mut := x.P.mutable()
	for c := range mut {
		delete(late, c)
	}
	n := 0
	for c := range mine {
		if !mut[c] {
			n++
		}
	}
	if len(late) == 0 && n == 0 {
		return
	}
	for a := range st.mem {
		if a.K != KAddrF || st.freshRoot(rootOf(a)) {
			continue
		}
		c := classOf(a)
		if late[c] {
			child.setAttr(a, "volatile")
		}
		if mine[c] && !mut[c] {
			st.setAttr(a, "volatile")
		}
	}
}

func (p *Program) storedField(in ssa.Instruction) (string, ssa.Value) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return "", nil
	}
	f, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	t := ptrElem(f.X.Type())
	return "F:" + shortType(t) + "." + fieldName(f.X.Type(), f.Field), f.X
}

// fieldsStored: the fields of objects it does not make itself that a function may store to
func (p *Program) fieldsStored(fn *ssa.Function) map[string]bool {
	if p.stored == nil {
		p.stored = map[*ssa.Function]map[string]bool{}
	}
	if m := p.stored[fn]; m != nil {
		return m
	}
	out := map[string]bool{}
	p.stored[fn] = out
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inMod(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, base := p.storedField(in); c != "" {
					if _, own := base.(*ssa.Alloc); !own {
						out[c] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					walk(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(fn)
	return out
}

// fieldsStoredAfter: the fields that may be stored to once an instruction has been executed
func (p *Program) fieldsStoredAfter(at ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	see := func(in ssa.Instruction, passed map[*ssa.BasicBlock]bool) {
		if c, base := p.storedField(in); c != "" {
			if a, own := base.(*ssa.Alloc); !own || !passed[a.Block()] {
				out[c] = true
			}
		}
		if c, ok := in.(ssa.CallInstruction); ok && in != at {
			if f := c.Common().StaticCallee(); f != nil {
				for k := range p.fieldsStored(f) {
					out[k] = true
				}
			}
		}
		if m, ok := in.(*ssa.MakeClosure); ok {
			for k := range p.fieldsStored(m.Fn.(*ssa.Function)) {
				out[k] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				dfs(s)
			}
		}
	}
	dfs(at.Block())
	after := false
	for _, in := range at.Block().Instrs {
		if after {
			see(in, map[*ssa.BasicBlock]bool{})
		}
		after = after || in == at
	}
	for b := range seen {
		for _, in := range b.Instrs {
			see(in, seen)
		}
	}
	return out
}
