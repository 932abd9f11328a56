package main

// Abstract states: symbolic memory plus facts that hold on the path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type attrKey struct {
	t *Term
	a string
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	msg  string
	n    int
}

type State struct {
	mem    map[*Term]*Term
	objs   map[*Term]bool // objects created on this path; true: unwritten cells read as zero
	vers   map[string]int
	facts  []*Lin
	fkey   map[string]bool
	nilf   map[*Term]int8 // 1 nil, 2 not nil
	truth  map[*Term]bool
	dyn    map[*Term]types.Type
	attrs  map[attrKey]bool
	pub    map[*Term]bool // objects other goroutines may reach
	cl     map[string]string
	trace  *Trace
	models []model
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, objs: map[*Term]bool{}, vers: map[string]int{}, fkey: map[string]bool{},
		nilf: map[*Term]int8{}, truth: map[*Term]bool{}, dyn: map[*Term]types.Type{}, attrs: map[attrKey]bool{},
		pub: map[*Term]bool{}, cl: map[string]string{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{mem: cp(s.mem), objs: cp(s.objs), vers: cp(s.vers), facts: append([]*Lin(nil), s.facts...), fkey: cp(s.fkey),
		nilf: cp(s.nilf), truth: cp(s.truth), dyn: cp(s.dyn), attrs: cp(s.attrs), pub: cp(s.pub), cl: cp(s.cl), trace: s.trace, models: s.models[:len(s.models):len(s.models)]}
}

func (s *State) note(pos token.Pos, msg string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{s.trace, pos, msg, n}
}

// client state ------------------------------------------------------------

func (s *State) get(k string) string { return s.cl[k] }
func (s *State) set(k, v string) {
	if v == "" {
		delete(s.cl, k)
	} else {
		s.cl[k] = v
	}
}
func (s *State) clKey() string {
	if len(s.cl) == 0 {
		return ""
	}
	var ks []string
	for k, v := range s.cl {
		if strings.HasPrefix(k, "~") { // not part of the key
			continue
		}
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// attributes ---------------------------------------------------------------

func (s *State) attr(t *Term, a string) bool { return s.attrs[attrKey{t, a}] }
func (s *State) setAttr(t *Term, a string)   { s.attrs[attrKey{t, a}] = true }

// facts ---------------------------------------------------------------------

func (s *State) addFact(l *Lin) {
	l = l.tighten()
	if k, ok := l.isConst(); ok && k.Sign() >= 0 {
		return
	}
	k := l.key()
	if s.fkey[k] {
		return
	}
	l.f = l.fast()
	if l.f == nil {
		return
	}
	if len(l.f.m) == 1 {
		for _, f := range intrinsicFast(termByID(l.f.m[0].id)) {
			if sameMonos(f.m, l.f.m) && !l.f.k.less(f.k) {
				return // holds for every value of the type
			}
		}
	}
	s.fkey[k] = true
	for i, f := range s.facts {
		if sameMonos(f.f.m, l.f.m) {
			if !l.f.k.less(f.f.k) {
				delete(s.fkey, k)
				return
			}
			delete(s.fkey, f.key())
			s.facts[i] = l
			s.keepModels(l)
			s.modular(l)
			return
		}
	}
	s.facts = append(s.facts, l)
	s.keepModels(l)
	s.modular(l)
}

// modular: an equality may show that a new bound on multiples is not sharp
func (s *State) modular(l *Lin) {
	wide := false
	for _, c := range l.c {
		wide = wide || c.CmpAbs(bigOne) > 0
	}
	if !wide || len(l.c) < 2 {
		return
	}
	for t, c := range l.c {
		for _, f := range s.facts {
			d := f.c[t]
			if d == nil || d.CmpAbs(bigOne) != 0 || !s.fkey[f.scale(bigNeg).key()] {
				continue
			}
			// l - c*d*f has no t
			e := l.addScaled(f, new(big.Int).Neg(new(big.Int).Mul(c, d)))
			if e.c[t] != nil || len(e.c) == 0 {
				continue
			}
			g := new(big.Int)
			for _, v := range e.c {
				g.GCD(nil, nil, g, new(big.Int).Abs(v))
			}
			if g.Cmp(bigOne) > 0 && new(big.Int).Rem(e.k, g).Sign() != 0 {
				s.addFact(e)
				return
			}
		}
	}
}

func (s *State) leq(a, b *Term) bool { return s.entails(linOf(b).sub(linOf(a))) }
func (s *State) lss(a, b *Term) bool { return s.entails(linOf(b).sub(linOf(a)).addK(-1)) }
func (s *State) eqInt(a, b *Term) bool {
	if a == b {
		return true
	}
	return s.zero(linOf(b).sub(linOf(a)))
}

func (s *State) zero(d *Lin) bool {
	if k, ok := d.isConst(); ok {
		return k.Sign() == 0
	}
	return s.entails(d) && s.entails(d.scale(bigNeg)) || s.congruent(d)
}

// congruent: the difference d is that of two equal operations, which may have wrapped around, on equal operands
func (s *State) congruent(d *Lin) bool {
	if len(d.c) != 2 || d.k.Sign() != 0 {
		return false
	}
	as := d.atoms()
	p, q := as[0], as[1]
	if p.K != KBin || q.K != KBin || p.Op != q.Op || new(big.Int).Add(d.c[p], d.c[q]).Sign() != 0 {
		return false
	}
	pl, ph := typeRange(p.T)
	ql, qh := typeRange(q.T)
	if pl == nil || ql == nil || pl.Cmp(ql) != 0 || ph.Cmp(qh) != 0 {
		return false
	}
	if s.eqInt(p.A[0], q.A[0]) && s.eqInt(p.A[1], q.A[1]) {
		return true
	}
	return (p.Op == token.ADD || p.Op == token.MUL) && s.eqInt(p.A[0], q.A[1]) && s.eqInt(p.A[1], q.A[0])
}

func (s *State) inRange(t *Term, ty types.Type) bool {
	lo, hi := typeRange(ty)
	if lo == nil {
		return false
	}
	tl, th := interval(t)
	if tl != nil && th != nil && tl.Cmp(lo) >= 0 && th.Cmp(hi) <= 0 {
		return true
	}
	return s.linInRange(linOf(t), lo, hi)
}

func (s *State) linInRange(l *Lin, lo, hi *big.Int) bool {
	a := l.clone()
	a.k.Sub(a.k, lo)
	if !s.entails(a) {
		return false
	}
	b := l.scale(bigNeg)
	b.k.Add(b.k, hi)
	return s.entails(b)
}

// nilness: 1 nil, 2 not nil, 0 unknown
func (s *State) nilness(t *Term) int8 {
	switch t.K {
	case KNil:
		return 1
	case KAlloc, KMake, KGlobal, KFunc, KClosure, KAddrF, KAddrI, KIface:
		return 2
	case KSlice:
		if isSliceT(t.A[0].T) {
			return s.nilness(t.A[0])
		}
		return 2
	case KConv:
		if isNilable(t.A[0].T) {
			return s.nilness(t.A[0])
		}
		return 2
	case KApp:
		if t.Name == "append" {
			if n, ok := mkLen(t.A[1]).isConstInt(); ok && n > 0 {
				return 2
			}
			if s.nilness(t.A[0]) == 2 {
				return 2
			}
		}
	}
	if n := s.nilf[t]; n != 0 {
		return n
	}
	if t.K == KLoad && t.A[0].K == KGlobal && isErrorT(t.T) {
		return 2 // package-level error values (io.EOF and the like)
	}
	return 0
}

func (s *State) setNil(t *Term, n int8) bool {
	for t.K == KConv && isNilable(t.A[0].T) || t.K == KSlice && isSliceT(t.A[0].T) {
		t = t.A[0]
	}
	if c := s.nilness(t); c != 0 {
		return c == n
	}
	s.nilf[t] = n
	return true
}

func (s *State) dynType(t *Term) types.Type {
	if t.K == KIface {
		return t.DT
	}
	if t.K == KConv && isIface(t.A[0].T) {
		return s.dynType(t.A[0])
	}
	return s.dyn[t]
}

// comparisons ---------------------------------------------------------------

func mkNot(t *Term) *Term {
	if b, ok := t.constBool(); ok {
		return mkBool(!b)
	}
	if t.K == KUn && t.Op == token.NOT {
		return t.A[0]
	}
	return U.mk(Term{K: KUn, Op: token.NOT, A: []*Term{t}, T: types.Typ[types.Bool]})
}

// unarr: byte arrays and byte slices are compared by content
func unarr(t *Term) *Term {
	for {
		if t.K == KApp && t.Name == "arr" {
			t = t.A[0]
			continue
		}
		if t.K == KStruct && len(t.A) == 1 {
			t = t.A[0]
			continue
		}
		if t.K == KConv && !isNilable(t.T) && !isInt(t.T) && !isString(t.T) {
			t = t.A[0] // conversion between identical struct/array types
			continue
		}
		return t
	}
}

func mkCmp(op token.Token, x, y *Term) *Term {
	tb := types.Typ[types.Bool]
	switch op {
	case token.NEQ:
		return mkNot(mkCmp(token.EQL, x, y))
	case token.GTR:
		return mkCmp(token.LSS, y, x)
	case token.GEQ:
		return mkCmp(token.LEQ, y, x)
	case token.EQL:
		x, y = unarr(x), unarr(y)
		if x == y {
			return mkBool(true)
		}
		if x.K == KConst && y.K == KConst {
			return mkBool(constant.Compare(x.C, token.EQL, y.C))
		}
		if b, ok := x.constBool(); ok {
			x, y = y, mkBool(b)
		}
		if b, ok := y.constBool(); ok {
			if b {
				return x
			}
			return mkNot(x)
		}
		if x.K == KArrLit && y.K == KArrLit && len(x.A) == len(y.A) {
			same := true
			for i := range x.A {
				if x.A[i] != y.A[i] {
					same = false
				}
			}
			if same {
				return mkBool(true)
			}
		}
		if x.K == KNil || x.K == KConst || y.K != KNil && y.K != KConst && x.ID > y.ID {
			x, y = y, x
		}
		return U.mk(Term{K: KBin, Op: token.EQL, A: []*Term{x, y}, T: tb})
	case token.LSS, token.LEQ:
		if x.K == KConst && y.K == KConst {
			return mkBool(constant.Compare(x.C, op, y.C))
		}
	}
	return U.mk(Term{K: KBin, Op: op, A: []*Term{x, y}, T: tb})
}

// eval: value of a boolean term, if decided
func (s *State) eval(c *Term) (val, known bool) {
	if b, ok := c.constBool(); ok {
		return b, true
	}
	if v, ok := s.truth[c]; ok {
		return v, true
	}
	if c.K == KUn && c.Op == token.NOT {
		v, k := s.eval(c.A[0])
		return !v, k
	}
	if c.K != KBin {
		return false, false
	}
	x, y := c.A[0], c.A[1]
	switch c.Op {
	case token.EQL:
		if y.K == KNil {
			switch s.nilness(x) {
			case 1:
				return true, true
			case 2:
				return false, true
			}
			return false, false
		}
		if isInt(x.T) {
			d := linOf(x).sub(linOf(y))
			if s.entails(d.addK(-1)) || s.entails(d.scale(bigNeg).addK(-1)) {
				return false, true
			}
			if s.entails(d) && s.entails(d.scale(bigNeg)) {
				return true, true
			}
			return false, false
		}
		if isNilable(x.T) {
			nx, ny := s.nilness(x), s.nilness(y)
			if nx == 1 && ny == 2 || nx == 2 && ny == 1 {
				return false, true
			}
			if nx == 1 && ny == 1 {
				return true, true
			}
			if x.K == KAlloc && y.K == KAlloc {
				return false, true
			}
			if x.K == KAlloc && y.isParam() || y.K == KAlloc && x.isParam() {
				return false, true
			}
			if p, ok := s.errClass(x); ok {
				if q, ok2 := s.errClass(y); ok2 && p != q && !mayBeErr(x, q) && !mayBeErr(y, p) {
					return false, true
				}
			}
		}
	case token.LSS:
		if isInt(x.T) {
			d := linOf(y).sub(linOf(x))
			if s.entails(d.addK(-1)) {
				return true, true
			}
			if s.entails(d.scale(bigNeg)) {
				return false, true
			}
		}
	case token.LEQ:
		if isInt(x.T) {
			d := linOf(y).sub(linOf(x))
			if s.entails(d) {
				return true, true
			}
			if s.entails(d.scale(bigNeg).addK(-1)) {
				return false, true
			}
		}
	}
	return false, false
}

// mayBeErr: e, an error made outside the module, may be the named package-level error of the library.
// Whether it is io.EOF is decided where it is made.
func mayBeErr(e *Term, name string) bool {
	return e.K == KApp && strings.HasPrefix(e.Name, "err:") && name != "io.EOF" && name != "other" && stdError(name)
}

// stdError: a package-level variable of the standard library
func stdError(name string) bool {
	i := strings.LastIndex(name, "/")
	d := strings.Index(name[i+1:], ".")
	return d > 0 && !strings.Contains(name[:i+1+d], ".") && strings.ToUpper(name[i+2+d:i+3+d]) == name[i+2+d:i+3+d]
}

// errClass distinguishes error values of known origin: a package-level error variable, or a freshly made error
func (s *State) errClass(t *Term) (string, bool) {
	if t.K == KLoad && t.A[0].K == KGlobal {
		return t.A[0].Name, true
	}
	if s.attr(t, "othererr") {
		return "other", true
	}
	return "", false
}

// assume adds a fact; false: the path is infeasible
func (s *State) assume(c *Term, v bool) bool {
	for c.K == KUn && c.Op == token.NOT {
		c, v = c.A[0], !v
	}
	if cur, known := s.eval(c); known {
		if cur == v {
			s.truth[c] = v
		}
		return cur == v
	}
	s.truth[c] = v
	if c.K == KApp {
		// pure predicates with implications
		if c.Name == "os.IsNotExist" && v || c.Name == "errors.Is" && v {
			return s.setNil(c.A[0], 2)
		}
	}
	if c.K != KBin {
		return true
	}
	x, y := c.A[0], c.A[1]
	switch c.Op {
	case token.EQL:
		if y.K == KNil {
			n := int8(2)
			if v {
				n = 1
			}
			return s.setNil(x, n)
		}
		if isInt(x.T) {
			d := linOf(x).sub(linOf(y))
			if v {
				s.addFact(d)
				s.addFact(d.scale(bigNeg))
			} else if s.entails(d) {
				s.addFact(d.addK(-1))
			} else if s.entails(d.scale(bigNeg)) {
				s.addFact(d.scale(bigNeg).addK(-1))
			}
			return true
		}
		if v && isNilable(x.T) {
			nx, ny := s.nilness(x), s.nilness(y)
			if nx == 0 && ny != 0 {
				return s.setNil(x, ny)
			}
			if ny == 0 && nx != 0 {
				return s.setNil(y, nx)
			}
		}
	case token.LSS:
		if isInt(x.T) {
			d := linOf(y).sub(linOf(x))
			if v {
				s.addFact(d.addK(-1))
			} else {
				s.addFact(d.scale(bigNeg))
			}
		}
	case token.LEQ:
		if isInt(x.T) {
			d := linOf(y).sub(linOf(x))
			if v {
				s.addFact(d)
			} else {
				s.addFact(d.scale(bigNeg).addK(-1))
			}
		}
	}
	return true
}

// memory ---------------------------------------------------------------------

func inModule(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		_, ok := t.Underlying().(*types.Struct)
		return ok
	}
	p := n.Obj().Pkg()
	return p != nil && isModulePath(p.Path())
}

var modulePath = "github.com/flu-network/client"

func isModulePath(p string) bool {
	return p == modulePath || strings.HasPrefix(p, modulePath+"/")
}

func explodes(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && inModule(t)
}

func fieldClass(base *Term, f int) string {
	t := base.T
	if e := ptrElem(t); e != nil {
		t = e
	}
	return "F:" + shortType(t) + "." + fieldName(base.T, f)
}

// ghost: a cell for what a rule follows, joined and widened like a variable of the program
func ghost(name string, t types.Type) *Term {
	return U.mk(Term{K: KApp, Name: "ghost:" + name, T: types.NewPointer(t)})
}

func classOf(addr *Term) string {
	switch addr.K {
	case KAddrF:
		return fieldClass(addr.A[0], addr.F)
	case KAddrI:
		return "E:" + shortType(ptrElem(addr.T))
	case KAddrM:
		if addr.F == 1 {
			return "H:" + shortType(addr.A[0].T)
		}
		return "M:" + shortType(addr.A[0].T)
	case KApp:
		return "D:" + addr.Name
	}
	if e := ptrElem(addr.T); e != nil {
		return "T:" + shortType(e)
	}
	return "?"
}

func (s *State) version(addr *Term) int {
	if addr.K == KGlobal && !strings.Contains(addr.Name, modulePath) {
		return 0
	}
	v := s.vers[classOf(addr)]
	if w := s.vers[rootKey(rootOf(addr))]; w > v {
		v = w
	}
	return v
}

var keyRoot = map[string]*Term{}

func rootKey(r *Term) string {
	k := fmt.Sprintf("R:%d", r.ID)
	keyRoot[k] = r
	return k
}

func (s *State) bump(key string) { s.vers[key] = U.newInst() }

func mkLoad(addr *Term, ver int) *Term {
	return U.mk(Term{K: KLoad, A: []*Term{addr}, T: ptrElem(addr.T), Name: fmt.Sprint(ver), Inst: ver})
}

func (s *State) load(addr *Term) *Term {
	t := ptrElem(addr.T)
	if t == nil {
		return mkSym("load?", types.Typ[types.Invalid])
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if explodes(t) {
		st := t.Underlying().(*types.Struct)
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.load(mkAddrF(addr, i))
		}
		return mkStruct(t, fs)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for a := range s.mem {
			if a.K == KAddrF && a.A[0] == addr {
				fs := make([]*Term, st.NumFields())
				for i := range fs {
					fs[i] = s.load(mkAddrF(addr, i))
				}
				return mkStruct(t, fs)
			}
		}
	}
	if at, ok := isArray(t); ok && at.Len() <= 32 {
		any := false
		for a := range s.mem {
			if a.K == KAddrI && a.A[0] == addr {
				any = true
			}
		}
		if any {
			es := make([]*Term, at.Len())
			for i := range es {
				es[i] = s.load(mkAddrI(addr, mkInt(int64(i), tInt)))
			}
			return U.mk(Term{K: KArrLit, T: t, A: es})
		}
	}
	switch addr.K {
	case KAddrF:
		if v, ok := s.mem[addr.A[0]]; ok { // field of an atomically stored struct
			return mkField(v, addr.F)
		}
	case KAddrI:
		if v, ok := s.mem[addr.A[0]]; ok && ptrElem(addr.A[0].T) != nil {
			return mkIndexV(v, addr.A[1])
		}
	}
	r := rootOf(addr)
	if s.objs[r] && !hasDeref(addr) && !(isNilable(t) && sliceElem(addr)) {
		return zeroTerm(t)
	}
	return mkLoad(addr, s.version(addr))
}

func hasDeref(addr *Term) bool { return false }

// sliceElem: the address lies in an element of a slice made at run time. Which elements were
// filled is not tracked, so their pointers are taken as unknown rather than nil.
func sliceElem(addr *Term) bool {
	for ; addr.K == KAddrF || addr.K == KAddrI; addr = addr.A[0] {
		if addr.K == KAddrI && addr.A[0].K == KMake {
			return true
		}
	}
	return false
}

func mkIndexV(v, i *Term) *Term {
	if v.K == KArrLit {
		if n, ok := i.isConstInt(); ok && n >= 0 && int(n) < len(v.A) {
			return v.A[n]
		}
	}
	if v.K == KZero {
		return zeroTerm(elemType(v.T))
	}
	return U.mk(Term{K: KIndexV, A: []*Term{v, i}, T: elemType(v.T)})
}

// fresh: t's root is an object made on this path that nobody else can reach
func (s *State) freshRoot(r *Term) bool {
	if r.K == KAlloc || r.K == KMake {
		return !s.pub[r]
	}
	return s.attr(r, "fresh") && !s.pub[r]
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if classOf(a) != classOf(b) {
		return false
	}
	if a.K == KAddrI && b.K == KAddrI && a.A[0] == b.A[0] {
		d := linOf(a.A[1]).sub(linOf(b.A[1]))
		if k, ok := d.isConst(); ok {
			return k.Sign() == 0
		}
		return !(s.entails(d.addK(-1)) || s.entails(d.scale(bigNeg).addK(-1)))
	}
	if a.K == KAddrM && b.K == KAddrM && a.A[0] == b.A[0] {
		if v, known := s.eval(mkCmp(token.EQL, a.A[1], b.A[1])); known {
			return v
		}
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb {
		if a.K == KAddrF && b.K == KAddrF {
			return a.A[0] != b.A[0] && s.mayAliasBase(a.A[0], b.A[0]) || a.A[0] == b.A[0]
		}
		return true
	}
	return s.mayAliasRoots(ra, rb)
}

func (s *State) mayAliasBase(a, b *Term) bool {
	if a.K == KAddrI && b.K == KAddrI {
		return s.mayAlias(a, b)
	}
	return true
}

func (s *State) mayAliasRoots(ra, rb *Term) bool {
	isObj := func(t *Term) bool { return t.K == KAlloc || t.K == KMake || t.K == KGlobal }
	if isObj(ra) && isObj(rb) {
		return false
	}
	if isObj(ra) && (s.freshRoot(ra) || rb.isParam()) && !s.derivesFresh(rb) {
		return false
	}
	if isObj(rb) && (s.freshRoot(rb) || ra.isParam()) && !s.derivesFresh(ra) {
		return false
	}
	return true
}

// derivesFresh: an opaque value that may point to unpublished objects of this path
func (s *State) derivesFresh(t *Term) bool {
	return s.attr(t, "fresh") || s.attr(t, "mayfresh") || t.K == KSym && !t.isParam() && strings.HasPrefix(t.Name, "φ") || t.K == KApp && t.Name == "append"
}

func (s *State) invalidate(addr *Term) {
	c := classOf(addr)
	for a := range s.mem {
		if a != addr && classOf(a) == c && s.mayAlias(addr, a) {
			s.mem[a] = mkSym("clobbered", ptrElem(a.T))
		}
	}
	r := rootOf(addr)
	if !(s.freshRoot(r) && s.objs[r]) {
		s.bump(c)
	}
	// zero-initialised objects that may alias lose their default
	if r.K != KAlloc && r.K != KMake {
		for o, z := range s.objs {
			if z && s.mayAliasRoots(r, o) && o != r && classMayLieIn(c, o) {
				s.objs[o] = false
				s.bump(rootKey(o))
			}
		}
	}
}

func classMayLieIn(c string, o *Term) bool {
	e := elemType(o.T)
	if strings.HasPrefix(c, "E:") {
		return c == "E:"+shortType(e) || strings.Contains(shortType(e), "[")
	}
	if strings.HasPrefix(c, "F:") {
		i := strings.LastIndex(c, ".")
		return typeContains(e, c[2:i], 4)
	}
	if strings.HasPrefix(c, "M:") || strings.HasPrefix(c, "H:") {
		return c[2:] == shortType(o.T)
	}
	return true
}

func typeContains(t types.Type, name string, d int) bool {
	if d == 0 || t == nil {
		return false
	}
	if shortType(t) == name {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if typeContains(u.Field(i).Type(), name, d-1) {
				return true
			}
		}
	case *types.Array:
		return typeContains(u.Elem(), name, d-1)
	}
	return false
}

func (s *State) store(addr, val *Term) {
	t := ptrElem(addr.T)
	if t != nil && explodes(t) {
		st := t.Underlying().(*types.Struct)
		delete(s.mem, addr)
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkAddrF(addr, i), mkField(val, i))
		}
		return
	}
	s.invalidate(addr)
	if t != nil {
		if _, ok := isArray(t); ok {
			for a := range s.mem {
				if a.K == KAddrI && a.A[0] == addr {
					delete(s.mem, a)
				}
			}
		} else if _, ok := t.Underlying().(*types.Struct); ok {
			for a := range s.mem {
				if a.K == KAddrF && a.A[0] == addr {
					delete(s.mem, a)
				}
			}
		}
	}
	if addr.K == KAddrI && ptrElem(addr.A[0].T) != nil { // element of an array variable
		if _, c := addr.A[1].isConstInt(); !c {
			for a := range s.mem {
				if a.K == KAddrI && a.A[0] == addr.A[0] {
					delete(s.mem, a)
				}
			}
			s.mem[addr.A[0]] = mkSym("array", ptrElem(addr.A[0].T))
		}
	}
	if addr.K == KAddrF && !explodes(ptrElem(addr.A[0].T)) {
		// a field of a struct that was stored as a whole
		if v, ok := s.mem[addr.A[0]]; ok {
			delete(s.mem, addr.A[0])
			for i, n := 0, structOf(ptrElem(addr.A[0].T)).NumFields(); i < n; i++ {
				s.mem[mkAddrF(addr.A[0], i)] = mkField(v, i)
			}
		}
	}
	s.mem[addr] = val
	if addr.K == KAddrI {
		s.bump(rootKey(rootOf(addr)))
	}
	if r := rootOf(addr); !s.freshRoot(r) {
		s.publish(val)
	}
}

// publish marks everything reachable from v as reachable by others
func (s *State) publish(v *Term) {
	if v == nil {
		return
	}
	switch v.K {
	case KAlloc, KMake:
		if s.pub[v] {
			return
		}
		s.pub[v] = true
		for a, c := range s.mem {
			if rootOf(a) == v {
				s.publish(c)
			}
		}
		return
	case KConst, KNil, KLen, KCap, KLoad:
		return
	case KSym:
		if s.attr(v, "fresh") {
			s.pub[v] = true
		}
		return
	}
	for _, a := range v.A {
		s.publish(a)
	}
}

// havocRoot forgets the contents of an object
func (s *State) havocRoot(r *Term) {
	for a := range s.mem {
		if rootOf(a) == r {
			delete(s.mem, a)
		}
	}
	if _, ok := s.objs[r]; ok {
		s.objs[r] = false
	}
	s.bump(rootKey(r))
}

// content of a byte slice or string
func (s *State) content(x *Term) *Term {
	switch x.K {
	case KSlice:
		if e := ptrElem(x.A[0].T); e != nil {
			if at, ok := isArray(e); ok {
				if lo, k := x.A[1].isConstInt(); k && lo == 0 {
					if hi, k := x.A[2].isConstInt(); k && hi == at.Len() {
						return unarr(s.load(x.A[0]))
					}
				}
			}
		}
		if lo, k := x.A[1].isConstInt(); k && lo == 0 && isSliceT(x.A[0].T) && s.eqInt(x.A[2], mkLen(x.A[0])) {
			return s.content(x.A[0])
		}
	case KConv:
		if isString(x.A[0].T) || isSliceT(x.A[0].T) {
			return s.content(x.A[0])
		}
	case KApp:
		switch x.Name {
		case "hash.Sum", "content":
			return x
		case "hex.EncodeToString":
			return x
		}
	}
	if isString(x.T) {
		return x
	}
	v := s.vers[rootKey(rootOf(x))]
	if isSliceT(x.T) {
		if w := s.vers["E:"+shortType(elemType(x.T))]; w > v {
			v = w
		}
	}
	return U.mk(Term{K: KApp, Name: "content", A: []*Term{x}, T: types.Typ[types.String], Inst: v})
}

func mkArr(c *Term, t types.Type) *Term {
	if types.Identical(c.T, t) {
		return c
	}
	return mkApp("arr", t, c)
}
