package main

// Terms: hash-consed symbolic values used by the abstract interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // constant C of type T
	KNil                 // typed nil
	KSym                 // opaque value, unique by Name
	KAlloc               // address of a fresh object (Inst)
	KMake                // fresh slice/map/chan: args len, cap
	KGlobal              // address of a global
	KFunc                // function value
	KClosure             // closure: Fn + captured values
	KAddrF               // address of field F of *A[0]
	KAddrI               // address of element A[1] of A[0] (slice or pointer to array)
	KAddrM               // map cell A[0][A[1]]
	KBin                 // A[0] Op A[1]
	KUn                  // Op A[0]
	KConv                // conversion to T
	KSlice               // A[0][A[1]:A[2]]
	KLen                 // len(A[0])
	KCap                 // cap(A[0])
	KIface               // interface holding A[0] of dynamic type DT
	KStruct              // struct value, fields A
	KTuple               // tuple
	KArrLit              // array value, elements A
	KApp                 // application of a named (external or summarised) function
	KLoad                // contents of address A[0] at version Name
	KFieldV              // field F of struct value A[0]
	KIndexV              // element A[1] of array/string value A[0]
	KZero                // zero value of aggregate type T
)

type Term struct {
	ID    int
	K     Kind
	T     types.Type
	Op    token.Token
	Name  string
	A     []*Term
	C     constant.Value
	F     int
	Fn    *ssa.Function
	DT    types.Type
	Inst  int  // nonzero: instance number (distinct dynamic occurrence)
	Exact bool // integer operation known not to wrap
	Gen   int  // newest instance number inside
	Pos   token.Pos
	str   string
	depth int
}

type Universe struct {
	tab  map[string]*Term
	next int
	inst int
	ctx  instCtx
	ctxN int
	byID []*Term
}

var U = &Universe{tab: map[string]*Term{}, byID: []*Term{nil}}

// instCtx names the place that is being executed: the same place in the same activation gives the
// same names on sibling paths (a name stands for one value per path), which lets joins agree
type instCtx struct {
	frame int
	instr ssa.Instruction
	pass  int
}

type instKey struct {
	instCtx
	n int
}

var instMemo = map[instKey]int{}

func (u *Universe) freshInst() int { u.inst++; return u.inst }

func (u *Universe) newInst() int {
	if u.ctx.instr == nil {
		return u.freshInst()
	}
	u.ctxN++
	k := instKey{u.ctx, u.ctxN}
	i, ok := instMemo[k]
	if !ok {
		i = u.freshInst()
		instMemo[k] = i
	}
	return i
}

// enter switches to a place; the result restores the previous one
func (u *Universe) enter(c instCtx) func() {
	o, n := u.ctx, u.ctxN
	u.ctx, u.ctxN = c, 0
	return func() { u.ctx, u.ctxN = o, n }
}

var typeIDs = map[string]int{}

var typeIDMemo = map[types.Type]int{}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := typeIDMemo[t]; ok {
		return id
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[s] = id
	}
	typeIDMemo[t] = id
	return id
}

func (u *Universe) mk(t Term) *Term {
	var b strings.Builder
	num := func(n int) {
		b.WriteString(strconv.Itoa(n))
		b.WriteByte('|')
	}
	num(int(t.K))
	num(typeID(t.T))
	num(int(t.Op))
	b.WriteString(t.Name)
	b.WriteByte('|')
	num(t.F)
	num(t.Inst)
	if t.Exact {
		b.WriteByte('x')
	}
	num(typeID(t.DT))
	if t.C != nil {
		b.WriteString("|c" + t.C.ExactString())
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|f%p", t.Fn)
	}
	for _, a := range t.A {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := u.tab[k]; ok {
		return x
	}
	u.next++
	x := new(Term)
	*x = t
	x.ID = u.next
	x.Gen = t.Inst
	for _, a := range t.A {
		if a.Gen > x.Gen {
			x.Gen = a.Gen
		}
		if a.depth+1 > x.depth {
			x.depth = a.depth + 1
		}
	}
	u.tab[k] = x
	u.byID = append(u.byID, x)
	return x
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	if t.str != "" {
		return t.str
	}
	if t.depth > 12 {
		return fmt.Sprintf("…#%d", t.ID)
	}
	args := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	s := ""
	switch t.K {
	case KConst:
		s = t.C.ExactString()
	case KNil:
		s = "nil"
	case KSym:
		s = t.Name
	case KAlloc:
		s = fmt.Sprintf("&%s#%d", t.Name, t.Inst)
	case KMake:
		s = fmt.Sprintf("make#%d(%s)", t.Inst, args())
	case KGlobal:
		s = "&" + t.Name
	case KFunc:
		s = "func " + t.Fn.Name()
	case KClosure:
		s = "closure " + t.Fn.Name() + "(" + args() + ")"
	case KAddrF:
		s = "&" + t.A[0].String() + "." + fieldName(t.A[0].T, t.F)
	case KAddrI:
		s = "&" + t.A[0].String() + "[" + t.A[1].String() + "]"
	case KAddrM:
		s = t.A[0].String() + "{" + t.A[1].String() + "}"
	case KBin:
		w := ""
		if !t.Exact && isInt(t.T) {
			w = "~"
		}
		s = "(" + t.A[0].String() + " " + t.Op.String() + w + " " + t.A[1].String() + ")"
	case KUn:
		s = t.Op.String() + t.A[0].String()
	case KConv:
		s = shortType(t.T) + "(" + t.A[0].String() + ")"
	case KSlice:
		s = t.A[0].String() + "[" + t.A[1].String() + ":" + t.A[2].String() + "]"
	case KLen:
		s = "len(" + args() + ")"
	case KCap:
		s = "cap(" + args() + ")"
	case KIface:
		s = "iface(" + t.A[0].String() + ")"
	case KStruct:
		s = "{" + args() + "}"
	case KTuple:
		s = "<" + args() + ">"
	case KArrLit:
		s = "[" + args() + "]"
	case KApp:
		s = t.Name
		if t.Inst != 0 {
			s += fmt.Sprintf("#%d", t.Inst)
		}
		s += "(" + args() + ")"
	case KLoad:
		s = "*" + t.A[0].String()
		if t.Name != "0" {
			s += "@" + t.Name
		}
	case KFieldV:
		s = t.A[0].String() + "." + fieldName(t.A[0].T, t.F)
	case KIndexV:
		s = t.A[0].String() + "[" + t.A[1].String() + "]"
	case KZero:
		s = "zero(" + shortType(t.T) + ")"
	}
	t.str = s
	return s
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, _ := t.(*types.Struct)
	return s
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	} else if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func fieldName(t types.Type, f int) string {
	if s := structOf(t); s != nil && f < s.NumFields() {
		return s.Field(f).Name()
	}
	return fmt.Sprint(f)
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}
func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isArray(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}
func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func intBits(t types.Type) (bits uint, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, true, true
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := intBits(t)
	if !ok {
		return nil, nil
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
	} else {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
		lo = big.NewInt(0)
	}
	return
}

// constructors ------------------------------------------------------------

func mkConst(c constant.Value, t types.Type) *Term {
	return U.mk(Term{K: KConst, C: c, T: t})
}
func mkInt(n int64, t types.Type) *Term { return mkConst(constant.MakeInt64(n), t) }
func mkBool(b bool) *Term               { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil(t types.Type) *Term          { return U.mk(Term{K: KNil, T: t}) }
func mkSym(name string, t types.Type) *Term {
	return U.mk(Term{K: KSym, Name: name, T: t, Inst: U.newInst()})
}
func mkParam(name string, t types.Type) *Term {
	return U.mk(Term{K: KSym, Name: name, T: t, F: -7})
}
func (t *Term) isParam() bool { return t.K == KSym && t.F == -7 }

var tInt = types.Typ[types.Int]

func mkAddrF(base *Term, f int) *Term {
	st := structOf(base.T)
	var ft types.Type = types.Typ[types.Invalid]
	if st != nil {
		ft = st.Field(f).Type()
	}
	return U.mk(Term{K: KAddrF, A: []*Term{base}, F: f, T: types.NewPointer(ft)})
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

// mkAddrI normalises addressing through slices to their base.
func mkAddrI(base, idx *Term) *Term {
	for base.K == KSlice {
		if c := base.A[1]; !(c.K == KConst && constant.Sign(c.C) == 0) {
			idx = foldAdd(c, idx)
		}
		base = base.A[0]
	}
	return U.mk(Term{K: KAddrI, A: []*Term{base, idx}, T: types.NewPointer(elemType(base.T))})
}

func mkAddrM(m, k *Term) *Term {
	return U.mk(Term{K: KAddrM, A: []*Term{m, k}, T: types.NewPointer(elemType(m.T))})
}

func foldAdd(a, b *Term) *Term {
	if a.K == KConst && b.K == KConst {
		return mkConst(constant.BinaryOp(a.C, token.ADD, b.C), tInt)
	}
	if a.K == KConst && constant.Sign(a.C) == 0 {
		return b
	}
	if b.K == KConst && constant.Sign(b.C) == 0 {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return U.mk(Term{K: KBin, Op: token.ADD, A: []*Term{a, b}, T: tInt, Exact: true})
}

func mkApp(name string, t types.Type, args ...*Term) *Term {
	return U.mk(Term{K: KApp, Name: name, T: t, A: args})
}
func mkAppInst(name string, t types.Type, args ...*Term) *Term {
	return U.mk(Term{K: KApp, Name: name, T: t, A: args, Inst: U.newInst()})
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return mkNil(t)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroTerm(u.Field(i).Type()))
		}
		return U.mk(Term{K: KStruct, T: t, A: fs})
	case *types.Array:
		return U.mk(Term{K: KZero, T: t})
	case *types.Tuple:
		return U.mk(Term{K: KZero, T: t})
	}
	return mkNil(t)
}

func mkStruct(t types.Type, fs []*Term) *Term { return U.mk(Term{K: KStruct, T: t, A: fs}) }
func mkTuple(t types.Type, fs []*Term) *Term  { return U.mk(Term{K: KTuple, T: t, A: fs}) }

func mkField(v *Term, f int) *Term {
	if v.K == KStruct {
		return v.A[f]
	}
	st := structOf(v.T)
	return U.mk(Term{K: KFieldV, A: []*Term{v}, F: f, T: st.Field(f).Type()})
}

func (t *Term) isConstInt() (int64, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) constStr() (string, bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) constBool() (val, ok bool) {
	if t != nil && t.K == KConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// stripConv removes conversions that do not change an integer's value.
func stripConv(t *Term) *Term {
	for t != nil && t.K == KConv && (t.Exact || !isInt(t.T)) {
		t = t.A[0]
	}
	return t
}

// root of an address or slice value: the object it lies in
func rootOf(t *Term) *Term {
	for {
		switch t.K {
		case KAddrF, KAddrI, KSlice, KAddrM:
			t = t.A[0]
		case KConv:
			if isNilable(t.T) {
				t = t.A[0]
				continue
			}
			return t
		case KApp:
			if t.Name == "append" {
				return t
			}
			return t
		default:
			return t
		}
	}
}

func contains(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func rebuild(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.A))
	for i, a := range t.A {
		as[i] = rebuild(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.K {
		case KAddrI:
			r = mkAddrI(as[0], as[1])
		case KLen:
			r = mkLen(as[0])
		case KBin:
			r = U.mk(Term{K: KBin, Op: t.Op, T: t.T, A: as, Exact: t.Exact})
		default:
			c := *t
			c.A = as
			c.ID = 0
			c.str = ""
			r = U.mk(c)
		}
	}
	memo[t] = r
	return r
}

// mkLen computes the length of a slice/string/array/map/chan value.
func mkLen(x *Term) *Term {
	switch x.K {
	case KConst:
		if s, ok := x.constStr(); ok {
			return mkInt(int64(len(s)), tInt)
		}
	case KNil:
		return mkInt(0, tInt)
	case KMake:
		if isSliceT(x.T) {
			return asIntT(x.A[0])
		}
	case KSlice:
		return linTerm(linOf(x.A[2]).sub(linOf(x.A[1])))
	case KConv:
		if (isString(x.T) || isSliceT(x.T)) && (isString(x.A[0].T) || isSliceT(x.A[0].T)) {
			return mkLen(x.A[0])
		}
	case KApp:
		switch x.Name {
		case "append":
			return linTerm(linOf(mkLen(x.A[0])).add(linOf(mkLen(x.A[1]))))
		case "hash.Sum":
			return mkInt(20, tInt)
		case "content", "arr", "wire":
			return mkLen(x.A[0])
		case "hex.EncodeToString":
			l := linOf(mkLen(x.A[0]))
			return linTerm(l.scale(big.NewInt(2)))
		}
	}
	if a, ok := isArray(x.T); ok {
		return mkInt(a.Len(), tInt)
	}
	if e := ptrElem(x.T); e != nil {
		if a, ok := isArray(e); ok {
			return mkInt(a.Len(), tInt)
		}
	}
	return U.mk(Term{K: KLen, A: []*Term{x}, T: tInt})
}

func asIntT(x *Term) *Term {
	if x.K == KConst {
		return mkConst(x.C, tInt)
	}
	return x
}
