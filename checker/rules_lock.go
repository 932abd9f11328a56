package main

// C06, C07, C08, C09: locks, shared data and waiting

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockClass names a lock by where it is declared
func lockClass(id string) string {
	t := lockTerms[strings.TrimSuffix(id, "r")]
	if t == nil {
		return id
	}
	if c := memClass(t); c != "" {
		return c
	}
	return reInst.ReplaceAllString(t.String(), "")
}

// memClass: the field, map or element type an address belongs to
func memClass(addr *Term) string {
	switch addr.K {
	case KAddrF:
		if f, n := fieldVar(addr); f != nil && n != nil {
			if n.Obj().Pkg() == nil {
				return ""
			}
			return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modulePath), "/") + "." + n.Obj().Name() + "." + f.Name()
		}
		return memClass(addr.A[0])
	case KAddrI:
		return container(addr.A[0], "[]")
	case KAddrM:
		return container(addr.A[0], "{}")
	case KGlobal:
		return "global " + addr.Name
	}
	return ""
}

func container(b *Term, suffix string) string {
	for b.K == KSlice || b.K == KConv && isNilable(b.T) {
		b = b.A[0]
	}
	switch b.K {
	case KLoad:
		if c := memClass(b.A[0]); c != "" {
			return c + suffix
		}
	case KAddrF, KAddrI, KAddrM, KGlobal:
		return memClass(b)
	}
	return ""
}

// owner: the object a chain of loads starts from
func owner(x *Exec, t *Term, d int) []*Term {
	t = rootOf(t)
	if d > 12 {
		return []*Term{t}
	}
	if t.K == KLoad {
		return owner(x, t.A[0], d+1)
	}
	if vs := x.joined[t]; len(vs) > 0 {
		var out []*Term
		for _, s := range x.sources(t) {
			if s != t && s.K != KNil {
				out = append(out, owner(x, s, d+1)...)
			}
		}
		return out
	}
	return []*Term{t}
}

func ownObject(x *Exec, st *State, addr *Term) bool {
	if contains(addr, func(t *Term) bool { return t.K == KAddrM }) {
		return false // taken from a table
	}
	os := owner(x, addr, 0)
	for _, o := range os {
		if o.K != KAlloc && o.K != KMake {
			return false
		}
	}
	return len(os) > 0
}

type access struct {
	Class string
	Write bool
	Ctx   string // fresh objects are not recorded
	Locks string
	Fn    string
	Pos   string
}

func (a access) json() string { b, _ := json.Marshal(a); return string(b) }

// sharedAccesses records accesses to the fields of the named types while fn runs
func (c *Ctx) sharedAccesses(root string, in func(pkg string) bool) *Hooks {
	seen := map[string]bool{}
	rec := func(x *Exec, st *State, fr *Frame, ins ssa.Instruction, addr *Term, write bool) {
		if addr.K == KAlloc || fr == nil {
			return
		}
		class := memClass(addr)
		if class == "" {
			return
		}
		pkg := class
		if i := strings.Index(class, "."); i >= 0 {
			pkg = class[:i]
		}
		if !strings.HasPrefix(class, "global ") && !in(pkg) {
			return
		}
		if strings.HasPrefix(class, "global ") && !strings.Contains(class, modulePath) {
			return
		}
		r := rootOf(addr)
		if x.hasAttr(st, r, "fresh") {
			return
		}
		own := ownObject(x, st, addr)
		ctx := "foreign"
		top := fr.Root()
		switch {
		case own && top.Go:
			ctx = "go:" + relName(top.Fn)
		case own && st.attr(r, "given"):
			ctx = "post"
		case own:
			ctx = "own"
			for _, o := range owner(x, addr, 0) {
				if st.attr(o, "given") {
					ctx = "post"
				}
			}
		}
		var ls []string
		for _, l := range st.locks() {
			t := lockTerms[strings.TrimSuffix(l, "r")]
			if t != nil && x.hasAttr(st, rootOf(t), "fresh") {
				continue // a lock of one's own guards nothing
			}
			k := lockClass(l)
			if strings.HasSuffix(l, "r") {
				k += "(r)"
			}
			ls = append(ls, k)
		}
		sort.Strings(ls)
		a := access{class, write, ctx, strings.Join(ls, ","), relName(fr.Fn), ""}
		c.met("access", ins)
		k := a.json()
		if !seen[k] {
			seen[k] = true
			a.Pos = c.P.posOf(ins)
			c.R.Facts["access"] = append(c.R.Facts["access"], a.json())
		}
	}
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			for _, p := range []string{"(*io.SectionReader).", "(*os.File).", "(*bufio.Reader).", "(*bytes.Reader)."} {
				if !strings.HasPrefix(ci.Name, p) {
					continue
				}
				m := ci.Name[len(p):]
				if m != "Read" && m != "Seek" { // these move the position
					continue
				}
				a := ci.Args[0]
				if a.K == KLoad {
					a = a.A[0]
				}
				rec(x, st, ci.Frame, ci.Instr, a, true)
			}
			return nil, false
		},
		Load: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			rec(x, st, fr, in, addr, false)
		},
		Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
			rec(x, st, fr, in, addr, true)
		},
		MapDelete: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term) {
			rec(x, st, fr, in, mkAddrM(m, key), true)
		},
		Range: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m *Term) {
			if mt, ok := m.T.Underlying().(*types.Map); ok {
				rec(x, st, fr, in, mkAddrM(m, mkSym("any", mt.Key())), false)
			}
		},
		Go: func(x *Exec, st, child *State, ci *CallInfo) {
			var mark func(t *Term, d int)
			mark = func(t *Term, d int) {
				r := rootOf(t)
				if d > 6 || st.attr(r, "given") || r.K != KAlloc && r.K != KMake && r.K != KClosure {
					return
				}
				if r.K != KClosure {
					st.setAttr(r, "given")
				}
				for _, a := range r.A {
					if r.K == KClosure {
						mark(a, d+1)
					}
				}
				for a, v := range st.mem {
					if rootOf(a) == r && v != nil {
						mark(v, d+1)
					}
				}
			}
			for _, b := range ci.Binds {
				mark(b, 0)
			}
			for _, b := range ci.Args {
				mark(b, 0)
			}
		},
	}
}

func common(a, b string, wa, wb bool) bool {
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			if x == "" || y == "" || strings.TrimSuffix(x, "(r)") != strings.TrimSuffix(y, "(r)") {
				continue
			}
			if wa && strings.HasSuffix(x, "(r)") || wb && strings.HasSuffix(y, "(r)") {
				continue // a read lock does not guard a write
			}
			return true
		}
	}
	return false
}

// concurrent: the two contexts may run at the same time on the same object
func concurrent(a, b string) bool {
	ga, gb := strings.HasPrefix(a, "go:"), strings.HasPrefix(b, "go:")
	switch {
	case a == "foreign" || b == "foreign":
		return true
	case ga && gb:
		return a != b
	case ga && b == "post" || gb && a == "post":
		return true
	}
	return false
}

func finishRaces(c *Ctx) {
	by := map[string][]access{}
	var classes []string
	for _, f := range c.R.Facts["access"] {
		var a access
		json.Unmarshal([]byte(f), &a)
		if by[a.Class] == nil {
			classes = append(classes, a.Class)
		}
		by[a.Class] = append(by[a.Class], a)
	}
	sort.Strings(classes)
	for _, cl := range classes {
		as := by[cl]
		sort.Slice(as, func(i, j int) bool { return as[i].json() < as[j].json() })
		wr := false
		for _, a := range as {
			wr = wr || a.Write
		}
		if wr {
			c.metAt("shared and written", cl)
			ls := map[string]bool{}
			for _, a := range as {
				ls[a.Ctx+" under {"+a.Locks+"}"] = true
			}
			var l []string
			for k := range ls {
				l = append(l, k)
			}
			sort.Strings(l)
			c.fact("noted", cl+": "+strings.Join(l, "; "))
		}
		done := map[string]bool{}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.Write && !b.Write || !concurrent(a.Ctx, b.Ctx) || common(a.Locks, b.Locks, a.Write, b.Write) {
					continue
				}
				w, o := a, b
				if !w.Write || o.Write && o.Locks == "" && w.Locks != "" {
					w, o = b, a
				}
				bad := w
				if w.Locks != "" && o.Locks == "" {
					bad = o
				}
				if done[bad.Fn] {
					continue
				}
				done[bad.Fn] = true
				kind := func(a access) string {
					s := "read"
					if a.Write {
						s = "written"
					}
					return fmt.Sprintf("%s at %s (%s) holding {%s}", s, a.Pos, a.Fn, a.Locks)
				}
				c.violAt("race", bad.Pos, bad.Fn, nil, "%s is %s and %s, with no lock in common", cl, kind(w), kind(o))
			}
		}
	}
}

// lockDiscipline: acquire, release and order
func (c *Ctx) lockDiscipline() *Hooks {
	frames := map[int]*Frame{}
	_ = frames
	check := func(x *Exec, st *State, ci *CallInfo) {
		op := lockOp(ci.Name)
		if op == "" {
			return
		}
		c.met("lock "+strings.TrimPrefix(op, "r"), ci.Instr)
		id := lockID(ci.Args[0])
		held := map[string]bool{}
		for _, l := range st.locks() {
			held[l] = true
		}
		cl := lockClass(id)
		switch op {
		case "lock", "rlock":
			if held[id] || held[id+"r"] {
				c.viol("lock twice", ci.Instr, st, "%s is locked while already held", cl)
				return
			}
			for _, l := range st.locks() {
				h := lockClass(l)
				if h == cl {
					c.viol("lock order", ci.Instr, st, "two locks %s are held at once", cl)
					continue
				}
				c.fact("order", h+" -> "+cl+" at "+c.P.posOf(ci.Instr)+" in "+relName(ci.Frame.Fn))
			}
		case "unlock":
			if !held[id] {
				c.viol("unlock", ci.Instr, st, "%s is unlocked but not held", cl)
			}
		case "runlock":
			if !held[id+"r"] {
				c.viol("unlock", ci.Instr, st, "%s is read-unlocked but not held", cl)
			}
		}
	}
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			check(x, st, ci)
			return nil, false
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller != nil {
				return
			}
			c.metAt("end of operation", relName(fr.Fn))
			for _, l := range st.locks() {
				c.violAt("lock leak", c.P.pos(fr.Fn.Pos()), relName(fr.Fn), st, "%s is still held when the operation ends", lockClass(l))
			}
		},
	}
}

func finishOrder(c *Ctx) {
	next := map[string]map[string]string{}
	for _, f := range c.R.Facts["order"] {
		i, j := strings.Index(f, " -> "), strings.Index(f, " at ")
		a, b, at := f[:i], f[i+4:j], f[j+4:]
		if next[a] == nil {
			next[a] = map[string]string{}
		}
		if o := next[a][b]; o == "" || at < o {
			next[a][b] = at
		}
	}
	var as []string
	for a := range next {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		for b, at := range next[a] {
			c.metAt("lock order", a+" then "+b)
			c.fact("noted", a+" is held when "+b+" is taken")
			// can b lead back to a?
			seen := map[string]bool{}
			var walk func(n string) bool
			walk = func(n string) bool {
				if n == a {
					return true
				}
				if seen[n] {
					return false
				}
				seen[n] = true
				for m := range next[n] {
					if walk(m) {
						return true
					}
				}
				return false
			}
			if walk(b) {
				i := strings.Index(at, " in ")
				c.violAt("lock order", at[:i], at[i+4:], nil, "%s is taken while %s is held, and elsewhere the other way round", b, a)
			}
		}
	}
}

// waits: calls that can wait for another party
func waits(name string) string {
	for _, p := range []string{"net.Dial", "net.Listen", "net.Lookup", "net.Resolve", "(*net.Dialer).", "(*net.Resolver).", "(*net/rpc.", "net/rpc.Dial", "net/http.", "(*net/http."} {
		if strings.HasPrefix(name, p) {
			return "network operation " + name
		}
	}
	for _, p := range []string{"(*net.UDPConn).", "(*net.TCPConn).", "(*net.UnixConn).", "(*net.IPConn).", "(*net.conn).", "(net.Conn).", "(net.PacketConn).", "(net.Listener).", "(*net.TCPListener).", "(*net.UnixListener)."} {
		if !strings.HasPrefix(name, p) {
			continue
		}
		m := name[len(p):]
		for _, v := range []string{"Read", "Write", "Accept"} {
			if strings.HasPrefix(m, v) {
				return "network operation " + name
			}
		}
	}
	switch name {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run":
		return name
	}
	return ""
}

func (c *Ctx) noWaitUnderLock() *Hooks {
	held := func(st *State) string {
		var l []string
		for _, id := range st.locks() {
			l = append(l, lockClass(id))
		}
		return strings.Join(l, ", ")
	}
	wait := func(x *Exec, st *State, in ssa.Instruction, what string) {
		if len(st.locks()) == 0 {
			c.met("wait without lock", in)
			return
		}
		c.viol("wait under lock", in, st, "%s while holding %s", what, held(st))
	}
	return &Hooks{
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if w := waits(ci.Name); w != "" {
				wait(x, st, ci.Instr, w)
			}
			if len(st.locks()) > 0 {
				c.met("call under lock", ci.Instr)
			}
			return nil, false
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				wait(x, st, in, "a channel send that can block")
			}
		},
		Recv: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				wait(x, st, in, "a channel receive")
			}
		},
		Select: func(x *Exec, st *State, fr *Frame, in *ssa.Select, chans []*Term) {
			if in.Blocking {
				wait(x, st, in, "a select without default")
			}
		},
	}
}

// operations: entry points whose locking is examined
func (P *Program) operations() []string {
	us := names(P.daemonRoots())
	us = union(us, names(P.catRoots()))
	if n := P.Named("flu", "Server"); n != nil {
		us = union(us, names(P.exportedMethods(n)))
	}
	return us
}

// catOperations: the catalogue's operations once it is loaded
func (P *Program) catOperations() []string {
	var out []string
	for _, f := range P.catRoots() {
		if f.Name() != "Init" {
			out = append(out, relName(f))
		}
	}
	sort.Strings(out)
	return out
}

func init() {
	register(&Rule{
		ID: "C06",
		Explain: "Lockset analysis by abstract interpretation of every public catalogue operation: each access to a field, map or element of the catalogue's own types on an " +
			"object other goroutines can reach is recorded with the locks held; for each such place, every pair of accesses of which one writes must have a lock in common.",
		Units: func(P *Program) []string { return P.catOperations() },
		Run: func(c *Ctx, u string) {
			c.run(c.P.byRel(u), c.sharedAccesses(u, func(pkg string) bool { return pkg == "catalogue" || pkg == "common/bitset" }))
		},
		Finish: finishRaces,
		Min:    map[string]int{"access": 30, "shared and written": 4},
	})
	register(&Rule{
		ID: "C08",
		Explain: "Lockset analysis by abstract interpretation of the message handler, every RPC method and the goroutines they start: each access to the server's tables and counter " +
			"and to transfer objects is recorded with the locks held and with the thread it belongs to (maker of the object, goroutine it was handed to, or anybody through a table); " +
			"every pair of accesses that may overlap, one of them a write, must have a lock in common.",
		Units: func(P *Program) []string { return names(P.daemonRoots()) },
		Run: func(c *Ctx, u string) {
			c.run(c.P.byRel(u), c.sharedAccesses(u, func(pkg string) bool { return pkg == "flu" || pkg == "common" }))
		},
		Finish: finishRaces,
		Min:    map[string]int{"access": 40, "shared and written": 4},
	})
	register(&Rule{
		ID: "C07",
		Explain: "Lock typestate by abstract interpretation of every operation and goroutine: no lock is taken while held or released while not held, none is held when the " +
			"operation or goroutine ends on any path, and the graph of which lock is taken under which has no cycle.",
		Units:  func(P *Program) []string { return P.operations() },
		Run:    func(c *Ctx, u string) { c.run(c.P.byRel(u), c.lockDiscipline()) },
		Finish: finishOrder,
		Min:    map[string]int{"lock lock": 10, "lock unlock": 10, "end of operation": 10},
	})
	register(&Rule{
		ID: "C09",
		Explain: "Effect analysis by abstract interpretation of every operation and goroutine: at each call, channel operation and select the set of locks held is known; none that " +
			"can wait for a peer, a timer or a goroutine (network I/O, sleeps, blocking channel operations) is reached while any lock is held.",
		Units: func(P *Program) []string { return P.operations() },
		Run:   func(c *Ctx, u string) { c.run(c.P.byRel(u), c.noWaitUnderLock()) },
		Min:   map[string]int{"wait without lock": 5, "call under lock": 15},
	})
}
