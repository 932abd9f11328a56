package main

// C23, C24 (waits that end; sockets and files that are closed)

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxWait = int64(600e9) // ten minutes, in nanoseconds

// fixedTime: a positive length of time that is a constant of the program
func fixedTime(d *Term) bool {
	d = stripSame(d)
	if n, ok := d.isConstInt(); ok {
		return n > 0 && n <= maxWait
	}
	return d.K == KLoad && d.A[0].K == KGlobal // a setting
}

// timerOf: the call that made the timer a channel belongs to, or nil
func timerOf(ch *Term) *Term {
	for t := ch; t != nil; {
		switch t.K {
		case KApp:
			switch t.Name {
			case "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "context.done":
				return t
			}
			return nil
		case KLoad, KAddrF, KConv:
			t = t.A[0]
		default:
			return nil
		}
	}
	return nil
}

// closable: a value of this type can be closed and may fail to come into being
func closable(t types.Type) bool {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		if o, _, _ := types.LookupFieldOrMethod(u, true, nil, "Close"); o != nil {
			if f, ok := o.(*types.Func); ok {
				s := f.Type().(*types.Signature)
				return s.Params().Len() == 0 && s.Results().Len() == 1 && isErrorT(s.Results().At(0).Type())
			}
		}
	}
	return false
}

// reaches: the object can be reached from a value
func reaches(x *Exec, st *State, v, obj *Term) bool {
	seen := map[*Term]bool{}
	want := map[*Term]bool{}
	for _, s := range x.sources(obj) {
		want[s] = true
	}
	var walk func(v *Term, d int) bool
	walk = func(v *Term, d int) bool {
		if v == nil || v.T == nil || seen[v] || d > 10 {
			return false
		}
		seen[v] = true
		for _, s := range x.sources(embedded(unface(v))) {
			if want[s] || want[rootOf(s)] {
				return true
			}
		}
		switch v.K {
		case KIface, KClosure, KStruct, KTuple, KConv, KSlice:
			for _, a := range v.A {
				if walk(a, d+1) {
					return true
				}
			}
			return false
		}
		if !hasRefs(v.T, 0) {
			return false
		}
		r := rootOf(v)
		for a, w := range st.mem {
			if a.K != KApp && rootOf(a) == r && walk(w, d+1) {
				return true
			}
		}
		return walk(st.mem[v], d+1)
	}
	return walk(v, 0)
}

type waitCase struct {
	site string // of the channel
	last string // what was received before: "", "nonnil", "any"
}

type waiting struct {
	in     ssa.Instruction
	st     *State
	thread string
	cases  []waitCase
	after  []string // goroutines started before
	send   bool
}

type ending struct {
	thread   string
	in       ssa.Instruction
	st       *State
	fed      map[string]string
	released map[string]bool
	open     map[string]string // resource → "o" (opened here) or "c" (got from the parent), and who shares it
	unclosed map[string]bool   // channels made here and not closed
}

type waitAn struct {
	closed map[string]bool // types of channels that are closed somewhere
	c      *Ctx
	u      string
	waits  []waiting
	ends   []ending
	sent   map[string]map[string]int // channel → thread → times sent without a way out
	caps   map[string]int
	at     map[string]ssa.Instruction
	sel    map[ssa.Instruction][]*Term
	cut    bool // the operations of the catalogue are not entered
	probe  bool
	bounds bool               // C23
	maker  map[string]string  // channel → thread
	objs   map[string][]*Term // channel → its instances
	given  map[string][]*Term // goroutine → the channels it can reach
}

// about: what is followed under a name
func about(st *State, name, site string) *Term {
	for a, v := range st.mem {
		if a.K == KApp && a.Name == "ghost:"+name && a.A[0].Name == site {
			return v
		}
	}
	return nil
}

func chanSite(ch *Term) string {
	ch = unface(ch)
	if ch != nil && ch.K == KMake {
		return fmt.Sprint("ch@", ch.Pos)
	}
	return ""
}

func (w *waitAn) sitesOf(x *Exec, ch *Term) []string {
	var out []string
	for _, s := range x.sources(ch) {
		if k := chanSite(s); k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func keysOf(st *State, prefix string) []string {
	var out []string
	for k, v := range st.cl {
		if strings.HasPrefix(k, prefix) && v != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func thread(st *State) string { return st.get("thread") }

func (w *waitAn) wait(x *Exec, st *State, in ssa.Instruction, chans []*Term, send bool) {
	var timed bool
	wt := waiting{in: in, st: st.clone(), thread: thread(st), send: send}
	for _, ch := range chans {
		if t := timerOf(ch); t != nil {
			if v, known := st.eval(st.load(cell("armed", t, types.Typ[types.Bool]))); !known || !v {
				continue
			}
			timed = true
			continue
		}
		for _, k := range w.sitesOf(x, ch) {
			last := ""
			if st.get("got "+k) != "" {
				last = "any"
				if v := w.last(x, st, ch); v != nil && st.nilness(v) == 2 {
					last = "nonnil"
				}
			}
			wt.cases = append(wt.cases, waitCase{k, last})
			if st.get("silent "+k) != "" && w.bounds {
				w.c.viol("silence", in, st, "waits again for the same answers after waiting for them in vain")
			}
		}
	}
	if timed {
		if w.bounds {
			w.c.met("timed", in)
		}
		return
	}
	wt.after = keysOf(st, "spawned ")
	w.waits = append(w.waits, wt)
}

// last: what was received from the channel
func (w *waitAn) last(x *Exec, st *State, ch *Term) *Term {
	for a, v := range st.mem {
		if a.K == KApp && a.Name == "ghost:last" && a.A[0] == ch {
			return v
		}
	}
	return nil
}

// forget what is known of channels nobody refers to any more
func (w *waitAn) forget(st *State) {
	for k := range st.cl {
		i := strings.Index(k, " ch@")
		if i < 0 || strings.HasPrefix(k, "made ") {
			continue
		}
		if p := k[:i]; p != "got" && p != "silent" && p != "sent" {
			continue
		}
		live := false
		for _, o := range w.objs[k[i+1:]] {
			live = live || st.objs[o]
		}
		if !live {
			st.set(k, "")
		}
	}
	for _, k := range keysOf(st, "spawned ") {
		live := false
		for _, o := range w.given[k] {
			live = live || st.objs[o]
		}
		if !live {
			st.set(k, "")
		}
	}
}

func chanKey(site string) *Term { return mkParam(site, tInt) }

func (w *waitAn) received(x *Exec, st *State, ch, val *Term, chans []*Term) {
	if t := timerOf(ch); t != nil {
		if t.Name != "time.Tick" && t.Name != "time.NewTicker" {
			st.mem[cell("armed", t, types.Typ[types.Bool])] = mkBool(false)
		}
		for _, o := range chans {
			for _, k := range w.sitesOf(x, o) {
				st.set("silent "+k, "1")
			}
		}
		return
	}
	for _, k := range w.sitesOf(x, ch) {
		st.set("silent "+k, "")
		st.set("got "+k, "1")
		st.mem[cell("last", ch, val.T)] = val
		if w.closed[ch.T.String()] && w.maker[k] != thread(st) {
			st.set("released "+k, "1")
		}
	}
}

func (w *waitAn) feed(x *Exec, st *State, ch, val *Term) {
	for _, k := range w.sitesOf(x, ch) {
		if w.maker[k] == thread(st) {
			continue
		}
		kind := "other"
		if val != nil && (val.K == KNil || st.nilness(val) == 1) {
			kind = "nil"
		}
		st.set("fed "+k, kind)
	}
}

// resource handling

func (w *waitAn) opened(x *Exec, st *State, in ssa.Instruction, t *Term) {
	site := "open " + w.c.P.posOf(in)
	w.at[site] = in
	if f := st.get(site); f != "" {
		w.end(x, st, in, nil, site)
	}
	st.set(site, "o")
	r := embedded(unface(t))
	st.mem[cell("resource", chanKey(site), t.T)] = r
	st.mem[cell("deadline", r, types.Typ[types.Bool])] = mkBool(false)
	st.set("silent "+site, "")
}

func (w *waitAn) siteOf(x *Exec, st *State, r *Term) string {
	src := map[*Term]bool{}
	for _, s := range x.sources(embedded(unface(r))) {
		src[s] = true
	}
	for a, v := range st.mem {
		if a.K == KApp && a.Name == "ghost:resource" && v != nil {
			for _, s := range x.sources(v) {
				if src[s] {
					return a.A[0].Name
				}
			}
		}
	}
	return ""
}

func (w *waitAn) end(x *Exec, st *State, in ssa.Instruction, rets []*Term, only string) {
	e := ending{thread: thread(st), in: in, st: st.clone(), fed: map[string]string{}, released: map[string]bool{}, open: map[string]string{}, unclosed: map[string]bool{}}
	for _, k := range keysOf(st, "open ") {
		if only != "" && k != only {
			continue
		}
		if only == "" && w.returned(x, st, rets, about(st, "resource", k), k) {
			continue
		}
		e.open[k] = st.get(k)
	}
	if only == "" {
		for _, k := range keysOf(st, "fed ") {
			e.fed[k[4:]] = st.get(k)
		}
		for _, k := range keysOf(st, "released ") {
			e.released[k[9:]] = true
		}
		for _, k := range keysOf(st, "made ") {
			e.unclosed[k[5:]] = true
		}
	} else {
		e.thread += "!" // not an end, only a loss
	}
	w.ends = append(w.ends, e)
}

// returned: the caller gets the resource in something it can close
func (w *waitAn) returned(x *Exec, st *State, rets []*Term, r *Term, site string) bool {
	if r == nil {
		return false
	}
	for _, v := range rets {
		if v == nil || !closable(v.T) || !reaches(x, st, v, r) {
			continue
		}
		// does closing it close the resource?
		n := namedOf(v.T)
		if p := ptrElem(v.T); p != nil {
			n = namedOf(p)
		}
		if n == nil || n.Obj().Pkg() == nil || !isModulePath(n.Obj().Pkg().Path()) {
			return true
		}
		f := x.P.prog.LookupMethod(v.T, n.Obj().Pkg(), "Close")
		if f == nil {
			return false
		}
		ok := true
		w.probe = true
		outs := x.Run(f, []*Term{v}, nil, st.clone(), nil, nil)
		w.probe = false
		for _, o := range outs {
			if o.St.get(site) != "" {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (w *waitAn) hooks() *Hooks {
	c := w.c
	tBool := types.Typ[types.Bool]
	return &Hooks{
		Alloc: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, obj *Term) {
			if _, ok := in.(*ssa.MakeChan); !ok {
				return
			}
			k := chanSite(obj)
			w.at[k] = in
			w.maker[k] = thread(st)
			w.objs[k] = append(w.objs[k], obj)
			for _, p := range []string{"fed ", "got ", "silent ", "released ", "sent "} {
				st.set(p+k, "")
			}
			if w.closed[obj.T.String()] {
				st.set("made "+k, "1")
			}
			if n, ok := obj.A[0].isConstInt(); ok {
				w.caps[k] = int(n)
			}
		},
		Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.IsGo && hasBody(ci.Callee) {
				return nil, false
			}
			name, a := ci.Name, ci.Args
			switch {
			case ci.Builtin == "close":
				for _, k := range w.sitesOf(x, a[0]) {
					w.at["close "+k] = ci.Instr
					st.set("made "+k, "")
					if w.maker[k] != thread(st) {
						st.set("fed "+k, "closed")
					}
				}
				return nil, false
			case name == "(time.Time).Add":
				return []Outcome{{st, []*Term{mkApp("time.sum", ci.Results.At(0).Type(), a...)}}}, true
			case name == "time.After" || name == "time.Tick" || name == "time.NewTimer" || name == "time.NewTicker":
				outs := x.extern(st, ci)
				for _, o := range outs {
					o.St.mem[cell("armed", o.Ret[0], tBool)] = mkBool(fixedTime(a[0]))
				}
				return outs, true
			case strings.HasPrefix(name, "(*time.Timer).") || strings.HasPrefix(name, "(*time.Ticker)."):
				if t := timerOf(a[0]); t != nil {
					if strings.HasSuffix(name, ".Stop") {
						st.mem[cell("armed", t, tBool)] = mkBool(false)
					} else if strings.HasSuffix(name, ".Reset") {
						st.mem[cell("armed", t, tBool)] = mkBool(fixedTime(a[1]))
					}
				}
				return nil, false
			case name == "context.WithTimeout":
				outs := x.extern(st, ci)
				for _, o := range outs {
					o.St.mem[cell("expires", o.Ret[0], tBool)] = mkBool(fixedTime(a[1]))
				}
				return outs, true
			case name == "(context.Context).Done":
				t := mkAppInst("context.done", ci.Results.At(0).Type(), a...)
				v := st.mem[cell("expires", a[0], tBool)]
				if v == nil {
					v = mkBool(false)
				}
				st.mem[cell("armed", t, tBool)] = v
				return []Outcome{{st, []*Term{t}}}, true
			case strings.HasSuffix(name, ".SetReadDeadline") || strings.HasSuffix(name, ".SetDeadline"):
				outs := outside(x, st, ci, nil)
				for _, o := range outs {
					t := a[1]
					bounded := t.K == KApp && t.Name == "time.sum" && t.A[0].K == KApp && t.A[0].Name == "time.Now" && fixedTime(t.A[1])
					for _, r := range x.sources(embedded(unface(a[0]))) {
						// it fails only when the connection is gone, and so will reading
						o.St.mem[cell("deadline", r, tBool)] = mkBool(bounded)
					}
				}
				return outs, true
			}
			if netRead(ci) != nil && w.bounds {
				for _, r := range x.sources(embedded(unface(a[0]))) {
					v := st.mem[cell("deadline", r, tBool)]
					ok, known := false, false
					if v != nil {
						ok, known = st.eval(v)
					}
					if c.met("read", ci.Instr); !ok || !known {
						c.viol("deadline", ci.Instr, st, "waits for a packet with no fixed time to give up")
					}
				}
				site := w.siteOf(x, st, a[0])
				if st.get("silent "+site) != "" {
					c.viol("silence", ci.Instr, st, "waits again for a packet after waiting for one in vain")
				}
				return outside(x, st, ci, func(o *Outcome, ok bool) {
					if ok {
						o.St.set("silent "+site, "")
					} else {
						o.St.set("silent "+site, "1")
					}
				}), true
			}
			if strings.HasSuffix(name, ".Close") && len(a) > 0 && ci.Builtin == "" {
				site := w.siteOf(x, st, a[0])
				if site != "" {
					if !w.bounds {
						c.met("closed", ci.Instr)
					}
					st.set(site, "")
					for a := range st.mem {
						if a.K == KApp && a.Name == "ghost:resource" && a.A[0].Name == site {
							delete(st.mem, a)
						}
					}
					st.set("silent "+site, "")
					if w.cut && hasBody(ci.Callee) { // of a reader from the catalogue
						return apart(x, st, ci, nil), true
					}
				}
				return nil, false
			}
			mod := ci.Callee != nil && hasBody(ci.Callee) && c.P.inMod(ci.Callee)
			cut := c.catCall(ci) != "" && w.cut
			n := ci.Results
			if n == nil || ci.Builtin != "" || mod && !cut {
				return nil, false
			}
			fork := outside
			if cut {
				fork = apart
			} else if n.Len() < 2 || !isErrorT(n.At(n.Len()-1).Type()) {
				return nil, false
			}
			has := false
			for i := 0; i < n.Len(); i++ {
				has = has || closable(n.At(i).Type())
			}
			if !has && !cut {
				return nil, false
			}
			return fork(x, st, ci, func(o *Outcome, ok bool) {
				for _, t := range o.Ret {
					if ok && t != nil && closable(t.T) {
						if !w.bounds {
							c.met("opened", ci.Instr)
						}
						w.opened(x, o.St, ci.Instr, t)
					}
				}
			}), true
		},
		Go: func(x *Exec, st, child *State, ci *CallInfo) {
			id := c.P.posOf(ci.Instr)
			vals := append(append([]*Term{ci.FnVal}, ci.Args...), ci.Binds...)
			for _, k := range keysOf(st, "open ") {
				shared, r := false, about(st, "resource", k)
				for _, v := range vals {
					shared = shared || r != nil && reaches(x, st, v, r)
				}
				if shared {
					if !strings.Contains(st.get(k)+";", ";"+id+";") {
						st.set(k, st.get(k)+";"+id)
					}
					child.set(k, "c")
				} else {
					child.set(k, "")
				}
			}
			for _, p := range []string{"fed ", "got ", "made ", "silent ", "released ", "sent ", "spawned "} {
				for _, k := range keysOf(child, p) {
					child.set(k, "")
				}
			}
			child.set("thread", id)
			st.set("spawned "+id, "1")
			for _, l := range w.objs {
				for _, o := range l {
					for _, v := range vals {
						if st.objs[o] && reaches(x, st, v, o) {
							w.given["spawned "+id] = append(w.given["spawned "+id], o)
							break
						}
					}
				}
			}
		},
		Leave: func(x *Exec, st *State, fr *Frame, rets []*Term) {
			if fr.Caller == nil && !w.probe {
				w.end(x, st, nil, rets, "")
			}
		},
		Send: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				ks := w.sitesOf(x, ch)
				if len(ks) == 0 {
					w.waits = append(w.waits, waiting{in: in, st: st.clone(), thread: thread(st), send: true})
				}
				for _, k := range ks {
					n := len(st.get("sent " + k))
					if n <= w.caps[k] {
						st.set("sent "+k, strings.Repeat("x", n+1))
						n++
					}
					if w.sent[k] == nil {
						w.sent[k] = map[string]int{}
					}
					if n > w.sent[k][thread(st)] {
						w.sent[k][thread(st)] = n
					}
					w.at["send "+k] = in
				}
			}
			w.feed(x, st, ch, val)
		},
		Recv: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool) {
			if block {
				w.wait(x, st, in, []*Term{ch}, false)
				w.received(x, st, ch, val, nil)
				return
			}
			var chans []*Term
			if sel, ok := in.(*ssa.Select); ok && sel.Blocking {
				chans = w.sel[in]
			}
			w.received(x, st, ch, val, chans)
		},
		Select: func(x *Exec, st *State, fr *Frame, in *ssa.Select, chans []*Term) {
			if in.Blocking {
				var rs []*Term
				for k, s := range in.States {
					if s.Dir == types.RecvOnly {
						rs = append(rs, chans[k])
					}
				}
				w.sel[in] = rs
				w.wait(x, st, in, rs, len(rs) < len(chans))
			}
		},
		Edge: func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo) { w.forget(st) },
		Keep: func(st *State) []*Term {
			var out []*Term
			for a, v := range st.mem {
				if a.K == KApp && (a.Name == "ghost:last" || a.Name == "ghost:resource") {
					out = append(out, v)
				}
			}
			return out
		},
	}
}

// closedAlways: whoever makes the channel closes it before it ends
func (w *waitAn) closedAlways(site, waiter string) bool {
	for _, e := range w.ends {
		if e.unclosed[site] {
			return false
		}
	}
	return w.at["close "+site] != nil
}

// fedBy: the goroutine never ends without something on one of the channels
func (w *waitAn) fedBy(g string, cases []waitCase) bool {
	n := 0
	for _, e := range w.ends {
		if e.thread != g {
			continue
		}
		n++
		ok := false
		for r := range e.released {
			ok = ok || w.closedAlways(r, g) // nobody waits any longer
		}
		for _, k := range cases {
			switch e.fed[k.site] {
			case "closed":
				ok = true
			case "nil":
				ok = ok || k.last != "any"
			case "other":
				ok = ok || k.last == ""
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// judgeWaits: of those who wait for something to arrive, or of those who wait for it to be taken
func (w *waitAn) judgeWaits(send bool) {
	for _, wt := range w.waits {
		if wt.send != send {
			continue
		}
		ok := false
		for _, k := range wt.cases {
			ok = ok || w.closedAlways(k.site, wt.thread) && w.maker[k.site] != wt.thread
		}
		for _, g := range wt.after {
			ok = ok || w.fedBy(strings.TrimPrefix(g, "spawned "), wt.cases)
		}
		w.c.met("answered", wt.in)
		if !ok {
			w.c.viol("unbounded", wt.in, wt.st, "may wait for ever: no time limit, and nothing else is shown to end the wait")
		}
	}
	if !send {
		return
	}
	for k, by := range w.sent {
		n := 0
		for _, m := range by {
			n += m
		}
		w.c.met("buffered", w.at["send "+k])
		if n > w.caps[k] {
			w.c.viol("unbounded", w.at["send "+k], nil, "may wait for ever for a receiver: more can be sent than the channel holds")
		}
	}
}

func (w *waitAn) leaks(site, thread string, seen map[string]bool) bool {
	if seen[thread] {
		return false
	}
	seen[thread] = true
	for _, e := range w.ends {
		f, open := e.open[site]
		if strings.TrimSuffix(e.thread, "!") != thread || !open {
			continue
		}
		all := true
		for _, g := range strings.Split(f, ";")[1:] {
			all = all && w.leaks(site, g, seen)
		}
		if all {
			return true
		}
	}
	return false
}

func (w *waitAn) judgeEnds() {
	for _, e := range w.ends {
		if e.thread == relName(w.c.P.mainFunc()) {
			continue // the program ends with it
		}
		for k, f := range e.open {
			l := strings.Split(f, ";")
			if l[0] != "o" {
				continue
			}
			all := true
			for _, g := range l[1:] {
				all = all && w.leaks(k, g, map[string]bool{})
			}
			if all {
				how := "when what uses it is over"
				if strings.HasSuffix(e.thread, "!") {
					how = "before the next one is opened"
				}
				w.c.viol("leak", w.at[k], e.st, "what is opened here is not closed on some path %s", how)
			}
		}
	}
}

func ruleWaits(c *Ctx, u string, waits bool) {
	w := &waitAn{c: c, u: u, sent: map[string]map[string]int{}, caps: map[string]int{}, at: map[string]ssa.Instruction{}, sel: map[ssa.Instruction][]*Term{}, maker: map[string]string{}, bounds: waits, closed: c.P.closedChans(), objs: map[string][]*Term{}, given: map[string][]*Term{}}
	fn := c.P.byRel(u)
	w.cut = pkgOfFunc(fn) != c.P.Named("catalogue", "Cat").Obj().Pkg()
	st := newState()
	st.set("thread", u)
	if fn == c.P.mainFunc() {
		c.runWith(fn, nil, st, &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee != nil && ci.Callee == c.P.handler() {
				return apart(x, st, ci, nil), true
			}
			return nil, false
		}}, w.hooks())
	} else {
		c.runWith(fn, nil, st, c.cutParse(), c.wired(nil), w.hooks())
	}
	w.judgeWaits(!waits)
	if !waits {
		w.judgeEnds()
	}
}

func init() {
	register(&Rule{
		ID: "C23",
		Explain: "Abstract interpretation of all entry points with the goroutines they start: every receive from the network is preceded by a read deadline a fixed time ahead; every other wait for something to arrive has a timer among its alternatives, " +
			"or waits for a goroutine started before it that cannot end without delivering; nothing is waited for again after it was waited for in vain.",
		Units: func(P *Program) []string { return names(P.daemonRoots()) },
		Run:   func(c *Ctx, u string) { ruleWaits(c, u, true) }, Min: map[string]int{"read": 2, "timed": 2},
	})
	register(&Rule{
		ID: "C24",
		Explain: "Typestate analysis of what is opened (any call outside the module that yields something with a Close method, and the chunk readers of the catalogue) over all entry points and the goroutines they start: closed on every path to the end of the operation or goroutine that owns it, " +
			"or handed to the caller in something whose Close closes it; goroutines that deliver to a reader have room for all they send or are released by a channel its owner closes on every path.",
		Units: func(P *Program) []string {
			return union(names(append(P.daemonRoots(), P.mainFunc())), P.catOperations())
		},
		Run: func(c *Ctx, u string) { ruleWaits(c, u, false) }, Min: map[string]int{"opened": 6, "closed": 8},
	})
}

// closedChans: the types of the channels the program closes
func (P *Program) closedChans() map[string]bool {
	out := map[string]bool{}
	for _, fn := range P.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						out[c.Common().Args[0].Type().String()] = true
					}
				}
			}
		}
	}
	return out
}
