package main

// The abstract interpreter: forward analysis of SSA functions over State, inlining calls inside the
// module, iterating loops to a fixpoint.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	Fn     *ssa.Function
	Args   []*Term
	Binds  []*Term
	Caller *Frame
	Site   ssa.Instruction // call site in the caller
	Go     bool            // root of a goroutine
	depth  int
	cur    *BState // state being executed
	key    int
	pass   int
	unused bool // results not used by the caller
}

// Root of the frame chain
func (f *Frame) Root() *Frame {
	for f.Caller != nil {
		f = f.Caller
	}
	return f
}

type CallInfo struct {
	Instr   ssa.CallInstruction
	Pos     token.Pos
	Frame   *Frame
	Name    string
	Callee  *ssa.Function
	Binds   []*Term
	Args    []*Term
	Method  *types.Func // interface method, if dynamic
	Builtin string
	FnVal   *Term
	Results *types.Tuple
	Defer   bool
	IsGo    bool
}

type Outcome struct {
	St  *State
	Ret []*Term
}

type Hooks struct {
	Call      func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool)
	After     func(x *Exec, st *State, ci *CallInfo, rets []*Term)
	Keep      func(st *State) []*Term // terms the client still needs
	Enter     func(x *Exec, st *State, fr *Frame)
	Leave     func(x *Exec, st *State, fr *Frame, rets []*Term)
	Load      func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term)
	Store     func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term)
	MapDelete func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m, key *Term)
	Range     func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m *Term)
	Send      func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool)
	Recv      func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, val *Term, block bool)
	Select    func(x *Exec, st *State, fr *Frame, in *ssa.Select, chans []*Term)
	Go        func(x *Exec, st, child *State, ci *CallInfo)
	Panic     func(x *Exec, st *State, fr *Frame, in ssa.Instruction)
	Oblig     func(x *Exec, st *State, fr *Frame, in ssa.Instruction, kind string, ok bool, msg string)
	Attr      func(x *Exec, st *State, t *Term, name string) bool
	LoopIter  func(x *Exec, fr *Frame, header *ssa.BasicBlock, head, tail *BState)
	Edge      func(x *Exec, st *State, fr *Frame, from, to *ssa.BasicBlock, fi *fnInfo)
	Merge     func(x *Exec, a, b, out *BState)
	Alloc     func(x *Exec, st *State, fr *Frame, in ssa.Instruction, obj *Term)
	Read      func(x *Exec, st *State, addr *Term, w int64, order string, t types.Type) *Term // bytes whose value is known
	Fork      func(x *Exec, st *State, ch, val *Term) []*State                                // other ways to see what was received
}

type Exec struct {
	P         *Program
	H         *Hooks
	infos     map[*ssa.Function]*fnInfo
	Undecided []string
	und       map[string]bool
	nCalls    int
	nStates   int
	nBlocks   int
	nLoops    int
	nSpawn    int
	fns       map[*ssa.Function]bool
	quiet     int
	MaxJoin   int
	noSpawn   bool
	spawned   map[string]int
	sent      map[ssa.Instruction]int8
	deadline  func() bool
	unviewed  map[*Term]bool // array variables no slice or pointer ever points into
	joined    map[*Term][]*Term
	guards    []*guardSet // conditions met in the loops being analysed
}

// guardSet: the linear conditions branched on inside a loop; bounds for its variables
type guardSet struct {
	fs   []*Lin
	seen map[string]bool
}

func (x *Exec) noteGuard(c *Term) {
	for c.K == KUn && c.Op == token.NOT {
		c = c.A[0]
	}
	if len(x.guards) == 0 || c.K != KBin || !isInt(c.A[0].T) {
		return
	}
	d := linOf(c.A[1]).sub(linOf(c.A[0]))
	var ls []*Lin
	switch c.Op {
	case token.LSS, token.GEQ:
		ls = []*Lin{d.addK(-1), d, d.scale(bigNeg)}
	case token.LEQ, token.GTR:
		ls = []*Lin{d, d.scale(bigNeg), d.scale(bigNeg).addK(-1)}
	case token.EQL, token.NEQ:
		ls = []*Lin{d, d.scale(bigNeg)}
	}
	for _, g := range x.guards {
		for _, l := range ls {
			if k := l.key(); !g.seen[k] && len(g.fs) < 40 {
				g.seen[k] = true
				g.fs = append(g.fs, l)
			}
		}
	}
}

func newExec(p *Program, h *Hooks) *Exec {
	return &Exec{P: p, H: h, infos: map[*ssa.Function]*fnInfo{}, und: map[string]bool{}, fns: map[*ssa.Function]bool{}, MaxJoin: 10, spawned: map[string]int{}, unviewed: map[*Term]bool{}, joined: map[*Term][]*Term{}}
}

func (x *Exec) undecided(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if !x.und[s] {
		x.und[s] = true
		x.Undecided = append(x.Undecided, s)
	}
}

// function information -------------------------------------------------------

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	index map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop // innermost loop of a block
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{index: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.index[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				if fi.index[h] <= fi.index[b] {
					x.undecided("%s: irreducible control flow", fn)
				}
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
			}
			var add func(b *ssa.BasicBlock)
			add = func(b *ssa.BasicBlock) {
				if l.blocks[b] || !seen[b] {
					return
				}
				l.blocks[b] = true
				for _, p := range b.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	var ls []*Loop
	for _, l := range byHeader {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // from large to small
		l.parent = fi.loops[l.header]
		for b := range l.blocks {
			fi.loops[b] = l
		}
	}
	// liveness
	use := func(b *ssa.BasicBlock) (gen, kill map[ssa.Value]bool) {
		gen, kill = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) && !kill[*op] {
						gen[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if _, ok := in.(*ssa.Phi); !ok {
					kill[v] = true
				}
			}
		}
		return
	}
	gens, kills := map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		gens[b], kills[b] = use(b)
		fi.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			lv := fi.live[b]
			n := len(lv)
			for v := range gens[b] {
				lv[v] = true
			}
			for _, s := range b.Succs {
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[p] = true
					for k, pred := range s.Preds {
						if pred == b && isLocal(p.Edges[k]) && !kills[b][p.Edges[k]] {
							lv[p.Edges[k]] = true
						}
					}
				}
				for v := range fi.live[s] {
					if !phis[v] && !kills[b][v] {
						lv[v] = true
					}
				}
			}
			if len(lv) != n {
				ch = true
			}
		}
	}
	x.infos[fn] = fi
	return fi
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
		return false
	}
	return true
}

// running functions -------------------------------------------------------------

type retState struct {
	bs   *BState
	rets []*Term
}

type regRes struct {
	exits map[*ssa.BasicBlock][]*BState
	back  []*BState
	rets  []retState
}

func (x *Exec) newFrame(fn *ssa.Function, args, binds []*Term, caller *Frame, site ssa.Instruction) *Frame {
	fr := &Frame{Fn: fn, Args: args, Binds: binds, Caller: caller, Site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	fr.key = U.newInst()
	return fr
}

// Run analyses a function from the given state.
func (x *Exec) Run(fn *ssa.Function, args, binds []*Term, st *State, caller *Frame, site ssa.Instruction) []Outcome {
	if x.deadline != nil && x.deadline() {
		x.undecided("out of time in %s", fn)
		return nil
	}
	n := 0
	for f := caller; f != nil; f = f.Caller {
		if f.Fn == fn {
			n++
		}
	}
	if n > 0 || caller != nil && caller.depth > 60 {
		x.undecided("recursive call of %s", fn)
		return []Outcome{{st, x.freshResults(st, fn.Signature.Results(), "rec:"+fn.String(), nil)}}
	}
	x.fns[fn] = true
	x.nCalls++
	fi := x.info(fn)
	fr := x.newFrame(fn, args, binds, caller, site)
	if x.H.Enter != nil {
		x.H.Enter(x, st, fr)
	}
	if v, ok := site.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil && len(*refs) == 0 {
			fr.unused = true
		}
	}
	res := x.region(fr, fi, nil, fn.Blocks[0], []*BState{{st: st, env: map[ssa.Value]*Term{}}})
	rets := res.rets
	if fr.unused {
		for i := range rets {
			rets[i].rets = make([]*Term, len(rets[i].rets))
		}
	}
	roots := frameRoots(caller)
	for _, r := range rets {
		keep := roots
		if x.H.Keep != nil {
			keep = append(append([]*Term(nil), keep...), x.H.Keep(r.bs.st)...)
		}
		r.bs.st.gc(r.rets, keep)
	}
	rets = x.mergeRets(rets, fn.Name())
	var out []Outcome
	for _, r := range rets {
		if fr.unused {
			for i := range r.rets {
				r.rets[i] = mkSym("unused", fn.Signature.Results().At(i).Type())
			}
		}
		if x.H.Leave != nil {
			x.H.Leave(x, r.bs.st, fr, r.rets)
		}
		out = append(out, Outcome{r.bs.st, r.rets})
	}
	return out
}

func (x *Exec) mergeRets(rs []retState, name string) []retState {
	if len(rs) <= x.MaxJoin/2 {
		return rs
	}
	for level := 0; level < 2; level++ {
		groups := map[string][]retState{}
		var order []string
		for _, r := range rs {
			r.bs.env = map[ssa.Value]*Term{}
			k := r.bs.st.clKey()
			if level == 0 {
				k = r.bs.key(r.rets, level == 0, 0)
			} else {
				for _, t := range r.rets {
					k += desc(r.bs.st, t, false) + ","
				}
			}
			if _, ok := groups[k]; !ok {
				order = append(order, k)
			}
			groups[k] = append(groups[k], r)
		}
		var out []retState
		for _, k := range order {
			g := groups[k]
			acc := g[0]
			j := x.newJoiner(name+"!", false, 0)
			for i := 1; i < len(g); i++ {
				bs, rets := j.combine(acc.bs, g[i].bs, acc.rets, g[i].rets)
				if x.H.Merge != nil {
					x.H.Merge(x, acc.bs, g[i].bs, bs)
				}
				acc = retState{bs, rets}
			}
			out = append(out, acc)
		}
		rs = out
		if len(rs) <= 24 {
			break
		}
	}
	return rs
}

func (x *Exec) reduce(bs []*BState, name string) []*BState {
	if len(bs) <= x.MaxJoin {
		return bs
	}
	bs = x.mergeBy(bs, name, func(b *BState) string { return b.key(nil, true, 0) })
	if len(bs) > 40 {
		bs = x.mergeBy(bs, name, (*BState).coarseKey)
	}
	return bs
}

func (x *Exec) mergeBy(bs []*BState, name string, key func(*BState) string) []*BState {
	groups := map[string][]*BState{}
	var order []string
	for _, b := range bs {
		k := key(b)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], b)
	}
	var out []*BState
	for _, k := range order {
		g := groups[k]
		acc := g[0]
		j := x.newJoiner(name, false, 0)
		for i := 1; i < len(g); i++ {
			m, _ := j.combine(acc, g[i], nil, nil)
			if x.H.Merge != nil {
				x.H.Merge(x, acc, g[i], m)
			}
			acc = m
		}
		out = append(out, acc)
	}
	return out
}

func (b *BState) coarseKey() string {
	var s strings.Builder
	s.WriteString(b.st.clKey())
	for _, d := range b.defers {
		fmt.Fprintf(&s, "d%p,", d.instr)
	}
	for _, v := range liveSorted(b.env) {
		if isErrorT(v.Type()) {
			s.WriteString(v.Name() + desc(b.st, b.env[v], false))
		}
	}
	return s.String()
}

func (x *Exec) region(fr *Frame, fi *fnInfo, loop *Loop, entry *ssa.BasicBlock, states []*BState) *regRes {
	res := &regRes{exits: map[*ssa.BasicBlock][]*BState{}}
	if loop != nil {
		defer func(p int) { fr.pass = p }(fr.pass)
		fr.pass = U.freshInst()
	}
	pending := map[*ssa.BasicBlock][]*BState{entry: states}
	dispatch := func(t *ssa.BasicBlock, bs *BState) {
		switch {
		case loop != nil && t == loop.header:
			res.back = append(res.back, bs)
		case loop != nil && !loop.blocks[t]:
			res.exits[t] = append(res.exits[t], bs)
		default:
			pending[t] = append(pending[t], bs)
		}
	}
	for _, b := range fi.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		// the outermost loop strictly inside the region that contains b
		var inner *Loop
		for l := fi.loops[b]; l != nil && l != loop; l = l.parent {
			inner = l
		}
		if inner != nil && inner.header != b {
			continue
		}
		in := pending[b]
		delete(pending, b)
		if len(in) == 0 {
			continue
		}
		if inner != nil {
			r := x.loop(fr, fi, inner, in)
			res.rets = append(res.rets, r.rets...)
			for _, t := range fi.rpo {
				for _, bs := range r.exits[t] {
					dispatch(t, bs)
				}
			}
			continue
		}
		in = x.reduce(in, fmt.Sprintf("%s.%d", fr.Fn.Name(), b.Index))
		x.nBlocks++
		x.nStates += len(in)
		for _, e := range x.block(fr, fi, b, in, res) {
			dispatch(e.to, e.bs)
		}
	}
	return res
}

type edge struct {
	to *ssa.BasicBlock
	bs *BState
}

// loop iterates to a fixpoint
var traceLoops = os.Getenv("TRACE") != ""

func (x *Exec) loop(fr *Frame, fi *fnInfo, l *Loop, states []*BState) *regRes {
	x.nLoops++
	inst := U.freshInst()
	headGen := inst
	name := fmt.Sprintf("%s%d.%d", fr.Fn.Name(), l.header.Index, inst)
	type head struct {
		bs      *BState
		j       *joiner
		dirty   bool
		n       int
		exits   map[*ssa.BasicBlock][]*BState
		rets    []retState
		entries []*BState
	}
	table := map[string]*head{}
	guards := &guardSet{seen: map[string]bool{}}
	x.guards = append(x.guards, guards)
	defer func() { x.guards = x.guards[:len(x.guards)-1] }()
	var order []string
	coarse := false
	keyOf := func(b *BState) string {
		if coarse {
			return b.coarseKey()
		}
		return b.key(nil, false, headGen)
	}
	var add func(b *BState, entry bool)
	add = func(b *BState, entry bool) {
		k := keyOf(b)
		h, ok := table[k]
		if !ok {
			h = &head{j: x.newJoiner(name, true, headGen)}
			h.j.guards = guards
			h.bs, _ = h.j.combine(b, nil, nil, nil)
			if entry {
				h.bs = b
			} else if x.H.Merge != nil {
				x.H.Merge(x, b, b, h.bs)
			}
			h.dirty = true
			table[k] = h
			order = append(order, k)
			return
		}
		if h.n > 3 {
			h.j.narrow = true
		}
		m, _ := h.j.combine(h.bs, b, nil, nil)
		if x.H.Merge != nil {
			x.H.Merge(x, h.bs, b, m)
		}
		if !sameState(m, h.bs) {
			if traceLoops && h.n > 6 {
				fmt.Fprintln(os.Stderr, diffState(h.bs, m))
			}
			h.bs = m
			h.dirty = true
		}
	}
	for _, b := range states {
		add(b, true)
	}
	for rounds := 0; ; rounds++ {
		if rounds > 200 {
			x.undecided("%s: loop at block %d does not converge", fr.Fn, l.header.Index)
			break
		}
		if len(table) > 40 && !coarse {
			coarse = true
			old := order
			heads := table
			table, order = map[string]*head{}, nil
			for _, k := range old {
				add(heads[k].bs, false)
			}
		}
		var h *head
		for _, k := range order {
			if table[k].dirty {
				h = table[k]
				break
			}
		}
		if h == nil {
			break
		}
		h.dirty = false
		h.n++
		if traceLoops {
			ki := 0
			for n, k := range order {
				if table[k] == h {
					ki = n
				}
			}
			if len(order) > 3 && rounds < 25 {
				fmt.Fprintln(os.Stderr, "KEY", order[ki])
			}
			fmt.Fprintf(os.Stderr, "%*sloop %s b%d round %d key %d/%d n=%d facts %d fm %d\n", fr.depth*2, "", fr.Fn.Name(), l.header.Index, rounds, ki, len(order), h.n, len(h.bs.st.facts), fmCalls)
		}
		headState := h.bs.clone()
		r := x.region(fr, fi, l, l.header, []*BState{h.bs.clone()})
		h.exits, h.rets = r.exits, r.rets
		for _, b := range x.reduce(r.back, name) {
			if x.H.LoopIter != nil {
				x.H.LoopIter(x, fr, l.header, headState, b)
			}
			add(b, false)
		}
	}
	res := &regRes{exits: map[*ssa.BasicBlock][]*BState{}}
	for _, k := range order {
		h := table[k]
		for t, bs := range h.exits {
			res.exits[t] = append(res.exits[t], bs...)
		}
		res.rets = append(res.rets, h.rets...)
	}
	return res
}

func (x *Exec) pushEdge(fr *Frame, fi *fnInfo, bs *BState, from, to *ssa.BasicBlock) edge {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	type pv struct {
		p *ssa.Phi
		t *Term
	}
	var ps []pv
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{p, x.val(fr, bs, p.Edges[idx])})
	}
	for _, p := range ps {
		bs.env[p.p] = p.t
	}
	lv := fi.live[to]
	for v := range bs.env {
		if !lv[v] {
			delete(bs.env, v)
		}
	}
	if x.H.Edge != nil {
		x.H.Edge(x, bs.st, fr, from, to, fi)
	}
	return edge{to, bs}
}

// block runs all states through a basic block
func (x *Exec) block(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, in []*BState, res *regRes) []edge {
	states := in
	var out []edge
	for _, ins := range b.Instrs {
		if len(states) == 0 {
			return nil
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, bs := range states {
				out = append(out, x.pushEdge(fr, fi, bs, b, b.Succs[0]))
			}
			return out
		case *ssa.If:
			for _, bs := range states {
				c := x.val(fr, bs, i.Cond)
				x.noteGuard(c)
				if v, known := bs.st.eval(c); known {
					s := 1
					if v {
						s = 0
					}
					bs.st.assume(c, v)
					out = append(out, x.pushEdge(fr, fi, bs, b, b.Succs[s]))
					continue
				}
				t, f := bs, bs.clone()
				if t.st.assume(c, true) {
					t.st.note(i.Cond.Pos(), "taken: "+c.String())
					out = append(out, x.pushEdge(fr, fi, t, b, b.Succs[0]))
				}
				if f.st.assume(c, false) {
					f.st.note(i.Cond.Pos(), "not taken: "+c.String())
					out = append(out, x.pushEdge(fr, fi, f, b, b.Succs[1]))
				}
			}
			return out
		case *ssa.Return:
			for _, bs := range states {
				var rs []*Term
				for _, r := range i.Results {
					rs = append(rs, x.val(fr, bs, r))
				}
				bs.env = map[ssa.Value]*Term{}
				res.rets = append(res.rets, retState{bs, rs})
			}
			return nil
		case *ssa.Panic:
			for _, bs := range states {
				if x.H.Panic != nil {
					x.H.Panic(x, bs.st, fr, i)
				}
			}
			return nil
		}
		var next []*BState
		if _, ok := ins.(*ssa.Go); ok && len(states) > 1 {
			states = x.mergeBy(states, fmt.Sprintf("%s.%dg", fr.Fn.Name(), b.Index), (*BState).coarseKey)
		}
		for _, bs := range states {
			fr.cur = bs
			leave := U.enter(instCtx{fr.key, ins, fr.pass})
			next = append(next, x.step(fr, bs, ins)...)
			leave()
		}
		if len(next) > len(states) && len(next) > x.MaxJoin {
			// prune values not used below before merging
			next = x.reduce(next, fmt.Sprintf("%s.%d'", fr.Fn.Name(), b.Index))
		}
		states = next
	}
	return out
}

func (x *Exec) val(fr *Frame, bs *BState, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		c := v.Value
		if isInt(v.Type()) {
			c = constant.ToInt(c)
		}
		return mkConst(c, v.Type())
	case *ssa.Global:
		return U.mk(Term{K: KGlobal, Name: v.String(), T: v.Type()})
	case *ssa.Function:
		return U.mk(Term{K: KFunc, Fn: v, T: v.Type()})
	case *ssa.Parameter:
		for i, p := range fr.Fn.Params {
			if p == v {
				return fr.Args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.Fn.FreeVars {
			if p == v {
				return fr.Binds[i]
			}
		}
	}
	if t, ok := bs.env[v]; ok && t != nil {
		return t
	}
	t := mkSym("?"+v.Name(), v.Type())
	bs.env[v] = t
	return t
}

// firstOf: address of the first element of a slice
func firstOf(s *Term) *Term {
	if s.K == KSlice {
		return mkAddrI(s.A[0], s.A[1])
	}
	return mkAddrI(s, mkInt(0, tInt))
}

func one(bs *BState) []*BState { return []*BState{bs} }

func (x *Exec) oblige(st *State, fr *Frame, in ssa.Instruction, kind string, ok bool, msg string) {
	if x.H.Oblig != nil {
		x.H.Oblig(x, st, fr, in, kind, ok, msg)
	}
}

// deref checks a pointer (or map, func, interface) about to be used. false: the path ends.
func (x *Exec) deref(st *State, fr *Frame, in ssa.Instruction, p *Term) bool {
	n := st.nilness(p)
	bad := n == 1 || n == 0 && st.attr(p, "maybenil")
	x.oblige(st, fr, in, "nil", !bad, p.String())
	if n == 1 {
		return false
	}
	st.setNil(p, 2)
	return true
}

func normIdx(i *Term) *Term { return linTerm(linOf(i)) }

func (x *Exec) boundsCheck(st *State, fr *Frame, in ssa.Instruction, idx, n *Term) {
	ok := st.leq(mkInt(0, tInt), idx) && st.lss(idx, n)
	x.oblige(st, fr, in, "bounds", ok, idx.String()+" < "+n.String())
	if !ok {
		st.addFact(linOf(idx))
		st.addFact(linOf(n).sub(linOf(idx)).addK(-1))
	}
}

func (x *Exec) loadAt(st *State, fr *Frame, in ssa.Instruction, addr *Term) *Term {
	r := rootOf(addr)
	var v *Term
	if st.attr(r, "volatile") || st.attr(addr, "volatile") {
		v = mkSym("volatile", ptrElem(addr.T))
	} else {
		v = st.load(addr)
		if addr.K == KGlobal && addr.Name == "os.Args" {
			st.addFact(linOf(mkLen(v)).addK(-1))
		}
	}
	if x.H.Read != nil && addr.K == KAddrI && isByte(ptrElem(addr.T)) {
		if r := x.H.Read(x, st, addr, 1, "be", ptrElem(addr.T)); r != nil {
			v = r
		}
	}
	if x.H.Load != nil {
		x.H.Load(x, st, fr, in, addr, v)
	}
	return v
}

func (x *Exec) storeAt(st *State, fr *Frame, in ssa.Instruction, addr, v *Term) {
	if x.H.Store != nil {
		x.H.Store(x, st, fr, in, addr, v)
	}
	st.store(addr, v)
}

// neverViewed: the variable is only ever loaded and stored as a whole, here and in closures
func neverViewed(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 3 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for k, b := range r.Bindings {
				if b == v && !neverViewed(f.FreeVars[k], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) step(fr *Frame, bs *BState, ins ssa.Instruction) []*BState {
	st := bs.st
	V := func(v ssa.Value) *Term { return x.val(fr, bs, v) }
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := U.mk(Term{K: KAlloc, Name: i.Comment, T: i.Type(), Inst: U.newInst(), Pos: i.Pos()})
		st.objs[t] = true
		bs.env[i] = t
		if _, ok := isArray(ptrElem(i.Type())); ok && neverViewed(i, 0) {
			x.unviewed[t] = true
		}
		if x.H.Alloc != nil {
			x.H.Alloc(x, st, fr, i, t)
		}
	case *ssa.Store:
		a := V(i.Addr)
		if !x.deref(st, fr, ins, a) {
			return nil
		}
		x.storeAt(st, fr, ins, a, V(i.Val))
	case *ssa.UnOp:
		v := V(i.X)
		switch i.Op {
		case token.MUL:
			if !x.deref(st, fr, ins, v) {
				return nil
			}
			bs.env[i] = x.loadAt(st, fr, ins, v)
		case token.ARROW:
			return x.recv(fr, bs, i, v)
		case token.NOT:
			bs.env[i] = mkNot(v)
		case token.SUB:
			bs.env[i] = x.arith(st, token.SUB, zeroTerm(i.Type()), v, i.Type())
		default:
			bs.env[i] = U.mk(Term{K: KUn, Op: i.Op, A: []*Term{v}, T: i.Type()})
		}
	case *ssa.BinOp:
		bs.env[i] = x.binop(st, fr, i, V(i.X), V(i.Y))
	case *ssa.FieldAddr:
		p := V(i.X)
		if !x.deref(st, fr, ins, p) {
			return nil
		}
		bs.env[i] = mkAddrF(p, i.Field)
	case *ssa.Field:
		bs.env[i] = mkField(V(i.X), i.Field)
	case *ssa.IndexAddr:
		b, n := V(i.X), V(i.Index)
		if ptrElem(b.T) != nil {
			if !x.deref(st, fr, ins, b) {
				return nil
			}
		}
		x.boundsCheck(st, fr, ins, n, mkLen(b))
		bs.env[i] = mkAddrI(b, normIdx(n))
	case *ssa.Index:
		b, n := V(i.X), V(i.Index)
		x.boundsCheck(st, fr, ins, n, mkLen(b))
		bs.env[i] = mkIndexV(b, normIdx(n))
	case *ssa.Lookup:
		return x.lookup(fr, bs, i, V(i.X), V(i.Index))
	case *ssa.MapUpdate:
		m, k, v := V(i.Map), V(i.Key), V(i.Value)
		if !x.deref(st, fr, ins, m) {
			return nil
		}
		if isNilable(v.T) && !isIface(v.T) {
			n := st.nilness(v)
			x.oblige(st, fr, ins, "mapnil", n == 2 || n == 0 && !st.attr(v, "maybenil"), v.String())
		}
		if f := x.P.tagField(m, k); f >= 0 {
			if c := mkField(k, f); c.K == KConst {
				st.setAttr(v, "tag="+c.String())
			}
		}
		x.storeAt(st, fr, ins, mkAddrM(m, k), v)
		st.store(mkHasCell(m, k), mkBool(true))
	case *ssa.Range:
		v := V(i.X)
		if x.H.Range != nil {
			x.H.Range(x, st, fr, ins, v)
		}
		bs.env[i] = mkApp("range", i.Type(), v)
	case *ssa.Next:
		return x.next(fr, bs, i, V(i.Iter))
	case *ssa.ChangeType:
		v := V(i.X)
		switch i.Type().Underlying().(type) {
		case *types.Struct, *types.Pointer:
			if v.K == KStruct {
				v = mkStruct(i.Type(), v.A)
			} else if v.K == KNil {
				v = mkNil(i.Type())
			} else {
				v = U.mk(Term{K: KConv, A: []*Term{v}, T: i.Type()})
			}
		}
		bs.env[i] = v
	case *ssa.Convert:
		v := V(i.X)
		bs.env[i] = x.convert(st, v, i.Type())
		if x.H.Load != nil && isSliceT(v.T) && isString(i.Type()) {
			x.H.Load(x, st, fr, i, firstOf(v), bs.env[i])
		}
	case *ssa.MultiConvert:
		bs.env[i] = x.convert(st, V(i.X), i.Type())
	case *ssa.ChangeInterface:
		bs.env[i] = V(i.X)
	case *ssa.MakeInterface:
		bs.env[i] = U.mk(Term{K: KIface, A: []*Term{V(i.X)}, T: i.Type(), DT: i.X.Type()})
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range i.Bindings {
			as = append(as, V(b))
		}
		bs.env[i] = U.mk(Term{K: KClosure, Fn: i.Fn.(*ssa.Function), A: as, T: i.Type()})
	case *ssa.MakeMap:
		t := U.mk(Term{K: KMake, T: i.Type(), Inst: U.newInst(), Pos: i.Pos()})
		st.objs[t] = true
		bs.env[i] = t
	case *ssa.MakeChan:
		t := U.mk(Term{K: KMake, T: i.Type(), A: []*Term{V(i.Size)}, Inst: U.newInst(), Pos: i.Pos()})
		st.objs[t] = true
		bs.env[i] = t
		if x.H.Alloc != nil {
			x.H.Alloc(x, st, fr, i, t)
		}
	case *ssa.MakeSlice:
		n, c := V(i.Len), V(i.Cap)
		ok := st.leq(mkInt(0, tInt), n) && st.leq(n, c)
		x.oblige(st, fr, ins, "makelen", ok, n.String())
		if !ok {
			st.addFact(linOf(n))
			st.addFact(linOf(c).sub(linOf(n)))
		}
		if _, k := n.isConstInt(); !k {
			st.addFact(linOf(n).scale(bigNeg).addK(1 << 50)) // there is no more memory than that
		}
		t := U.mk(Term{K: KMake, T: i.Type(), A: []*Term{normIdx(n), normIdx(c)}, Inst: U.newInst(), Pos: i.Pos()})
		st.objs[t] = true
		bs.env[i] = t
		if x.H.Alloc != nil {
			x.H.Alloc(x, st, fr, i, t)
		}
	case *ssa.Slice:
		return x.slice(fr, bs, i)
	case *ssa.SliceToArrayPointer:
		b := V(i.X)
		n := ptrElem(i.Type()).Underlying().(*types.Array).Len()
		ok := st.leq(mkInt(n, tInt), mkLen(b))
		x.oblige(st, fr, ins, "bounds", ok, "slice to array conversion")
		bs.env[i] = mkApp("slice2arr", i.Type(), b)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, bs, i, V(i.X))
	case *ssa.Extract:
		t := V(i.Tuple)
		if t.K == KTuple && i.Index < len(t.A) {
			bs.env[i] = t.A[i.Index]
		} else {
			bs.env[i] = mkApp(fmt.Sprintf("extract%d", i.Index), i.Type(), t)
		}
	case *ssa.Send:
		ch := V(i.Chan)
		if x.H.Send != nil {
			x.H.Send(x, st, fr, ins, ch, V(i.X), true)
		}
		x.noteSend(st, ins, V(i.X))
		st.publish(V(i.X))
	case *ssa.Select:
		return x.selectStmt(fr, bs, i)
	case *ssa.Call:
		return x.doCall(fr, bs, i, i)
	case *ssa.Go:
		ci := x.callInfo(fr, bs, i)
		ci.IsGo = true
		x.spawn(st, ci)
	case *ssa.Defer:
		ci := x.callInfo(fr, bs, i)
		ci.Defer = true
		for _, d := range bs.defers {
			if d.instr == i && sameTerms(d.ci.Args, ci.Args) && d.ci.FnVal == ci.FnVal {
				return one(bs)
			}
		}
		bs.defers = append(bs.defers, deferRec{i, ci})
	case *ssa.RunDefers:
		return x.runDefers(fr, bs)
	default:
		if v, ok := ins.(ssa.Value); ok {
			bs.env[v] = mkSym("unknown", v.Type())
		}
		x.undecided("%s: instruction %T not analysed", fr.Fn, ins)
	}
	return one(bs)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *Exec) runDefers(fr *Frame, bs *BState) []*BState {
	work := []*BState{bs}
	var done []*BState
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if len(b.defers) == 0 {
			done = append(done, b)
			continue
		}
		d := b.defers[len(b.defers)-1]
		b.defers = b.defers[:len(b.defers)-1]
		outs := x.call(b.st, d.ci)
		for k, o := range outs {
			nb := b
			if k < len(outs)-1 {
				nb = &BState{st: o.St, env: cp(b.env), defers: append([]deferRec(nil), b.defers...)}
			}
			nb.st = o.St
			work = append(work, nb)
		}
	}
	return done
}

func mkHasCell(m, k *Term) *Term {
	return U.mk(Term{K: KAddrM, A: []*Term{m, k}, F: 1, T: types.NewPointer(types.Typ[types.Bool])})
}

func (x *Exec) lookup(fr *Frame, bs *BState, i *ssa.Lookup, m, k *Term) []*BState {
	st := bs.st
	if isString(m.T) {
		x.boundsCheck(st, fr, i, k, mkLen(m))
		bs.env[i] = mkIndexV(m, normIdx(k))
		return one(bs)
	}
	vt := elemType(m.T)
	res := func(v *Term, ok bool) *Term {
		if i.CommaOk {
			return mkTuple(i.Type(), []*Term{v, mkBool(ok)})
		}
		return v
	}
	if st.nilness(m) == 1 {
		bs.env[i] = res(zeroTerm(vt), false)
		return one(bs)
	}
	cell := mkAddrM(m, k)
	has := st.load(mkHasCell(m, k))
	v, known := st.eval(has)
	var out []*BState
	if !known || v {
		a := bs
		if !known {
			a = bs.clone()
			a.st.mem[mkHasCell(m, k)] = mkBool(true)
			a.st.assume(has, true)
			a.st.note(i.Pos(), "key present: "+k.String())
		}
		val := x.loadAt(a.st, fr, i, cell)
		if isNilable(val.T) && a.st.nilness(val) == 0 {
			a.st.setNil(val, 2)
		}
		a.env[i] = res(val, true)
		out = append(out, a)
	}
	if !known || !v {
		b := bs
		if x.H.Load != nil && !known {
			// the read of the map itself is reported once
		} else if x.H.Load != nil {
			x.H.Load(x, st, fr, i, cell, zeroTerm(vt))
		}
		if !known {
			b.st.mem[mkHasCell(m, k)] = mkBool(false)
			b.st.assume(has, false)
			b.st.note(i.Pos(), "key absent: "+k.String())
		}
		b.env[i] = res(zeroTerm(vt), false)
		out = append(out, b)
	}
	return out
}

func (x *Exec) next(fr *Frame, bs *BState, i *ssa.Next, it *Term) []*BState {
	st := bs.st
	tup := i.Type().(*types.Tuple)
	m := it.A[0]
	a := bs.clone()
	var k, v *Term
	if i.IsString {
		k = mkSym("pos", tInt)
		a.st.addFact(linOf(k))
		a.st.addFact(linOf(mkLen(m)).sub(linOf(k)).addK(-1))
		v = mkSym("rune", types.Typ[types.Rune])
	} else {
		mt := m.T.Underlying().(*types.Map)
		k = mkSym("key", mt.Key())
		cell := mkAddrM(m, k)
		a.st.mem[mkHasCell(m, k)] = mkBool(true)
		v = mkLoad(cell, a.st.version(cell))
		if a.st.objs[rootOf(cell)] {
			v = mkSym("mapvalue", mt.Elem())
		}
		a.st.mem[cell] = v
		if explodes(mt.Elem()) {
			delete(a.st.mem, cell)
			v = a.st.load(cell)
		}
		if x.H.Load != nil {
			x.H.Load(x, a.st, fr, i, cell, v)
		}
		if isNilable(v.T) && a.st.nilness(v) == 0 {
			a.st.setNil(v, 2)
		}
	}
	a.env[i] = mkTuple(tup, []*Term{mkBool(true), k, v})
	bs.env[i] = mkTuple(tup, []*Term{mkBool(false), zeroTerm2(tup.At(1).Type()), zeroTerm2(tup.At(2).Type())})
	_ = st
	return []*BState{a, bs}
}

func zeroTerm2(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkNil(t)
	}
	return zeroTerm(t)
}

func (x *Exec) recvValue(st *State, ch *Term, t types.Type) *Term {
	v := mkAppInst("recv", t, ch)
	for a := range st.attrs {
		if a.t == ch && strings.HasPrefix(a.a, "tag=") {
			if dt := x.P.typeOfTag(a.a[4:]); dt != nil {
				st.dyn[v] = dt
				st.setNil(v, 2)
			}
		}
	}
	x.received(st, ch, v)
	if isNilable(t) && st.nilness(v) == 0 {
		st.setAttr(v, "maybenil")
	}
	return v
}

func (x *Exec) recv(fr *Frame, bs *BState, i *ssa.UnOp, ch *Term) []*BState {
	et := elemType(ch.T)
	v := x.recvValue(bs.st, ch, et)
	if x.H.Recv != nil {
		x.H.Recv(x, bs.st, fr, i, ch, v, true)
	}
	if x.H.Fork != nil && !i.CommaOk {
		var out []*BState
		for _, s := range x.H.Fork(x, bs.st, ch, v) {
			o := bs.clone()
			o.st = s
			o.env[i] = v
			out = append(out, o)
		}
		bs.env[i] = v
		return append(out, bs)
	}
	if i.CommaOk {
		b2 := bs.clone()
		bs.env[i] = mkTuple(i.Type(), []*Term{v, mkBool(true)})
		b2.env[i] = mkTuple(i.Type(), []*Term{zeroTerm(et), mkBool(false)})
		return []*BState{bs, b2}
	}
	bs.env[i] = v
	return one(bs)
}

func (x *Exec) selectStmt(fr *Frame, bs *BState, i *ssa.Select) []*BState {
	var chans []*Term
	for _, s := range i.States {
		chans = append(chans, x.val(fr, bs, s.Chan))
	}
	if x.H.Select != nil {
		x.H.Select(x, bs.st, fr, i, chans)
	}
	tup := i.Type().(*types.Tuple)
	var out []*BState
	mk := func(idx int, b *BState) []*Term {
		vals := make([]*Term, tup.Len())
		vals[0] = mkInt(int64(idx), tInt)
		vals[1] = mkBool(true)
		r := 2
		for k, s := range i.States {
			if s.Dir == types.RecvOnly {
				if k == idx {
					vals[r] = x.recvValue(b.st, chans[k], tup.At(r).Type())
				} else {
					vals[r] = zeroTerm(tup.At(r).Type())
				}
				r++
			}
		}
		return vals
	}
	for k, s := range i.States {
		b := bs.clone()
		if b.st.nilness(chans[k]) == 1 {
			continue
		}
		vals := mk(k, b)
		b.st.note(i.Pos(), fmt.Sprintf("select case %d: %s", k, chans[k]))
		if s.Dir == types.SendOnly {
			v := x.val(fr, b, s.Send)
			if x.H.Send != nil {
				x.H.Send(x, b.st, fr, i, chans[k], v, false)
			}
			x.noteSend(b.st, i, v)
			b.st.publish(v)
		} else {
			if x.H.Recv != nil {
				r := 2
				for q := 0; q < k; q++ {
					if i.States[q].Dir == types.RecvOnly {
						r++
					}
				}
				x.H.Recv(x, b.st, fr, i, chans[k], vals[r], false)
			}
			if x.H.Fork != nil {
				for _, s := range x.H.Fork(x, b.st, chans[k], nil) {
					o := b.clone()
					o.st = s
					o.env[i] = mkTuple(tup, vals)
					out = append(out, o)
				}
			}
		}
		b.env[i] = mkTuple(tup, vals)
		out = append(out, b)
	}
	if !i.Blocking {
		vals := mk(-1, bs)
		vals[0] = mkInt(-1, tInt)
		bs.st.note(i.Pos(), "select default")
		bs.env[i] = mkTuple(tup, vals)
		out = append(out, bs)
	}
	return out
}

func (x *Exec) typeAssert(fr *Frame, bs *BState, i *ssa.TypeAssert, v *Term) []*BState {
	st := bs.st
	T := i.AssertedType
	mkres := func(val *Term, ok bool) *Term {
		if i.CommaOk {
			return mkTuple(i.Type(), []*Term{val, mkBool(ok)})
		}
		return val
	}
	inner := func() *Term {
		if isIface(T) {
			return v
		}
		if v.K == KIface {
			return v.A[0]
		}
		return mkApp("assert", T, v)
	}
	dt := st.dynType(v)
	n := st.nilness(v)
	known, is := false, false
	if n == 1 {
		known, is = true, false
	} else if dt != nil {
		known = true
		if it, ok := T.Underlying().(*types.Interface); ok {
			is = types.Implements(dt, it)
		} else {
			is = types.Identical(dt, T)
		}
	} else if n == 2 && isIface(T) && types.Implements(v.T, T.Underlying().(*types.Interface)) {
		known, is = true, true
	}
	if st.attr(v, "not:"+fmt.Sprint(typeID(T))) {
		known, is = true, false
	}
	if !i.CommaOk {
		x.oblige(st, fr, i, "assert", known && is, v.String()+" is "+shortType(T))
		if known && !is {
			return nil
		}
		if !isIface(T) {
			st.dyn[v] = T
		}
		st.setNil(v, 2)
		bs.env[i] = inner()
		return one(bs)
	}
	if known {
		if is {
			bs.env[i] = mkres(inner(), true)
		} else {
			bs.env[i] = mkres(zeroTerm(T), false)
		}
		return one(bs)
	}
	b := bs.clone()
	b.st.setAttr(v, "not:"+fmt.Sprint(typeID(T)))
	b.env[i] = mkres(zeroTerm(T), false)
	if !isIface(T) {
		st.dyn[v] = T
	}
	st.setNil(v, 2)
	st.note(i.Pos(), "is a "+shortType(T))
	bs.env[i] = mkres(inner(), true)
	return []*BState{bs, b}
}

func mkCap(x *Term) *Term {
	switch x.K {
	case KNil:
		return mkInt(0, tInt)
	case KMake:
		if isSliceT(x.T) {
			return x.A[1]
		}
	case KSlice:
		return linTerm(linOf(mkCap(x.A[0])).sub(linOf(x.A[1])))
	}
	if a, ok := isArray(x.T); ok {
		return mkInt(a.Len(), tInt)
	}
	if e := ptrElem(x.T); e != nil {
		if a, ok := isArray(e); ok {
			return mkInt(a.Len(), tInt)
		}
	}
	return U.mk(Term{K: KCap, A: []*Term{x}, T: tInt})
}

func (x *Exec) slice(fr *Frame, bs *BState, i *ssa.Slice) []*BState {
	st := bs.st
	b := x.val(fr, bs, i.X)
	if ptrElem(b.T) != nil {
		if !x.deref(st, fr, i, b) {
			return nil
		}
	}
	lo := mkInt(0, tInt)
	if i.Low != nil {
		lo = normIdx(x.val(fr, bs, i.Low))
	}
	ln := mkLen(b)
	hi := ln
	if i.High != nil {
		hi = normIdx(x.val(fr, bs, i.High))
	}
	ok := st.leq(mkInt(0, tInt), lo) && st.leq(lo, hi)
	if ok && !st.leq(hi, ln) {
		ok = false
		if isSliceT(b.T) {
			c := mkCap(b)
			st.addFact(linOf(c).sub(linOf(ln)))
			ok = st.leq(hi, c)
		}
	}
	x.oblige(st, fr, i, "slice", ok, fmt.Sprintf("0 <= %s <= %s <= cap(%s)", lo, hi, b))
	if !ok {
		st.addFact(linOf(lo))
		st.addFact(linOf(hi).sub(linOf(lo)))
	}
	if isString(b.T) {
		if c, k := lo.isConstInt(); k && c == 0 && hi == ln {
			bs.env[i] = b
		} else {
			bs.env[i] = U.mk(Term{K: KSlice, A: []*Term{b, lo, hi}, T: i.Type()})
		}
		return one(bs)
	}
	bs.env[i] = mkSlice(b, lo, hi, i.Type())
	return one(bs)
}

func mkSlice(b, lo, hi *Term, t types.Type) *Term {
	if c, k := lo.isConstInt(); k && c == 0 && isSliceT(b.T) && hi == mkLen(b) {
		return b
	}
	for b.K == KSlice {
		off := linOf(b.A[1])
		lo = linTerm(linOf(lo).add(off))
		hi = linTerm(linOf(hi).add(off))
		b = b.A[0]
	}
	return U.mk(Term{K: KSlice, A: []*Term{b, lo, hi}, T: t})
}

// arithmetic ------------------------------------------------------------------------

func (x *Exec) binop(st *State, fr *Frame, i *ssa.BinOp, a, b *Term) *Term {
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return mkCmp(i.Op, a, b)
	}
	if isInt(i.Type()) {
		switch i.Op {
		case token.QUO, token.REM:
			zero := mkInt(0, b.T)
			v, known := st.eval(mkCmp(token.EQL, b, zero))
			ok := known && !v
			if !ok {
				ok = st.lss(mkInt(0, tInt), b)
			}
			x.oblige(st, fr, i, "div", ok, b.String()+" != 0")
		case token.SHL, token.SHR:
			if !isUnsigned(b.T) {
				ok := st.leq(mkInt(0, tInt), b)
				x.oblige(st, fr, i, "shift", ok, b.String()+" >= 0")
			}
		}
	}
	return x.arith(st, i.Op, a, b, i.Type())
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if !isInt(t) {
		if a.K == KConst && b.K == KConst && op == token.ADD && isString(t) {
			return mkConst(constant.BinaryOp(a.C, token.ADD, b.C), t)
		}
		if isString(t) && op == token.ADD {
			return mkApp("concat", t, a, b)
		}
		return U.mk(Term{K: KBin, Op: op, A: []*Term{a, b}, T: t, Exact: true})
	}
	if op == token.OR || op == token.XOR || op == token.ADD {
		if v := rejoined(st, op, a, b, t); v != nil {
			return v
		}
	}
	lo, hi := typeRange(t)
	if a.K == KConst && b.K == KConst {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return wrapConst(constant.BinaryOp(a.C, op, b.C), t)
		case token.QUO, token.REM:
			if constant.Sign(b.C) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return wrapConst(constant.BinaryOp(a.C, o, b.C), t)
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.C); ok && n < 200 {
				return wrapConst(constant.Shift(a.C, op, uint(n)), t)
			}
		}
	}
	ex := true
	switch op {
	case token.ADD, token.SUB, token.MUL, token.SHL:
		var l *Lin
		la, lb := linOf(a), linOf(b)
		switch op {
		case token.ADD:
			l = la.add(lb)
		case token.SUB:
			l = la.sub(lb)
		case token.MUL:
			if k, ok := la.isConst(); ok {
				l = lb.scale(k)
			} else if k, ok := lb.isConst(); ok {
				l = la.scale(k)
			}
		case token.SHL:
			if n, ok := b.isConstInt(); ok && n >= 0 && n < 64 {
				l = la.scale(new(big.Int).Lsh(bigOne, uint(n)))
			}
		}
		if l != nil {
			ex = st.linInRange(l, lo, hi)
			if ex {
				if k, ok := l.isConst(); ok {
					return mkConst(bigConst(k).C, t)
				}
				if types.Identical(t, tInt) {
					return linTerm(l)
				}
				// x + 0
				if len(l.c) == 1 && l.k.Sign() == 0 {
					at := l.atoms()[0]
					if l.c[at].Cmp(bigOne) == 0 && types.Identical(at.T, t) {
						return at
					}
				}
			}
		} else if op == token.MUL {
			al, ah := x.bounds(st, a)
			bl, bh := x.bounds(st, b)
			ex = false
			if al != nil && bl != nil && ah != nil && bh != nil {
				mx := new(big.Int)
				mn := new(big.Int)
				first := true
				for _, p := range []*big.Int{al, ah} {
					for _, q := range []*big.Int{bl, bh} {
						r := new(big.Int).Mul(p, q)
						if first || r.Cmp(mx) > 0 {
							mx = r
						}
						if first || r.Cmp(mn) < 0 {
							mn = r
						}
						first = false
					}
				}
				ex = mn.Cmp(lo) >= 0 && mx.Cmp(hi) <= 0
			}
			if a.ID > b.ID {
				a, b = b, a
			}
		} else {
			ex = false
		}
	case token.AND, token.OR, token.XOR:
		if a.K == KConst || b.K != KConst && a.ID > b.ID {
			a, b = b, a
		}
	case token.REM, token.QUO:
		if c, ok := b.isConstInt(); ok && c == 1 {
			if op == token.QUO {
				return a
			}
			return mkInt(0, t)
		}
		if _, ok := b.isConstInt(); !ok && st.entails(linOf(a)) && st.entails(linOf(b)) {
			// neither operand is negative (and the divisor is not zero, or the division does not end normally)
			r := U.mk(Term{K: KBin, Op: op, A: []*Term{a, b}, T: t, Exact: ex})
			st.addFact(linAtom(r))
			st.addFact(linOf(a).sub(linAtom(r)))
			if op == token.REM && st.entails(linOf(b).addK(-1)) {
				st.addFact(linOf(b).sub(linAtom(r)).addK(-1))
			}
			return r
		}
		// a multiple of the divisor
		if n, ok := b.isConstInt(); ok && n > 1 && types.Identical(t, tInt) {
			l := linOf(a)
			d, all := big.NewInt(n), new(big.Int).Rem(l.k, big.NewInt(n)).Sign() == 0 && len(l.c) > 0
			for _, c := range l.c {
				all = all && new(big.Int).Rem(c, d).Sign() == 0
			}
			if all {
				if op == token.REM {
					return mkInt(0, t)
				}
				e := newLin(0)
				e.k.Quo(l.k, d)
				for at, c := range l.c {
					e = e.addScaled(linAtom(at), new(big.Int).Quo(c, d))
				}
				return linTerm(e)
			}
		}
		// the structure of the operand does not show that it is not negative, but the facts do
		if n, ok := b.isConstInt(); ok && n > 1 {
			if al, _ := interval(a); (al == nil || al.Sign() < 0) && st.entails(linOf(a)) {
				q := U.mk(Term{K: KBin, Op: token.QUO, A: []*Term{a, b}, T: t, Exact: ex})
				e := linOf(a).addScaled(linAtom(q), big.NewInt(-n)) // the remainder
				st.addFact(e)
				st.addFact(e.scale(bigNeg).addK(n - 1))
				if op == token.REM {
					r := U.mk(Term{K: KBin, Op: token.REM, A: []*Term{a, b}, T: t, Exact: ex})
					st.addFact(e.sub(linAtom(r)))
					st.addFact(linAtom(r).sub(e))
				}
			}
		}
	}
	return U.mk(Term{K: KBin, Op: op, A: []*Term{a, b}, T: t, Exact: ex})
}

// bounds: constant bounds of a term from its structure and the facts
func (x *Exec) bounds(st *State, t *Term) (lo, hi *big.Int) {
	lo, hi = interval(t)
	l := linOf(t)
	for _, f := range st.facts {
		// f: c*t + k >= 0 exactly
		d := f.sub(l)
		if k, ok := d.isConst(); ok { // t + k >= 0
			v := new(big.Int).Neg(k)
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		d = f.add(l)
		if k, ok := d.isConst(); ok { // k - t >= 0
			if hi == nil || k.Cmp(hi) < 0 {
				hi = k
			}
		}
	}
	return
}

func wrapConst(c constant.Value, t types.Type) *Term {
	bits, signed, ok := intBits(t)
	if !ok {
		return mkConst(c, t)
	}
	n, ok := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
	if !ok {
		return mkConst(c, t)
	}
	m := new(big.Int).Lsh(bigOne, bits)
	n.Mod(n, m)
	if signed && n.Bit(int(bits-1)) == 1 {
		n.Sub(n, m)
	}
	r := bigConst(n)
	return mkConst(r.C, t)
}

func (x *Exec) convert(st *State, v *Term, t types.Type) *Term {
	switch {
	case isInt(t) && isInt(v.T):
		if v.K == KConst {
			return wrapConst(v.C, t)
		}
		b1, s1, _ := intBits(v.T)
		b2, s2, _ := intBits(t)
		if b1 == b2 && s1 == s2 {
			if types.Identical(t, tInt) {
				return normIdx(v)
			}
			return U.mk(Term{K: KConv, A: []*Term{v}, T: t, Exact: true})
		}
		ex := st.inRange(v, t)
		if ex && types.Identical(t, tInt) {
			return normIdx(v)
		}
		if ex && v.K == KConv && v.Exact && types.Identical(v.A[0].T, t) {
			return v.A[0]
		}
		return U.mk(Term{K: KConv, A: []*Term{v}, T: t, Exact: ex})
	case isString(t) && isSliceT(v.T):
		c := st.content(v)
		return c
	case isSliceT(t) && isString(v.T):
		return U.mk(Term{K: KConv, A: []*Term{v}, T: t, Inst: U.newInst()})
	}
	return U.mk(Term{K: KConv, A: []*Term{v}, T: t})
}

// hasAttr: attribute of a term, direct or derived
func (x *Exec) hasAttr(st *State, t *Term, name string) bool {
	if st.attr(t, name) {
		return true
	}
	if name == "fresh" {
		r := rootOf(t)
		if t.K == KNil || t.K == KConst {
			return true
		}
		if st.pub[r] || st.pub[t] {
			return false
		}
		if r.K == KAlloc || r.K == KMake {
			return true
		}
		if st.attr(r, "fresh") {
			return true
		}
		if r.K == KApp && r.Name == "append" {
			return x.hasAttr(st, r.A[0], name)
		}
		return false
	}
	if x.H.Attr != nil {
		return x.H.Attr(x, st, t, name)
	}
	return false
}
