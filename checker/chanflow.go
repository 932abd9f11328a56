package main

// Channels that stay between a function and the goroutines it starts: who sends on them, and what
// receiving from one says about the goroutine on the other side.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type chanUse struct {
	senders []ssa.Instruction // Send or Select
	closed  bool
	ok      bool // every use is known
}

// chanUses of the channel made at a position
func (p *Program) chanUses(pos token.Pos) *chanUse {
	if p.chans == nil {
		p.chans = map[token.Pos]*chanUse{}
		for _, fn := range p.all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeChan); ok {
						u := &chanUse{ok: true}
						p.flow(m, false, u, map[ssa.Value]bool{})
						p.chans[m.Pos()] = u
					}
				}
			}
		}
	}
	return p.chans[pos]
}

// flow follows a channel value (or, if cell, the address of a variable holding it)
func (p *Program) flow(v ssa.Value, cell bool, u *chanUse, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		u.ok = false
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if cell {
				if r.Addr != v {
					u.ok = false
				}
				continue
			}
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
				p.flow(a, true, u, seen)
			} else {
				u.ok = false
			}
		case *ssa.UnOp:
			if r.Op == token.MUL && cell {
				p.flow(r, false, u, seen)
			} else if r.Op != token.ARROW || cell {
				u.ok = false
			}
		case *ssa.Send:
			if cell || r.X == v {
				u.ok = false
			} else {
				u.senders = append(u.senders, r)
			}
		case *ssa.Select:
			for _, s := range r.States {
				if s.Send == v {
					u.ok = false
				}
				if s.Chan == v && s.Dir == types.SendOnly {
					u.senders = append(u.senders, r)
				}
			}
		case *ssa.MakeClosure:
			for k, b := range r.Bindings {
				if b == v {
					p.flow(r.Fn.(*ssa.Function).FreeVars[k], cell, u, seen)
				}
			}
		case *ssa.ChangeType:
			p.flow(r, cell, u, seen)
		case *ssa.BinOp:
		case ssa.CallInstruction:
			if b, ok := r.Common().Value.(*ssa.Builtin); ok && !cell {
				if b.Name() == "close" {
					u.closed = true
				}
				continue
			}
			done := false
			if f := r.Common().StaticCallee(); hasBody(f) && !cell {
				done = true
				for k, a := range r.Common().Args {
					if a == v {
						if k < len(f.Params) {
							p.flow(f.Params[k], false, u, seen)
						} else {
							done = false
						}
					}
				}
				if r.Common().Value == v {
					done = false
				}
			}
			if !done {
				u.ok = false
			}
		default:
			u.ok = false
		}
	}
}

// noteSend records what is known of a value sent
func (x *Exec) noteSend(st *State, in ssa.Instruction, v *Term) {
	if x.sent == nil {
		x.sent = map[ssa.Instruction]int8{}
	}
	if st.nilness(v) == 2 {
		if x.sent[in] == 0 {
			x.sent[in] = 1
		}
	} else {
		x.sent[in] = 2
	}
}

// received: what holds after a value came out of a channel local to a function and its goroutines
func (x *Exec) received(st *State, ch, v *Term) {
	if ch.K != KMake {
		return
	}
	u := x.P.chanUses(ch.Pos)
	if u == nil || !u.ok || u.closed || len(u.senders) == 0 {
		return
	}
	non := true
	for _, s := range u.senders {
		non = non && x.sent[s] != 2
	}
	if non && isNilable(v.T) {
		st.setNil(v, 2)
	}
	// the sender no longer writes the variables it shares
	fns := map[string]*ssa.Function{}
	for _, s := range u.senders {
		fns[relName(s.Parent())] = s.Parent()
	}
	settled := map[*Term]bool{}
	for a := range st.attrs {
		if a.a != "volatile" {
			continue
		}
		ok, n := true, 0
		for b := range st.attrs {
			if b.t != a.t || !strings.HasPrefix(b.a, "vol:") {
				continue
			}
			n++
			q := strings.SplitN(b.a[4:], "|", 2)
			fn := fns[q[1]]
			if fn == nil || !x.P.quietAfterSend(fn, q[0], u.senders) {
				ok = false
			}
		}
		if ok && n > 0 {
			settled[a.t] = true
		}
	}
	for t := range settled {
		for a := range st.attrs {
			if a.t == t && (a.a == "volatile" || strings.HasPrefix(a.a, "vol:")) {
				delete(st.attrs, a)
			}
		}
		st.store(t, mkSym("shared", ptrElem(t.T)))
	}
}

// quietAfterSend: fn (started once) stores to the captured variable only before it sends
func (p *Program) quietAfterSend(fn *ssa.Function, fv string, senders []ssa.Instruction) bool {
	var v *ssa.FreeVar
	for _, f := range fn.FreeVars {
		if f.Name() == fv {
			v = f
		}
	}
	if v == nil || len(fn.AnonFuncs) > 0 {
		return false
	}
	for _, r := range *v.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != v {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		for _, snd := range senders {
			if snd.Parent() == fn && instrReaches(snd, s) {
				return false
			}
		}
	}
	return true
}

func instrReaches(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() {
		for _, in := range from.Block().Instrs {
			if in == from {
				return true && !before(to, from) || blockReaches(from.Block(), to.Block())
			}
			if in == to {
				break
			}
		}
	}
	return blockReaches(from.Block(), to.Block())
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// blockReaches along at least one edge
func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(a)
}

// tagOf: the field of a table's key that says which kind of message its channels carry
func (p *Program) tagField(m, k *Term) int {
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		return -1
	}
	ct, ok := mt.Elem().Underlying().(*types.Chan)
	if !ok || !isIface(ct.Elem()) {
		return -1
	}
	s := structOf(k.T)
	if s == nil {
		return -1
	}
	it, _ := ct.Elem().Underlying().(*types.Interface)
	for i := 0; i < s.NumFields(); i++ {
		for q := 0; it != nil && q < it.NumMethods(); q++ {
			sg := it.Method(q).Type().(*types.Signature)
			if it.Method(q).Name() == "Type" && sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), s.Field(i).Type()) {
				return i
			}
		}
	}
	return -1
}

// afterRecvFrom: the instruction runs only after a value sent by fn was received
func (p *Program) afterRecvFrom(in ssa.Instruction, fn *ssa.Function) bool {
	only := func(ch ssa.Value) bool {
		for i := 0; i < 4; i++ {
			switch v := ch.(type) {
			case *ssa.MakeChan:
				u := p.chanUses(v.Pos())
				if u == nil || !u.ok || u.closed || len(u.senders) == 0 {
					return false
				}
				for _, s := range u.senders {
					if s.Parent() != fn {
						return false
					}
				}
				return true
			case *ssa.ChangeType:
				ch = v.X
			case *ssa.UnOp:
				a, ok := v.X.(*ssa.Alloc)
				if !ok || v.Op != token.MUL {
					return false
				}
				var val ssa.Value
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						if val != nil {
							return false
						}
						val = s.Val
					}
				}
				if val == nil {
					return false
				}
				ch = val
			default:
				return false
			}
		}
		return false
	}
	for _, b := range in.Parent().Blocks {
		if !b.Dominates(in.Block()) {
			continue
		}
		for _, q := range b.Instrs {
			if q == in {
				break
			}
			switch q := q.(type) {
			case *ssa.UnOp:
				if q.Op == token.ARROW && only(q.X) {
					return true
				}
			case *ssa.Select:
				if !q.Blocking {
					continue
				}
				all := true
				for _, s := range q.States {
					all = all && s.Dir == types.RecvOnly && only(s.Chan)
				}
				if all {
					return true
				}
				for k, s := range q.States {
					if s.Dir == types.RecvOnly && only(s.Chan) {
						if cb := selectCase(q, k); cb != nil && cb.Dominates(in.Block()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// selectCase: the block entered only when case k of the select was taken
func selectCase(s *ssa.Select, k int) *ssa.BasicBlock {
	for _, r := range *s.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, q := range *e.Referrers() {
			c, ok := q.(*ssa.BinOp)
			if !ok || c.Op != token.EQL {
				continue
			}
			n, ok := c.Y.(*ssa.Const)
			if !ok || n.Int64() != int64(k) {
				continue
			}
			for _, i := range *c.Referrers() {
				if f, ok := i.(*ssa.If); ok {
					t := f.Block().Succs[0]
					if len(t.Preds) == 1 {
						return t
					}
				}
			}
		}
	}
	return nil
}

// readsAfterSend: does fn use the captured variable after it sent a value?
func readsAfterSend(fn *ssa.Function, fv *ssa.FreeVar) bool {
	var sends []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Send, *ssa.Select:
				sends = append(sends, in)
			}
		}
	}
	for _, r := range *fv.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
		for _, s := range sends {
			if instrReaches(s, r) {
				return true
			}
		}
	}
	return false
}
