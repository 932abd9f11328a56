package main

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// rootState builds the initial state and arguments of an entry point
func (x *Exec) rootArgs(fn *ssa.Function, st *State) []*Term {
	var args []*Term
	for i, q := range fn.Params {
		n := q.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := mkParam("p:"+n, q.Type())
		if isNilable(q.Type()) && ptrElem(q.Type()) != nil {
			st.setNil(t, 2)
		}
		args = append(args, t)
	}
	return args
}

func debugRun(P *Program, names []string) {
	for _, fn := range P.all {
		match := false
		for _, n := range names {
			if relName(fn) == n {
				match = true
			}
		}
		if !match {
			continue
		}
		t0 := time.Now()
		fails := map[string]int{}
		oks := 0
		h := &Hooks{Oblig: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, kind string, ok bool, msg string) {
			if ok {
				oks++
			} else {
				fails[P.posOf(in)+" "+kind+" "+msg]++
			}
		}}
		x := newExec(P, h)
		st := newState()
		outs := x.Run(fn, x.rootArgs(fn, st), nil, st, nil, nil)
		fmt.Printf("== %s: %d outcomes, %d calls, %d blocks, %d states, %d loops, %d spawns, terms %d, %d fm (hits %d yes %d giveup %d), %.2fs, ok %d\n", relName(fn), len(outs), x.nCalls, x.nBlocks, x.nStates, x.nLoops, x.nSpawn, U.next, fmCalls, modelHits, fmYes, fmGiveUp, time.Since(t0).Seconds(), oks)
		var ks []string
		for k := range fails {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("   FAIL", k)
		}
		for _, u := range x.Undecided {
			fmt.Println("   UNDECIDED", u)
		}
		if len(outs) < 8 {
			for _, o := range outs {
				fmt.Println("   ->", o.Ret)
			}
		}
	}
}

func diffState(a, b *BState) string {
	s := ""
	add := func(f string, v ...interface{}) { s += fmt.Sprintf(f, v...) + "\n" }
	for k, v := range a.env {
		if b.env[k] != v {
			add("env %s: %v / %v", k.Name(), v, b.env[k])
		}
	}
	for k, v := range a.st.mem {
		if b.st.mem[k] != v {
			add("mem %s: %v / %v", k, v, b.st.mem[k])
		}
	}
	for k, v := range b.st.mem {
		if a.st.mem[k] != v {
			add("mem %s: %v / %v", k, a.st.mem[k], v)
		}
	}
	for _, f := range a.st.facts {
		if !b.st.fkey[f.key()] {
			add("-fact %s", f)
		}
	}
	for _, f := range b.st.facts {
		if !a.st.fkey[f.key()] {
			add("+fact %s", f)
		}
	}
	for k, v := range a.st.nilf {
		if b.st.nilf[k] != v {
			add("-nil %s %d", k, v)
		}
	}
	for k, v := range b.st.nilf {
		if a.st.nilf[k] != v {
			add("+nil %s %d", k, v)
		}
	}
	for k, v := range a.st.truth {
		if w, ok := b.st.truth[k]; !ok || w != v {
			add("-truth %s %v", k, v)
		}
	}
	for k, v := range b.st.truth {
		if w, ok := a.st.truth[k]; !ok || w != v {
			add("+truth %s %v", k, v)
		}
	}
	for k := range a.st.attrs {
		if !b.st.attrs[k] {
			add("-attr %s %s", k.t, k.a)
		}
	}
	for k := range b.st.attrs {
		if !a.st.attrs[k] {
			add("+attr %s %s", k.t, k.a)
		}
	}
	for k := range a.st.pub {
		if !b.st.pub[k] {
			add("-pub %s", k)
		}
	}
	for k := range b.st.pub {
		if !a.st.pub[k] {
			add("+pub %s", k)
		}
	}
	for k, v := range a.st.objs {
		if w, ok := b.st.objs[k]; !ok || w != v {
			add("-obj %s %v", k, v)
		}
	}
	for k, v := range b.st.objs {
		if w, ok := a.st.objs[k]; !ok || w != v {
			add("+obj %s %v", k, v)
		}
	}
	for k, v := range a.st.vers {
		if b.st.vers[k] != v {
			add("vers %s %d %d", k, v, b.st.vers[k])
		}
	}
	for k, v := range b.st.vers {
		if a.st.vers[k] != v {
			add("vers %s %d %d", k, a.st.vers[k], v)
		}
	}
	for k, v := range a.st.cl {
		if b.st.cl[k] != v {
			add("cl %s %s/%s", k, v, b.st.cl[k])
		}
	}
	return s
}
