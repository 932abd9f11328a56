package main

// The driver of the property checks: units of work, reports, evidence, known findings.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one construct of the source that breaks a rule
type Viol struct {
	Rule string   `json:"rule"`
	Pos  string   `json:"pos"`
	Fn   string   `json:"function"`
	Msg  string   `json:"message"`
	Path []string `json:"path,omitempty"`
}

func (v Viol) key() string { return v.Rule + " | " + v.Fn + " | " + v.Msg }

type Report struct {
	Viols     []Viol              `json:"violations"`
	Counts    map[string]int      `json:"counts"`
	Fns       map[string]bool     `json:"functions"`
	Sites     map[string]int      `json:"sites"` // obligations met, by rule and place
	Facts     map[string][]string `json:"facts"` // handed from the units to the final step
	Undecided []string            `json:"undecided"`
}

func newReport() *Report {
	return &Report{Counts: map[string]int{}, Fns: map[string]bool{}, Sites: map[string]int{}, Facts: map[string][]string{}}
}

func (r *Report) merge(o *Report) {
	r.Viols = append(r.Viols, o.Viols...)
	for k, n := range o.Counts {
		r.Counts[k] += n
	}
	for k := range o.Fns {
		r.Fns[k] = true
	}
	for k, n := range o.Sites {
		r.Sites[k] += n
	}
	for k, v := range o.Facts {
		r.Facts[k] = append(r.Facts[k], v...)
	}
	r.Undecided = append(r.Undecided, o.Undecided...)
}

// Ctx: what a rule works with
type Ctx struct {
	P    *Program
	R    *Report
	Tier string
	seen map[string]bool
	x    *Exec
}

func (c *Ctx) fact(k, v string) {
	for _, e := range c.R.Facts[k] {
		if e == v {
			return
		}
	}
	c.R.Facts[k] = append(c.R.Facts[k], v)
}

var reInst = regexp.MustCompile(`#\d+|φ[A-Za-z0-9_$.']*·`)

func (c *Ctx) viol(rule string, in ssa.Instruction, st *State, format string, a ...interface{}) {
	pos, fn := "", ""
	if in != nil {
		pos = c.P.posOf(in)
		if in.Parent() != nil {
			fn = relName(in.Parent())
		}
	}
	c.violAt(rule, pos, fn, st, format, a...)
}

func (c *Ctx) violAt(rule, pos, fn string, st *State, format string, a ...interface{}) {
	msg := reInst.ReplaceAllString(fmt.Sprintf(format, a...), "")
	if len(msg) > 400 {
		msg = msg[:400] + "…"
	}
	v := Viol{Rule: rule, Pos: pos, Fn: fn, Msg: msg}
	if c.seen[v.key()+pos] {
		return
	}
	c.seen[v.key()+pos] = true
	if st != nil {
		for t := st.trace; t != nil && len(v.Path) < 30; t = t.prev {
			v.Path = append([]string{c.P.pos(t.pos) + " " + reInst.ReplaceAllString(t.msg, "")}, v.Path...)
		}
	}
	c.R.Viols = append(c.R.Viols, v)
}

// met counts an obligation that was examined at a place
func (c *Ctx) met(rule string, in ssa.Instruction) {
	c.R.Sites[rule+" at "+c.P.posOf(in)]++
}
func (c *Ctx) metAt(rule, where string) { c.R.Sites[rule+" at "+where]++ }

// run analyses fn as an entry point: parameters and memory are unknown
func (c *Ctx) run(fn *ssa.Function, hs ...*Hooks) []Outcome {
	st := newState()
	return c.runWith(fn, nil, st, hs...)
}

func (c *Ctx) runWith(fn *ssa.Function, args []*Term, st *State, hs ...*Hooks) []Outcome {
	x := newExec(c.P, compose(hs...))
	c.x = x
	if args == nil {
		args = x.rootArgs(fn, st)
	}
	out := x.Run(fn, args, nil, st, nil, nil)
	c.R.Undecided = append(c.R.Undecided, x.Undecided...)
	c.R.Counts["abstract states"] += x.nStates
	c.R.Counts["calls analysed in context"] += x.nCalls
	c.R.Counts["loops taken to a fixpoint"] += x.nLoops
	c.R.Counts["goroutines followed"] += x.nSpawn
	c.R.Counts["entry points"]++
	for f := range x.fns {
		c.R.Fns[relName(f)] = true
	}
	return out
}

// compose runs several sets of hooks
func compose(hs ...*Hooks) *Hooks {
	var l []*Hooks
	for _, h := range hs {
		if h != nil {
			l = append(l, h)
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	o := &Hooks{}
	for _, h := range l {
		h := h
		p := *o
		if h.Call != nil {
			o.Call = func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
				if p.Call != nil {
					if r, ok := p.Call(x, st, ci); ok {
						return r, true
					}
				}
				return h.Call(x, st, ci)
			}
		}
		if h.After != nil {
			o.After = func(x *Exec, st *State, ci *CallInfo, r []*Term) {
				if p.After != nil {
					p.After(x, st, ci, r)
				}
				h.After(x, st, ci, r)
			}
		}
		if h.Keep != nil {
			o.Keep = func(st *State) []*Term {
				r := h.Keep(st)
				if p.Keep != nil {
					r = append(r, p.Keep(st)...)
				}
				return r
			}
		}
		if h.Enter != nil {
			o.Enter = func(x *Exec, st *State, fr *Frame) {
				if p.Enter != nil {
					p.Enter(x, st, fr)
				}
				h.Enter(x, st, fr)
			}
		}
		if h.Leave != nil {
			o.Leave = func(x *Exec, st *State, fr *Frame, r []*Term) {
				if p.Leave != nil {
					p.Leave(x, st, fr, r)
				}
				h.Leave(x, st, fr, r)
			}
		}
		acc := func(a, b func(*Exec, *State, *Frame, ssa.Instruction, *Term, *Term)) func(*Exec, *State, *Frame, ssa.Instruction, *Term, *Term) {
			if a == nil {
				return b
			}
			if b == nil {
				return a
			}
			return func(x *Exec, st *State, fr *Frame, in ssa.Instruction, p, v *Term) {
				a(x, st, fr, in, p, v)
				b(x, st, fr, in, p, v)
			}
		}
		o.Load = acc(p.Load, h.Load)
		o.Store = acc(p.Store, h.Store)
		o.MapDelete = acc(p.MapDelete, h.MapDelete)
		if h.Range != nil {
			o.Range = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, m *Term) {
				if p.Range != nil {
					p.Range(x, st, fr, in, m)
				}
				h.Range(x, st, fr, in, m)
			}
		}
		if h.Send != nil {
			o.Send = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, v *Term, b bool) {
				if p.Send != nil {
					p.Send(x, st, fr, in, ch, v, b)
				}
				h.Send(x, st, fr, in, ch, v, b)
			}
		}
		if h.Fork != nil {
			o.Fork = h.Fork
		}
		if h.Read != nil {
			o.Read = h.Read
		}
		if h.Recv != nil {
			o.Recv = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, ch, v *Term, b bool) {
				if p.Recv != nil {
					p.Recv(x, st, fr, in, ch, v, b)
				}
				h.Recv(x, st, fr, in, ch, v, b)
			}
		}
		if h.Select != nil {
			o.Select = func(x *Exec, st *State, fr *Frame, in *ssa.Select, chs []*Term) {
				if p.Select != nil {
					p.Select(x, st, fr, in, chs)
				}
				h.Select(x, st, fr, in, chs)
			}
		}
		if h.Go != nil {
			o.Go = func(x *Exec, st, ch *State, ci *CallInfo) {
				if p.Go != nil {
					p.Go(x, st, ch, ci)
				}
				h.Go(x, st, ch, ci)
			}
		}
		if h.Panic != nil {
			o.Panic = func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
				if p.Panic != nil {
					p.Panic(x, st, fr, in)
				}
				h.Panic(x, st, fr, in)
			}
		}
		if h.Oblig != nil {
			o.Oblig = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, k string, ok bool, m string) {
				if p.Oblig != nil {
					p.Oblig(x, st, fr, in, k, ok, m)
				}
				h.Oblig(x, st, fr, in, k, ok, m)
			}
		}
		if h.Attr != nil {
			o.Attr = func(x *Exec, st *State, t *Term, n string) bool {
				return p.Attr != nil && p.Attr(x, st, t, n) || h.Attr(x, st, t, n)
			}
		}
		if h.LoopIter != nil {
			o.LoopIter = func(x *Exec, fr *Frame, hd *ssa.BasicBlock, a, b *BState) {
				if p.LoopIter != nil {
					p.LoopIter(x, fr, hd, a, b)
				}
				h.LoopIter(x, fr, hd, a, b)
			}
		}
		if h.Edge != nil {
			o.Edge = func(x *Exec, st *State, fr *Frame, f, t *ssa.BasicBlock, fi *fnInfo) {
				if p.Edge != nil {
					p.Edge(x, st, fr, f, t, fi)
				}
				h.Edge(x, st, fr, f, t, fi)
			}
		}
		if h.Alloc != nil {
			o.Alloc = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, t *Term) {
				if p.Alloc != nil {
					p.Alloc(x, st, fr, in, t)
				}
				h.Alloc(x, st, fr, in, t)
			}
		}
		if h.Merge != nil {
			o.Merge = func(x *Exec, a, b, m *BState) {
				if p.Merge != nil {
					p.Merge(x, a, b, m)
				}
				h.Merge(x, a, b, m)
			}
		}
	}
	return o
}

// Rule decides one property
type Rule struct {
	ID      string
	Explain string                    // what is decided and how
	Units   func(P *Program) []string // independent units of work
	Run     func(c *Ctx, unit string) // one unit
	Finish  func(c *Ctx)              // over the merged facts of all units
	Min     map[string]int            // obligations that must have been met, by rule (vacuity guard)
}

var allRules = map[string]*Rule{}

func register(r *Rule) { allRules[r.ID] = r }

func loadFor(repo string) (P *Program, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("loading: %v", e)
		}
	}()
	return Load(repo)
}

func runWorker(repo, prop, unit, tier string) {
	r := newReport()
	out := func() {
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
	}
	P, err := loadFor(repo)
	if err != nil {
		r.Undecided = append(r.Undecided, err.Error())
		out()
		return
	}
	c := &Ctx{P: P, R: r, Tier: tier, seen: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				var at []string
				for _, l := range st {
					if strings.Contains(l, "/checker/") && len(at) < 6 {
						at = append(at, filepath.Base(strings.TrimSpace(l)))
					}
				}
				r.Undecided = append(r.Undecided, fmt.Sprintf("%s: internal error: %v %v", unit, e, at))
			}
		}()
		allRules[prop].Run(c, unit)
	}()
	out()
}

func runCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	rule := allRules[prop]
	if rule == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		tier = v
	}
	rep := newReport()
	var units []string
	P, err := loadFor(repo)
	if err != nil {
		rep.Undecided = append(rep.Undecided, err.Error())
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep.Undecided = append(rep.Undecided, fmt.Sprint("anchors: ", e))
				}
			}()
			units = rule.Units(P)
		}()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	sem := make(chan bool, n)
	self, _ := os.Executable()
	for _, u := range units {
		u := u
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			var ob, eb bytes.Buffer
			cmd := exec.Command(self, "-repo", repo, "-prop", prop, "-unit", u, "-tier", tier)
			cmd.Stdout, cmd.Stderr = &ob, &eb
			err := cmd.Start()
			if err == nil {
				tm := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
				err = cmd.Wait()
				tm.Stop()
			}
			r := newReport()
			if err != nil || json.Unmarshal(ob.Bytes(), r) != nil {
				e := eb.String()
				if len(e) > 300 {
					e = e[:300]
				}
				r = newReport()
				r.Undecided = append(r.Undecided, fmt.Sprintf("%s: analysis failed: %v %s", u, err, e))
			}
			if os.Getenv("UNITS") != "" {
				fmt.Fprintf(os.Stderr, "%6.1fs %s viols %d\n", time.Since(t0).Seconds(), u, len(r.Viols))
			}
			mu.Lock()
			rep.merge(r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	c := &Ctx{P: P, R: rep, Tier: tier, seen: map[string]bool{}}
	if P != nil && rule.Finish != nil && len(rep.Undecided) == 0 {
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep.Undecided = append(rep.Undecided, fmt.Sprint("final step: ", e))
				}
			}()
			rule.Finish(c)
		}()
	}
	if len(rep.Undecided) == 0 {
		byRule := map[string]int{}
		for s := range rep.Sites {
			byRule[s[:strings.Index(s, " at ")]]++
		}
		for k, n := range rule.Min {
			if byRule[k] < n {
				rep.Viols = append(rep.Viols, Viol{Rule: "anchor", Msg: fmt.Sprintf("the rule %q applied at %d places, expected at least %d: what it guards is gone or no longer recognised", k, byRule[k], n)})
			}
		}
	}
	for _, u := range rep.Undecided {
		rep.Viols = append(rep.Viols, Viol{Rule: "undecided", Msg: reInst.ReplaceAllString(u, "")})
	}
	// one report per construct
	uniq := map[string]Viol{}
	for _, v := range rep.Viols {
		if o, ok := uniq[v.key()]; !ok || v.Pos < o.Pos {
			uniq[v.key()] = v
		}
	}
	var viols []Viol
	for _, v := range uniq {
		viols = append(viols, v)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].key() < viols[j].key() })
	known := readKnown(filepath.Join(verif, "known_findings.txt"), prop)
	var bad []Viol
	for _, v := range viols {
		if d, ok := known[v.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, v.key(), d)
			continue
		}
		bad = append(bad, v)
	}
	writeEvidence(verif, prop, tier, rule, rep, units, bad, len(viols)-len(bad), time.Since(t0))
	if len(bad) == 0 {
		fmt.Printf("OK property=%s: %d units, %d obligation sites, %d functions, %.1fs\n", prop, len(units), len(rep.Sites), len(rep.Fns), time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", prop+".violations.json")
	b, _ := json.MarshalIndent(bad, "", " ")
	os.WriteFile(rp, b, 0o644)
	for i, v := range bad {
		if i == 25 {
			fmt.Printf("... and %d more in %s\n", len(bad)-i, rp)
			break
		}
		fmt.Printf("%s: %s: [%s] %s\n", v.Pos, v.Fn, v.Rule, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func readKnown(file, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=CXX <rule | function | message> :: <explanation>
		p := "known: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			kv := strings.SplitN(l[len(p):], " :: ", 2)
			if len(kv) == 2 {
				out[kv[0]] = kv[1]
			}
		}
	}
	return out
}

func writeEvidence(verif, prop, tier string, rule *Rule, rep *Report, units []string, bad []Viol, nKnown int, wall time.Duration) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.Remove(filepath.Join(dir, prop+".violations.json"))
	byRule := map[string]int{}
	total := 0
	var samples []string
	for s, n := range rep.Sites {
		byRule[s[:strings.Index(s, " at ")]]++
		total += n
	}
	var ks []string
	for s := range rep.Sites {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for i := 0; i < len(ks) && len(samples) < 12; i += 1 + len(ks)/12 {
		samples = append(samples, ks[i])
	}
	notes := map[string][]string{}
	var fns []string
	for f := range rep.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(fns) > 400 {
		fns = fns[:400]
	}
	sort.Strings(units)
	for k, v := range rep.Facts {
		if k == "invariants" || k == "assumed" || k == "noted" {
			sort.Strings(v)
			var u []string
			for i, e := range v {
				if i == 0 || v[i-1] != e {
					u = append(u, e)
				}
			}
			if len(u) > 100 {
				u = u[:100]
			}
			notes[k] = u
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":              rule.Explain,
		"units_of_work":            units,
		"functions_analysed":       fns,
		"measured":                 rep.Counts,
		"obligation_sites_by_rule": byRule,
		"obligations_evaluated":    total,
		"sample_sites":             samples,
		"notes":                    notes,
		"violations":               bad,
		"known_findings":           nKnown,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall.Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

// anchors -------------------------------------------------------------------------

func (c *Ctx) named(pkg, name string) *types.Named {
	n := c.P.Named(pkg, name)
	if n == nil {
		panic(fmt.Sprintf("type %s.%s not found", pkg, name))
	}
	return n
}

// exportedMethods of *T, sorted by name
func (P *Program) exportedMethods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.all {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() == nil {
			continue
		}
		if namedOf(fn.Signature.Recv().Type()) == n && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return relName(out[i]) < relName(out[j]) })
	return out
}

func (P *Program) byRel(name string) *ssa.Function {
	for _, fn := range P.all {
		if relName(fn) == name {
			return fn
		}
	}
	panic("function " + name + " not found")
}
