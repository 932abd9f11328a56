package main

// What the program does to files: paths, their classes, effects (C15; used by C11-C14, C16-C20)

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effect of one call on the file system
type fsEffect struct {
	Kind string // trunc (create or truncate), modify (open for writing, keep contents), remove, rename, mkdir, data (write through a handle), other
	Path *Term
	To   *Term // rename: new name
	Data *Term // contents written
	File *Term
}

var fsReads = map[string]bool{
	"os.Open": true, "os.ReadFile": true, "os.ReadDir": true, "os.Stat": true, "os.Lstat": true, "os.Readlink": true,
	"io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "io/ioutil.ReadAll": true,
	"os.Getpid": true, "os.Getppid": true, "os.Getwd": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.UserHomeDir": true,
	"os.UserConfigDir": true, "os.UserCacheDir": true, "os.Hostname": true, "os.TempDir": true, "os.Getuid": true, "os.Geteuid": true, "os.Executable": true,
	"os.Exit": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.IsTimeout": true, "os.IsPathSeparator": true,
	"os.SameFile": true, "os.Getpagesize": true, "os.NewSyscallError": true, "os.Expand": true, "os.ExpandEnv": true, "os.DirFS": true, "os.Chdir": false,
}

// openFlags of os.OpenFile
func openFlags(t *Term) (write, trunc, known bool) {
	n, ok := t.isConstInt()
	if !ok {
		return true, true, false
	}
	return n&3 != 0 || n&0x40 != 0, n&0x200 != 0, true
}

func fsEffects(ci *CallInfo) []fsEffect {
	n := ci.Name
	if ci.Callee != nil && hasBody(ci.Callee) {
		return nil
	}
	a := ci.Args
	switch n {
	case "os.WriteFile", "io/ioutil.WriteFile":
		return []fsEffect{{Kind: "trunc", Path: a[0], Data: a[1]}}
	case "os.Create":
		return []fsEffect{{Kind: "trunc", Path: a[0]}}
	case "os.OpenFile":
		w, t, _ := openFlags(a[1])
		switch {
		case t:
			return []fsEffect{{Kind: "trunc", Path: a[0]}}
		case w:
			return []fsEffect{{Kind: "modify", Path: a[0]}}
		}
		return nil
	case "os.CreateTemp", "io/ioutil.TempFile":
		return []fsEffect{{Kind: "trunc", Path: mkApp("filepath.Join", types.Typ[types.String], a[0], mkApp("tmpname", types.Typ[types.String], a[1]))}}
	case "os.Remove", "os.RemoveAll":
		return []fsEffect{{Kind: "remove", Path: a[0]}}
	case "os.Rename":
		return []fsEffect{{Kind: "rename", Path: a[0], To: a[1]}}
	case "os.Mkdir", "os.MkdirAll":
		return []fsEffect{{Kind: "mkdir", Path: a[0]}}
	case "os.Truncate":
		return []fsEffect{{Kind: "trunc", Path: a[0]}}
	case "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes", "os.Symlink", "os.Link", "os.MkdirTemp", "os.CopyFS":
		return []fsEffect{{Kind: "other", Path: a[0]}}
	}
	if strings.HasPrefix(n, "(*os.File).") {
		p := filePath(a[0])
		switch m := n[len("(*os.File)."):]; m {
		case "Write", "WriteAt", "WriteString":
			return []fsEffect{{Kind: "data", Path: p, Data: a[1], File: a[0]}}
		case "ReadFrom":
			return []fsEffect{{Kind: "data", Path: p, File: a[0]}}
		case "Truncate":
			return []fsEffect{{Kind: "trunc", Path: p, File: a[0]}}
		case "Chmod", "Chown":
			return []fsEffect{{Kind: "other", Path: p, File: a[0]}}
		}
		return nil
	}
	if strings.HasPrefix(n, "os.") && !fsReads[n] || strings.HasPrefix(n, "io/ioutil.") && !fsReads[n] {
		return []fsEffect{{Kind: "other"}}
	}
	for _, p := range []string{"syscall.", "os/exec.", "(*os/exec.Cmd).", "golang.org/x/sys/"} {
		if strings.HasPrefix(n, p) {
			return []fsEffect{{Kind: "other"}}
		}
	}
	return nil
}

// filePath: the path an open file was opened with
func filePath(f *Term) *Term {
	for f.K == KIface || f.K == KConv {
		f = f.A[0]
	}
	if f.K == KApp {
		switch f.Name {
		case "os.Create#0", "os.Open#0", "os.OpenFile#0":
			return f.A[0]
		case "os.CreateTemp#0", "io/ioutil.TempFile#0":
			return mkApp("filepath.Join", types.Typ[types.String], f.A[0], mkApp("tmpname", types.Typ[types.String], f.A[1]))
		}
	}
	return nil
}

// classes of paths:
//
//	datadir, downloads   the two configured directories
//	index                a fixed name in datadir
//	bitmap               a computed name in datadir
//	tmp:C                a name made by appending a constant to a name of class C, or a temporary name in datadir
//	user                 anything else a user or peer may name, or a name in downloads
type pathInfo struct {
	field map[string]map[string]bool // string fields of the module's structs: classes of what is stored in them
}

func fieldKey(t *Term) string {
	f, n := fieldVar(t)
	if f == nil || n == nil || n.Obj().Pkg() == nil || !isModulePath(n.Obj().Pkg().Path()) {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
}

func classSet(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// class of a path in a state
func (pi *pathInfo) class(x *Exec, t *Term) string {
	m := map[string]bool{}
	pi.classes(x, t, m, map[*Term]bool{})
	return classSet(m)
}

func (pi *pathInfo) classes(x *Exec, t *Term, out map[string]bool, seen map[*Term]bool) {
	if t == nil {
		out["?"] = true
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for t.K == KConv {
		t = t.A[0]
	}
	if x != nil && len(x.joined[t]) > 0 {
		for _, s := range x.sources(t) {
			if s != t {
				pi.classes(x, s, out, seen)
			}
		}
		return
	}
	each := func(t *Term) []string {
		m := map[string]bool{}
		pi.classes(x, t, m, seen)
		var l []string
		for k := range m {
			l = append(l, k)
		}
		return l
	}
	switch t.K {
	case KLoad, KFieldV:
		k := fieldKey(t)
		switch k {
		case "catalogue.Cat.DataDir":
			out["datadir"] = true
			return
		case "catalogue.Cat.DefaultDownloadsDir":
			out["downloads"] = true
			return
		case "":
		default:
			if m := pi.field[k]; len(m) > 0 {
				for c := range m {
					out[c] = true
				}
				return
			}
			if pi.field != nil {
				out["user"] = true
				return
			}
			out["field:"+k] = true
			return
		}
	case KConst:
		if s, ok := t.constStr(); ok {
			if s == "" {
				return // no path at all
			}
			out["const:"+s] = true
			return
		}
	case KZero:
		return
	case KBin:
		if _, ok := t.A[1].constStr(); ok {
			for _, c := range each(t.A[0]) {
				out["tmp:"+strings.TrimPrefix(c, "tmp:")] = true
			}
			return
		}
	case KApp:
		switch t.Name {
		case "concat":
			if _, ok := t.A[len(t.A)-1].constStr(); ok && len(t.A) == 2 {
				for _, c := range each(t.A[0]) {
					out["tmp:"+strings.TrimPrefix(c, "tmp:")] = true
				}
				return
			}
		case "path/filepath.Clean#0", "path.Clean#0", "Clean":
			pi.classes(x, t.A[0], out, seen)
			return
		case "path/filepath.Abs#0":
			pi.classes(x, t.A[0], out, seen)
			return
		case "filepath.Join":
			if len(t.A) == 1 {
				pi.classes(x, t.A[0], out, seen)
				return
			}
			for _, c := range each(t.A[0]) {
				last := t.A[len(t.A)-1]
				_, fixed := last.constStr()
				switch {
				case c == "datadir" && len(t.A) == 2 && fixed:
					out["index"] = true
				case c == "datadir" && len(t.A) == 2 && last.K == KApp && last.Name == "tmpname":
					out["tmp:datadir"] = true
				case c == "datadir" && len(t.A) == 2 && last.K == KApp && last.Name == "hex.EncodeToString":
					out["bitmap"] = true
				case c == "datadir" && len(t.A) == 2 && (last.K == KApp && last.Name == "concat" || last.K == KBin):
					m := map[string]bool{}
					pi.classes(x, mkApp("filepath.Join", t.T, t.A[0], last.A[0]), m, seen)
					for k := range m {
						out["tmp:"+k] = true
					}
				case strings.HasPrefix(c, "field:") && len(t.A) == 2:
					out["join:"+c[6:]+":"+kindOfName(last)] = true
				default:
					out["user"] = true
				}
			}
			return
		}
	}
	out["user"] = true
}

func kindOfName(t *Term) string {
	if _, fixed := t.constStr(); fixed {
		return "index"
	}
	if t.K == KApp && t.Name == "hex.EncodeToString" {
		return "bitmap"
	}
	return "user"
}

// pathFields finds, for every string field of the catalogue's structs, the classes of the values stored there
func (c *Ctx) pathFields() *pathInfo {
	vals := map[string]map[string]bool{}
	pi := &pathInfo{}
	h := &Hooks{Store: func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if val == nil || !isString(val.T) || addr.K != KAddrF {
			return
		}
		k := fieldKey(addr)
		if k == "" {
			return
		}
		if vals[k] == nil {
			vals[k] = map[string]bool{}
		}
		pi.classes(x, val, vals[k], map[*Term]bool{})
	}}
	roots := c.P.catRoots()
	if f := c.P.Func("catalogue", "NewCat"); f != nil {
		roots = append(roots, f)
	}
	for _, f := range roots {
		c.run(f, h)
	}
	// resolve references between fields
	for changed := true; changed; {
		changed = false
		for k, m := range vals {
			add := func(s string) {
				if !m[s] {
					m[s] = true
					changed = true
				}
			}
			for v := range m {
				switch {
				case strings.HasPrefix(v, "field:"):
					for s := range vals[v[6:]] {
						if !strings.HasPrefix(s, "field:") && !strings.HasPrefix(s, "join:") {
							add(s)
						}
					}
				case strings.HasPrefix(v, "join:"):
					p := strings.Split(v, ":")
					for s := range vals[p[1]] {
						if s == "datadir" {
							add(p[2])
						} else if !strings.HasPrefix(s, "field:") && !strings.HasPrefix(s, "join:") {
							add("user")
						}
					}
				}
			}
			_ = k
		}
	}
	for _, m := range vals {
		for v := range m {
			if strings.HasPrefix(v, "field:") || strings.HasPrefix(v, "join:") || strings.HasPrefix(v, "const:") {
				delete(m, v)
			}
		}
	}
	pi.field = vals
	return pi
}

// within: the function, or one it was called from, is fn
func within(fr *Frame, fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.Caller {
		if fr.Fn == fn {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = constant.MakeBool

func ruleC15(c *Ctx, u string) {
	pi := c.pathFields()
	for k, m := range pi.field {
		c.fact("noted", "paths stored in "+k+": "+classSet(m))
	}
	save := c.P.Method("catalogue", "Cat", "SaveChunk")
	mainFn := c.P.mainFunc()
	listens := map[string]bool{}
	removes := map[string]ssa.Instruction{}
	fn := c.P.byRel(u)
	cat := map[*ssa.Function]bool{}
	for _, f := range append(c.P.catRoots(), c.P.Func("catalogue", "NewCat")) {
		cat[f] = f != fn
	}
	c.run(fn, &Hooks{Call: func(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
		if cat[ci.Callee] && !c.P.inCatalogue(ci.Frame.Fn) {
			return x.extern(st, ci), true // a unit of its own
		}
		if strings.HasPrefix(ci.Name, "net.ResolveUnixAddr") || ci.Name == "net.Listen" {
			if s, ok := ci.Args[1].constStr(); ok {
				listens[s] = true
			}
		}
		for _, e := range fsEffects(ci) {
			c.met("file effect", ci.Instr)
			cl := pi.class(x, e.Path)
			c.fact("noted", fmt.Sprintf("%s of %s in %s", e.Kind, cl, relName(ci.Frame.Fn)))
			if e.Kind == "other" {
				c.viol("unknown file effect", ci.Instr, st, "%s may change files and is not one of the operations the program needs", ci.Name)
				continue
			}
			for _, p := range []*Term{e.Path, e.To} {
				if p == nil && (p == e.To || e.File == nil) {
					continue
				}
				for _, k := range strings.Split(pi.class(x, p), "|") {
					switch {
					case k == "index" || k == "bitmap" || k == "tmp:index" || k == "tmp:bitmap" || k == "tmp:datadir":
						// inside the catalogue's own directory
					case e.Kind == "mkdir" && (k == "datadir" || k == "downloads"):
					case e.Kind == "mkdir" && strings.HasPrefix(k, "const:"):
					case e.Kind == "remove" && strings.HasPrefix(k, "const:") && fn == mainFn:
						removes[k[6:]] = ci.Instr
					case k == "user" && (e.Kind == "modify" || e.Kind == "data") && save != nil && within(ci.Frame, save) && fromIndex(x, p):
						c.met("chunk written", ci.Instr)
					case p == nil && e.Kind == "data":
						c.viol("write to user file", ci.Instr, st, "%s writes to a file opened elsewhere", ci.Name)
					default:
						c.viol("file outside the catalogue", ci.Instr, st, "%s (%s) reaches a path that is not one of the catalogue's own files: %s", ci.Name, e.Kind, p)
					}
				}
			}
		}
		return nil, false
	}})
	for s, in := range removes {
		if !listens[s] {
			c.viol("file outside the catalogue", in, nil, "%q is removed but is not the program's control socket", s)
		}
	}
}

func (P *Program) inCatalogue(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := P.Pkg("catalogue")
	return p != nil && fn.Pkg == p
}

// fromIndex: the path is a field of a record taken from the catalogue's table
func fromIndex(x *Exec, p *Term) bool {
	if p == nil {
		return false
	}
	for p.K == KConv || p.K == KApp && p.Name == "filepath.Join" && len(p.A) == 1 {
		p = p.A[0]
	}
	return p.K == KLoad && contains(p, func(t *Term) bool { return t.K == KAddrM })
}

func init() {
	register(&Rule{
		ID: "C15",
		Explain: "File-system effects on every path of the daemon's start, the message handler, every RPC method and every catalogue operation, with the path's origin (configured directory, " +
			"index name, hash name, record field, peer or user value): only index, bitmap and their temporary names are created, written, renamed or removed, except that " +
			"SaveChunk opens the record's file without truncation.",
		Units: func(P *Program) []string {
			us := union(names(P.daemonRoots()), names(P.catRoots()))
			return append(us, relName(P.mainFunc()))
		},
		Run: ruleC15,
		Min: map[string]int{"file effect": 8, "chunk written": 2},
	})
}
