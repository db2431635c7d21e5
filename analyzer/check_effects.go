package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: no access outside the buffer ---------------------------------------

var outsidePkgs = []string{"os", "syscall", "net", "internal/poll", "internal/syscall", "plugin", "math/rand", "crypto/rand", "internal/sysinfo",
	"golang.org/x/sys", "golang.org/x/net", "log", "testing", "runtime/debug", "runtime/pprof", "runtime/trace", "internal/testlog", "unsafe/linkname"}

func outsidePkg(p string) bool {
	for _, o := range outsidePkgs {
		if p == o || strings.HasPrefix(p, o+"/") {
			return true
		}
	}
	return false
}

var clockFuncs = map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true, "time.Sleep": true, "time.After": true, "time.AfterFunc": true,
	"time.Tick": true, "time.NewTimer": true, "time.NewTicker": true, "time.now": true, "time.runtimeNano": true, "time.runtimeNow": true}

var runtimeFuncs = map[string]bool{"runtime.Goexit": true, "runtime.GC": true, "runtime.NumGoroutine": true, "runtime.ReadMemStats": true, "runtime.Gosched": true,
	"runtime.Stack": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "runtime.NumCgoCall": true, "runtime.SetFinalizer": true}

type outside struct {
	memo map[*ssa.Function]string
}

// reaches tells what outside access a library function performs, by its own
// code and the functions it names.
func (o *outside) reaches(f *ssa.Function) string {
	if s, ok := o.memo[f]; ok {
		return s
	}
	o.memo[f] = ""
	p := fnPkg(f)
	switch {
	case outsidePkg(p):
		// the error values and predicates of package os are data
		switch f.Name() {
		case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "IsPathSeparator", "underlyingError", "underlyingErrorIs":
			return ""
		}
		if r := f.Signature.Recv(); r != nil && (f.Name() == "Error" || f.Name() == "Unwrap" || f.Name() == "Is" || f.Name() == "String" || f.Name() == "Timeout" || f.Name() == "Temporary") {
			return ""
		}
		if p == "testing" {
			return ""
		}
		o.memo[f] = fnName(f)
		return fnName(f)
	case clockFuncs[p+"."+f.Name()] || runtimeFuncs[p+"."+f.Name()]:
		o.memo[f] = fnName(f)
		return fnName(f)
	case p == "runtime" || p == "sync" || p == "reflect" || p == "encoding/json" || strings.HasPrefix(p, "sync/") || strings.HasPrefix(p, "internal/") || isInit(f):
		// scheduling, memory and type information only (the internal packages
		// that reach outside are in the list above)
		return ""
	}
	res := ""
	eachInstr(f, func(in ssa.Instruction) {
		if res != "" {
			return
		}
		for _, op := range in.Operands(nil) {
			switch x := (*op).(type) {
			case *ssa.Function:
				if s := o.reaches(x); s != "" {
					res = s
					return
				}
			case *ssa.Global:
				if x.Pkg != nil && outsidePkg(x.Pkg.Pkg.Path()) && !dataGlobal(x) {
					res = x.String()
					return
				}
			}
		}
	})
	o.memo[f] = res
	return res
}

// dataGlobal: a variable of an outside package that only holds data.
func dataGlobal(g *ssa.Global) bool {
	return strings.HasPrefix(g.Name(), "Err") || g.Name() == "ENOENT"
}

var corePkgs = []string{"edlisp", "edlisp/parser", "edlisp/writer"}

// coreFunctions are the functions of the core packages, the script functions
// of package texted, and everything of the module they reach.
func (c *ctx) coreFunctions(r *Report, g *Graph) []*ssa.Function {
	core := map[string]bool{}
	for _, p := range corePkgs {
		core[modPath+"/"+p] = true
		r.check(c.w.ssaPkg[modPath+"/"+p] != nil, "resolved", "package "+p, "not found")
	}
	var roots []*ssa.Function
	for _, f := range g.fns {
		if core[fnPkg(outermost(f))] {
			roots = append(roots, f)
		}
	}
	for _, n := range []string{"ExecuteScript", "ExecuteScriptWithFormat", "IsValidFormat"} {
		f := c.w.fn("", n)
		if r.check(f != nil, "resolved", "texted."+n, "not found") {
			roots = append(roots, f)
		}
	}
	return g.reach(roots)
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func checkC22(c *ctx, r *Report) {
	g := newGraph(c.w)
	o := &outside{memo: map[*ssa.Function]string{}}
	fns := c.coreFunctions(r, g)
	r.check(len(fns) >= 100, "analysed", "core functions", "only %d functions", len(fns))
	for _, f := range fns {
		r.fns[fnName(f)] = true
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := in.Pos()
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
						r.fail("no access outside the buffer", fmt.Sprintf("%s in %s, %s", b.Name(), fnName(f), c2pos(g, pos)), "writes to standard error")
					}
				}
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						if g.w.inMod(x) || isInit(x) {
							continue
						}
						n++
						s := o.reaches(x)
						r.check(s == "", "no access outside the buffer", fmt.Sprintf("%s in %s, %s", fnName(x), fnName(f), c2pos(g, pos)), "reaches %s", s)
					case *ssa.Global:
						if x.Pkg != nil && outsidePkg(x.Pkg.Pkg.Path()) && !dataGlobal(x) {
							r.fail("no access outside the buffer", fmt.Sprintf("%s in %s, %s", x.String(), fnName(f), c2pos(g, pos)), "uses %s", x.String())
						}
					}
				}
			}
		}
		if n == 0 {
			r.ok("no access outside the buffer", fnName(f))
		}
	}
	r.unit("functions", len(fns))
	r.unit("library functions", len(o.memo))
}

func c2pos(g *Graph, p token.Pos) string { return g.w.pos(p) }

// ---- C29: values are immutable ------------------------------------------------

// valueTypes are the concrete types of script values.
func (c *ctx) valueTypes() []types.Type {
	an := newAn(c.w)
	if c.lab.valueT == nil {
		return nil
	}
	var out []types.Type
	for _, t := range an.implementers(c.lab.valueT) {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		out = append(out, t)
	}
	return out
}

var mutatorFuncs = map[string]bool{}

func init() {
	for _, n := range []string{"Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc", "Grow"} {
		mutatorFuncs["slices."+n] = true
	}
	for _, n := range []string{"Slice", "SliceStable", "Sort", "Stable", "Strings", "Ints", "Float64s"} {
		mutatorFuncs["sort."+n] = true
	}
	mutatorFuncs["maps.Copy"] = true
	mutatorFuncs["maps.DeleteFunc"] = true
	mutatorFuncs["maps.Insert"] = true
}

func originName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return fnPkg(f) + "." + f.Name()
}

func checkC29(c *ctx, r *Report) {
	g := newGraph(c.w)
	vts := c.valueTypes()
	r.check(len(vts) >= 4, "resolved", "value types", "only %d types implement Value", len(vts))
	isVal := func(t types.Type) (types.Type, bool) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		for _, v := range vts {
			if types.Identical(t, v) {
				return v, true
			}
		}
		return nil, false
	}
	// slices that existing values consist of
	fl := newFlow(g)
	fl.deref = func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	n := 0
	for _, f := range g.fns {
		r.fns[fnName(f)] = true
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if v, ok := isVal(fa.X.Type()); ok && refType(x.Type()) && isSliceOrMap(x.Type()) {
						if g.fresh(fa.X) && !g.escapesBefore(fa.X) {
							return
						}
						n++
						fl.mark(x, tElem|tAppend, "elements of a "+shortType(v)+" at "+g.w.pos(fa.Pos()))
					}
				}
			case *ssa.Field:
				if v, ok := isVal(x.X.Type()); ok && isSliceOrMap(x.Type()) {
					n++
					fl.mark(x, tElem|tAppend, "elements of a "+shortType(v)+" at "+g.w.pos(x.Pos()))
				}
			}
		})
		// programs handed to the evaluator
		if f == c.w.fn("edlisp", "Eval") || f == c.w.fn("edlisp", "EvalWithTrace") {
			for _, p := range f.Params {
				if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), c.lab.valueT) {
					fl.mark(p, tElem|tAppend, "the program handed to "+fnName(f))
				}
			}
		}
	}
	r.check(n >= 3, "analysed", "reads of the elements of values", "only %d", n)
	fl.run()
	stores := 0
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			site := func(what string) string { return fmt.Sprintf("%s in %s, %s", what, fnName(f), g.w.pos(in.Pos())) }
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if v, ok := isVal(a.X.Type()); ok {
						stores++
						r.check(g.fresh(a.X), "fields of existing values are not written", site("write to a field of "+shortType(v)), "the value was not created here")
					}
				case *ssa.IndexAddr:
					if fl.val[a.X] != 0 {
						stores++
						r.fail("elements of existing values are not written", site("write to an element"), "%s", fl.why[a.X])
					}
				default:
					if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok {
						if v, ok := isVal(p.Elem()); ok {
							if _, isPtr := p.Elem().Underlying().(*types.Pointer); !isPtr {
								stores++
								r.check(g.fresh(x.Addr), "fields of existing values are not written", site("overwrites a "+shortType(v)), "the value was not created here")
							}
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				switch callee := cc.Value.(type) {
				case *ssa.Builtin:
					switch callee.Name() {
					case "append":
						stores++
						r.check(fl.val[cc.Args[0]]&tAppend == 0, "elements of existing values are not written", site("append"), "may write behind the %s", fl.why[cc.Args[0]])
					case "copy", "clear", "delete":
						stores++
						r.check(fl.val[cc.Args[0]] == 0, "elements of existing values are not written", site(callee.Name()), "writes to the %s", fl.why[cc.Args[0]])
					}
				case *ssa.Function:
					if !g.w.inMod(callee) && mutatorFuncs[originName(callee)] && len(cc.Args) > 0 {
						a := cc.Args[0]
						if m, ok := a.(*ssa.MakeInterface); ok {
							a = m.X
						}
						stores++
						r.check(fl.val[a] == 0 && fl.val[cc.Args[0]] == 0, "elements of existing values are not written", site(originName(callee)), "writes to the %s", fl.why[a])
					}
				}
			}
		})
	}
	r.check(stores >= 20, "analysed", "writes", "only %d", stores)
	r.unit("functions", len(g.fns))
	r.unit("writes", stores)
}

func isSliceOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// escapesBefore: fresh storage that may already be known elsewhere. Only
// storage allocated by this very function counts as private.
func (g *Graph) escapesBefore(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return !ok
}

// ---- C21: isolation ----------------------------------------------------------

// locks held at every instruction of a function, as "global/mode" strings.
type lockSets struct {
	g     *Graph
	entry map[*ssa.Function]map[string]int // mutex -> 1 read, 2 write
}

func lockOp(in ssa.Instruction) (mutex string, mode int, lock bool, ok bool) {
	c, isCall := in.(ssa.CallInstruction)
	if !isCall {
		return
	}
	f := c.Common().StaticCallee()
	if f == nil || fnPkg(f) != "sync" || len(c.Common().Args) == 0 {
		return
	}
	r := f.Signature.Recv()
	if r == nil {
		return
	}
	m := mutexName(c.Common().Args[0])
	if m == "" {
		return
	}
	switch f.Name() {
	case "Lock":
		return m, 2, true, true
	case "RLock":
		return m, 1, true, true
	case "Unlock":
		return m, 2, false, true
	case "RUnlock":
		return m, 1, false, true
	}
	return
}

// onceOp recognises running a function once: what it wrote is seen by
// everybody who waited for it.
func onceOp(in ssa.Instruction) (once string, f *ssa.Function, ok bool) {
	c, isCall := in.(*ssa.Call)
	if !isCall {
		return
	}
	callee := c.Common().StaticCallee()
	if callee == nil || callee.String() != "(*sync.Once).Do" {
		return
	}
	once = mutexName(c.Common().Args[0])
	switch x := c.Common().Args[1].(type) {
	case *ssa.Function:
		f = x
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	}
	return once, f, once != "" && f != nil
}

// mutexName names the storage of a mutex: a global, or a field of one.
func mutexName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return x.String()
	case *ssa.FieldAddr:
		if b := mutexName(x.X); b != "" {
			return fmt.Sprintf("%s.%d", b, x.Field)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return mutexName(x.X)
		}
	}
	return ""
}

// at computes the locks held before in.
func (ls *lockSets) at(target ssa.Instruction) map[string]int {
	f := target.Parent()
	// forward must-analysis
	ins := map[*ssa.BasicBlock]map[string]int{}
	known := map[*ssa.BasicBlock]bool{}
	transfer := func(b *ssa.BasicBlock, s map[string]int, stop ssa.Instruction) map[string]int {
		t := map[string]int{}
		for k, v := range s {
			t[k] = v
		}
		for _, in := range b.Instrs {
			if in == stop {
				break
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			if m, _, ok := onceOp(in); ok {
				t["once "+m] = max(t["once "+m], 1)
				continue
			}
			if m, mode, lock, ok := lockOp(in); ok {
				if lock {
					t[m] = max(t[m], mode)
				} else {
					delete(t, m)
				}
				continue
			}
			// a function of the module may release or take locks
			if c, ok := in.(*ssa.Call); ok {
				for _, g := range ls.g.targets(c) {
					ls.effect(g, t, map[*ssa.Function]bool{})
				}
			}
		}
		return t
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	ins[f.Blocks[0]] = ls.entry[f]
	known[f.Blocks[0]] = true
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := transfer(b, ins[b], nil)
		for _, s := range b.Succs {
			if !known[s] {
				known[s] = true
				ins[s] = out
				work = append(work, s)
				continue
			}
			m := map[string]int{}
			for k, v := range ins[s] {
				if w := min(v, out[k]); w > 0 {
					m[k] = w
				}
			}
			if len(m) != len(ins[s]) || !sameLocks(m, ins[s]) {
				ins[s] = m
				work = append(work, s)
			}
		}
	}
	return transfer(target.Block(), ins[target.Block()], target)
}

func sameLocks(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// effect applies what a call does to locks: helpers that lock or unlock.
func (ls *lockSets) effect(f *ssa.Function, t map[string]int, seen map[*ssa.Function]bool) {
	if seen[f] || f.Blocks == nil {
		return
	}
	seen[f] = true
	locked := map[string]int{}
	unlocked := map[string]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		if m, mode, lock, ok := lockOp(in); ok {
			if lock {
				locked[m] = max(locked[m], mode)
			} else {
				unlocked[m] = true
			}
		}
	})
	for m := range unlocked {
		delete(t, m)
	}
	for m, mode := range locked {
		if !unlocked[m] {
			t[m] = mode
		}
	}
}

// solve computes the locks held whenever a function is entered.
func (ls *lockSets) solve() {
	ls.entry = map[*ssa.Function]map[string]int{}
	// optimistic start for internal functions: iterate downwards from "all"
	all := map[string]int{}
	for _, f := range ls.g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			if m, mode, lock, ok := lockOp(in); ok && lock {
				all[m] = max(all[m], mode)
			}
		})
	}
	internal := func(f *ssa.Function) bool {
		return !ls.g.taken[f] && !exportedFn(f) && !isInit(f) && len(ls.g.callers[f]) > 0
	}
	for _, f := range ls.g.fns {
		ls.entry[f] = map[string]int{}
		if internal(f) {
			for k, v := range all {
				ls.entry[f][k] = v
			}
		}
	}
	for _, f := range ls.g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			if m, h, ok := onceOp(in); ok && ls.entry[h] != nil {
				uses := 0
				for _, q := range ls.g.fns {
					eachInstr(q, func(in ssa.Instruction) {
						for _, o := range in.Operands(nil) {
							if *o == ssa.Value(h) {
								uses++
							}
						}
					})
				}
				if uses == 1 && !exportedFn(h) {
					ls.entry[h]["once "+m] = 2
				}
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for _, f := range ls.g.fns {
			if !internal(f) || len(ls.entry[f]) == 0 {
				continue
			}
			for _, c := range ls.g.callers[f] {
				var at map[string]int
				if _, isGo := c.(*ssa.Go); !isGo && !ls.g.inits[c.Parent()] {
					at = ls.at(c)
				} else if ls.g.inits[c.Parent()] {
					continue
				}
				for k, v := range ls.entry[f] {
					if w := min(v, at[k]); w != v {
						changed = true
						if w == 0 {
							delete(ls.entry[f], k)
						} else {
							ls.entry[f][k] = w
						}
					}
				}
			}
		}
	}
}

// access is a use of a package-level variable or what it refers to.
type access struct {
	in    ssa.Instruction
	write bool
	what  string
	store string // the storage accessed: the variable, or objects of a type
}

func syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// storeKey names the kind of storage v refers to.
func storeKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return storeKey(x.X)
	case *ssa.IndexAddr:
		return storeKey(x.X)
	case *ssa.Slice:
		return storeKey(x.X)
	case *ssa.Global:
		return ""
	case *ssa.Range:
		return storeKey(x.X)
	}
	return types.TypeString(v.Type().Underlying(), nil)
}

// accesses lists the uses of a global outside initialisation.
func (g *Graph) accesses(gl *ssa.Global) []access {
	var out []access
	fl := newFlow(g)
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			for _, o := range in.Operands(nil) {
				if *o != ssa.Value(gl) {
					continue
				}
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if refType(x.Type()) {
							fl.mark(x, 3, "")
						}
						out = append(out, access{in, false, "read", ""})
					}
				case *ssa.Store:
					if x.Addr == ssa.Value(gl) {
						out = append(out, access{in, true, "write", ""})
					} else {
						fl.mark(gl, 3, "")
						out = append(out, access{in, true, "its address escapes", ""})
					}
				case *ssa.FieldAddr:
					fl.mark(x, 3, "")
				case *ssa.IndexAddr:
					if x.X == ssa.Value(gl) {
						fl.mark(x, 3, "")
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if a == ssa.Value(gl) && !syncType(gl.Type()) {
							if t := g.targets(x); len(t) == 0 {
								out = append(out, access{in, !readOnlyCall(x), "passed to " + x.Common().Value.Name(), ""})
							} else {
								fl.call(gl, 3, "", x)
							}
						}
					}
				case *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Phi:
					if v, ok := in.(ssa.Value); ok && !syncType(gl.Type()) {
						fl.mark(v, 3, "")
					}
				}
			}
		})
	}
	fl.run()
	var vs []ssa.Value
	for v := range fl.val {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Pos() != vs[j].Pos() {
			return vs[i].Pos() < vs[j].Pos()
		}
		return vs[i].Name() < vs[j].Name()
	})
	for _, v := range vs {
		key := storeKey(v)
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, access{r, true, "write to its contents", key})
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					out = append(out, access{r, false, "read of its contents", key})
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					out = append(out, access{r, true, "map write", key})
				}
			case *ssa.Lookup:
				if x.X == v {
					out = append(out, access{r, false, "map read", key})
				}
			case *ssa.Range:
				out = append(out, access{r, false, "iteration", key})
			case *ssa.Next:
				out = append(out, access{r, false, "iteration", key})
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append", "copy", "clear", "delete":
						out = append(out, access{r, len(cc.Args) > 0 && cc.Args[0] == v, b.Name(), key})
					case "len", "cap":
						out = append(out, access{r, false, b.Name(), key})
					}
					continue
				}
				if len(g.targets(x)) == 0 && !syncType(v.Type()) {
					out = append(out, access{r, !readOnlyCall(x), "passed to " + x.Common().Value.Name(), key})
				}
			}
		}
	}
	var res []access
	for _, a := range out {
		if f := a.in.Parent(); f != nil && !g.inits[f] {
			res = append(res, a)
		}
	}
	return res
}

// readOnlyCall: the library function does not modify what it is given, or is
// documented as safe for concurrent use.
func readOnlyCall(c ssa.CallInstruction) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Error" || cc.Method.Name() == "String"
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	switch fnPkg(f) {
	case "fmt", "strings", "errors", "regexp", "strconv", "unicode", "unicode/utf8", "reflect", "sync", "sync/atomic", "bytes":
		if r := f.Signature.Recv(); r != nil && (strings.Contains(r.Type().String(), "Builder") || strings.Contains(r.Type().String(), "bytes.Buffer") || strings.Contains(r.Type().String(), "Reader")) {
			return false
		}
		return true
	case "sort", "slices", "maps":
		return !mutatorFuncs[originName(f)]
	}
	if strings.HasPrefix(fnPkg(f), "github.com/mark3labs/mcp-go/mcp") || strings.HasPrefix(fnPkg(f), "github.com/spf13") {
		return true
	}
	return false
}

func checkC21(c *ctx, r *Report) {
	g := newGraph(c.w)
	ls := &lockSets{g: g}
	ls.solve()
	nGlobals, guarded := 0, 0
	for _, p := range c.w.pkgs {
		sp := c.w.ssaPkg[p.PkgPath]
		for _, m := range sortedMembers(sp) {
			gl, ok := m.(*ssa.Global)
			if !ok || gl.Name() == "init$guard" {
				continue
			}
			nGlobals++
			name := strings.TrimPrefix(gl.String(), modPath+"/")
			if syncType(gl.Type()) {
				r.ok("package variables are not written after initialisation, or guarded", name)
				continue
			}
			groups := map[string][]access{}
			var keys []string
			for _, a := range g.accesses(gl) {
				if groups[a.store] == nil {
					keys = append(keys, a.store)
				}
				groups[a.store] = append(groups[a.store], a)
			}
			sort.Strings(keys)
			wrote := false
			for _, k := range keys {
				wrote = g.guarded(r, ls, name, groups[k]) || wrote
			}
			if wrote {
				guarded++
			} else {
				r.ok("package variables are not written after initialisation, or guarded", name)
			}
		}
	}
	r.check(nGlobals >= 4, "analysed", "package variables", "only %d", nGlobals)
	r.unit("package variables", nGlobals)
	r.unit("written after initialisation", guarded)
	c.environments(r, g)
	c.handlers(r, g)
	c.ownBuffers(r)
}

// guarded checks the accesses to one part of what a variable refers to, and
// tells whether it is ever written.
func (g *Graph) guarded(r *Report, ls *lockSets, name string, acc []access) bool {
	const rule = "package variables are not written after initialisation, or guarded"
	write := false
	for _, a := range acc {
		write = write || a.write
	}
	if !write {
		return false
	}
	var common map[string]bool
	var locks []map[string]int
	for _, a := range acc {
		l := ls.at(a.in)
		locks = append(locks, l)
		s := map[string]bool{}
		for m, mode := range l {
			if mode == 2 || !a.write {
				s[m] = true
			}
		}
		if common == nil {
			common = s
			continue
		}
		for m := range common {
			if !s[m] {
				delete(common, m)
			}
		}
	}
	if len(common) > 0 {
		r.ok(rule, name)
		return true
	}
	for i, a := range acc {
		ok := false
		for _, mode := range locks[i] {
			if mode == 2 || !a.write {
				ok = true
			}
		}
		if !ok {
			why := "is not guarded by a lock"
			if a.write && len(locks[i]) > 0 {
				why = "holds the lock for reading only"
			}
			r.fail(rule, fmt.Sprintf("%s: %s in %s, %s", name, a.what, fnName(a.in.Parent()), g.w.pos(a.in.Pos())), "%s", why)
		}
	}
	r.fail(rule, name, "written after initialisation and no lock is held at every access")
	return true
}

// environments: function tables are complete when they are handed out.
func (c *ctx) environments(r *Report, g *Graph) {
	envT := c.w.typ("edlisp", "Environment")
	if envT == nil {
		r.fail("resolved", "edlisp.Environment", "not found")
		return
	}
	isEnv := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(t, envT)
	}
	fl := newFlow(g)
	n := 0
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isEnv(fa.X.Type()) && refType(x.Type()) {
					n++
					if !g.fresh(fa.X) {
						fl.mark(x, 3, "a field of an environment at "+g.w.pos(fa.Pos()))
					}
				}
			}
		})
	}
	fl.deref = func(t types.Type) bool { return isSliceOrMap(t) }
	fl.run()
	r.check(n >= 1, "analysed", "reads of the environment", "none")
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			site := func(what string) string { return fmt.Sprintf("%s in %s, %s", what, fnName(f), g.w.pos(in.Pos())) }
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isEnv(fa.X.Type()) {
					r.check(g.fresh(fa.X), "environments are not changed once handed out", site("write to a field"), "the environment was not created here")
				}
			case *ssa.MapUpdate:
				if fl.val[x.Map] != 0 {
					r.fail("environments are not changed once handed out", site("map write"), "%s", fl.why[x.Map])
				} else {
					r.ok("environments are not changed once handed out", site("map write"))
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && fl.val[x.Common().Args[0]] != 0 {
					r.fail("environments are not changed once handed out", site(b.Name()), "%s", fl.why[x.Common().Args[0]])
				}
			}
		})
	}
}

// handlers: functions that the tool server calls concurrently keep no state
// in variables they captured.
func (c *ctx) handlers(r *Report, g *Graph) {
	n := 0
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			callee := call.Common().StaticCallee()
			if callee == nil || !strings.HasPrefix(fnPkg(callee), "github.com/mark3labs/mcp-go/server") {
				return
			}
			for _, a := range call.Common().Args {
				var h *ssa.Function
				var bind []ssa.Value
				v := a
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				switch x := v.(type) {
				case *ssa.Function:
					h = x
				case *ssa.MakeClosure:
					h, bind = x.Fn.(*ssa.Function), x.Bindings
				default:
					if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
						r.fail("resolved", fmt.Sprintf("handler in %s, %s", fnName(f), g.w.pos(in.Pos())), "not resolved")
					}
					continue
				}
				n++
				construct := "handler " + fnName(h)
				fl := newFlow(g)
				for i := range bind {
					fl.mark(h.FreeVars[i], 3, "captured variable "+h.FreeVars[i].Name())
				}
				fl.run()
				bad := ""
				for _, q := range g.reach([]*ssa.Function{h}) {
					eachInstr(q, func(in ssa.Instruction) {
						switch x := in.(type) {
						case *ssa.Store:
							if fl.val[x.Addr] != 0 {
								bad = fl.why[x.Addr] + " is written at " + g.w.pos(in.Pos())
							}
						case *ssa.MapUpdate:
							if fl.val[x.Map] != 0 {
								bad = fl.why[x.Map] + " is written at " + g.w.pos(in.Pos())
							}
						case ssa.CallInstruction:
							if len(g.targets(x)) == 0 && !readOnlyCall(x) {
								for _, a := range x.Common().Args {
									if fl.val[a] != 0 && refType(a.Type()) && !syncType(a.Type()) {
										if _, isB := x.Common().Value.(*ssa.Builtin); !isB {
											bad = fl.why[a] + " is passed on at " + g.w.pos(in.Pos())
										}
									}
								}
							}
						}
					})
				}
				r.check(bad == "", "concurrent handlers share no variables", construct, "%s", bad)
			}
		})
	}
	r.check(n >= 3, "analysed", "handlers", "only %d functions are handed to the tool server", n)
}

// ownBuffers is decided with the tool and file properties' paths.
func (c *ctx) ownBuffers(r *Report) { c.files(r) }
