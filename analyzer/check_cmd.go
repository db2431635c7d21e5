package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Commands: main is interpreted up to the execution of the root command; the
// functions of the command objects it built are then interpreted with
// arbitrary flag values and arguments. Parsers, evaluator and writers are
// opaque: their calls are events whose effects are compared with the rules of
// the file properties.

type cmdLab struct {
	c     *ctx
	errs  []string
	evals map[*ssa.Function]bool
	opq   map[*ssa.Function]string
	havoc map[*ssa.Function]bool
	// parsers used by the entry points, for C25
	parsers *parserUse
	watch   func(an *An, st *State, id int)
	ghosts  []string
}

// opaques are the functions that read, run and write scripts.
func (c *ctx) newCmdLab() *cmdLab {
	k := &cmdLab{c: c, evals: map[*ssa.Function]bool{}, opq: map[*ssa.Function]string{}, havoc: map[*ssa.Function]bool{}, parsers: &parserUse{m: map[string]map[string]map[string]bool{}}}
	w := c.w
	need := func(pkg, name, key string, havoc bool) {
		f := w.fn(pkg, name)
		if f == nil {
			k.errs = append(k.errs, fmt.Sprintf("%s.%s not found", pkg, name))
			return
		}
		k.opq[f] = key
		if havoc {
			k.havoc[f] = true
		}
	}
	need("edlisp", "Eval", "eval", true)
	need("edlisp", "EvalWithTrace", "eval", true)
	need("edlisp", "NewDefaultEnvironment", "environment", false)
	for _, n := range []string{"ParseString", "ParseReader", "ParseJSONString", "ParseJSONReader"} {
		need("edlisp/parser", n, "parse:"+n, false)
	}
	for _, n := range []string{"GetDocumentation", "GetAllDocumentation", "GetDocumentationByCategory", "GetCategories", "GetRegisteredFunctionCount"} {
		need("edlisp", n, "doc:"+n, false)
	}
	// functions running one test
	if res := w.typ("edlisp/testing", "TestResult"); res != nil {
		sc := w.ssaPkg[modPath+"/edlisp/testing"]
		for _, m := range sortedMembers(sc) {
			f, ok := m.(*ssa.Function)
			if ok && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(res)) {
				k.opq[f] = "runtest:" + f.Name()
			}
		}
	} else {
		k.errs = append(k.errs, "edlisp/testing.TestResult not found")
	}
	wt := w.typ("edlisp/writer", "Writer")
	if wt == nil {
		k.errs = append(k.errs, "edlisp/writer.Writer not found")
		return k
	}
	an := newAn(w)
	for _, t := range an.implementers(wt) {
		ms := w.prog.MethodSets.MethodSet(t)
		it := wt.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
				f := w.prog.MethodValue(sel)
				k.opq[f] = "writer:" + m.Name() + ":" + shortType(t)
				k.havoc[f] = true
			}
		}
	}
	return k
}

func (k *cmdLab) newAn() *An {
	an := newAn(k.c.w)
	an.opt.Opaque = k.opq
	an.opt.Havoc = k.havoc
	an.opt.Lean = true
	an.allocs = map[int]bool{}
	an.failGhost = func(string) bool { return true }
	an.nonNil = k.c.lab.valueT
	if k.watch != nil {
		an.onSymPtr = func(st *State, id int) { k.watch(an, st, id) }
	}
	an.frozen = []types.Type{k.c.w.typ("edlisp", "Environment")}
	if p := k.c.w.prog.ImportedPackage("github.com/spf13/cobra"); p != nil {
		an.frozen = append(an.frozen, p.Pkg.Scope().Lookup("Command").Type())
	}
	return an
}

// cmdFlag is a declared flag.
type cmdFlag struct {
	name string
	t    types.Type
	ptr  *PtrV
	key  string
	val  Val
}

// cmdRun is the interpretation of one command with given boolean flags.
type cmdRun struct {
	k     *cmdLab
	an    *An
	name  string
	combo string          // boolean flags that are set
	bools map[string]bool // value of each boolean flag (at most maxBools of them)
	flags map[string]Val
	args  SliceV // positional arguments
	start *State
	outs  []Out
	fn    *ssa.Function
	field string // Run or RunE
}

// mainRun is the interpretation of main.
type mainRun struct {
	an   *An
	outs []Out
	st   *State
	cmds map[string]int // name -> command object
	root int
	errs []string
}

const maxBools = 8

// main interprets the main function and finds the commands it registers.
func (k *cmdLab) main() *mainRun {
	m := &mainRun{an: k.newAn(), cmds: map[string]int{}, root: -1}
	p := k.c.w.ssaPkg[modPath+"/cmd/texted"]
	if p == nil || p.Func("main") == nil {
		m.errs = append(m.errs, "cmd/texted.main not found")
		return m
	}
	an := m.an
	m.outs = an.run(an.newState(), p.Func("main"))
	if len(m.outs) == 0 {
		m.errs = append(m.errs, "main has no outcome")
		return m
	}
	m.st = m.outs[0].st
	for _, e := range events(m.st.ev) {
		if e.Kind != "addcmd" {
			continue
		}
		for _, c := range e.Ret {
			pc, ok := c.(PtrV)
			use, ok2 := k.field(an, m.st, c, "Use").(StrV)
			name, ok3 := use.constant()
			if !ok || !ok2 || !ok3 {
				m.errs = append(m.errs, "a command added at "+an.w.pos(e.At)+" is not resolved")
				continue
			}
			name, _, _ = strings.Cut(name, " ")
			if _, dup := m.cmds[name]; dup {
				m.errs = append(m.errs, "command "+name+" is added twice")
			}
			m.cmds[name] = pc.Obj
			if r, ok := e.Args[0].(PtrV); ok {
				m.root = r.Obj
			}
		}
	}
	return m
}

// field loads the named field of the struct v points to.
func (k *cmdLab) field(an *An, st *State, v Val, name string) Val {
	p, ok := v.(PtrV)
	if !ok {
		return nil
	}
	o := st.obj(p.Obj)
	if o == nil || o.T == nil {
		return nil
	}
	return fieldOf(an.load(st, p), o.T, name)
}

func fieldOf(v Val, t types.Type, name string) Val {
	s, ok := v.(StructV)
	stt, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil
	}
	for i := range s.F {
		if stt.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

// flagsOf lists the flags declared for command object id.
func (m *mainRun) flagsOf(id int) []cmdFlag {
	var out []cmdFlag
	key := fmt.Sprintf("flags#%d", id)
	for _, e := range events(m.st.ev) {
		if e.Kind != "flag" || e.Args[0].(SymV).Note != key {
			continue
		}
		f := cmdFlag{name: e.Name, t: e.Ret[0].(flagDecl).T, key: key + " " + e.Name}
		if p, ok := e.Args[1].(PtrV); ok {
			f.ptr = &p
		}
		out = append(out, f)
	}
	return out
}

// combos gives the number of combinations of boolean flags of a command.
func (k *cmdLab) combos(name string) int {
	m := k.main()
	id, ok := m.cmds[name]
	if !ok {
		return 0
	}
	n := 0
	for _, f := range m.flagsOf(id) {
		if isBool(f.t) && n < maxBools {
			n++
		}
	}
	return 1 << n
}

// run interprets a command for one combination of its boolean flags.
func (k *cmdLab) run(name string, combo int) (*cmdRun, string) {
	m := k.main()
	id, ok := m.cmds[name]
	if !ok {
		return nil, "command " + name + " is not registered"
	}
	an := m.an
	r := &cmdRun{k: k, an: an, name: name, bools: map[string]bool{}, flags: map[string]Val{}}
	st := m.st.clone()
	st.ev = nil
	st.ghost["fail"] = lc(0)
	for _, g := range k.ghosts {
		st.ghost[g] = lc(0)
	}
	an.flagVal, an.flagType = map[string]Val{}, map[string]types.Type{}
	n := 0
	var set []string
	for _, f := range m.flagsOf(id) {
		var v Val
		if isBool(f.t) && n < maxBools {
			b := combo&(1<<n) != 0
			n++
			v = cb(b)
			r.bools[f.name] = b
			if b {
				set = append(set, f.name)
			}
		} else {
			v = an.havoc(st, f.t, "flag "+f.name)
		}
		r.flags[f.name] = v
		an.flagVal[f.key], an.flagType[f.key] = v, f.t
		if f.ptr != nil {
			an.store(st, *f.ptr, v)
		}
	}
	r.combo = strings.Join(set, " ")
	for _, fld := range []string{"RunE", "Run"} {
		fv, ok := k.field(an, st, PtrV{Obj: id}, fld).(FuncV)
		if !ok || fv.Fn == nil {
			continue
		}
		r.fn, r.field = fv.Fn, fld
		r.args, _ = an.havoc(st, types.NewSlice(types.Typ[types.String]), "args").(SliceV)
		r.start = st.clone()
		why := an.guard(func() {
			r.outs = an.callFunc(st, fv, []Val{PtrV{Obj: id}, r.args}, fv.Fn.Signature, 0)
		})
		return r, why
	}
	return nil, "command " + name + " has no resolved Run function"
}

// guard turns an exceeded budget into a reason.
func (an *An) guard(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stopAnalysis); ok {
				why = s.why
				return
			}
			panic(e)
		}
	}()
	f()
	return ""
}

func (k *cmdLab) debug() {
	t0 := time.Now()
	m := k.main()
	fmt.Println("main", len(m.outs), m.cmds, m.errs, m.an.unres, time.Since(t0), k.errs)
	for _, o := range m.outs {
		fmt.Println(" ->", o.kind)
		for _, e := range events(o.st.ev) {
			fmt.Println("   ", k.showEv(m.an, o.st, e))
		}
	}
	for _, name := range strings.Fields(os.Getenv("CMD")) {
		n := k.combos(name)
		tot := make([]int, n)
		dur := make([]time.Duration, n)
		outs := make([]string, n)
		parallel(n, func(i int) {
			if c := os.Getenv("COMBO"); c != "" && c != fmt.Sprint(i) {
				return
			}
			t := time.Now()
			r, why := k.run(name, i)
			dur[i] = time.Since(t)
			if r == nil {
				outs[i] = why
				return
			}
			tot[i] = len(r.outs)
			var b strings.Builder
			fmt.Fprintf(&b, "combo %d [%s] %s: %d outcomes %v %v\n", i, r.combo, why, len(r.outs), dur[i], r.an.unres)
			if os.Getenv("V") != "" {
				for k, l := range r.an.loopsRun {
					fmt.Fprintln(&b, "    loop", k, l.Mode, l.Rank, l.Inv)
				}
				for _, o := range r.outs {
					fmt.Fprintln(&b, "   ->", o.kind, r.an.showVal(o.st, o.ret), "fail", o.st.ghost["fail"])
					for _, e := range events(o.st.ev) {
						fmt.Fprintln(&b, "       ", k.showEv(r.an, o.st, e))
					}
				}
			}
			outs[i] = b.String()
		})
		sum := 0
		for i := range outs {
			fmt.Print(outs[i])
			sum += tot[i]
		}
		fmt.Println(name, n, "combinations", sum, "outcomes", time.Since(t0))
	}
}

func (k *cmdLab) showEv(an *An, st *State, e *Event) string {
	var a, r []string
	for _, x := range e.Args {
		a = append(a, short(an.showVal(st, x), 80))
	}
	for _, x := range e.Ret {
		r = append(r, short(an.showVal(st, x), 80))
	}
	s := fmt.Sprintf("%s %s(%s) = %s", e.Kind, e.Name, strings.Join(a, ", "), strings.Join(r, ", "))
	if e.Loop != nil {
		for i, b := range e.Loop.Backs {
			s += fmt.Sprintf("\n            iteration %d fail=%v", i, b.ghost["fail"])
			for _, x := range e.Loop.iteration(b) {
				s += "\n               " + k.showEv(an, b, x)
			}
		}
		for _, c := range e.Loop.Cells {
			s += fmt.Sprintf("\n            cell %s: %s -> %s", c.Name, an.showVal(e.Loop.Entry, c.Entry), an.showVal(e.Loop.Head, c.Head))
		}
	}
	return s
}
