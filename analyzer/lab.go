package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lab prepares states for the analysis of built-in functions and observes
// buffers through their public methods, so that nothing here depends on how
// a buffer is represented.
type Lab struct {
	w        *World
	bufT     types.Type // edlisp.Buffer
	valueT   types.Type // edlisp.Value
	newBuf   *ssa.Function
	mString  *ssa.Function
	mPoint   *ssa.Function
	mMark    *ssa.Function
	mSetP    *ssa.Function
	mSetM    *ssa.Function
	newErr   *ssa.Function
	execErrT types.Type
	errs     []string
	builtins map[string]*ssa.Function
	names    []string
}

func newLab(w *World) *Lab {
	l := &Lab{w: w, builtins: map[string]*ssa.Function{}}
	need := func(name string) *ssa.Function {
		f := w.fn("edlisp", name)
		if f == nil {
			l.errs = append(l.errs, "edlisp."+name+" not found")
		}
		return f
	}
	l.bufT = w.typ("edlisp", "Buffer")
	l.valueT = w.typ("edlisp", "Value")
	l.newBuf = need("NewBuffer")
	l.mString = need("Buffer.String")
	l.mPoint = need("Buffer.Point")
	l.mMark = need("Buffer.Mark")
	l.mSetP = need("Buffer.SetPoint")
	l.mSetM = need("Buffer.SetMark")
	l.newErr = need("NewExecutionError")
	l.execErrT = w.typ("edlisp", "ExecutionError")
	if l.bufT == nil || l.valueT == nil || l.execErrT == nil {
		l.errs = append(l.errs, "edlisp types not found")
	}
	if len(l.errs) == 0 {
		l.findBuiltins()
	}
	return l
}

// findBuiltins recovers the function table of the default environment by
// interpreting its constructor.
func (l *Lab) findBuiltins() {
	f := l.w.fn("edlisp", "NewDefaultEnvironment")
	if f == nil {
		l.errs = append(l.errs, "edlisp.NewDefaultEnvironment not found")
		return
	}
	an := newAn(l.w)
	st := an.newState()
	outs := an.call(st, f, nil, nil)
	if len(outs) != 1 || outs[0].kind != outReturn {
		l.errs = append(l.errs, fmt.Sprintf("NewDefaultEnvironment has %d outcomes", len(outs)))
		return
	}
	st = outs[0].st
	m := an.findMap(st, outs[0].ret)
	if m == nil || m.Open {
		l.errs = append(l.errs, "function table of NewDefaultEnvironment not resolved")
		return
	}
	for i, k := range m.Keys {
		s, ok := an.strOf(st, k)
		name, ok2 := s.constant()
		fv, ok3 := m.Vals[i].(FuncV)
		if !ok || !ok2 || !ok3 || fv.Fn == nil {
			l.errs = append(l.errs, "function table entry not resolved")
			continue
		}
		l.builtins[name] = fv.Fn
		if len(fv.Bind) > 0 {
			l.errs = append(l.errs, "function table entry "+name+" is a closure")
		}
		l.names = append(l.names, name)
	}
	sort.Strings(l.names)
}

// findMap finds the map with string keys and function values held in the
// struct v points to.
func (an *An) findMap(st *State, v Val) *MapObj {
	p, ok := v.(PtrV)
	if !ok {
		return nil
	}
	s, ok := an.load(st, p).(StructV)
	if !ok {
		return nil
	}
	for _, f := range s.F {
		if m, ok := f.(MapV); ok {
			if o := st.obj(m.Obj); o != nil && o.Map != nil {
				return o.Map
			}
		}
	}
	return nil
}

// single interprets a function that must have exactly one outcome per
// partition; it returns the partitions.
func (an *An) run(st *State, fn *ssa.Function, args ...Val) []Out {
	return an.call(st, fn, args, nil)
}

// Obs is what can be observed of a buffer.
type Obs struct {
	Text  StrV
	Point Lin
	Mark  Lin
	Match [3]Val // text, start, end of the remembered match
}

// PreState is a symbolic buffer before an instruction.
type PreState struct {
	st  *State
	buf PtrV
	obs Obs
}

// buffer makes an arbitrary buffer satisfying the invariant that point and
// mark lie inside it.
func (l *Lab) buffer(an *An, st *State) []PreState {
	text := baseStr(st.newBase("text"))
	var out []PreState
	for _, o := range an.run(st, l.newBuf, text) {
		p, ok := o.ret.(PtrV)
		if !ok || o.kind != outReturn {
			an.unresolved("NewBuffer does not return a buffer")
			continue
		}
		// an arbitrary state: every scalar field is unknown
		s := o.st
		obj := *s.obj(p.Obj)
		obj.V = an.scramble(s, obj.V, obj.T, "buffer")
		s.put(p.Obj, &obj)
		for _, q := range l.observe(an, s, p) {
			for _, g := range q.st.assumeAll(
				cge(q.obs.Point.addk(-1)), cge(q.obs.Text.length().addk(1).sub(q.obs.Point)),
				cge(q.obs.Mark.addk(-1)), cge(q.obs.Text.length().addk(1).sub(q.obs.Mark))) {
				out = append(out, PreState{st: g, buf: p, obs: q.obs})
			}
		}
	}
	return out
}

func (st *State) assumeAll(cs ...Cond) []*State {
	sts := []*State{st}
	for _, c := range cs {
		var n []*State
		for _, s := range sts {
			n = append(n, s.assume(c)...)
		}
		sts = n
	}
	return sts
}

// scramble replaces the scalars and texts in v by unknown ones.
func (an *An) scramble(st *State, v Val, t types.Type, name string) Val {
	switch x := v.(type) {
	case StructV:
		u := t.Underlying().(*types.Struct)
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = an.scramble(st, x.F[i], u.Field(i).Type(), u.Field(i).Name())
		}
		return StructV{F: f}
	case PtrV:
		o := st.obj(x.Obj)
		if o != nil && o.V != nil && x.Path == "" && x.Idx == nil {
			n := *o
			n.V = an.scramble(st, o.V, o.T, name)
			st.put(x.Obj, &n)
		}
		return x
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return an.havoc(st, t, name)
	case *types.Slice:
		if isByteSlice(t) {
			return an.havoc(st, t, name)
		}
	}
	if isBuilder(t) {
		return an.havoc(st, t, name)
	}
	return v
}

// ObsOut is an observation together with the state it was made in.
type ObsOut struct {
	st  *State
	obs Obs
}

// observe reads text, point, mark and remembered match of a buffer through
// its methods.
func (l *Lab) observe(an *An, st *State, buf Val) []ObsOut {
	an.quiet++
	defer func() { an.quiet-- }()
	var out []ObsOut
	for _, a := range an.run(st, l.mString, buf) {
		if a.kind != outReturn {
			continue
		}
		text, ok := an.strOf(a.st, a.ret)
		if !ok {
			continue
		}
		for _, b := range an.run(a.st, l.mPoint, buf) {
			if b.kind != outReturn {
				continue
			}
			p, ok := b.ret.(IntV)
			if !ok {
				continue
			}
			for _, c := range an.run(b.st, l.mMark, buf) {
				if c.kind != outReturn {
					continue
				}
				m, ok := c.ret.(IntV)
				if !ok {
					continue
				}
				for _, d := range l.matches(an, c.st, buf) {
					out = append(out, ObsOut{d.st, Obs{Text: text, Point: p.L, Mark: m.L, Match: d.obs.Match}})
				}
			}
		}
	}
	return out
}

// matches reads the remembered match from the execution error made for the
// buffer.
func (l *Lab) matches(an *An, st *State, buf Val) []ObsOut {
	n := len(l.newErr.Params)
	args := make([]Val, n)
	for i, p := range l.newErr.Params {
		if types.Identical(p.Type(), types.NewPointer(l.bufT)) {
			args[i] = buf
		} else {
			args[i] = an.zero(st, p.Type())
		}
	}
	var out []ObsOut
	for _, o := range an.run(st, l.newErr, args...) {
		p, ok := o.ret.(PtrV)
		if o.kind != outReturn || !ok {
			continue
		}
		s, ok := an.load(o.st, p).(StructV)
		if !ok {
			continue
		}
		var ob Obs
		t := l.execErrT.Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			switch t.Field(i).Name() {
			case "LastSearchMatch":
				ob.Match[0] = s.F[i]
			case "LastSearchStart":
				ob.Match[1] = s.F[i]
			case "LastSearchEnd":
				ob.Match[2] = s.F[i]
			}
		}
		out = append(out, ObsOut{o.st, ob})
	}
	return out
}

// args makes n unknown script values.
func (l *Lab) args(an *An, st *State, n int) (Val, []Val) {
	vals := make([]Val, n)
	for i := range vals {
		id := an.nextID()
		vals[i] = SymV{ID: id, T: l.valueT, NN: lc(1), Note: fmt.Sprintf("arg%d", i)}
	}
	return an.mkSlice(st, l.valueT, vals, "args"), vals
}

// manyArgs makes an argument list of unknown length >= n.
func (l *Lab) manyArgs(an *An, st *State, n int) SliceV {
	v := an.havoc(st, types.NewSlice(l.valueT), "args").(SliceV)
	st.must(v.Len.addk(-int64(n)))
	// the evaluator passes no nil values (C11)
	if o := st.obj(v.Arr); o != nil && o.Arr != nil {
		no := *o
		na := *o.Arr
		na.Gen = func(s *State, i Lin) Val {
			f := an.fresh(s, fmt.Sprintf("arg%d:%s", v.Arr, i.key()), l.valueT, "args["+an.show(i)+"]")
			if y, ok := f.(SymV); ok {
				y.NN = lc(1)
				return y
			}
			return f
		}
		no.Arr = &na
		st.put(v.Arr, &no)
	}
	return v
}

// call analyses one built-in on an arbitrary buffer.
type Outcome struct {
	pre  PreState
	args []Val
	many *SliceV
	out  Out
	ok   bool // returned without error
	err  Val
	ret  Val
	post []ObsOut
}

func (l *Lab) runBuiltin(an *An, fn *ssa.Function, nargs int, many bool) []Outcome {
	var res []Outcome
	st := an.newState()
	var av Val
	var vals []Val
	var mv *SliceV
	if many {
		s := l.manyArgs(an, st, nargs)
		av, mv = s, &s
	} else {
		av, vals = l.args(an, st, nargs)
	}
	for _, pre := range l.buffer(an, st) {
		for _, o := range an.run(pre.st, fn, av, pre.buf) {
			oc := Outcome{pre: pre, args: vals, many: mv, out: o}
			if o.kind == outReturn {
				t, ok := o.ret.(TupleV)
				if ok && len(t.E) == 2 {
					oc.ret, oc.err = t.E[0], t.E[1]
				}
				for _, s := range o.st.assume(o.st.isNil(oc.err)) {
					oc2 := oc
					oc2.ok = true
					oc2.out.st = s
					oc2.post = l.observe(an, s, pre.buf)
					res = append(res, oc2)
				}
				for _, s := range o.st.assume(o.st.isNil(oc.err).not()) {
					oc2 := oc
					oc2.out.st = s
					oc2.post = l.observe(an, s, pre.buf)
					res = append(res, oc2)
				}
			} else {
				res = append(res, oc)
			}
		}
	}
	return res
}

func (an *An) showVal(st *State, v Val) string {
	switch x := v.(type) {
	case IntV:
		return an.show(x.L)
	case StrV:
		return st.showStr(x)
	case IfaceV:
		return shortType(x.T) + "(" + an.showVal(st, x.V) + ")"
	case PtrV:
		if x.Path == "" && x.Idx == nil {
			if o := st.obj(x.Obj); o != nil && o.V != nil {
				return "&" + an.showVal(st, o.V)
			}
		}
		return fmt.Sprintf("&obj%d%s", x.Obj, x.Path)
	case StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, an.showVal(st, f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case NilV:
		return "nil"
	case FloatV:
		if x.Exact != nil {
			return "float " + an.show(*x.Exact)
		}
		if x.Const != nil {
			return fmt.Sprint(*x.Const)
		}
		return fmt.Sprintf("f%d", x.F.ID)
	case SymV:
		if d, ok := st.dyn[x.ID]; ok {
			return fmt.Sprintf("%s#%d:%s", x.Note, x.ID, an.showVal(st, d))
		}
		return fmt.Sprintf("%s#%d", x.Note, x.ID)
	case TupleV:
		var p []string
		for _, f := range x.E {
			p = append(p, an.showVal(st, f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case BoolV:
		return "bool:" + an.showCond(st, x.C)
	case BuilderV:
		return "builder " + st.showStr(x.S)
	case SliceV:
		return fmt.Sprintf("slice(obj%d[%s:+%s])", x.Arr, an.show(x.Off), an.show(x.Len))
	case FuncV:
		if x.Fn != nil {
			return "func " + fnName(x.Fn)
		}
		return "func " + x.Ext
	}
	return fmt.Sprintf("%T", v)
}

func (an *An) showCond(st *State, c Cond) string {
	n := ""
	if c.Neg {
		n = "not "
	}
	switch c.Kind {
	case CConst:
		return fmt.Sprint(c.B)
	case CGE:
		return n + an.show(c.L) + ">=0"
	case CEQ:
		return n + an.show(c.L) + "=0"
	case CByte:
		return n + fmt.Sprintf("%s[%s] in %s", c.Base.Name, an.show(c.L), c.Set)
	case CStrEq:
		return n + st.showStr(c.S) + "==" + st.showStr(c.T)
	case COpaque:
		return n + c.Key
	}
	return n + "?"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
