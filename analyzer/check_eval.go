package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The evaluator: the program loop (EvalWithTrace, Eval) and the recursive
// function it calls for every instruction, found as the entry of the cycle of
// the call graph below EvalWithTrace.

type evalCk struct {
	c       *ctx
	rec     *ssa.Function // evaluates one expression
	exprIdx int
	envT    types.Type
	trace   types.Type
	errs    []string
}

func (c *ctx) newEval() *evalCk {
	k := &evalCk{c: c, exprIdx: -1}
	k.envT = c.w.typ("edlisp", "Environment")
	k.trace = c.w.typ("edlisp", "TraceCallback")
	top := c.w.fn("edlisp", "EvalWithTrace")
	if top == nil || k.envT == nil || k.trace == nil || c.w.fn("edlisp", "Eval") == nil {
		k.errs = append(k.errs, "edlisp.Eval, EvalWithTrace, Environment or TraceCallback not found")
		return k
	}
	k.rec = c.w.recursiveEntry(top)
	if k.rec == nil {
		k.errs = append(k.errs, "no recursive function below edlisp.EvalWithTrace")
		return k
	}
	for i, p := range k.rec.Params {
		if types.Identical(p.Type(), c.lab.valueT) {
			k.exprIdx = i
		}
	}
	r := k.rec.Signature.Results()
	if k.exprIdx < 0 || r.Len() != 2 || !types.Identical(r.At(0).Type(), c.lab.valueT) || !types.Identical(r.At(1).Type(), c.w.errType) {
		k.errs = append(k.errs, fnName(k.rec)+" does not map a value to a value and an error")
		k.rec = nil
	}
	return k
}

// callees are the functions of the module called statically in fn.
func (w *World) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, o := range rands {
				if *o == nil {
					continue
				}
				if f, ok := (*o).(*ssa.Function); ok && w.inMod(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// recursiveEntry finds the first function of a call cycle reached from fn.
func (w *World) recursiveEntry(fn *ssa.Function) *ssa.Function {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			for _, g := range w.callees(f) {
				if !seen[g] {
					seen[g] = true
					visit(g)
				}
			}
		}
		visit(from)
		return seen
	}
	seen := map[*ssa.Function]bool{}
	queue := []*ssa.Function{fn}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if f != fn && reach(f)[f] {
			return f
		}
		queue = append(queue, w.callees(f)...)
	}
	return nil
}

// parts are v and, through one pointer, the fields it holds.
func (an *An) parts(st *State, v Val) []Val {
	out := []Val{v}
	if p, ok := v.(PtrV); ok {
		o := st.obj(p.Obj)
		if o != nil && o.Lib == nil && o.Arr == nil && o.Map == nil {
			if s, ok := an.load(st, p).(StructV); ok {
				out = append(out, s.F...)
			}
		}
	}
	if s, ok := v.(StructV); ok {
		out = append(out, s.F...)
	}
	return out
}

// has reports whether one of the arguments is (or directly holds) v.
func (an *An) has(st *State, args []Val, v Val) bool {
	for _, a := range args {
		for _, p := range an.parts(st, a) {
			if p != nil && st.sameVal(p, v) {
				return true
			}
		}
	}
	return false
}

// indexOf finds the index of value v among the known elements of s.
func (an *An) indexOf(st *State, s SliceV, v Val) (Lin, bool) {
	o := st.obj(s.Arr)
	if o == nil || o.Arr == nil {
		return Lin{}, false
	}
	for _, e := range o.Arr.Els {
		if e.V != nil && st.sameVal(e.V, v) {
			return e.I.sub(s.Off), true
		}
	}
	return Lin{}, false
}

// seqRun checks a history of evaluations against the elements of a sequence.
type seqRun struct {
	k     *evalCk
	an    *An
	kind  string // "opaque" or "recurse"
	seq   SliceV
	env   Val
	buf   Val
	trace Val // nil: not traced
	next  Lin
	last  Val
	fail  *Event // the evaluation that failed
	done  bool   // no event may follow
	call  *Event // the final function call
	args  func(st *State, idx Lin, ret Val, head *LoopInfo, i int) string
	tr    *Event // evaluation waiting for its trace
	trEx  Val
}

func (q *seqRun) step(evs []*Event, st *State) string {
	for n := 0; n < len(evs); n++ {
		e := evs[n]
		switch {
		case e.Kind == q.kind:
			if q.done {
				return "evaluates again after an error"
			}
			if q.tr != nil {
				return "evaluates the next instruction before reporting the previous one to the trace"
			}
			expr := e.Args[q.k.exprIdx]
			i, ok := q.an.indexOf(st, q.seq, expr)
			if !ok {
				return "evaluates something that is not an element of the sequence"
			}
			if !st.eq(i, q.next) {
				return fmt.Sprintf("evaluates element %s where element %s is due", q.an.show(i), q.an.show(q.next))
			}
			if !q.an.has(e.Pre, e.Args, q.env) {
				return "does not pass its environment on"
			}
			if !q.an.has(e.Pre, e.Args, q.buf) {
				return "does not pass its buffer on"
			}
			if len(e.Ret) != 2 {
				return "result of the evaluation unknown"
			}
			if _, isNil := e.Ret[1].(NilV); !isNil {
				q.fail, q.done = e, true
				continue
			}
			q.last = e.Ret[0]
			if q.trace != nil {
				q.tr, q.trEx = e, expr
			}
			q.next = q.next.addk(1)
		case e.Kind == "dyncall" && q.trace != nil && st.sameVal(e.Args[0], q.trace):
			if q.done || q.tr == nil {
				return "reports an instruction to the trace that was not just evaluated"
			}
			var ok1, ok2, ok3 bool
			for _, a := range e.Args[1:] {
				for _, p := range q.an.parts(e.Pre, a) {
					ok1 = ok1 || p != nil && st.sameVal(p, q.trEx)
					ok2 = ok2 || p != nil && st.sameVal(p, q.buf)
					ok3 = ok3 || p != nil && st.sameVal(p, q.env)
				}
			}
			if !ok1 || !ok2 || !ok3 {
				return "the trace does not receive the instruction, buffer and environment"
			}
			q.tr = nil
		case e.Kind == "dyncall" && q.trace == nil && q.kind == "recurse":
			if q.done || q.call != nil {
				return "calls again after a call or an error"
			}
			q.call, q.done = e, true
		case e.Kind == "loop":
			if e.Loop == nil {
				return "unknown loop"
			}
			if why := q.loop(e.Loop, st); why != "" {
				return why
			}
		default:
			return "unexpected effect " + e.Kind + " " + e.Name + " at " + e.Pos
		}
	}
	return ""
}

// loop checks that every iteration advances by one element.
func (q *seqRun) loop(l *LoopInfo, st *State) string {
	touched := false
	for _, b := range l.Backs {
		if len(l.iteration(b)) > 0 {
			touched = true
		}
	}
	if !touched {
		return ""
	}
	if q.done || q.tr != nil || q.call != nil {
		return "loops after an error, a call or an unreported instruction"
	}
	var at *Lin
	var rets []Val
	for i, b := range l.Backs {
		evs := l.iteration(b)
		if len(evs) == 0 || evs[0].Kind != q.kind {
			return "a kind of iteration evaluates nothing"
		}
		k, ok := q.an.indexOf(b, q.seq, evs[0].Args[q.k.exprIdx])
		if !ok {
			return "an iteration evaluates something that is not an element of the sequence"
		}
		if at == nil {
			at = &k
		} else if !b.eq(*at, k) {
			return "iterations disagree on the element that is due"
		}
		sub := *q
		sub.next = k
		if why := sub.step(evs, b); why != "" {
			return "in an iteration: " + why
		}
		if sub.done || sub.tr != nil {
			return "the loop goes on after an error or an instruction missing in the trace"
		}
		if !b.eq(sub.next, subst(k, l.BackMaps[i])) {
			return fmt.Sprintf("the next iteration is at element %s, not %s", q.an.show(subst(k, l.BackMaps[i])), q.an.show(sub.next))
		}
		if !b.eq(sub.next, k.addk(1)) {
			return "an iteration does not evaluate exactly one element"
		}
		if q.args != nil {
			if why := q.args(b, k, sub.last, l, i); why != "" {
				return why
			}
		}
		rets = append(rets, sub.last)
	}
	if at == nil {
		return ""
	}
	if !l.Entry.eq(subst(*at, l.EntryMap), q.next) {
		return fmt.Sprintf("the loop starts at element %s, not %s", q.an.show(subst(*at, l.EntryMap)), q.an.show(q.next))
	}
	q.next = *at
	prev := q.last
	q.last = nil
	for _, c := range l.Cells {
		ok := c.Entry != nil && prev != nil && l.Entry.sameVal(c.Entry, prev)
		for i, b := range l.Backs {
			ok = ok && c.Backs[i] != nil && b.sameVal(c.Backs[i], rets[i])
		}
		if ok {
			q.last = c.Head
		}
	}
	return ""
}

// chain lists err and the errors it wraps.
func (an *An) chain(st *State, err Val) []Val {
	var out []Val
	work := []Val{err}
	for len(work) > 0 && len(out) < 12 {
		v := work[0]
		work = work[1:]
		if v == nil {
			continue
		}
		if s, ok := v.(SymV); ok {
			if d, ok := st.dyn[s.ID]; ok {
				out = append(out, v)
				v = d
			}
		}
		out = append(out, v)
		if _, ok := v.(SliceV); ok {
			continue // errors joined
		}
		if i, ok := v.(IfaceV); ok && i.T == an.w.extErr {
			if p, ok := i.V.(PtrV); ok {
				if o := st.obj(p.Obj); o != nil && o.Lib != nil {
					if w, ok := o.Lib["wrap"].(TupleV); ok {
						work = append(work, w.E...)
					}
				}
			}
			continue
		}
		if i, ok := v.(IfaceV); ok && i.T != nil && types.Implements(i.T, an.w.errType.Underlying().(*types.Interface)) {
			an.quiet++
			if u := an.unwrap(st, v); u != nil {
				if _, isNil := u.(NilV); !isNil {
					work = append(work, u)
				}
			}
			an.quiet--
		}
	}
	return out
}

func (an *An) wraps(st *State, err, cause Val) bool {
	for _, v := range an.chain(st, err) {
		if st.sameVal(v, cause) {
			return true
		}
	}
	return false
}

// execErr finds the execution error in the chain of err.
func (k *evalCk) execErr(an *An, st *State, err Val) (StructV, bool) {
	for _, v := range an.chain(st, err) {
		i, ok := v.(IfaceV)
		if !ok || !types.Identical(i.T, types.NewPointer(k.c.lab.execErrT)) {
			continue
		}
		if p, ok := i.V.(PtrV); ok {
			s, ok := an.load(st, p).(StructV)
			return s, ok
		}
	}
	return StructV{}, false
}

func (k *evalCk) newAn(opaque bool) *An {
	an := newAn(k.c.w)
	an.frozen = []types.Type{k.envT}
	an.nonNil = k.c.lab.valueT
	an.mapNonNil = true
	if opaque {
		an.opt.Opaque = map[*ssa.Function]string{k.rec: "eval"}
		an.opt.Havoc = map[*ssa.Function]bool{k.rec: true}
	}
	return an
}

// ptr makes an arbitrary non-nil pointer to a T.
func (an *An) ptr(st *State, t types.Type, name string) Val {
	an.nobj++
	id := an.nobj
	st.heap[id] = &Obj{T: t, Sym: true, Name: name}
	return PtrV{Obj: id}
}

// evaluator analyses the evaluator; f sees every analysis, prog every outcome
// of the program loop and expr every outcome of the expression evaluator.
type evalOut struct {
	an    *An
	what  string
	out   Out
	pre   PreState
	st    *State
	ok    bool
	ret   Val
	err   Val
	prog  SliceV
	trace Val
	env   Val
	expr  Val
}

func (k *evalCk) programs(f func(o evalOut), done func(an *An, what string)) {
	for _, m := range []struct {
		name   string
		traced int // 0: no parameter, 1: nil, 2: given
	}{{"Eval", 0}, {"EvalWithTrace", 1}, {"EvalWithTrace", 2}} {
		fn := k.c.w.fn("edlisp", m.name)
		what := "edlisp." + m.name + map[int]string{0: "", 1: " without trace", 2: " with trace"}[m.traced]
		an := k.newAn(true)
		st := an.newState()
		prog, _ := an.havoc(st, types.NewSlice(k.c.lab.valueT), "program").(SliceV)
		env := an.ptr(st, k.envT, "env")
		for _, pre := range k.c.lab.buffer(an, st) {
			var trace Val
			var args []Val
			for _, p := range fn.Params {
				switch {
				case types.Identical(p.Type(), types.NewPointer(k.c.lab.bufT)):
					args = append(args, pre.buf)
				case types.Identical(p.Type(), types.NewPointer(k.envT)):
					args = append(args, env)
				case types.Identical(p.Type(), k.trace):
					if m.traced == 2 {
						trace = SymV{ID: an.nextID(), T: k.trace, NN: lc(1), Note: "trace"}
						args = append(args, trace)
					} else {
						args = append(args, NilV{})
					}
				default:
					args = append(args, prog)
				}
			}
			for _, o := range an.run(pre.st, fn, args...) {
				k.outcomes(evalOut{an: an, what: what, out: o, pre: pre, prog: prog, trace: trace, env: env}, f)
			}
		}
		done(an, what)
	}
}

func (k *evalCk) outcomes(e evalOut, f func(evalOut)) {
	o := e.out
	e.st = o.st
	if o.kind != outReturn {
		f(e)
		return
	}
	if t, ok := o.ret.(TupleV); ok && len(t.E) == 2 {
		e.ret, e.err = t.E[0], t.E[1]
	}
	isNil := o.st.isNil(e.err)
	for _, s := range o.st.assume(isNil) {
		g := e
		g.st, g.ok = s, true
		f(g)
	}
	for _, s := range o.st.assume(isNil.not()) {
		g := e
		g.st = s
		f(g)
	}
}

func (k *evalCk) expressions(f func(o evalOut), done func(an *An, what string)) {
	fn := k.rec
	an := k.newAn(false)
	st := an.newState()
	env := an.ptr(st, k.envT, "env")
	expr := SymV{ID: an.nextID(), T: k.c.lab.valueT, NN: lc(1), Note: "expr"}
	what := fnName(fn)
	for _, pre := range k.c.lab.buffer(an, st) {
		var args []Val
		for i, p := range fn.Params {
			switch {
			case i == k.exprIdx:
				args = append(args, expr)
			case types.Identical(p.Type(), types.NewPointer(k.c.lab.bufT)):
				args = append(args, pre.buf)
			case types.Identical(p.Type(), types.NewPointer(k.envT)):
				args = append(args, env)
			default:
				args = append(args, k.context(an, pre, p.Type(), env))
			}
		}
		for _, o := range an.run(pre.st, fn, args...) {
			k.outcomes(evalOut{an: an, what: what, out: o, pre: pre, env: env, expr: expr}, f)
		}
	}
	done(an, what)
}

// context makes a parameter that carries the buffer and environment.
func (k *evalCk) context(an *An, pre PreState, t types.Type, env Val) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if u, ok := p.Elem().Underlying().(*types.Struct); ok {
			f := make([]Val, u.NumFields())
			for i := range f {
				switch ft := u.Field(i).Type(); {
				case types.Identical(ft, types.NewPointer(k.c.lab.bufT)):
					f[i] = pre.buf
				case types.Identical(ft, types.NewPointer(k.envT)):
					f[i] = env
				default:
					f[i] = an.havoc(pre.st, ft, u.Field(i).Name())
				}
			}
			return PtrV{Obj: pre.st.newObj(&Obj{T: p.Elem(), V: StructV{F: f}, Name: "context"})}
		}
	}
	return an.havoc(pre.st, t, "parameter")
}

func (c *ctx) evaluator(r *Report, f func(an *An, what string)) {
	k := c.newEval()
	for _, e := range k.errs {
		r.fail("resolved", "evaluator", "%s", e)
	}
	if k.rec == nil {
		return
	}
	outc := func(o evalOut) {
		r.check(o.out.kind == outReturn, "no panic", o.what, "may end by panicking")
		if o.out.kind == outReturn && o.ok {
			r.check(len(o.st.assume(o.st.isNil(o.ret))) == 0, "a success has a value", o.what, "may succeed without a value")
		}
	}
	done := func(an *An, what string) {
		r.engine(an, what)
		f(an, what)
	}
	k.programs(outc, done)
	k.expressions(outc, done)
}

// noRecursion: built-in functions do not call themselves.
func (c *ctx) noRecursion(r *Report, b *BRun) {
	con := c.lab.construct(b.Name)
	var rec []string
	for f := range b.An.recursed {
		rec = append(rec, f)
	}
	r.check(len(rec) == 0, "no recursion", con, "calls %s recursively", strings.Join(rec, ", "))
}

// ---- C11 ---------------------------------------------------------------------

func checkC11(c *ctx, r *Report) {
	k := c.newEval()
	for _, e := range k.errs {
		r.fail("resolved", "evaluator", "%s", e)
	}
	if k.rec == nil {
		return
	}
	done := func(an *An, what string) {
		r.engine(an, what)
		r.unit("function analyses", 1)
		r.unit("queries", an.queries)
	}
	k.programs(func(o evalOut) {
		r.unit("paths", 1)
		if o.out.kind != outReturn {
			r.fail("ends with a result", o.what, "may end without a result")
			return
		}
		q := &seqRun{k: k, an: o.an, kind: "opaque", seq: o.prog, env: o.env, buf: o.pre.buf, trace: o.trace, next: lc(0)}
		q.last = k.initial(o)
		why := q.step(eventsAfter(o.st.ev, o.pre.st.ev), o.st)
		if !r.check(why == "", "instructions in order, once each", o.what, "%s", why) {
			return
		}
		if !o.ok {
			if !r.check(q.fail != nil, "only a failing instruction fails a program", o.what, "reports an error although no instruction failed") {
				return
			}
			r.ok("stops at the first error", o.what)
			return
		}
		if !r.check(q.fail == nil, "stops at the first error", o.what, "an instruction's error is dropped: the program goes on or succeeds") {
			return
		}
		r.check(q.tr == nil, "every instruction is traced", o.what, "the last instruction is not reported to the trace")
		r.check(o.st.le(o.prog.Len, q.next), "all instructions run", o.what, "succeeds after %s of %s instructions", o.an.show(q.next), o.an.show(o.prog.Len))
		same := q.last != nil && o.st.sameVal(q.last, o.ret)
		if q.last == nil {
			// an empty program has no last instruction
			same = o.st.eq(q.next, lc(0))
		}
		r.check(same, "the result is the last value", o.what, "the result is %s", o.an.showVal(o.st, o.ret))
	}, done)
	kinds := map[string]bool{}
	k.expressions(func(o evalOut) {
		r.unit("paths", 1)
		if o.out.kind != outReturn {
			r.fail("ends with a result", o.what, "may end without a result")
			return
		}
		evs := eventsAfter(o.st.ev, o.pre.st.ev)
		x := o.expr.(SymV)
		for _, kd := range []string{"s", "n", "l", "y"} {
			for _, s := range o.st.assume(Cond{Kind: CType, V: x, Ty: c.lab.valueType(kd)}) {
				kinds[kd] = true
				switch kd {
				case "s", "n":
					r.check(o.ok && s.sameVal(o.ret, x) && len(evs) == 0, "a string or number is its own value", o.what, "evaluates to %s with error %s after %d effects", o.an.showVal(s, o.ret), o.an.showVal(s, o.err), len(evs))
				case "y":
					r.check(!o.ok && len(evs) == 0, "a bare symbol is an error", o.what, "a symbol evaluates without an error")
				case "l":
					k.call(r, o, s, s.dyn[x.ID], evs)
				}
			}
		}
	}, done)
	for _, kd := range []string{"s", "n", "l", "y"} {
		r.check(kinds[kd], "analysed", "kinds of expression", "no outcome for kind %s", kd)
	}
}

func eventsAfter(e, from *Event) []*Event {
	var out []*Event
	for ; e != nil && e != from; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// initial is the value a program has before its first instruction: whatever
// an empty program returns.
func (k *evalCk) initial(o evalOut) Val {
	for _, e := range eventsAfter(o.st.ev, o.pre.st.ev) {
		if e.Kind == "loop" {
			for _, c := range e.Loop.Cells {
				if c.Entry != nil && valueLike(c.Entry) {
					return c.Entry
				}
			}
		}
	}
	return nil
}

func valueLike(v Val) bool {
	switch v.(type) {
	case IfaceV, NilV:
		return true
	}
	return false
}

// call checks the evaluation of a list.
func (k *evalCk) call(r *Report, o evalOut, st *State, d IfaceV, evs []*Event) {
	an := o.an
	p, ok := d.V.(PtrV)
	if !ok {
		r.fail("resolved", o.what, "list not resolved")
		return
	}
	els, ok := k.elements(an, st, p)
	if !ok {
		r.fail("resolved", o.what, "elements of the list not found")
		return
	}
	q := &seqRun{k: k, an: an, kind: "recurse", seq: els, env: o.env, buf: o.pre.buf, next: lc(1)}
	stored := map[string]bool{}
	q.args = func(b *State, idx Lin, ret Val, l *LoopInfo, i int) string {
		for _, key := range an.storedAt(b, l, i, idx.addk(-1), ret) {
			stored[key] = true
		}
		if len(stored) == 0 {
			return "the value of an argument is not kept at its position"
		}
		return ""
	}
	why := q.step(evs, st)
	if !r.check(why == "", "arguments left to right, once each, then the call", o.what, "%s", why) {
		return
	}
	switch {
	case q.fail != nil:
		r.check(!o.ok && an.wraps(st, o.err, q.fail.Ret[1]), "an argument's error is the call's error", o.what, "the error of an argument is dropped or replaced")
		return
	case q.call == nil:
		if !r.check(!o.ok, "a list is called", o.what, "succeeds without calling a function") {
			return
		}
		// its own error: the list must not be callable
		r.check(!k.callable(an, st, o, els), "callable lists are called", o.what, "reports %s for a list whose first element names a function", an.showVal(st, o.err))
		return
	}
	e := q.call
	r.check(st.eq(q.next, els.Len), "all arguments are evaluated", o.what, "calls the function after %s of %s elements", an.show(q.next), an.show(els.Len))
	// the function is the one the environment has under the list's name
	r.check(k.looked(an, e.Pre, o, els, e.Args[0]), "the named function is called", o.what, "the called function is not the environment's entry for the first element")
	okBuf := false
	var args *SliceV
	for _, a := range e.Args[1:] {
		if st.sameVal(a, o.pre.buf) {
			okBuf = true
		}
		if s, ok := a.(SliceV); ok {
			args = &s
		}
		if _, ok := a.(NilV); ok && args == nil {
			args = &SliceV{Arr: -1, Off: lc(0), Len: lc(0)}
		}
	}
	r.check(okBuf, "the function gets the buffer", o.what, "another buffer is passed")
	if r.check(args != nil, "the function gets its arguments", o.what, "no argument list is passed") {
		r.check(e.Pre.eq(args.Len, els.Len.addk(-1)), "the function gets its arguments", o.what, "%s arguments are passed for %s elements", an.show(args.Len), an.show(els.Len))
		if !e.Pre.eq(args.Len, lc(0)) {
			ob := e.Pre.obj(args.Arr)
			okc := e.Pre.eq(args.Off, lc(0)) && (stored[fmt.Sprintf("arr%d", args.Arr)] || stored[fmt.Sprintf("cell%d", args.Arr)])
			if ob != nil && ob.Arr != nil {
				for _, el := range ob.Arr.Els {
					if el.W {
						okc = false
					}
				}
			}
			r.check(okc, "the function gets the values of its arguments", o.what, "the argument list does not consist of the evaluated arguments in order")
		}
	}
	if _, isNil := e.Ret[1].(NilV); isNil {
		r.check(o.ok && st.sameVal(o.ret, e.Ret[0]), "the call's value is the function's", o.what, "returns %s", an.showVal(st, o.ret))
	} else {
		r.check(!o.ok && an.wraps(st, o.err, e.Ret[1]), "the call's error is the function's", o.what, "the function's error is dropped or replaced")
	}
}

// elements finds the slice of values a list object holds.
func (k *evalCk) elements(an *An, st *State, p PtrV) (SliceV, bool) {
	s, ok := an.load(st, p).(StructV)
	if !ok {
		return SliceV{}, false
	}
	for _, f := range s.F {
		if x, ok := f.(SliceV); ok {
			return x, true
		}
	}
	return SliceV{}, false
}

// storedAt says where iteration i of loop l puts ret at index idx: into array
// N ("arrN"), or appended to a slice that is array N at the loop's head
// ("cellN").
func (an *An) storedAt(b *State, l *LoopInfo, i int, idx Lin, ret Val) []string {
	var out []string
	for id, o := range b.heap {
		if o.Arr == nil {
			continue
		}
		h := l.Head.obj(id)
		if h == nil || h.Arr == nil {
			continue
		}
		w, okw := 0, false
		for _, e := range o.Arr.Els {
			if e.W {
				w++
				okw = e.V != nil && b.sameVal(e.V, ret) && b.eq(e.I, idx)
			}
		}
		if w == 1 && okw {
			out = append(out, fmt.Sprintf("arr%d", id))
		}
	}
	for _, c := range l.Cells {
		h, ok := c.Head.(SliceV)
		v, ok2 := c.Backs[i].(SliceV)
		if !ok || !ok2 || h.Arr < 0 || v.Arr < 0 {
			continue
		}
		empty := false
		switch e := c.Entry.(type) {
		case SliceV:
			empty = l.Entry.eq(e.Len, lc(0))
		case NilV:
			empty = true
		}
		o := b.obj(v.Arr)
		if o == nil || o.Arr == nil || len(o.Arr.Log) == 0 {
			continue
		}
		g := o.Arr.Log[len(o.Arr.Log)-1]
		if empty && g.From == h.Arr && len(g.Vals) == 1 && b.sameVal(g.Vals[0], ret) && b.eq(v.Len, h.Len.addk(1)) {
			out = append(out, fmt.Sprintf("cell%d", h.Arr))
		}
	}
	return out
}

// head splits on whether the list names a function; for the states where it
// does, f gets the entry.
func (k *evalCk) entry(an *An, st *State, o evalOut, els SliceV, f func(s *State, fn Val)) {
	an.quiet++
	defer func() { an.quiet-- }()
	env, ok := o.env.(PtrV)
	if !ok {
		return
	}
	for _, s := range st.assume(cge(els.Len.addk(-1))) {
		s = s.clone()
		v := an.elem(s, els.Arr, els.Off)
		for _, s2 := range s.assume(Cond{Kind: CType, V: v, Ty: k.c.lab.valueType("y")}) {
			s2 = s2.clone()
			name, ok := k.c.lab.content(an, s2, v, "y")
			es, ok2 := an.load(s2, env).(StructV)
			if !ok || !ok2 {
				continue
			}
			for _, fv := range es.F {
				m, ok := fv.(MapV)
				if !ok {
					continue
				}
				key := fmt.Sprintf("map%d", m.Obj)
				ent, found := s2.findUF(key, []Val{name})
				c := Cond{Kind: COpaque, Op: fmt.Sprintf("in%d", m.Obj), Key: fmt.Sprintf("in%d:%s", m.Obj, valKey(name)), Args: []Val{name}}
				for _, s3 := range s2.assume(c) {
					if found {
						f(s3, ent)
					} else {
						f(s3, nil)
					}
				}
			}
		}
	}
}

// callable: the list may name a function of the environment.
func (k *evalCk) callable(an *An, st *State, o evalOut, els SliceV) bool {
	may := false
	k.entry(an, st, o, els, func(s *State, fn Val) { may = true })
	return may
}

// looked: fn is the environment's entry for the first element.
func (k *evalCk) looked(an *An, st *State, o evalOut, els SliceV, fn Val) bool {
	n, good := 0, true
	k.entry(an, st, o, els, func(s *State, ent Val) {
		n++
		if ent == nil || !s.sameVal(ent, fn) {
			good = false
		}
	})
	return good && n > 0
}

// ---- C12 ---------------------------------------------------------------------

func checkC12(c *ctx, r *Report) {
	k := c.newEval()
	for _, e := range k.errs {
		r.fail("resolved", "evaluator", "%s", e)
	}
	if k.rec == nil {
		return
	}
	done := func(an *An, what string) {
		r.engine(an, what)
		r.unit("function analyses", 1)
		r.unit("queries", an.queries)
	}
	k.programs(func(o evalOut) {
		if o.out.kind != outReturn || o.ok {
			return
		}
		r.unit("paths", 1)
		q := &seqRun{k: k, an: o.an, kind: "opaque", seq: o.prog, env: o.env, buf: o.pre.buf, trace: o.trace, next: lc(0)}
		q.last = k.initial(o)
		if why := q.step(eventsAfter(o.st.ev, o.pre.st.ev), o.st); why != "" || q.fail == nil {
			r.fail("a failing program has a failing instruction", o.what, "%s", why)
			return
		}
		r.check(o.an.wraps(o.st, o.err, q.fail.Ret[1]), "the error wraps its cause", o.what, "the cause cannot be unwrapped from the error")
		s, ok := k.execErr(o.an, o.st, o.err)
		if !r.check(ok, "the error is an execution error", o.what, "the error is %s", o.an.showVal(o.st, o.err)) {
			return
		}
		t := c.lab.execErrT.Underlying().(*types.Struct)
		for _, p := range c.lab.observe(o.an, o.st, o.pre.buf) {
			want := map[string]Val{
				"OriginalError": q.fail.Ret[1], "Program": o.prog, "CurrentInstruction": q.fail.Args[k.exprIdx], "InstructionIndex": IntV{q.next},
				"BufferContents": p.obs.Text, "Point": IntV{p.obs.Point}, "Mark": IntV{p.obs.Mark}, "Environment": o.env,
			}
			seen := 0
			for i := 0; i < t.NumFields(); i++ {
				w, ok := want[t.Field(i).Name()]
				if !ok {
					continue
				}
				seen++
				r.check(s.F[i] != nil && p.st.sameVal(s.F[i], w), "the error describes the failure", "ExecutionError."+t.Field(i).Name()+" in "+o.what, "is %s, not %s", o.an.showVal(p.st, s.F[i]), o.an.showVal(p.st, w))
			}
			r.check(seen == len(want), "the error describes the failure", "edlisp.ExecutionError", "fields are missing")
		}
	}, done)
	c.errText(r, k)
	c.layers(r)
}

// errText: the text of an execution error contains cause, index, instruction,
// point and mark, and Unwrap gives the cause.
func (c *ctx) errText(r *Report, k *evalCk) {
	fe, fu := c.w.fn("edlisp", "ExecutionError.Error"), c.w.fn("edlisp", "ExecutionError.Unwrap")
	if !r.check(fe != nil && fu != nil, "the error can be unwrapped", "edlisp.ExecutionError", "no Error or Unwrap method") {
		return
	}
	an := k.newAn(false)
	st := an.newState()
	recv := an.ptr(st, c.lab.execErrT, "e").(PtrV)
	s, _ := an.load(st, recv).(StructV)
	t := c.lab.execErrT.Underlying().(*types.Struct)
	f := append([]Val(nil), s.F...)
	field := map[string]Val{}
	for i := range f {
		if types.Identical(t.Field(i).Type(), c.w.errType) || types.Identical(t.Field(i).Type(), c.lab.valueT) {
			f[i] = SymV{ID: an.nextID(), T: t.Field(i).Type(), NN: lc(1), Note: t.Field(i).Name()}
		}
		field[t.Field(i).Name()] = f[i]
	}
	an.store(st, recv, StructV{F: f})
	for _, o := range an.run(st, fu, recv) {
		r.check(o.kind == outReturn && o.st.sameVal(o.ret, field["OriginalError"]), "the error can be unwrapped", fnName(fu), "returns %s", an.showVal(o.st, o.ret))
	}
	for _, o := range an.run(st, fe, recv) {
		if o.kind != outReturn {
			r.fail("the error text describes the failure", fnName(fe), "may panic")
			continue
		}
		text, _ := an.strOf(o.st, o.ret)
		for _, n := range []string{"OriginalError", "InstructionIndex", "CurrentInstruction", "Point", "Mark"} {
			r.check(an.mentions(o.st, text, field[n]), "the error text describes the failure", fnName(fe)+", "+n, "the text %s does not contain it", o.st.showStr(text))
		}
	}
	r.engine(an, "edlisp.ExecutionError")
}

// mentions: text contains a rendering of v.
func (an *An) mentions(st *State, text StrV, v Val) bool {
	for _, p := range text.P {
		if p.Base != nil && an.rendered(st, p.Base, v, 0) && st.eq(p.Lo, lc(0)) && st.eq(p.Hi, p.Base.Len) {
			return true
		}
	}
	return false
}

func (an *An) rendered(st *State, b *Base, v Val, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, a := range b.Args {
		if a == nil {
			continue
		}
		if st.sameVal(a, v) || sameSlice(a, v) {
			return true
		}
		if s, ok := a.(StrV); ok && an.mentionsAny(st, s, v, depth+1) {
			return true
		}
	}
	return false
}

func (an *An) mentionsAny(st *State, s StrV, v Val, depth int) bool {
	for _, p := range s.P {
		if p.Base != nil && an.rendered(st, p.Base, v, depth) {
			return true
		}
	}
	return false
}
