package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C28: a test passes only when everything it states was compared with what
// happened and matched.

type testRunCk struct {
	c    *ctx
	r    *Report
	k    *cmdLab
	resT types.Type
}

func checkC28(c *ctx, r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	t := &testRunCk{c: c, r: r, k: k, resT: c.w.typ("edlisp/testing", "TestResult")}
	if !r.check(t.resT != nil, "resolved", "edlisp/testing.TestResult", "not found") {
		return
	}
	parts := []func(t *testRunCk){(*testRunCk).equal, (*testRunCk).command}
	n := 0
	for _, m := range sortedMembers(c.w.ssaPkg[modPath+"/edlisp/testing"]) {
		fn, ok := m.(*ssa.Function)
		if ok && t.returnsResult(fn) && fn.Object() != nil && fn.Object().Exported() {
			n++
			parts = append(parts, func(t *testRunCk) { t.verdicts(fn) })
		}
	}
	r.check(n >= 2, "analysed", "functions that run a test", "only %d", n)
	var mu sync.Mutex
	parallel(len(parts), func(i int) {
		sub := newReport(r.id)
		defer func() {
			if e := recover(); e != nil {
				sub.fail("analysed", "test runner", "the analysis stopped: %v", e)
			}
			mu.Lock()
			r.merge(sub)
			mu.Unlock()
		}()
		q := *t
		q.r = sub
		parts[i](&q)
	})
}

// lab2 is the lab in which tests are interpreted: running them is not opaque,
// comparing values is.
func (t *testRunCk) lab2() *cmdLab {
	k := *t.k
	k.opq = map[*ssa.Function]string{}
	for f, n := range t.k.opq {
		if !strings.HasPrefix(n, "runtest:") {
			k.opq[f] = n
		}
	}
	for _, n := range []string{"ParseSexp", "ParseFormat"} {
		if f := t.c.w.fn("edlisp/parser", n); f != nil {
			k.opq[f] = "parse:" + n
		}
	}
	if f := t.c.w.fn("edlisp", "Equal"); f != nil {
		k.opq[f] = "equal"
	}
	return &k
}

// expectations are the texts a test states.
type stated struct {
	buffer, input, output, result, lang, err *StrV
}

var testFields = []string{"buffer", "input", "output", "result", "error"}

// statedBy reads the expectations out of a value decoded from XML.
func statedBy(st *State, v Val, t types.Type) (s stated, why string) {
	sv, ok := v.(StructV)
	tt, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return s, "the test case is not resolved"
	}
	get := map[string]*StrV{}
	for i := 0; i < tt.NumFields(); i++ {
		tag := reflect.StructTag(tt.Tag(i)).Get("xml")
		name, opt, _ := strings.Cut(tag, ",")
		if opt != "" {
			continue
		}
		switch x := sv.F[i].(type) {
		case StrV:
			y := x
			get[name] = &y
		case StructV:
			it, ok := tt.Field(i).Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < it.NumFields(); j++ {
				y, ok := x.F[j].(StrV)
				if !ok {
					continue
				}
				switch itag := reflect.StructTag(it.Tag(j)).Get("xml"); itag {
				case ",chardata":
					get[name] = &y
				case "lang,attr":
					get[name+" lang"] = &y
				}
			}
		}
	}
	for _, f := range append(testFields, "result lang") {
		if get[f] == nil {
			return s, "no field receives the element <" + f + ">"
		}
	}
	return stated{get["buffer"], get["input"], get["output"], get["result"], get["result lang"], get["error"]}, ""
}

// verdicts: fn runs a test and reports it as passed only if it should.
func (t *testRunCk) verdicts(fn *ssa.Function) {
	caseT := t.c.w.typ("edlisp/testing", "TestCase")
	k := t.lab2()
	an := k.newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	x := &fileCtx{c: t.c, r: t.r, an: an, what: fnName(fn), mu: &sync.Mutex{}, succ: map[string]string{}, failed: map[string]string{}, textCache: map[*Event][]*StrV{}}
	args := make([]Val, len(fn.Params))
	var tc, file Val
	for i, q := range fn.Params {
		if pt, ok := q.Type().(*types.Pointer); ok && caseT != nil && types.Identical(pt.Elem(), caseT) {
			args[i] = an.ptr(st, caseT, q.Name())
			tc = args[i]
			continue
		}
		args[i] = an.havoc(st, q.Type(), q.Name())
		if isString(q.Type()) {
			file = args[i]
		}
	}
	var s stated
	if tc != nil {
		var why string
		if s, why = statedBy(st, an.load(st, tc.(PtrV)), caseT); why != "" {
			t.r.fail("resolved", x.what, "%s", why)
			return
		}
	}
	from := st.ev
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, fn, args...) }); why != "" {
		t.r.fail("analysed", x.what, "%s", why)
	}
	t.r.unit("paths", len(outs))
	t.r.unit("functions that run a test", 1)
	for _, o := range outs {
		if o.kind != outReturn {
			continue
		}
		res, ok := o.ret.(PtrV)
		if !ok {
			t.r.fail("resolved", x.what, "the result is not resolved")
			continue
		}
		passed, ok := fieldOf(an.load(o.st, res), t.resT, "Passed").(BoolV)
		if !ok {
			t.r.fail("resolved", x.what, "the verdict is not resolved")
			continue
		}
		for _, st := range o.st.assume(passed.C) {
			t.passes(x, st, from, s, tc, file)
		}
	}
	t.r.engine(an, x.what)
}

func (t *testRunCk) returnsResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && types.Identical(r.At(0).Type(), types.NewPointer(t.resT))
}

// passes checks a path on which the test passes.
func (t *testRunCk) passes(x *fileCtx, st *State, from *Event, s stated, tc, file Val) {
	r, an := t.r, x.an
	const rule = "a test passes only when its expectations are met"
	var ev *Event
	var prior, evs []*Event
	for _, e := range eventsAfter(st.ev, from) {
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				for _, q := range e.Loop.iteration(b) {
					if isEval(q) {
						r.fail(rule, x.what, "runs the script in a loop")
						return
					}
				}
			}
		}
		evs = append(evs, e)
		if isEval(e) {
			if ev != nil {
				r.fail(rule, x.what, "runs the script twice")
				return
			}
			ev = e
			prior = append(prior, evs...)
		}
	}
	if ev == nil {
		r.fail(rule, x.what, "passes without running the script")
		return
	}
	if tc == nil {
		// what the file says
		why := "passes without reading the test file"
		for _, e := range evs {
			if e.Kind != "call" || e.Name != "encoding/xml.Unmarshal" || !okEvent(e) {
				continue
			}
			i, ok := e.Args[1].(IfaceV)
			if !ok {
				continue
			}
			pv, ok := i.V.(PtrV)
			if !ok {
				continue
			}
			pt, ok := i.T.(*types.Pointer)
			if !ok {
				continue
			}
			data, ok := an.strOf(st, e.Args[0])
			read := false
			for j, q := range evs {
				n, in, content, ok2 := x.read(st, q, evs[:j])
				read = read || ok && ok2 && !in && file != nil && st.sameVal(n, file) && containsText(st, data, content)
			}
			if !read {
				why = "does not decode the whole of the test file"
				continue
			}
			s, why = statedBy(st, an.load(st, pv), pt.Elem())
			break
		}
		if why != "" {
			r.fail(rule, x.what, "%s", why)
			return
		}
	}
	t.ran(x, st, ev, prior, s)
	evalErr := ev.Ret[len(ev.Ret)-1]
	_, succeeded := evalErr.(NilV)
	some := false
	// error
	t.split(an, st, *s.err, true, func(st *State, want StrV, has bool) {
		if !has {
			r.check(succeeded, rule, "error in "+x.what, "passes although the script failed and no error is expected")
			return
		}
		some = true
		if succeeded {
			r.fail(rule, "error in "+x.what, "passes although the script succeeded and an error is expected")
			return
		}
		r.check(t.compared(an, st, evalErr, want), rule, "error in "+x.what, "passes without comparing the error with the expected one")
	})
	// output
	t.split(an, st, *s.output, false, func(st *State, want StrV, has bool) {
		if !has {
			return
		}
		some = true
		_, post := x.texts(ev)
		if post == nil {
			r.fail(rule, "output in "+x.what, "the buffer after the script is not understood")
			return
		}
		eq, known := st.truth(Cond{Kind: CStrEq, S: *post, T: want})
		where := "output in "
		if !succeeded {
			where = "output of a script that fails as expected in "
		}
		r.check(known && eq, rule, where+x.what, "passes without comparing the buffer with the expected output")
	})
	// result
	if succeeded {
		t.split(an, st, *s.result, true, func(st *State, want StrV, has bool) {
			if !has {
				return
			}
			some = true
			why := t.resultMet(x, st, ev, evs, s)
			r.check(why == "", rule, "result in "+x.what, "%s", why)
		})
		// a test states something
		t.split(an, st, *s.err, true, func(st *State, _ StrV, e bool) {
			t.split(an, st, *s.output, false, func(st *State, _ StrV, o bool) {
				t.split(an, st, *s.result, true, func(st *State, _ StrV, res bool) {
					r.check(e || o || res, rule, "no expectation in "+x.what, "passes although the test states nothing")
				})
			})
		})
	}
	_ = some
}

// split distinguishes whether a text says something.
func (t *testRunCk) split(an *An, st *State, s StrV, trim bool, f func(st *State, s StrV, has bool)) {
	outs := []Out{{st: st, ret: s}}
	if trim {
		outs = models["strings.TrimSpace"](&mcall{an: an, st: st.clone(), name: "strings.TrimSpace", a: []Val{s}})
	}
	for _, o := range outs {
		v := o.ret.(StrV)
		for _, y := range o.st.assume(ceq(v.length())) {
			f(y, v, false)
		}
		for _, y := range o.st.assume(ceq(v.length()).not()) {
			f(y, v, true)
		}
	}
}

// ran: the script stated was run on the buffer stated.
func (t *testRunCk) ran(x *fileCtx, st *State, ev *Event, prior []*Event, s stated) {
	const rule = "the stated script is run on the stated buffer"
	pre, _ := x.texts(ev)
	t.r.check(pre != nil && st.strEq(*pre, *s.buffer), rule, "buffer in "+x.what, "the script is run on another text")
	var prog Val
	for _, a := range ev.Args {
		switch a.(type) {
		case SliceV, NilV:
			if prog == nil {
				prog = a
			}
		}
	}
	for i := len(prior) - 1; i >= 0; i-- {
		p := prior[i]
		if isParse(p) && okEvent(p) && prog != nil && st.sameVal(prog, p.Ret[0]) {
			text, ok := x.parsed(p)
			t.r.check(ok && fromText(text, *s.input), rule, "script in "+x.what, "parses something else than the input")
			return
		}
	}
	// an empty script
	t.split(x.an, st, *s.input, true, func(st *State, _ StrV, has bool) {
		if !has {
			if l, ok := prog.(SliceV); ok {
				t.r.check(st.eq(l.Len, lc(0)), rule, "script in "+x.what, "runs something although the input is empty")
			}
			return
		}
		t.r.fail(rule, "script in "+x.what, "runs something that was not parsed from the input")
	})
}

// fromText: s is a part of text.
func fromText(s, text StrV) bool {
	var b *Base
	for _, p := range text.P {
		if p.Base != nil {
			b = p.Base
		}
	}
	for _, p := range s.P {
		if p.Base == nil && p.Lit != "" || p.Base != nil && p.Base != b {
			return false
		}
	}
	return true
}

// compared: the state knows that a predicate on the error's text and the
// expected text holds.
func (t *testRunCk) compared(an *An, st *State, err Val, want StrV) bool {
	hasErr := func(v Val) bool {
		s, ok := v.(StrV)
		return ok && an.mentionsAny(st, s, err, 0)
	}
	hasWant := func(v Val) bool {
		s, ok := v.(StrV)
		if !ok {
			return false
		}
		for _, p := range s.P {
			for _, q := range want.P {
				if p.Base != nil && p.Base == q.Base {
					return true
				}
			}
		}
		return false
	}
	// nothing but parentheses is expected
	outs := models["strings.Trim"](&mcall{an: an, st: st.clone(), name: "strings.Trim", a: []Val{want, lit("()")}})
	empty := len(outs) > 0
	for _, o := range outs {
		l, ok := o.ret.(StrV)
		empty = empty && ok && o.st.eq(l.length(), lc(0))
	}
	if empty {
		return true
	}
	for _, u := range st.uf {
		if len(u.Args) < 2 {
			continue
		}
		switch u.Fn {
		case "pred:contains", "pred:EqualFold":
		default:
			continue
		}
		if !hasErr(u.Args[0]) || !hasWant(u.Args[1]) {
			continue
		}
		if v, ok := u.Ret.(OpaqueV); ok {
			if b, ok := st.opq[fmt.Sprintf("p%d", v.ID)]; ok && b {
				return true
			}
		}
	}
	return false
}

// resultMet: the value of the script equals the stated one.
func (t *testRunCk) resultMet(x *fileCtx, st *State, ev *Event, evs []*Event, s stated) string {
	why := "passes without comparing the value with the expected one"
	for _, e := range evs {
		if e.Kind != "opaque" || e.Name != "equal" || len(e.Args) != 2 || len(e.Ret) != 1 {
			continue
		}
		b, ok := e.Ret[0].(BoolV)
		if !ok {
			continue
		}
		if v, known := st.truth(b.C); !known || !v {
			continue
		}
		want := e.Args[0]
		if !st.sameVal(e.Args[1], ev.Ret[0]) {
			want = e.Args[1]
			if !st.sameVal(e.Args[0], ev.Ret[0]) {
				why = "compares something else than the value of the script"
				continue
			}
		}
		for _, p := range evs {
			if !isParse(p) || !okEvent(p) {
				continue
			}
			text, ok := x.parsed(p)
			if !ok || !fromText(text, *s.result) || p == ev {
				continue
			}
			l, ok := p.Ret[0].(SliceV)
			if !ok {
				continue
			}
			if _, isNil := want.(NilV); isNil {
				if !st.eq(l.Len, lc(0)) {
					continue
				}
			} else {
				i, ok := x.an.indexOf(st, l, want)
				if !ok || !st.eq(i, lc(0)) {
					continue
				}
				if !st.eq(l.Len, lc(1)) {
					why = "ignores all but one of the expected values"
					continue
				}
			}
			if w := t.inLang(st, p, *s.lang); w != "" {
				why = w
				continue
			}
			return ""
		}
	}
	return why
}

// inLang: the expected value is read in the stated format.
func (t *testRunCk) inLang(st *State, p *Event, lang StrV) string {
	is := func(names ...string) bool {
		for _, n := range names {
			if eq, known := st.truth(Cond{Kind: CStrEq, S: lang, T: lit(n)}); known && eq {
				return true
			}
		}
		return false
	}
	ok := false
	switch strings.TrimPrefix(p.Name, "parse:") {
	case "ParseFormat":
		f, isStr := p.Args[0].(StrV)
		if isStr {
			c, isConst := f.constant()
			ok = st.strEq(f, lang) || isConst && (c == "sexp" || c == "") && is("", "sexp") || isConst && is(c)
		}
	case "ParseSexp":
		ok = is("", "sexp")
	case "ParseString", "ParseReader":
		ok = is("shell")
	default:
		ok = is("json")
	}
	if !ok {
		return "reads the expected value in another format than the stated one"
	}
	return ""
}

// equal: two values are reported as equal only if they are.
func (t *testRunCk) equal() {
	const rule = "only equal values compare as equal"
	fn := t.c.w.fn("edlisp", "Equal")
	if !t.r.check(fn != nil && len(fn.Params) == 2, "resolved", "edlisp.Equal", "not found") {
		return
	}
	an := t.k.newAn()
	impls := an.implementers(t.c.lab.valueT)
	var names []string
	kind := map[string]types.Type{}
	for _, x := range impls {
		n := shortType(x)
		names = append(names, n)
		kind[n] = x
	}
	names = append(names, "nil")
	sort.Strings(names)
	n := 0
	for _, na := range names {
		for _, nb := range names {
			an := t.k.newAn()
			an.nonNil = nil
			st := an.newState()
			mk := func(n, name string) (Val, Val) {
				if n == "nil" {
					return NilV{}, nil
				}
				p, ok := kind[n].(*types.Pointer)
				if !ok {
					v := an.havoc(st, kind[n], name)
					return IfaceV{T: kind[n], V: v}, v
				}
				pv := an.ptr(st, p.Elem(), name)
				return IfaceV{T: kind[n], V: pv}, an.load(st, pv.(PtrV))
			}
			a, ca := mk(na, "a")
			b, cb := mk(nb, "b")
			what := fmt.Sprintf("%s of %s and %s", fnName(fn), na, nb)
			from := st.ev
			var outs []Out
			if why := an.guard(func() { outs = an.run(st, fn, a, b) }); why != "" {
				t.r.fail("analysed", what, "%s", why)
			}
			t.r.unit("paths", len(outs))
			for _, o := range outs {
				if o.kind != outReturn {
					continue
				}
				v, ok := o.ret.(BoolV)
				if !ok {
					t.r.fail("resolved", what, "the result is not resolved")
					continue
				}
				for _, s := range o.st.assume(v.C) {
					n++
					why := ""
					switch {
					case na != nb:
						why = "values of different kinds may compare as equal"
					case na == "nil":
					default:
						why = t.sameContent(an, s, from, ca, cb)
					}
					t.r.check(why == "", rule, what, "%s", why)
				}
			}
			t.r.engine(an, what)
		}
	}
	t.r.check(n >= 5, "analysed", "edlisp.Equal", "only %d outcomes in which values are equal", n)
}

func (t *testRunCk) sameContent(an *An, s *State, from *Event, a, b Val) string {
	x, ok1 := a.(StructV)
	y, ok2 := b.(StructV)
	if !ok1 || !ok2 {
		return "the values are not understood"
	}
	for i := range x.F {
		switch p := x.F[i].(type) {
		case StrV:
			if eq, known := s.truth(Cond{Kind: CStrEq, S: p, T: y.F[i].(StrV)}); !known || !eq {
				return "different texts may compare as equal"
			}
		case SliceV:
			q := y.F[i].(SliceV)
			if !s.eq(p.Len, q.Len) {
				return "lists of different lengths may compare as equal"
			}
			c := &coverCk{an: an, item: func(st *State, e *Event) (Lin, bool, string) {
				if e.Kind != "recurse" {
					return Lin{}, false, ""
				}
				bv, ok := e.Ret[0].(BoolV)
				if !ok {
					return Lin{}, false, ""
				}
				if v, known := st.truth(bv.C); !known || !v {
					return Lin{}, false, ""
				}
				l, r := e.Args[0], e.Args[1]
				i, ok1 := an.indexOf(st, p, l)
				j, ok2 := an.indexOf(st, q, r)
				if !ok1 || !ok2 {
					i, ok1 = an.indexOf(st, p, r)
					j, ok2 = an.indexOf(st, q, l)
				}
				if !ok1 || !ok2 || !st.eq(i, j) {
					return Lin{}, false, "compares elements at different places"
				}
				return i, true, ""
			}}
			if why := c.all(s, eventsAfter(s.ev, from), p.Len); why != "" {
				return why
			}
		case FloatV:
			q, ok := y.F[i].(FloatV)
			if !ok {
				return "the values are not understood"
			}
			if eq, known := s.truth(Cond{Kind: CFloat, F: p, G: q, Op: "=="}); !known || !eq {
				return "different numbers may compare as equal"
			}
		default:
			if !s.sameVal(p, y.F[i]) {
				return "different contents may compare as equal"
			}
		}
	}
	return ""
}

// coverCk checks that a path handles the elements 0, 1, ... one by one.
type coverCk struct {
	an   *An
	item func(st *State, e *Event) (Lin, bool, string)
	next Lin
}

// all: every element of a sequence of length n is handled in st.
func (q *coverCk) all(st *State, evs []*Event, n Lin) string {
	q.next = lc(0)
	if why := q.step(st, evs); why != "" {
		return why
	}
	if st.eq(q.next, n) {
		return ""
	}
	if v, known := st.truth(cge(q.next.sub(n))); known && v {
		return ""
	}
	return fmt.Sprintf("elements from %s on may not be handled", q.an.show(q.next))
}

func (q *coverCk) step(st *State, evs []*Event) string {
	for _, e := range evs {
		if e.Loop != nil {
			if why := q.loop(e.Loop, st); why != "" {
				return why
			}
			continue
		}
		i, is, why := q.item(st, e)
		if why != "" {
			return why
		}
		if !is {
			continue
		}
		if !st.eq(i, q.next) {
			return fmt.Sprintf("handles element %s where element %s is due", q.an.show(i), q.an.show(q.next))
		}
		q.next = q.next.addk(1)
	}
	return ""
}

// first finds the element an iteration starts with.
func (q *coverCk) first(st *State, evs []*Event) (Lin, bool) {
	for _, e := range evs {
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				if _, ok := q.first(b, e.Loop.iteration(b)); ok {
					return Lin{}, false
				}
			}
			continue
		}
		if i, is, _ := q.item(st, e); is {
			return i, true
		}
	}
	return Lin{}, false
}

func (q *coverCk) loop(l *LoopInfo, st *State) string {
	var at *Lin
	none := false
	for i, b := range l.Backs {
		evs := l.iteration(b)
		k, ok := q.first(b, evs)
		if !ok {
			for _, e := range evs {
				if e.Loop != nil {
					if why := q.loop(e.Loop, b); why != "" {
						return why
					}
				}
				if _, _, why := q.item(b, e); why != "" {
					return why
				}
			}
			none = true
			continue
		}
		if at == nil {
			at = &k
		} else if !b.eq(*at, k) {
			return "iterations disagree on the element that is due"
		}
		sub := *q
		sub.next = k
		if why := sub.step(b, evs); why != "" {
			return why
		}
		if !b.eq(sub.next, k.addk(1)) || !b.eq(sub.next, subst(k, l.BackMaps[i])) {
			return "an iteration does not handle exactly one element"
		}
	}
	if at == nil {
		return ""
	}
	if none {
		return "some iterations skip an element"
	}
	if !l.Entry.eq(subst(*at, l.EntryMap), q.next) {
		return fmt.Sprintf("the loop starts at element %s, not %s", q.an.show(subst(*at, l.EntryMap)), q.an.show(q.next))
	}
	q.next = *at
	return ""
}

// watchVerdicts counts the tests whose verdicts are looked at, and those of
// them that did not pass.
func (t *testRunCk) watchVerdicts() {
	k := *t.k
	t.k = &k
	k.ghosts = []string{"seen", "unpassed"}
	k.watch = func(an *An, st *State, id int) {
		o := st.obj(id)
		if o == nil || o.T == nil || !types.Identical(o.T, t.resT) {
			return
		}
		b, ok := fieldOf(an.load(st, PtrV{Obj: id}), t.resT, "Passed").(BoolV)
		if !ok || b.C.Kind != CEQ || b.C.Neg {
			return
		}
		st.ghost["seen"] = st.ghost["seen"].addk(1)
		st.ghost["unpassed"] = st.ghost["unpassed"].sub(b.C.L)
	}
}

// command: the test command succeeds only if every test passed.
func (t *testRunCk) command() {
	const rule = "the exit status tells whether all tests passed"
	t.watchVerdicts()
	n := t.k.combos("test")
	if !t.r.check(n > 0, "resolved", "command test", "not registered by main") {
		return
	}
	good := 0
	for i := 0; i < n; i++ {
		run, why := t.k.run("test", i)
		if run == nil || why != "" {
			t.r.fail("analysed", "command test", "%s", why)
			continue
		}
		what := "test with [" + run.combo + "]"
		t.r.unit("paths", len(run.outs))
		t.r.unit("combinations of boolean flags", 1)
		for _, o := range run.outs {
			if o.kind == outPanic {
				continue
			}
			evs := eventsAfter(o.st.ev, run.start.ev)
			walk(o.st, evs, nil, func(st *State, e *Event, _ []*Event) { t.shows(run.an, st, e, what) })
			isErr, ok := run.errCond(o)
			if !ok {
				t.r.fail("resolved", what, "the command's error is not resolved")
				continue
			}
			for _, st := range o.st.assume(isErr.not()) {
				if st.ghost["fail"].T != nil || !st.eq(st.ghost["fail"], lc(0)) {
					continue // C17
				}
				good++
				why := t.allPassed(run, st, evs)
				t.r.check(why == "", rule, what, "%s", why)
			}
		}
		t.r.engine(run.an, what)
	}
	t.r.check(good > 0, "analysed", "command test", "no path succeeds")
}

func isRunTest(e *Event) bool { return e.Kind == "opaque" && strings.HasPrefix(e.Name, "runtest:") }

// allPassed: on a path that succeeds, every test was run and passed.
func (t *testRunCk) allPassed(run *cmdRun, st *State, evs []*Event) string {
	an := run.an
	// the files to test
	lists := []SliceV{run.args}
	var cells func(evs []*Event)
	cells = func(evs []*Event) {
		for _, e := range evs {
			for _, r := range e.Ret {
				if s, ok := r.(SliceV); ok {
					lists = append(lists, s)
				}
			}
			if e.Loop != nil {
				for _, c := range e.Loop.Cells {
					if s, ok := c.Head.(SliceV); ok {
						lists = append(lists, s)
					}
				}
			}
		}
	}
	cells(evs)
	why := ""
	var runs Lin
	for _, l := range lists {
		l := l
		q := &coverCk{an: an, item: func(st *State, e *Event) (Lin, bool, string) {
			if !isRunTest(e) {
				return Lin{}, false, ""
			}
			for _, a := range e.Args {
				if i, ok := an.indexOf(st, l, a); ok {
					return i, true, ""
				}
			}
			return Lin{}, false, "runs a test of another list"
		}}
		w := q.all(st, evs, l.Len)
		if w == "" {
			why, runs = "", l.Len
			break
		}
		if why == "" {
			why = "not all test files are run: " + w
		}
	}
	if why != "" {
		return why
	}
	if st.eq(runs, lc(0)) {
		return ""
	}
	zero := func(m map[string]Lin, k string) Lin {
		if l, ok := m[k]; ok {
			return l
		}
		return lc(0)
	}
	why = "succeeds without looking at the verdicts of all tests"
	for _, e := range evs {
		if e.Loop == nil || e.Loop.Head == nil || e.Loop.Entry == nil {
			continue
		}
		h, n := e.Loop.Head.ghost, e.Loop.Entry.ghost
		seen := zero(h, "seen").sub(zero(n, "seen"))
		bad := zero(h, "unpassed").sub(zero(n, "unpassed"))
		if !st.eq(seen, runs) {
			continue
		}
		if st.eq(bad, lc(0)) || t.flagged(st, e.Loop) {
			return ""
		}
		why = "succeeds although a test may not have passed"
	}
	return why
}

// flagged: a boolean of the loop, which has a known value in st, keeps that
// value only while every test passes.
func (t *testRunCk) flagged(st *State, l *LoopInfo) bool {
	for _, c := range l.Cells {
		h, ok := c.Head.(BoolV)
		if !ok || h.C.Kind != CEQ || h.C.Neg {
			continue
		}
		v, known := st.truth(h.C)
		if !known {
			continue
		}
		at := h.C
		if !v {
			at = at.not()
		}
		good := true
		for i, b := range l.Backs {
			after := at
			after.L = subst(at.L, l.BackMaps[i])
			for _, s := range b.assume(after) {
				was, ok := s.truth(at)
				if !ok || !was || !s.eq(s.ghost["unpassed"], l.Head.ghost["unpassed"]) {
					good = false
				}
			}
		}
		if good {
			return true
		}
	}
	return false
}

// shows: what is shown as passed has passed.
func (t *testRunCk) shows(an *An, st *State, e *Event, what string) {
	if e.Kind != "stdout" {
		return
	}
	text, ok := e.Args[len(e.Args)-1].(StrV)
	if !ok {
		return
	}
	pass := false
	for _, p := range text.P {
		pass = pass || p.Base == nil && strings.Contains(p.Lit, "PASS")
	}
	if !pass {
		return
	}
	for _, id := range st.symObj {
		o := st.obj(id)
		if o == nil || o.T == nil || !types.Identical(o.T, t.resT) {
			continue
		}
		v := an.load(st, PtrV{Obj: id})
		name, ok := fieldOf(v, t.resT, "Name").(StrV)
		if !ok || len(name.P) != 1 || !containsText(st, text, name) {
			continue
		}
		b, ok := fieldOf(v, t.resT, "Passed").(BoolV)
		yes := false
		if ok {
			x, known := st.truth(b.C)
			yes = known && x
		}
		t.r.check(yes, "only tests that passed are shown as passed", e.Name+" in "+what+", "+an.w.pos(e.At), "shows a test as passed that may not have passed")
	}
}
