package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// C35: the test command runs every selected test file, once, in order, and
// reports the outcome of each and how many there were.

type testCmdCk struct {
	*testRunCk
	run     *cmdRun
	an      *An
	what    string
	pats    SliceV
	quiet   bool
	failing bool // only failing tests are shown
}

func checkC35(c *ctx, r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	t := &testRunCk{c: c, r: r, k: k, resT: c.w.typ("edlisp/testing", "TestResult")}
	if !r.check(t.resT != nil, "resolved", "edlisp/testing.TestResult", "not found") {
		return
	}
	t.watchVerdicts()
	n := t.k.combos("test")
	if !r.check(n > 1, "resolved", "command test", "not registered by main, or without flags") {
		return
	}
	var mu sync.Mutex
	parallel(n, func(i int) {
		sub := newReport(r.id)
		defer func() {
			if e := recover(); e != nil {
				sub.fail("analysed", "command test", "the analysis stopped: %v", e)
			}
			mu.Lock()
			r.merge(sub)
			mu.Unlock()
		}()
		q := *t
		q.r = sub
		run, why := q.k.run("test", i)
		if run == nil || why != "" {
			sub.fail("analysed", "command test", "%s", why)
			return
		}
		x := &testCmdCk{testRunCk: &q, run: run, an: run.an, what: "test with [" + run.combo + "]", quiet: run.bools["quiet"], failing: run.bools["fail-only"]}
		var ok bool
		x.pats, ok = run.flags["include"].(SliceV)
		if !sub.check(ok, "resolved", "flag include of the test command", "not a declared list of patterns") {
			return
		}
		sub.unit("combinations of boolean flags", 1)
		sub.unit("paths", len(run.outs))
		full := 0
		for _, o := range run.outs {
			if o.kind == outPanic || o.st.ghost["fail"].T != nil || !o.st.eq(o.st.ghost["fail"], lc(0)) {
				continue
			}
			for _, s := range o.st.assume(cge(x.pats.Len.addk(-1))) {
				full++
				x.path(s, true)
			}
			for _, s := range o.st.assume(cge(x.pats.Len.addk(-1)).not()) {
				full++
				x.path(s, false)
			}
		}
		sub.check(full > 0, "analysed", x.what, "no path without a failing library call")
		sub.engine(run.an, x.what)
	})
}

func (x *testCmdCk) path(st *State, filter bool) {
	named := cge(x.run.args.Len.addk(-1))
	for _, s := range st.assume(named) {
		x.selected(s, x.run.args, filter, "named files")
	}
	for _, s := range st.assume(named.not()) {
		evs := eventsAfter(s.ev, x.run.start.ev)
		var found *SliceV
		for _, e := range evs {
			if e.Kind == "call" && e.Name == "path/filepath.Glob" && okEvent(e) {
				if p, ok := e.Args[0].(StrV); ok {
					if c, _ := s.norm(p).constant(); c == "tests/*.xml" {
						if l, ok := e.Ret[0].(SliceV); ok {
							found = &l
						}
					}
				}
			}
		}
		if !x.r.check(found != nil, "without arguments the tests are tests/*.xml", x.what, "a path does not list tests/*.xml") {
			continue
		}
		x.selected(s, *found, filter, "tests/*.xml")
	}
}

// elemOf is the index of a value in a list, or in the list it was copied from.
func (x *testCmdCk) elemOf(st *State, l SliceV, vs []Val) (Lin, bool) {
	for _, v := range vs {
		if i, ok := x.an.indexOf(st, l, v); ok {
			return i, true
		}
	}
	return Lin{}, false
}

// selected: on a path the tests run are those of the base list that the
// patterns select, and the report is about them.
func (x *testCmdCk) selected(st *State, base SliceV, filter bool, which string) {
	const rule = "every selected test file is run once, in order, and no other"
	evs := eventsAfter(st.ev, x.run.start.ev)
	where := x.what + ", " + which
	if filter {
		where += " matching a pattern"
	}
	var runs Lin
	why := ""
	if !filter {
		runs = base.Len
		why = x.allRun(st, evs, base)
		if why != "" {
			for _, l := range x.lists(evs) {
				if st.eq(l.Len, base.Len) && x.sameList(st, l, base) && x.allRun(st, evs, l) == "" {
					why = ""
				}
			}
		}
	} else if st.eq(base.Len, lc(0)) {
		why = x.allRun(st, evs, base)
	} else {
		why = "the tests run are not those that match a pattern"
		for _, l := range append(x.lists(evs), SliceV{}) {
			// loops that collect a list which is run completely, or that run tests
			if l.Arr != 0 && x.allRun(st, evs, l) != "" {
				continue
			}
			for _, e := range evs {
				if e.Loop == nil {
					continue
				}
				w := x.sieve(st, e.Loop, base, l)
				if w == "" {
					why = ""
					runs = l.Len
					if l.Arr == 0 {
						runs = e.Loop.ghostGain("seen")
					}
				} else if w != "-" && why != "" {
					why = w
				}
			}
		}
	}
	x.r.check(why == "", rule, where, "%s", why)
	if why != "" {
		return
	}
	if st.eq(runs, lc(0)) {
		return
	}
	x.summary(st, evs, runs, where)
	x.shown(st, evs, where)
}

// ghostGain is the growth of a ghost counter over the loop.
func (l *LoopInfo) ghostGain(k string) Lin {
	g := func(m map[string]Lin) Lin {
		if v, ok := m[k]; ok {
			return v
		}
		return lc(0)
	}
	return g(l.Head.ghost).sub(g(l.Entry.ghost))
}

func (x *testCmdCk) allRun(st *State, evs []*Event, l SliceV) string {
	q := &coverCk{an: x.an, item: func(st *State, e *Event) (Lin, bool, string) {
		if !isRunTest(e) {
			return Lin{}, false, ""
		}
		if i, ok := x.elemOf(st, l, e.Args); ok {
			return i, true, ""
		}
		return Lin{}, false, "runs a test of another list"
	}}
	return q.all(st, evs, l.Len)
}

// lists are the slices known on a path.
func (x *testCmdCk) lists(evs []*Event) []SliceV {
	var out []SliceV
	for _, e := range evs {
		for _, r := range e.Ret {
			if s, ok := r.(SliceV); ok {
				out = append(out, s)
			}
		}
		if e.Loop != nil {
			for _, c := range e.Loop.Cells {
				if s, ok := c.Head.(SliceV); ok {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// sameList: both lists hold the same elements.
func (x *testCmdCk) sameList(st *State, a, b SliceV) bool {
	s := st.clone()
	i := ls(s.newSym("i"))
	s.must(i)
	s.must(a.Len.sub(i).addk(-1))
	x.an.quiet++
	defer func() { x.an.quiet-- }()
	return s.sameVal(x.an.elem(s, a.Arr, a.Off.add(i)), x.an.elem(s, b.Arr, b.Off.add(i)))
}

// sieve: the loop goes through the base list and keeps (appends to list, or,
// without one, runs) exactly the elements whose base name matches a pattern.
// The answer is "-" for loops that do something else.
func (x *testCmdCk) sieve(st *State, l *LoopInfo, base, list SliceV) string {
	if l.Head == nil || l.Entry == nil || len(l.Backs) == 0 {
		return "-"
	}
	var at *Lin
	for n, b := range l.Backs {
		evs := l.iteration(b)
		// the element this iteration is about
		var idx []Lin
		kept := 0
		note := func(i Lin) { idx = append(idx, i) }
		walk(b, evs, nil, func(s *State, e *Event, _ []*Event) {
			if e.Kind == "match" {
				if i, ok := x.matchOf(s, base, e); ok {
					note(i)
				}
			}
		})
		if list.Arr != 0 {
			for _, s := range x.an.stores(b, l, n) {
				if s.arr != list.Arr {
					continue
				}
				i, ok := x.an.indexOf(b, base, s.val)
				if !ok {
					return "something that is not one of the files is added to the tests"
				}
				note(i)
				kept++
			}
		} else {
			bad := ""
			for _, e := range evs {
				if isRunTest(e) {
					i, ok := x.elemOf(b, base, e.Args)
					if !ok {
						bad = "-"
					}
					note(i)
					kept++
				} else if e.Loop != nil {
					walk(b, []*Event{e}, nil, func(_ *State, e *Event, _ []*Event) {
						if isRunTest(e) {
							bad = "-"
						}
					})
				}
			}
			if bad != "" {
				return bad
			}
		}
		if len(idx) == 0 {
			return "-"
		}
		if at == nil {
			at = &idx[0]
		}
		for _, i := range idx {
			if !b.eq(i, *at) {
				return "an iteration is about several files"
			}
		}
		if !b.eq(subst(*at, l.BackMaps[n]), at.addk(1)) {
			return "the loop does not go from one file to the next"
		}
		if kept > 1 {
			return "a file is kept twice"
		}
		if why := x.decided(b, evs, base, *at, kept == 1); why != "" {
			return why
		}
	}
	if !l.Entry.eq(subst(*at, l.EntryMap), lc(0)) {
		return "the loop does not start at the first file"
	}
	if !st.eq(*at, base.Len) {
		return "the loop does not reach the last file"
	}
	return ""
}

// matchOf: the event matches the base name of an element of base.
func (x *testCmdCk) matchOf(st *State, base SliceV, e *Event) (Lin, bool) {
	t, ok := e.Args[1].(StrV)
	if !ok || len(t.P) != 1 || t.P[0].Base == nil || t.P[0].Base.Fn != "filepath.Base" {
		return Lin{}, false
	}
	if !st.strEq(t, baseStr(t.P[0].Base)) {
		return Lin{}, false
	}
	return x.an.indexOf(st, base, t.P[0].Base.Args[0])
}

// decided: a file is kept because a pattern matches its base name, or dropped
// because none does.
func (x *testCmdCk) decided(b *State, evs []*Event, base SliceV, at Lin, kept bool) string {
	pattern := func(s *State, e *Event) (Lin, bool) {
		i, ok := x.matchOf(s, base, e)
		if !ok || !s.eq(i, at) {
			return Lin{}, false
		}
		return x.an.indexOf(s, x.pats, e.Args[0])
	}
	if kept {
		for _, e := range evs {
			if e.Kind != "match" {
				continue
			}
			if _, ok := pattern(b, e); ok {
				if v, known := b.truth(e.Ret[0].(BoolV).C); known && v {
					return ""
				}
			}
		}
		return "a file is kept although no pattern may match its base name"
	}
	q := &coverCk{an: x.an, item: func(s *State, e *Event) (Lin, bool, string) {
		if e.Kind != "match" {
			return Lin{}, false, ""
		}
		i, ok := pattern(s, e)
		if !ok {
			return Lin{}, false, ""
		}
		if v, known := s.truth(e.Ret[0].(BoolV).C); !known || v {
			return Lin{}, false, "a file is dropped although a pattern may match its base name"
		}
		return i, true, ""
	}}
	if why := q.all(b, evs, x.pats.Len); why != "" {
		if strings.HasPrefix(why, "a file") {
			return why
		}
		return "a file is dropped before all patterns were tried: " + why
	}
	return ""
}

// summary: the counts printed are right.
func (x *testCmdCk) summary(st *State, evs []*Event, runs Lin, where string) {
	const rule = "the summary counts the tests run, passed and failed"
	text := StrV{}
	for _, e := range evs {
		if e.Kind == "stdout" {
			if s, ok := outText(e); ok {
				text = concat(text, s)
			}
		}
	}
	// the tests that did not pass, as counted by a loop over the verdicts
	best := "the verdicts of all tests are not counted"
	for _, e := range evs {
		if e.Loop == nil || e.Loop.Head == nil || !st.eq(e.Loop.ghostGain("seen"), runs) {
			continue
		}
		bad := e.Loop.ghostGain("unpassed")
		why := x.counts(st, text, map[string]Lin{"passed": runs.sub(bad), "failed": bad, "total": runs})
		if why == "" {
			best = ""
			break
		}
		best = why
	}
	x.r.check(best == "", rule, where, "%s", best)
}

// counts: the numbers in front of the given words are the wanted ones.
func (x *testCmdCk) counts(st *State, text StrV, want map[string]Lin) string {
	for _, word := range []string{"passed", "failed", "total"} {
		n := 0
		for i, p := range text.P {
			if p.Base != nil || i == 0 || !strings.HasPrefix(strings.TrimLeft(p.Lit, " "), word) {
				continue
			}
			b := text.P[i-1].Base
			if b == nil || b.Fn != "itoa" {
				continue
			}
			v, ok := b.Args[0].(IntV)
			if !ok {
				continue
			}
			n++
			if !st.eq(v.L, want[word]) {
				return fmt.Sprintf("the number of tests %s is given as %s, not %s", word, x.an.show(v.L), x.an.show(want[word]))
			}
		}
		if n == 0 {
			return "the number of tests " + word + " is not printed"
		}
	}
	return ""
}

// shown: unless quiet, the outcome of every test run (or every failing one) is
// printed.
func (x *testCmdCk) shown(st *State, evs []*Event, where string) {
	const rule = "the outcome of every test is printed"
	if x.quiet {
		return
	}
	why := "the outcomes are not printed"
	for _, e := range evs {
		if e.Loop == nil || e.Loop.Head == nil {
			continue
		}
		if w := x.shows1(st, e.Loop, evs); w == "" {
			why = ""
		} else if w != "-" && why != "" {
			why = w
		}
	}
	x.r.check(why == "", rule, where, "%s", why)
}

// shows1: the loop goes through the results and prints each one.
func (x *testCmdCk) shows1(st *State, l *LoopInfo, evs []*Event) string {
	prints := false
	for _, b := range l.Backs {
		walk(b, l.iteration(b), nil, func(_ *State, e *Event, _ []*Event) { prints = prints || e.Kind == "stdout" })
	}
	if !prints || len(l.Backs) == 0 {
		return "-"
	}
	lists := append(x.lists(evs), x.run.args)
	var last string
	for _, list := range lists {
		why := func() string {
			var at *Lin
			for n, b := range l.Backs {
				id, i, ok := x.about(b, l, list)
				if !ok {
					return "-"
				}
				if at == nil {
					at = &i
				}
				if !b.eq(*at, i) || !b.eq(subst(*at, l.BackMaps[n]), at.addk(1)) {
					return "the loop does not go from one result to the next"
				}
				v := x.an.load(b, PtrV{Obj: id})
				passed, known := false, false
				if p, ok := fieldOf(v, x.resT, "Passed").(BoolV); ok {
					passed, known = b.truth(p.C)
				}
				n, status := 0, ""
				bad := ""
				for _, e := range l.iteration(b) {
					if s, ok := outText(e); ok {
						if containsText(b, s, fieldOf(v, x.resT, "Name")) {
							n++
							status = literals(s)
						}
					} else if e.Loop != nil {
						walk(b, []*Event{e}, nil, func(_ *State, e *Event, _ []*Event) {
							if e.Kind == "stdout" {
								bad = "-"
							}
						})
					}
				}
				switch {
				case bad != "":
					return bad
				case n == 0 && x.failing && known && passed:
				case n != 1:
					return fmt.Sprintf("prints the outcome of a test %d times", n)
				case x.failing && (!known || passed):
					return "shows a test that passed although only failing ones are wanted"
				case !known || strings.Contains(status, "PASS") != passed || strings.Contains(status, "FAIL") == passed:
					return "does not say whether a test passed or failed"
				}
			}
			if !l.Entry.eq(subst(*at, l.EntryMap), lc(0)) {
				return "the loop does not start at the first result"
			}
			if !st.eq(*at, list.Len) {
				return "the loop does not reach the last result"
			}
			return ""
		}()
		if why == "" {
			return ""
		}
		if last == "" || last == "-" {
			last = why
		}
	}
	return last
}

// about is the result an iteration handles, and its place in the list.
func (x *testCmdCk) about(b *State, l *LoopInfo, list SliceV) (id int, at Lin, ok bool) {
	for _, e := range l.iteration(b) {
		if isRunTest(e) && len(e.Ret) == 1 {
			if p, isPtr := e.Ret[0].(PtrV); isPtr {
				if i, found := x.elemOf(b, list, e.Args); found {
					return p.Obj, i, true
				}
			}
		}
	}
	o := b.obj(list.Arr)
	if o == nil || o.Arr == nil {
		return 0, Lin{}, false
	}
	for _, e := range o.Arr.Els {
		id := -1
		switch v := e.V.(type) {
		case PtrV:
			id = v.Obj
		case SymV:
			if n, ok := b.symObj[v.ID]; ok {
				id = n
			}
		}
		if o := b.obj(id); o != nil && o.T != nil && types.Identical(o.T, x.resT) {
			return id, e.I.sub(list.Off), true
		}
	}
	return 0, Lin{}, false
}

// literals is the constant text in s.
func literals(s StrV) string {
	out := ""
	for _, p := range s.P {
		if p.Base == nil {
			out += p.Lit
		}
	}
	return out
}
