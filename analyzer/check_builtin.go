package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ctx is what checks share.
type ctx struct {
	w    *World
	lab  *Lab
	tier string
}

func specCounts(name string) []int {
	c := contracts[name]
	if c == nil {
		return []int{0, 1, 2, 3, -4}
	}
	var out []int
	for k := 0; k <= 3; k++ {
		if c.Max < 0 || k <= c.Max+1 {
			out = append(out, k)
		}
	}
	return append(out, -4)
}

// okCounts are the argument counts a function accepts.
func okCounts(name string) []int {
	c := contracts[name]
	if c == nil {
		return []int{0, 1, 2, 3, -4}
	}
	if c.Max < 0 {
		return []int{0, 1, 2, 3, -4}
	}
	var out []int
	for k := c.Min; k <= c.Max; k++ {
		out = append(out, k)
	}
	return out
}

// runsFor analyses the functions and reports what could not be resolved.
func (c *ctx) runsFor(r *Report, names []string, counts func(string) []int) []*BRun {
	for _, e := range c.lab.errs {
		r.fail("resolved", "edlisp", "%s", e)
	}
	runs := c.lab.runAll(names, counts)
	var out []*BRun
	for _, b := range runs {
		what := fmt.Sprintf("%s with %d arguments", c.lab.construct(b.Name), b.N)
		if b.Many {
			what = fmt.Sprintf("%s with %d or more arguments", c.lab.construct(b.Name), b.N)
		}
		if b.Panic != "" {
			r.fail("analysed", what, "the analysis stopped: %s", b.Panic)
			continue
		}
		r.engine(b.An, what)
		r.unit("function analyses", 1)
		r.unit("paths", len(b.Outs))
		r.unit("queries", b.An.queries)
		if len(b.Outs) == 0 {
			r.fail("analysed", what, "no outcome")
		}
		out = append(out, b)
	}
	return out
}

// present reports functions with a contract that are not callable.
func (c *ctx) present(r *Report, class func(*Contract) bool) []string {
	var names []string
	for _, n := range sortedKeys(contracts) {
		if !class(contracts[n]) {
			continue
		}
		if c.lab.builtins[n] == nil {
			r.fail("callable", n, "%s is not a function of the default environment", n)
			continue
		}
		names = append(names, n)
	}
	return names
}

func (c *ctx) known() (names []string) {
	for _, n := range c.lab.names {
		names = append(names, n)
	}
	return
}

// clean names the obligations that concern the analysed code rather than the
// place it was reached from.
func oblKey(o *Oblig) (rule, construct string) {
	return o.Kind, o.Fn + " at " + o.Pos + ": " + o.What
}

var panicKinds = map[string]bool{}

// obligations copies the engine's safety obligations to the report.
func obligations(r *Report, an *An, from string) {
	for _, o := range an.oblig {
		rule, con := oblKey(o)
		x := r.get(rule, con)
		x.Instances += o.OK + o.Fail
		x.Fails += o.Fail
		x.Pos = o.Pos
		if o.Fail > 0 && x.Why == "" {
			x.Why = fmt.Sprintf("in %s, called for %s: may fail when %s", o.Fn, from, o.Why)
		}
	}
}

func (b *BRun) label() string {
	if b.Many {
		return fmt.Sprintf("(%s ...) with %d or more arguments", b.Name, b.N)
	}
	return fmt.Sprintf("(%s ...) with %d arguments", b.Name, b.N)
}

// sc makes the specification context of an outcome.
func (c *ctx) sc(b *BRun, o *Outcome, post ObsOut, fails *[]string, done *int) *SC {
	return &SC{lab: c.lab, an: b.An, st: post.st, pre: o.pre.obs, post: post.obs, args: o.args, ret: o.ret, fails: fails, done: done}
}

// ---- C01 ---------------------------------------------------------------------

func checkC01(c *ctx, r *Report) {
	for _, b := range c.runsFor(r, c.known(), specCounts) {
		obligations(r, b.An, b.label())
		con := c.lab.construct(b.Name)
		for _, o := range b.Outs {
			if o.out.kind != outReturn {
				r.fail("no panic", con, "%s: may end by panicking or leaving the process when %s", b.label(), short(o.out.st.describe(), 400))
				continue
			}
			r.ok("no panic", con)
			if o.ok {
				nn := o.out.st.isNil(o.ret)
				r.check(len(o.out.st.assume(nn)) == 0, "a success has a value", con, "%s: may succeed without a value", b.label())
			}
		}
	}
	c.bufferMethods(r, func(an *An, what string, o Out, pre PreState, post []ObsOut) {
		r.check(o.kind == outReturn, "no panic", what, "may panic")
	}, true)
	c.evaluator(r, func(an *An, what string) { obligations(r, an, what) })
}

// bufferMethods analyses the exported methods of Buffer on arbitrary buffers
// and arguments.
func (c *ctx) bufferMethods(r *Report, f func(an *An, what string, o Out, pre PreState, post []ObsOut), oblig bool) {
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(c.lab.bufT))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if !sel.Obj().Exported() {
			continue
		}
		fn := c.w.prog.MethodValue(sel)
		if fn == nil {
			continue
		}
		n++
		an := newAn(c.w)
		st := an.newState()
		what := fnName(fn)
		for _, pre := range c.lab.buffer(an, st) {
			args := []Val{pre.buf}
			for _, p := range fn.Params[1:] {
				args = append(args, an.havoc(pre.st, p.Type(), p.Name()))
			}
			for _, o := range an.run(pre.st, fn, args...) {
				var post []ObsOut
				if o.kind == outReturn {
					post = c.lab.observe(an, o.st, pre.buf)
				}
				f(an, what, o, pre, post)
			}
		}
		r.engine(an, what)
		if oblig {
			obligations(r, an, what)
		}
	}
	r.check(n >= 5, "analysed", "edlisp.Buffer methods", "only %d exported methods found", n)
}

// ---- C02 ---------------------------------------------------------------------

func inside(st *State, o Obs) (bool, string) {
	l := o.Text.length()
	switch {
	case !st.le(lc(1), o.Point):
		return false, "point may be below 1"
	case !st.le(o.Point, l.addk(1)):
		return false, "point may be beyond the end of the buffer"
	case !st.le(lc(1), o.Mark):
		return false, "mark may be below 1"
	case !st.le(o.Mark, l.addk(1)):
		return false, "mark may be beyond the end of the buffer"
	}
	return true, ""
}

func checkC02(c *ctx, r *Report) {
	an := newAn(c.w)
	st := an.newState()
	text := baseStr(st.newBase("text"))
	for _, o := range an.run(st, c.lab.newBuf, text) {
		for _, p := range c.lab.observe(an, o.st, o.ret) {
			ok, why := inside(p.st, p.obs)
			r.check(ok, "point and mark inside", "edlisp.NewBuffer", "%s", why)
		}
	}
	c.bufferMethods(r, func(an *An, what string, o Out, pre PreState, post []ObsOut) {
		if strings.HasSuffix(what, ".String") || strings.HasSuffix(what, ".Point") || strings.HasSuffix(what, ".Mark") {
			return
		}
		for _, p := range post {
			ok, why := inside(p.st, p.obs)
			r.check(ok, "point and mark inside", what, "%s: text %s, point %s, mark %s, when %s", why, p.st.showStr(p.obs.Text), an.show(p.obs.Point), an.show(p.obs.Mark), short(p.st.describe(), 500))
		}
	}, false)
	for _, b := range c.runsFor(r, c.known(), specCounts) {
		con := c.lab.construct(b.Name)
		for _, o := range b.Outs {
			for _, p := range o.post {
				ok, why := inside(p.st, p.obs)
				r.check(ok, "point and mark inside", con, "%s: %s: text %s, point %s, mark %s, when %s", b.label(), why, p.st.showStr(p.obs.Text), b.An.show(p.obs.Point), b.An.show(p.obs.Mark), short(p.st.describe(), 500))
			}
		}
	}
}

// ---- C03 ---------------------------------------------------------------------

func loopsInto(r *Report, an *An, from string) {
	for _, l := range an.loopsRun {
		con := l.Fn + ", loop at " + l.Pos
		o := r.get("loop work bounded by the text", con)
		o.Instances++
		o.Pos = l.Pos
		if !l.Bounded || l.Fails > 0 {
			o.Fails++
			if o.Why == "" {
				o.Why = fmt.Sprintf("no ranking function bounded by the lengths of buffer and arguments was found, analysing %s", from)
			}
		}
	}
}

func checkC03(c *ctx, r *Report) {
	for _, b := range c.runsFor(r, c.known(), specCounts) {
		loopsInto(r, b.An, b.label())
		r.unit("loops", len(b.An.loopsRun))
		c.noRecursion(r, b)
	}
	c.evaluator(r, func(an *An, what string) { loopsInto(r, an, what) })
}

// ---- C04 ---------------------------------------------------------------------

func (c *ctx) unchangedText(st *State, o *Outcome, p Obs) bool {
	return st.strEq(o.pre.obs.Text, p.Text)
}

func checkC04(c *ctx, r *Report) {
	for _, b := range c.runsFor(r, c.known(), okCounts) {
		con := c.lab.construct(b.Name)
		ct := contracts[b.Name]
		for i := range b.Outs {
			o := &b.Outs[i]
			for _, p := range o.post {
				if c.unchangedText(p.st, o, p.obs) {
					r.ok("one range replaced", con)
					continue
				}
				why := oneRange(b.An, p.st, o, p.obs, ct, c.lab)
				r.check(why == "", "one range replaced", con, "%s: %s: text becomes %s, when %s", b.label(), why, p.st.showStr(p.obs.Text), short(p.st.describe(), 500))
			}
		}
	}
}

// oneRange checks that the text is prefix + inserted + suffix of the original.
func oneRange(an *An, st *State, o *Outcome, p Obs, ct *Contract, lab *Lab) string {
	base := o.pre.obs.Text.P[0].Base
	l := o.pre.obs.Text.length()
	ps := st.norm(p.Text).P
	a := lc(0)
	i, j := 0, len(ps)
	if i < j && ps[i].Base != nil && st.sameBase(ps[i].Base, base) && st.eq(ps[i].Lo, lc(0)) {
		a = ps[i].Hi
		i++
	}
	b := l
	if j > i && ps[j-1].Base != nil && st.sameBase(ps[j-1].Base, base) && st.eq(ps[j-1].Hi, l) {
		b = ps[j-1].Lo
		j--
	}
	if !st.le(a, b) {
		return "text before and after the edited range may be duplicated"
	}
	mid := StrV{P: ps[i:j]}
	if len(mid.P) == 0 {
		return ""
	}
	// only text given as an argument may be inserted
	takes := ct == nil
	if ct != nil {
		for _, k := range ct.Kinds {
			takes = takes || k == "s"
		}
	}
	if !takes {
		return "text is inserted by a function that takes no text"
	}
	for _, v := range o.args {
		if s, ok := lab.content(an, st, v, "s"); ok && st.strEq(s.(StrV), mid) {
			return ""
		}
	}
	return "the text put in place of the range is not the argument"
}

// ---- C05, C06 ------------------------------------------------------------------

type delta struct{ text, point, mark, match bool }

// changes says which observables may differ.
func changes(an *An, st *State, a, b Obs) (delta, string) {
	var d delta
	d.text = !st.strEq(a.Text, b.Text)
	d.point = !st.eq(a.Point, b.Point)
	d.mark = !st.eq(a.Mark, b.Mark)
	for i := range a.Match {
		if a.Match[i] == nil || b.Match[i] == nil || !st.sameVal(a.Match[i], b.Match[i]) {
			d.match = true
		}
	}
	s := fmt.Sprintf("text %s, point %s, mark %s -> text %s, point %s, mark %s", st.showStr(a.Text), an.show(a.Point), an.show(a.Mark), st.showStr(b.Text), an.show(b.Point), an.show(b.Mark))
	return d, s
}

func checkC05(c *ctx, r *Report) {
	for _, b := range c.runsFor(r, c.known(), okCounts) {
		con := c.lab.construct(b.Name)
		ct := contracts[b.Name]
		if ct == nil {
			continue
		}
		for i := range b.Outs {
			o := &b.Outs[i]
			if !o.ok {
				continue
			}
			for _, p := range o.post {
				d, s := changes(b.An, p.st, o.pre.obs, p.obs)
				bad := ""
				switch {
				case d.text && ct.Class != "edit":
					bad = "changes the text"
				case d.point && ct.Class == "query":
					bad = "moves point"
				case d.match && ct.Class != "search":
					bad = "changes the remembered match"
				case d.mark && ct.Class != "region":
					// shortening the buffer may move a mark that lay beyond it
					if ct.Class != "edit" || !markKept(p.st, o.pre.obs, p.obs) {
						bad = "moves the mark"
					}
				}
				r.check(bad == "", "effects of class "+ct.Class, con, "%s %s: %s, when %s", b.label(), bad, s, short(p.st.describe(), 400))
			}
		}
	}
	c.coverage(r)
}

// markKept: the mark is where it was, or at the end of the shortened buffer.
func markKept(st *State, a, b Obs) bool {
	end := b.Text.length().addk(1)
	// a mark cut off by an earlier deletion sits at the end of the buffer and
	// may return towards its place when the buffer grows again
	if st.eq(a.Mark, a.Text.length().addk(1)) && (st.eq(b.Mark, end) || st.le(a.Mark, b.Mark) && st.le(b.Mark, end)) {
		return true
	}
	for _, s := range st.assume(cge(end.sub(a.Mark))) {
		if s.feasible() && !s.eq(a.Mark, b.Mark) {
			return false
		}
	}
	for _, s := range st.assume(cge(a.Mark.sub(end).addk(-1))) {
		if s.feasible() && !s.eq(b.Mark, end) {
			return false
		}
	}
	return true
}

// coverage: every callable function has a contract.
func (c *ctx) coverage(r *Report) {
	for _, n := range c.lab.names {
		if contracts[n] == nil {
			r.notes = append(r.notes, "function "+n+" has no contract; only the properties stated for every function are checked for it")
		}
	}
	for _, n := range sortedKeys(contracts) {
		if c.lab.builtins[n] == nil {
			r.fail("callable", n, "%s is not a function of the default environment", n)
		}
	}
}

func checkC06(c *ctx, r *Report) {
	n := 0
	for _, b := range c.runsFor(r, c.known(), specCounts) {
		con := c.lab.construct(b.Name)
		for i := range b.Outs {
			o := &b.Outs[i]
			if o.ok || o.out.kind != outReturn {
				continue
			}
			for _, p := range o.post {
				n++
				d, s := changes(b.An, p.st, o.pre.obs, p.obs)
				r.check(d == delta{}, "an error leaves the buffer alone", con, "%s fails after changing the buffer: %s, when %s", b.label(), s, short(p.st.describe(), 400))
			}
		}
	}
	r.check(n >= 100, "analysed", "error outcomes", "only %d error outcomes found", n)
}

// ---- C07 .. C10 ----------------------------------------------------------------

func (c *ctx) posts(r *Report, prop string) {
	names := c.present(r, func(k *Contract) bool { return k.Prop == prop })
	for _, b := range c.runsFor(r, names, okCounts) {
		ct := contracts[b.Name]
		if ct.Post == nil {
			continue
		}
		con := c.lab.construct(b.Name)
		succ := 0
		for i := range b.Outs {
			o := &b.Outs[i]
			if !o.ok {
				continue
			}
			for _, p := range o.post {
				sts := c.documented(b, o, p.st)
				for _, s := range sts {
					succ++
					var fails []string
					done := 0
					c.sc(b, o, ObsOut{s, p.obs}, &fails, &done).run(ct.Post)
					r.unit("specification clauses", done)
					r.check(len(fails) == 0, "result as documented", con, "%s: %s", b.label(), strings.Join(fails, "; "))
				}
			}
		}
		if !b.Many {
			r.check(succ > 0, "succeeds", con, "%s never succeeds", b.label())
		}
	}
}

func (c *SC) run(f func(*SC)) { f(c) }

// documented restricts a state to arguments of the documented kinds (NaN
// excluded).
func (c *ctx) documented(b *BRun, o *Outcome, st *State) []*State {
	ct := contracts[b.Name]
	sts := []*State{st}
	for i, v := range o.args {
		k := "s"
		if len(ct.Kinds) > 0 {
			k = ct.Kinds[min(i, len(ct.Kinds)-1)]
		}
		var n []*State
		for _, s := range sts {
			for _, t := range s.assume(Cond{Kind: CType, V: v, Ty: c.lab.valueType(k)}) {
				if k == "n" {
					if x, ok := c.lab.content(b.An, t, v, "n"); ok {
						if f, ok := x.(FloatV); ok && f.F != nil {
							t = t.addEq(f.F.NaN)
						}
					}
				}
				if t != nil && t.feasible() {
					n = append(n, t.clone())
				}
			}
		}
		sts = n
	}
	return sts
}

func checkC07(c *ctx, r *Report) {
	c.posts(r, "C07")
	// errors only without a match
	names := []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward"}
	for _, b := range c.runsFor(r, names, okCounts) {
		ct := contracts[b.Name]
		con := c.lab.construct(b.Name)
		for i := range b.Outs {
			o := &b.Outs[i]
			if o.ok {
				continue
			}
			for _, p := range o.post {
				for _, s := range c.documented(b, o, p.st) {
					var fails []string
					done := 0
					sc := c.sc(b, o, ObsOut{s, p.obs}, &fails, &done)
					r.check(ct.Err(sc), "fails only without a match", con, "%s: an error although there may be a match, when %s", b.label(), short(s.describe(), 400))
				}
			}
		}
		c.composeReplace(r, b)
	}
	c.replaceFresh(r)
}

// composeReplace runs replace-match in every state a search leaves.
func (c *ctx) composeReplace(r *Report, b *BRun) {
	rm := c.lab.builtins["replace-match"]
	if rm == nil {
		r.fail("callable", "replace-match", "replace-match is not a function of the default environment")
		return
	}
	re := strings.HasPrefix(b.Name, "re-")
	back := strings.HasSuffix(b.Name, "backward")
	con := b.Name + ", then " + c.lab.construct("replace-match")
	n := 0
	for i := range b.Outs {
		o := &b.Outs[i]
		if !o.ok {
			continue
		}
		for _, st := range c.documented(b, o, o.out.st) {
			av, vals := c.lab.args(b.An, st, 1)
			for _, q := range b.An.run(st, rm, av, o.pre.buf) {
				t, ok := q.ret.(TupleV)
				if q.kind != outReturn || !ok {
					r.fail("replaces the match found", con, "replace-match does not return")
					continue
				}
				for _, s0 := range q.st.assume(Cond{Kind: CType, V: vals[0], Ty: c.lab.valueType("s")}) {
					for _, s := range s0.assume(s0.isNil(t.E[1])) {
						for _, p := range c.lab.observe(b.An, s, o.pre.buf) {
							n++
							var fails []string
							done := 0
							sc := c.sc(b, o, p, &fails, &done)
							full := *sc
							sc.matched(back, re, func(c2 *SC, lo, hi Lin) {
								c3 := *c2
								c3.args = vals
								x := c3.argStr(0)
								c3.edited(lo, hi, x)
								c3.pointIs(lo.add(x.length()).addk(1))
								c3.must(c3.le(lo.addk(1), hi), "an empty match is replaced")
							}, func(c2 *SC) { c2.must(false, "search succeeded without a match") })
							_ = full
							r.unit("specification clauses", done)
							r.check(len(fails) == 0, "replaces the match found", con, "%s", strings.Join(fails, "; "))
						}
					}
					for _, s := range s0.assume(s0.isNil(t.E[1]).not()) {
						var fails []string
						done := 0
						for _, p := range c.lab.observe(b.An, s, o.pre.buf) {
							sc := c.sc(b, o, p, &fails, &done)
							sc.matched(back, re, func(c2 *SC, lo, hi Lin) {
								c2.must(c2.le(hi, lo), "replace-match fails although there is a match")
							}, func(c2 *SC) {})
						}
						r.check(len(fails) == 0, "replaces the match found", con, "%s", strings.Join(fails, "; "))
					}
				}
			}
		}
	}
	r.engine(b.An, con)
	r.check(n > 0, "replaces the match found", con, "never succeeds after a search")
}

// replaceFresh: without a search, replace-match is an error.
func (c *ctx) replaceFresh(r *Report) {
	rm := c.lab.builtins["replace-match"]
	an := newAn(c.w)
	st := an.newState()
	text := baseStr(st.newBase("text"))
	for _, o := range an.run(st, c.lab.newBuf, text) {
		av, _ := c.lab.args(an, o.st, 1)
		for _, q := range an.run(o.st, rm, av, o.ret) {
			t, ok := q.ret.(TupleV)
			bad := !ok || q.kind != outReturn
			if !bad {
				for _, s := range q.st.assume(q.st.isNil(t.E[1])) {
					bad = bad || s.feasible()
				}
			}
			r.check(!bad, "replace-match needs a match", c.lab.construct("replace-match"), "succeeds in a buffer in which nothing was searched")
		}
	}
}

func checkC08(c *ctx, r *Report) { c.posts(r, "C08") }
func checkC09(c *ctx, r *Report) { c.posts(r, "C09") }
func checkC10(c *ctx, r *Report) { c.posts(r, "C10") }

// ---- C13 ---------------------------------------------------------------------

func checkC13(c *ctx, r *Report) {
	c.coverage(r)
	kinds := []string{"s", "n", "y", "l"}
	for _, b := range c.runsFor(r, c.present(r, func(*Contract) bool { return true }), specCounts) {
		ct := contracts[b.Name]
		con := c.lab.construct(b.Name)
		countOK := b.N >= ct.Min && (ct.Max < 0 || b.N <= ct.Max)
		if b.Many {
			countOK = ct.Max < 0
		}
		for i := range b.Outs {
			o := &b.Outs[i]
			if o.out.kind != outReturn {
				continue
			}
			if o.ok && !countOK {
				r.fail("argument count", con, "%s is accepted", b.label())
				continue
			}
			if !countOK {
				r.ok("argument count", con)
				continue
			}
			if b.Many {
				continue
			}
			if o.ok {
				for j, v := range o.args {
					want := ct.Kinds[min(j, len(ct.Kinds)-1)]
					for _, k := range kinds {
						if k == want {
							continue
						}
						ty := c.lab.valueType(k)
						bad := false
						for _, s := range o.out.st.assume(Cond{Kind: CType, V: v, Ty: ty}) {
							bad = bad || s.feasible()
						}
						r.check(!bad, "argument kinds", con, "%s accepts a %s as argument %d", b.label(), shortType(ty), j+1)
					}
				}
				continue
			}
			// an error with documented arguments needs a reason
			for _, s := range c.documentedNaN(b, o, o.out.st) {
				if ct.Err != nil {
					var fails []string
					done := 0
					okErr := false
					for _, p := range c.lab.observe(b.An, s, o.pre.buf) {
						okErr = okErr || ct.Err(c.sc(b, o, p, &fails, &done))
					}
					r.check(okErr, "documented arguments accepted", con, "%s is rejected although its arguments are as documented, when %s", b.label(), short(s.describe(), 400))
					continue
				}
				r.fail("documented arguments accepted", con, "%s is rejected although its arguments are as documented, when %s", b.label(), short(s.describe(), 400))
			}
		}
	}
}

func (c *ctx) documentedNaN(b *BRun, o *Outcome, st *State) []*State {
	ct := contracts[b.Name]
	sts := []*State{st}
	for i, v := range o.args {
		k := ct.Kinds[min(i, len(ct.Kinds)-1)]
		var n []*State
		for _, s := range sts {
			n = append(n, s.assume(Cond{Kind: CType, V: v, Ty: c.lab.valueType(k)})...)
		}
		sts = n
	}
	var out []*State
	for _, s := range sts {
		if s.feasible() {
			out = append(out, s)
		}
	}
	return out
}
