package main

import "sync"

// C34: edit --expression evaluates every expression once, in order, on one
// buffer per file (or for standard input), and prints the value of each.

type exprCk struct {
	*fileCtx
	run     *cmdRun
	quiet   bool
	verbose bool
}

func checkC34(c *ctx, r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	n := k.combos("edit")
	if !r.check(n > 1, "resolved", "command edit", "not registered by main, or without flags") {
		return
	}
	var mu sync.Mutex
	parallel(n, func(i int) {
		sub := newReport(r.id)
		defer func() {
			if e := recover(); e != nil {
				sub.fail("analysed", "command edit", "the analysis stopped: %v", e)
			}
			mu.Lock()
			r.merge(sub)
			mu.Unlock()
		}()
		x := c.editCombo(sub, k, i)
		if x.exprs == nil || x.run == nil {
			return
		}
		q := &exprCk{fileCtx: x, run: x.run, quiet: x.run.bools["quiet"], verbose: x.run.bools["verbose"]}
		if x.run.bools["dry-run"] {
			return
		}
		n := 0
		for _, o := range x.run.outs {
			if o.kind == outPanic {
				continue
			}
			isErr, ok := x.run.errCond(o)
			if !ok {
				continue
			}
			for _, s := range o.st.assume(isErr.not()) {
				for _, s := range s.assume(cge(x.exprs.Len.addk(-1))) {
					n++
					q.path(s)
				}
			}
		}
		sub.check(n > 0, "analysed", x.what, "no successful path with expressions")
	})
}

// path checks one successful path.
func (q *exprCk) path(st *State) {
	evs := eventsAfter(st.ev, q.run.start.ev)
	for _, s := range st.assume(cge(q.files.Len.addk(-1)).not()) {
		why := q.source(s, evs, nil, true)
		q.r.check(why == "", "every expression is evaluated once, in order, on the text of the source", q.what+", standard input", "%s", why)
	}
	for _, s := range st.assume(cge(q.files.Len.addk(-1))) {
		cov := &coverCk{an: q.an, item: func(st *State, e *Event) (Lin, bool, string) {
			if e.Kind == "call" && (e.Name == "os.ReadFile" || e.Name == "os.Open") && okEvent(e) {
				if i, ok := q.index(st, e); ok {
					return i, true, ""
				}
			}
			return Lin{}, false, ""
		}}
		why := cov.all(s, evs, q.files.Len)
		q.r.check(why == "", "every file is read once, in order", q.what, "%s", why)
		n := 0
		w := q.each(s, evs, nil, &n)
		if w == "" && n == 0 {
			w = "nothing is evaluated on the files"
		}
		q.r.check(w == "", "every expression is evaluated once, in order, on the text of the source", q.what+", files", "%s", w)
	}
}

// each finds the iterations that read a file and checks them.
func (q *exprCk) each(st *State, evs, prior []*Event, n *int) string {
	reads, evals := false, false
	for _, e := range evs {
		if _, in, _, ok := q.read(st, e, append(prior, evs...)); ok && !in {
			reads = true
		}
	}
	walk(st, evs, nil, func(_ *State, e *Event, _ []*Event) { evals = evals || isEval(e) })
	if reads {
		*n++
		return q.source(st, evs, prior, false)
	}
	if !evals {
		return ""
	}
	for _, e := range evs {
		if e.Loop == nil {
			if isEval(e) {
				return "evaluates without reading a file"
			}
			continue
		}
		for _, b := range e.Loop.Backs {
			if why := q.each(b, e.Loop.iteration(b), append(append([]*Event{}, prior...), evs...), n); why != "" {
				return why
			}
		}
	}
	return ""
}

// source checks the evaluation of all expressions on one source.
func (q *exprCk) source(st *State, evs, prior []*Event, stdin bool) string {
	cov := &coverCk{an: q.an, item: func(st *State, e *Event) (Lin, bool, string) {
		if !isEval(e) || !okEvent(e) {
			return Lin{}, false, ""
		}
		p := q.programOf(st, e)
		if p == nil {
			return Lin{}, false, "evaluates something that is not a parsed expression"
		}
		text, ok := q.parsed(p)
		if !ok {
			return Lin{}, false, "the text given to the parser is unknown"
		}
		i, ok := q.an.indexOf(st, *q.exprs, text)
		if !ok {
			return Lin{}, false, "evaluates " + st.showStr(text) + ", which is not one of the expressions"
		}
		return i, true, ""
	}}
	if why := cov.all(st, evs, q.exprs.Len); why != "" {
		return why
	}
	g := &exprBuf{q: q, stdin: stdin, prior: append(append([]*Event{}, prior...), evs...)}
	if why := g.follow(st, evs); why != "" {
		return why
	}
	if g.buf == nil {
		return "nothing is evaluated"
	}
	return q.printed(st, evs, true)
}

// programOf is the parse an evaluation runs the result of.
func (q *exprCk) programOf(st *State, ev *Event) *Event {
	for p := ev.Prev; p != nil; p = p.Prev {
		if !isParse(p) || !okEvent(p) {
			continue
		}
		for _, a := range ev.Args {
			switch a.(type) {
			case SliceV, NilV:
				if st.sameVal(a, p.Ret[0]) {
					return p
				}
			}
		}
	}
	return nil
}

// exprBuf follows the buffer of a source from its text through the evaluations.
type exprBuf struct {
	q     *exprCk
	stdin bool
	prior []*Event
	buf   *PtrV
	cur   *State // the buffer's state is known to be the one the last evaluation left
}

func (g *exprBuf) follow(st *State, evs []*Event) string {
	x := g.q.fileCtx
	for _, e := range evs {
		if e.Loop != nil {
			var p *PtrV
			walk(st, []*Event{e}, nil, func(_ *State, e *Event, _ []*Event) {
				if isEval(e) {
					if b, ok := x.evalBuf(e); ok {
						p = &b
					}
				}
			})
			if p == nil {
				continue
			}
			if o := e.Loop.Entry.obj(p.Obj); o == nil {
				return "the expressions are not evaluated on one buffer: a new one is made in the loop"
			}
			if why := g.at(e.Loop.Entry, *p); why != "" {
				return why
			}
			for _, b := range e.Loop.Backs {
				sub := *g
				sub.cur = e.Loop.Head
				if why := sub.follow(b, e.Loop.iteration(b)); why != "" {
					return why
				}
				if !x.sameBuf(sub.cur, b, *p) {
					return "the buffer is changed after an expression was evaluated"
				}
			}
			g.cur = e.Loop.Head
			continue
		}
		if !isEval(e) || !okEvent(e) {
			continue
		}
		p, ok := x.evalBuf(e)
		if !ok {
			return "the buffer of an evaluation is unknown"
		}
		if why := g.at(e.Pre, p); why != "" {
			return why
		}
		g.cur = e.Post
	}
	return ""
}

// at: in st, buffer p is in the state the history so far gives it.
func (g *exprBuf) at(st *State, p PtrV) string {
	x := g.q.fileCtx
	if g.buf == nil {
		g.buf = &p
		var obs []ObsOut
		why := x.an.guard(func() { obs = x.c.lab.observe(x.an, st.clone(), p) })
		if why != "" || len(obs) != 1 {
			return "the buffer's initial state is not understood"
		}
		o := obs[0]
		if !o.st.eq(o.obs.Point, lc(1)) {
			return "the first expression does not start at the beginning of the text"
		}
		for _, r := range g.prior {
			if _, in, content, ok := x.read(st, r, g.prior); ok && in == g.stdin && o.st.strEq(o.obs.Text, content) {
				return ""
			}
		}
		return "the buffer does not start with the text of the source"
	}
	if g.buf.Obj != p.Obj {
		return "the expressions are not evaluated on one buffer"
	}
	if !x.sameBuf(g.cur, st, p) {
		return "the buffer is changed between two expressions"
	}
	return ""
}

// sameBuf: buffer p has the same fields in both states.
func (x *fileCtx) sameBuf(a, b *State, p PtrV) bool {
	x.an.quiet++
	defer func() { x.an.quiet-- }()
	u, ok1 := x.an.load(a, p).(StructV)
	v, ok2 := x.an.load(b, p).(StructV)
	if !ok1 || !ok2 || len(u.F) != len(v.F) {
		return false
	}
	for i := range u.F {
		s, ok1 := u.F[i].(BuilderV)
		t, ok2 := v.F[i].(BuilderV)
		if ok1 != ok2 || ok1 && !b.strEq(s.S, t.S) || !ok1 && !b.sameVal(u.F[i], v.F[i]) {
			return false
		}
	}
	return true
}

// printed: after every evaluation exactly its value is printed, in the output
// format, followed by a newline; before the first one, with several files, a
// line may say which file it is.
func (q *exprCk) printed(st *State, evs []*Event, first bool) string {
	format := theFormat(st, q.outFormat)
	var last *Event  // evaluation whose value is due
	var wrote *Event // write of it to a text
	pending := false // it was written to standard output without newline
	for _, e := range evs {
		switch {
		case e.Loop != nil:
			in := false
			for _, b := range e.Loop.Backs {
				it := e.Loop.iteration(b)
				walk(b, it, nil, func(_ *State, e *Event, _ []*Event) { in = in || isEval(e) || e.Kind == "stdout" })
			}
			if !in {
				continue
			}
			if last != nil || pending {
				return "the value of an expression is not printed"
			}
			for _, b := range e.Loop.Backs {
				if why := q.printed(b, e.Loop.iteration(b), false); why != "" {
					return why
				}
			}
			first = false
		case isEval(e) && okEvent(e):
			if last != nil && !q.quiet {
				return "the value of an expression is not printed"
			}
			last, wrote, first = e, nil, false
			if q.quiet {
				last = nil
			}
		case isWriter(e) && okEvent(e):
			if last == nil || !q.isValue(st, e, last, format) {
				continue
			}
			wrote = e
			for _, a := range e.Args {
				if isNote(a, "os.Stdout") {
					pending, last = true, nil
				}
			}
		case e.Kind == "stdout":
			s, ok := outText(e)
			if !ok {
				return "what is printed is unknown"
			}
			if pending && st.strEq(s, lit("\n")) {
				pending = false
				continue
			}
			if wrote != nil && last != nil {
				for _, a := range wrote.Args {
					if p, isP := stripIface(a).(PtrV); isP {
						if b, isB := q.an.load(wrote.Post, p).(BuilderV); isB && st.strEq(concat(b.S, lit("\n")), s) {
							last, wrote, ok = nil, nil, false
							break
						}
					}
				}
				if !ok {
					continue
				}
			}
			if q.verbose {
				continue
			}
			if !first || q.quiet || last != nil || pending {
				return "prints " + st.showStr(s) + " where the value of an expression is due"
			}
			if v, known := st.truth(cge(q.files.Len.addk(-2))); !known || !v {
				return "prints " + st.showStr(s) + " besides the values"
			}
		}
	}
	if last != nil || pending {
		return "the value of an expression is not printed"
	}
	return ""
}

// isValue: the writer writes the value of an evaluation, the shell writer as
// the only element of a list.
func (q *exprCk) isValue(st *State, e, ev *Event, format string) bool {
	for _, a := range e.Args {
		if st.sameVal(a, ev.Ret[0]) {
			return format != "shell"
		}
		if l, ok := q.only(e.Pre, a); ok && st.sameVal(l, ev.Ret[0]) {
			return format == "shell"
		}
	}
	return false
}

// only is the single element of a list (or slice) of values.
func (q *exprCk) only(st *State, v Val) (Val, bool) {
	v = stripIface(v)
	if p, ok := v.(PtrV); ok {
		o := st.obj(p.Obj)
		if o == nil || o.Lib != nil || o.Arr != nil || o.Map != nil {
			return nil, false
		}
		s, ok := q.an.load(st, p).(StructV)
		if !ok || len(s.F) != 1 {
			return nil, false
		}
		v = s.F[0]
	}
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	els, ok := q.an.constSlice(st, s)
	if !ok || len(els) != 1 {
		return nil, false
	}
	return els[0], true
}
