package main

import (
	"fmt"
	"strings"
)

// C12, layers: what the library, the command line and the MCP tools report
// about a failed execution contains the evaluation's error.

func (c *ctx) layers(r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	c.libraryFiles(r, k)
	c.editCommand(r, k)
	c.errorsShown(r, k)
	c.toolErrors(r)
}

const keepRule = "the evaluation's error is kept in what is reported"

// keeps checks one outcome of an entry point. unwrap: callers must be able to
// unwrap the error; otherwise printing it is enough.
func (x *fileCtx) keeps(o Out, from *Event, unwrap bool) {
	if x.r.id != "C12" {
		return
	}
	var rets []Val
	switch v := o.ret.(type) {
	case TupleV:
		rets = v.E
	case nil:
	default:
		rets = []Val{v}
	}
	evs := eventsAfter(o.st.ev, from)
	x.an.collect = nil
	for _, e := range evs {
		if e.Loop != nil {
			x.an.collect = append(x.an.collect, e.Loop)
		}
	}
	for i, e := range evs {
		if isEval(e) && !okEvent(e) {
			err := e.Ret[len(e.Ret)-1]
			ok := x.reaches(o.st, rets, evs[i+1:], err, unwrap, 0)
			x.r.check(ok, keepRule, x.site(e), "the error returned (and what is printed) does not contain it (%s)", x.what)
		}
		if e.Loop == nil {
			continue
		}
		if failed, maybe := isFailed(o.st); !failed && !maybe {
			continue // the iterations of this path did not fail
		}
		for j, b := range e.Loop.Backs {
			x.keepsIn(o.st, rets, evs[i+1:], e.Loop, j, b, unwrap)
		}
	}
}

// keepsIn checks an iteration with a failed evaluation: the error is printed,
// or collected in something that is reported after the loop.
func (x *fileCtx) keepsIn(st *State, rets []Val, after []*Event, l *LoopInfo, i int, b *State, unwrap bool) {
	it := l.iteration(b)
	for n, e := range it {
		if e.Loop != nil {
			for j, c := range e.Loop.Backs {
				x.keepsIn(b, nil, it[n+1:], e.Loop, j, c, unwrap)
			}
		}
		if !isEval(e) || okEvent(e) {
			continue
		}
		err := e.Ret[len(e.Ret)-1]
		ok := !unwrap && x.shown(b, it[n+1:], err)
		reaches := func(v Val) bool { return x.reaches(st, rets, after, v, unwrap, 0) }
		for _, s := range x.an.stores(b, l, i) {
			ok = ok || x.an.carries(b, s.val, err, unwrap) && reaches(SliceV{Arr: s.arr})
		}
		for _, c := range l.Cells {
			if c.Backs[i] != nil && c.Head != nil && x.an.carries(b, c.Backs[i], err, unwrap) {
				ok = ok || reaches(c.Head)
			}
		}
		x.r.check(ok, keepRule, x.site(e), "of one of several files, it is neither printed nor returned (%s)", x.what)
	}
}

// reaches: v, which holds the error after a loop, is returned or printed,
// possibly element by element.
func (x *fileCtx) reaches(st *State, rets []Val, after []*Event, v Val, unwrap bool, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, r := range rets {
		if x.an.carries(st, r, v, unwrap) {
			return true
		}
	}
	if unwrap {
		return false
	}
	if x.shown(st, after, v) {
		return true
	}
	for n, e := range after {
		if e.Loop == nil || len(e.Loop.Backs) == 0 {
			continue
		}
		for id, o := range e.Loop.Entry.heap {
			list := SliceV{Arr: id}
			if o.Arr == nil || o.Arr.Bytes != nil || !sameSlice(list, v) && !x.an.carries(e.Loop.Entry, list, v, unwrap) {
				continue
			}
			all := true
			for i, b := range e.Loop.Backs {
				one := false
				if o := b.obj(id); o != nil && o.Arr != nil {
					for _, el := range o.Arr.Els {
						if el.V == nil {
							continue
						}
						one = one || x.shown(b, e.Loop.iteration(b), el.V)
						for _, s := range x.an.stores(b, e.Loop, i) {
							one = one || x.an.carries(b, s.val, el.V, false) && x.reaches(st, rets, after[n+1:], SliceV{Arr: s.arr}, unwrap, depth+1)
						}
					}
				}
				all = all && one
			}
			if all {
				return true
			}
		}
	}
	return false
}

// shown: v is mentioned in something printed later.
func (x *fileCtx) shown(st *State, evs []*Event, v Val) bool {
	for _, e := range evs {
		switch e.Kind {
		case "stdout", "stderr", "write":
			if s, ok := e.Args[len(e.Args)-1].(StrV); ok && x.an.mentionsAny(st, s, v, 0) {
				return true
			}
		}
	}
	return false
}

// carries: v is err, wraps it, is a struct with a field or a sequence with an
// element that does, or (unless it has to be unwrapped) is a text or error
// that mentions it.
func (an *An) carries(st *State, v, err Val, unwrap bool) bool {
	return an.carry(st, v, err, unwrap, 0)
}

func (an *An) carry(st *State, v, err Val, unwrap bool, depth int) bool {
	if v == nil || depth > 8 {
		return false
	}
	if sameSlice(v, err) || st.sameVal(v, err) {
		return true
	}
	switch t := v.(type) {
	case SliceV:
		o := st.obj(t.Arr)
		if o == nil || o.Arr == nil {
			return false
		}
		before := func(arr int) bool {
			for _, l := range an.collect {
				for _, c := range l.Cells {
					if h, ok := c.Head.(SliceV); ok && h.Arr == arr && an.carry(l.Entry, c.Entry, err, unwrap, depth+1) {
						return true
					}
				}
			}
			return false
		}
		if before(t.Arr) {
			return true
		}
		for _, e := range o.Arr.Els {
			if an.carry(st, e.V, err, unwrap, depth+1) {
				return true
			}
		}
		for _, g := range o.Arr.Log {
			if g.From >= 0 && (sameSlice(SliceV{Arr: g.From}, err) || before(g.From)) {
				return true
			}
			for _, e := range g.Vals {
				if an.carry(st, e, err, unwrap, depth+1) {
					return true
				}
			}
		}
		return false
	case StructV:
		for _, f := range t.F {
			if an.carry(st, f, err, unwrap, depth+1) {
				return true
			}
		}
		return false
	case StrV:
		return !unwrap && an.mentionsAny(st, t, err, 0)
	case BuilderV:
		return !unwrap && an.mentionsAny(st, t.S, err, 0)
	}
	for _, w := range an.chain(st, v) {
		if s, ok := w.(SliceV); ok && an.carry(st, s, err, unwrap, depth+1) || st.sameVal(w, err) {
			return true
		}
		if i, ok := w.(IfaceV); ok && !unwrap && i.T == an.w.extErr {
			if p, ok := i.V.(PtrV); ok {
				if o := st.obj(p.Obj); o != nil && o.Lib != nil {
					if s, ok := o.Lib["msg"].(StrV); ok && an.mentionsAny(st, s, err, 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

func sameSlice(a, b Val) bool {
	s, ok1 := a.(SliceV)
	t, ok2 := b.(SliceV)
	return ok1 && ok2 && s.Arr == t.Arr && s.Arr >= 0
}

// errorsShown: an error a command returns is printed, by cobra or by main.
func (c *ctx) errorsShown(r *Report, k *cmdLab) {
	const rule = "the error of a command is printed"
	m := k.main()
	for _, e := range m.errs {
		r.fail("resolved", "main", "%s", e)
	}
	n := 0
	for _, o := range m.outs {
		evs := events(o.st.ev)
		for i, e := range evs {
			if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*github.com/spf13/cobra.Command).Execute") || okEvent(e) {
				continue
			}
			n++
			x := &fileCtx{c: c, r: r, an: m.an}
			if x.shown(o.st, evs[i+1:], e.Ret[len(e.Ret)-1]) {
				r.ok(rule, "main")
				continue
			}
			for _, id := range append([]int{m.root}, m.cmds["edit"]) {
				v, ok := k.field(m.an, o.st, PtrV{Obj: id}, "SilenceErrors").(BoolV)
				if !r.check(ok, "resolved", rule, "SilenceErrors of a command is not resolved") {
					continue
				}
				t, known := o.st.truth(v.C)
				r.check(known && !t, rule, fmt.Sprintf("main, command %s", k.name(m, id)), "cobra's own message is silenced and nothing else prints the error")
			}
		}
	}
	r.check(n > 0, "analysed", rule, "main never executes a command that fails")
	r.engine(m.an, "main")
}

func (k *cmdLab) name(m *mainRun, id int) string {
	if s, ok := k.field(m.an, m.st, PtrV{Obj: id}, "Use").(StrV); ok {
		if c, ok := s.constant(); ok {
			return c
		}
	}
	return "?"
}

// toolErrors: the MCP tools answer with the error (rules of C19).
func (c *ctx) toolErrors(r *Report) {
	sub := newReport("C19")
	checkC19(c, sub)
	n := 0
	for key, o := range sub.obl {
		switch o.Rule {
		case "the tool error says what failed", "the answer says why a file failed":
			n++
		case "resolved", "analysed":
		default:
			delete(sub.obl, key)
		}
	}
	r.check(n >= 2, "analysed", "errors answered by tools", "only %d obligations", n)
	r.merge(sub)
}

// neverNil: every element of a sequence is known not to be nil, because every
// value ever appended to it is.
func (an *An) neverNil(st *State, v Val, depth int) bool {
	s, ok := v.(SliceV)
	if !ok || depth > 6 {
		_, isNil := v.(NilV)
		return isNil
	}
	if st.eq(s.Len, lc(0)) {
		return true
	}
	notNil := func(st *State, v Val) bool {
		t, known := st.truth(st.isNil(v))
		return known && !t
	}
	if els, ok := an.constSlice(st, s); ok {
		for _, e := range els {
			if !notNil(st, e) {
				return false
			}
		}
		return true
	}
	for e := st.ev; e != nil; e = e.Prev {
		if e.Loop == nil {
			continue
		}
		for _, c := range e.Loop.Cells {
			h, ok := c.Head.(SliceV)
			if !ok || h.Arr != s.Arr || len(c.Backs) == 0 {
				continue
			}
			if c.Entry == nil || !an.neverNil(e.Loop.Entry, c.Entry, depth+1) {
				return false
			}
			for i, b := range e.Loop.Backs {
				n, ok := c.Backs[i].(SliceV)
				if !ok {
					return false
				}
				if n.Arr == h.Arr {
					continue
				}
				o := b.obj(n.Arr)
				if o == nil || o.Arr == nil || len(o.Arr.Log) == 0 {
					return false
				}
				linked := false
				for _, g := range o.Arr.Log {
					linked = linked || g.From == h.Arr
					for _, v := range g.Vals {
						if linked && !notNil(b, v) {
							return false
						}
					}
				}
				if !linked {
					return false
				}
			}
			return true
		}
	}
	return false
}
