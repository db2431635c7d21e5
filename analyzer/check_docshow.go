package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C36: the doc command and the texted_doc tool show the whole entry of the
// function asked for, and list every function.

// outSeg is a piece of an output: a text, the texts written by the iterations
// of a loop, or a joined list.
type outSeg struct {
	text  StrV
	loop  *LoopInfo
	backs [][]outSeg
	join  *SliceV
}

type showCk struct {
	c    *ctx
	r    *Report
	an   *An
	what string
	docT types.Type
}

// outputs is what a path prints, in order.
func (x *showCk) outputs(st *State, evs []*Event, all []*Event) []outSeg {
	var out []outSeg
	for _, e := range evs {
		if s, ok := outText(e); ok {
			out = append(out, x.expand(st, s, all, 0)...)
		}
		if e.Loop != nil {
			g := outSeg{loop: e.Loop}
			for _, b := range e.Loop.Backs {
				it := e.Loop.iteration(b)
				g.backs = append(g.backs, x.outputs(b, it, append(append([]*Event{}, all...), it...)))
			}
			out = append(out, g)
		}
	}
	return out
}

// cellText is the text of a string or a builder.
func cellText(v Val) (StrV, bool) {
	switch x := v.(type) {
	case StrV:
		return x, true
	case BuilderV:
		return x.S, true
	}
	return StrV{}, false
}

// expand splits a text into its pieces; texts that a loop built up are
// replaced by what it started with and what its iterations add.
func (x *showCk) expand(st *State, s StrV, evs []*Event, depth int) []outSeg {
	var out []outSeg
	for _, p := range s.P {
		if p.Base == nil || depth > 12 {
			out = append(out, outSeg{text: StrV{P: []Piece{p}}})
			continue
		}
		if p.Base.Fn == "str" && len(p.Base.Args) == 1 {
			if t, ok := p.Base.Args[0].(StrV); ok {
				out = append(out, x.expand(st, t, evs, depth+1)...)
				continue
			}
		}
		if p.Base.Fn == "join" {
			if l, ok := p.Base.Args[0].(SliceV); ok {
				out = append(out, x.joined(st, l, evs, depth)...)
				continue
			}
		}
		if segs := x.built(st, p, evs, depth); segs != nil {
			out = append(out, segs...)
			continue
		}
		out = append(out, outSeg{text: StrV{P: []Piece{p}}})
	}
	return out
}

// built: the piece is the value a loop variable has after the loop.
func (x *showCk) built(st *State, p Piece, evs []*Event, depth int) []outSeg {
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, c := range e.Loop.Cells {
			h, ok := cellText(c.Head)
			if !ok || len(h.P) != 1 || h.P[0].Base != p.Base {
				continue
			}
			entry, ok := cellText(c.Entry)
			if !ok {
				continue
			}
			g := outSeg{loop: e.Loop}
			for i, b := range e.Loop.Backs {
				t, ok := cellText(c.Backs[i])
				if !ok || len(t.P) == 0 || t.P[0].Base != p.Base {
					return nil
				}
				all := append(append([]*Event{}, evs...), e.Loop.iteration(b)...)
				g.backs = append(g.backs, x.expand(b, StrV{P: t.P[1:]}, all, depth+1))
			}
			return append(x.expand(st, entry, evs, depth+1), g)
		}
	}
	return nil
}

// joined: a list put together by strings.Join.
func (x *showCk) joined(st *State, l SliceV, evs []*Event, depth int) []outSeg {
	for _, e := range evs {
		if e.Loop == nil || e.Loop.Head == nil {
			continue
		}
		var entry Val
		g := outSeg{loop: e.Loop}
		for i, b := range e.Loop.Backs {
			var segs []outSeg
			for _, s := range x.an.stores(b, e.Loop, i) {
				if s.arr != l.Arr {
					continue
				}
				if t, ok := s.val.(StrV); ok {
					all := append(append([]*Event{}, evs...), e.Loop.iteration(b)...)
					segs = append(segs, x.expand(b, t, all, depth+1)...)
				}
				entry = l
			}
			g.backs = append(g.backs, segs)
		}
		if entry != nil {
			return []outSeg{g}
		}
	}
	return []outSeg{{join: &l}}
}

// has: a field is shown (or is empty).
func (x *showCk) has(st *State, segs []outSeg, v Val) bool {
	f, ok := v.(StrV)
	if !ok {
		return false
	}
	f = st.norm(f)
	if st.eq(f.length(), lc(0)) {
		return true
	}
	for _, g := range segs {
		if g.loop == nil && g.join == nil && showsText(st, g.text, f) {
			return true
		}
	}
	return false
}

// showsText: the whole of f is in s, but for surrounding white space; what a
// library function makes of f (Title, ReplaceAll) counts as f.
func showsText(st *State, s, f StrV) bool {
	if len(f.P) != 1 || f.P[0].Base == nil {
		return false
	}
	space := spaceSet.or(byteRange(128, 255))
	for _, p := range st.norm(s).P {
		q := f.P[0]
		switch {
		case p.Base == nil:
		case p.Base != q.Base:
			if mentionsBase(StrV{P: []Piece{p}}, []*Base{q.Base}, 0) {
				return true
			}
		case st.allIn(q.Base, q.Lo, p.Lo, space) && st.allIn(q.Base, p.Hi, q.Hi, space):
			return true
		}
	}
	return false
}

// each: every element of a list is shown, in order, by one loop; check looks
// at one iteration.
func (x *showCk) each(st *State, segs []outSeg, v Val, check func(b *State, el Val, segs []outSeg) string) string {
	list, ok := v.(SliceV)
	if _, isNil := v.(NilV); isNil {
		return ""
	}
	if !ok {
		return "the list is not understood"
	}
	if st.eq(list.Len, lc(0)) {
		return ""
	}
	best := "no loop over it writes to the output"
	for _, g := range segs {
		if g.join != nil && sameSlice(*g.join, list) && check == nil && st.eq(g.join.Len, list.Len) && st.eq(g.join.Off, list.Off) {
			return ""
		}
		if g.loop == nil || g.loop.Head == nil || len(g.loop.Backs) == 0 {
			continue
		}
		why := x.loop(st, g, list, check)
		if why == "" {
			return ""
		}
		if why != "-" {
			best = why
		}
	}
	return best
}

func (x *showCk) loop(st *State, g outSeg, list SliceV, check func(b *State, el Val, segs []outSeg) string) string {
	o := g.loop.Head.obj(list.Arr)
	if o == nil || o.Arr == nil {
		return "-"
	}
	var at *Lin
	for n, b := range g.loop.Backs {
		o := b.obj(list.Arr)
		if o == nil || o.Arr == nil {
			return "-"
		}
		why := "-"
		for _, e := range o.Arr.Els {
			i := e.I.sub(list.Off)
			if e.V == nil || !b.eq(subst(i, g.loop.BackMaps[n]), i.addk(1)) || at != nil && !b.eq(*at, i) {
				continue
			}
			if check == nil {
				why = ""
				if !x.has(b, g.backs[n], e.V) {
					why = "an element is left out"
				}
			} else {
				why = check(b, e.V, g.backs[n])
			}
			if why == "" {
				at = &i
				break
			}
		}
		if why != "" {
			return why
		}
	}
	if !g.loop.Entry.eq(subst(*at, g.loop.EntryMap), lc(0)) {
		return "the loop does not start at the first element"
	}
	if !st.eq(*at, list.Len) {
		return "the loop does not reach the last element"
	}
	return ""
}

func (x *showCk) fields(t types.Type, names ...string) func(b *State, el Val, segs []outSeg) string {
	return func(b *State, el Val, segs []outSeg) string {
		for _, n := range names {
			if !x.has(b, segs, fieldOf(el, t, n)) {
				return "its " + n + " is left out"
			}
		}
		return ""
	}
}

// entry: the output shows the whole documentation entry.
func (x *showCk) entry(st *State, segs []outSeg, doc Val, full bool) {
	const rule = "the whole entry is shown"
	elem := func(name string) types.Type {
		s, ok := x.docT.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && s.Field(i).Name() == name {
				return sl.Elem()
			}
		}
		return nil
	}
	for _, f := range []string{"Name", "Summary", "Description", "Category"} {
		x.r.check(x.has(st, segs, fieldOf(doc, x.docT, f)), rule, f+" in "+x.what, "a path leaves it out")
	}
	pt := elem("Parameters")
	params := x.fields(pt, "Name", "Type", "Description")
	why := x.each(st, segs, fieldOf(doc, x.docT, "Parameters"), func(b *State, el Val, segs []outSeg) string {
		if why := params(b, el, segs); why != "" || !full {
			return why
		}
		o, ok := fieldOf(el, pt, "Optional").(BoolV)
		if !ok {
			return "whether it is optional is not understood"
		}
		text := ""
		for _, g := range segs {
			text += literals(g.text)
		}
		if v, known := b.truth(o.C); !known || v != strings.Contains(text, "optional") {
			return "it does not say whether it is optional"
		}
		return ""
	})
	x.r.check(why == "", rule, "every parameter in "+x.what, "%s", why)
	fs := []string{"Description", "Input"}
	if full {
		fs = append(fs, "Buffer", "Output")
	}
	why = x.each(st, segs, fieldOf(doc, x.docT, "Examples"), x.fields(elem("Examples"), fs...))
	x.r.check(why == "", rule, "every example in "+x.what, "%s", why)
	why = x.each(st, segs, fieldOf(doc, x.docT, "SeeAlso"), nil)
	x.r.check(why == "", rule, "every reference in "+x.what, "%s", why)
}

func (x *showCk) listing(st *State, segs []outSeg, docs Val) {
	why := x.each(st, segs, docs, x.fields(x.docT, "Name"))
	x.r.check(why == "", "the listing names every function, in order", x.what, "%s", why)
}

// query is the last question of that kind asked of the registry.
func query(evs []*Event, name string) *Event {
	var q *Event
	for _, e := range evs {
		if e.Kind == "opaque" && e.Name == "doc:"+name {
			q = e
		}
	}
	return q
}

func checkC36(c *ctx, r *Report) {
	docT := c.w.typ("edlisp", "FunctionDoc")
	if !r.check(docT != nil, "resolved", "edlisp.FunctionDoc", "not found") {
		return
	}
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "core functions", "%s", e)
	}
	c.docCommand(r, k, docT)
	c.docTool(r, k, docT)
}

func (c *ctx) docCommand(r *Report, k *cmdLab, docT types.Type) {
	n := k.combos("doc")
	if !r.check(n > 1, "resolved", "command doc", "not registered by main, or without flags") {
		return
	}
	for i := 0; i < n; i++ {
		run, why := k.run("doc", i)
		if run == nil || why != "" {
			r.fail("analysed", "command doc", "%s", why)
			continue
		}
		r.fns[fnName(run.fn)] = true
		what := "doc with [" + run.combo + "]"
		x := &showCk{c: c, r: r, an: run.an, what: what, docT: docT}
		cat, ok := run.flags["category"].(StrV)
		if !r.check(ok, "resolved", "flag category of the doc command", "not a declared text") {
			continue
		}
		r.unit("combinations of boolean flags", 1)
		r.unit("paths", len(run.outs))
		entries, lists := 0, 0
		for _, o := range run.outs {
			if o.kind == outPanic {
				continue
			}
			isErr, ok := run.errCond(o)
			if !ok {
				r.fail("resolved", what, "the command's error is not resolved")
				continue
			}
			for _, st := range o.st.assume(isErr.not()) {
				evs := eventsAfter(st.ev, run.start.ev)
				segs := x.outputs(st, evs, evs)
				one := st.assume(ceq(run.args.Len.addk(-1)))
				none := st.assume(ceq(run.args.Len))
				for _, s := range one {
					q := query(evs, "GetDocumentation")
					if !r.check(q != nil, "the entry shown is the one named", what, "a path succeeds without looking for the function") {
						continue
					}
					i, isArg := run.an.indexOf(s, run.args, q.Args[0])
					r.check(isArg && s.eq(i, lc(0)), "the entry shown is the one named", what, "looks for %s", run.an.showVal(s, q.Args[0]))
					b, ok := q.Ret[1].(BoolV)
					found, known := false, false
					if ok {
						found, known = s.truth(b.C)
					}
					if r.check(known && found, "an unknown function is an error", what, "a path succeeds although the function may not be documented") {
						entries++
						x.entry(s, segs, q.Ret[0], true)
					}
				}
				for _, s := range none {
					empty := isText(s, cat, "")
					name, arg := "GetAllDocumentation", Val(nil)
					if empty != 1 {
						name, arg = "GetDocumentationByCategory", cat
					}
					if !r.check(empty >= 0, "a category limits the listing", what, "a path does not depend on the category") {
						continue
					}
					q := query(evs, name)
					if !r.check(q != nil, "a category limits the listing", what, "a path succeeds without asking %s", name) {
						continue
					}
					if arg != nil {
						r.check(len(q.Args) == 1 && s.sameVal(q.Args[0], arg), "a category limits the listing", what, "asks for %s", run.an.showVal(s, q.Args[0]))
						r.check(isEmpty(s, q.Ret[0]) == 0, "a category without functions is an error", what, "a path succeeds although there may be none")
					}
					if !run.bools["verbose"] {
						lists++
						x.listing(s, segs, q.Ret[0])
					}
				}
			}
		}
		r.check(entries > 0 && (lists > 0 || run.bools["verbose"]), "analysed", what, "%d paths showing an entry, %d showing a list", entries, lists)
		r.engine(run.an, what)
	}
}

func (c *ctx) docTool(r *Report, k *cmdLab, docT types.Type) {
	t := c.toolLab(r, k)
	if t.run == nil {
		return
	}
	tl := t.named("texted_doc")
	if !r.check(tl != nil && tl.h != nil, "resolved", "tool texted_doc", "not registered") {
		return
	}
	h := tl.h
	fn := fnName(h.fn)
	r.fns[fn] = true
	x := &showCk{c: c, r: r, an: h.an, what: fn, docT: docT}
	entries, lists := 0, 0
	for _, o := range h.outs {
		kind, text, why := h.result(o)
		if o.kind == outPanic || why != "" || kind != "ok" {
			continue // C19
		}
		st := o.st
		evs := eventsAfter(st.ev, h.start.ev)
		segs := x.expand(st, text, evs, 0)
		if q := query(evs, "GetDocumentation"); q != nil {
			name := h.param("String", "function_name")
			r.check(name != nil && len(q.Args) > 0 && st.sameVal(q.Args[0], name), "the entry shown is the one named", fn, "looks for %s", h.an.showVal(st, q.Args[0]))
			entries++
			x.entry(st, segs, q.Ret[0], false)
			continue
		}
		q := query(evs, "GetDocumentationByCategory")
		if q == nil {
			q = query(evs, "GetAllDocumentation")
		}
		if q == nil {
			continue // C19
		}
		if b, ok := h.param("Bool", "verbose").(BoolV); ok {
			if v, known := st.truth(b.C); known && v {
				continue
			}
		}
		lists++
		x.listing(st, segs, q.Ret[0])
	}
	r.check(entries > 0 && lists > 0, "analysed", fn, "%s", fmt.Sprintf("%d paths showing an entry, %d showing a list", entries, lists))
	r.engine(h.an, fn)
}
