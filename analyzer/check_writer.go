package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: writers write every value or report why not.

type writerCk struct {
	c *ctx
	r *Report
	k *cmdLab
}

func (w *writerCk) lab() *cmdLab {
	k := *w.k
	k.opq = map[*ssa.Function]string{}
	for f, n := range w.k.opq {
		if !strings.HasPrefix(n, "writer:") {
			k.opq[f] = n
		}
	}
	return &k
}

func checkC27(c *ctx, r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	w := &writerCk{c: c, r: r, k: k}
	iface := c.w.typ("edlisp/writer", "Writer")
	if !r.check(iface != nil, "resolved", "edlisp/writer.Writer", "not found") {
		return
	}
	an := w.lab().newAn()
	kinds := w.kinds(an)
	r.check(len(kinds) >= 4, "analysed", "kinds of values", "only %d", len(kinds))
	fs := w.formats(iface)
	r.check(len(fs) >= 3, "analysed", "formats", "only %d", len(fs))
	for _, f := range []string{"sexp", "shell", "json"} {
		t := fs[f]
		if !r.check(t != nil, "resolved", "the writer of "+f, "NewWriter gives none") {
			continue
		}
		r.unit("writers", 1)
		for _, kt := range kinds {
			w.value(t, f, kt)
		}
		w.sequence(t, f)
	}
	for _, kt := range kinds {
		w.printed(kt)
	}
}

// formats gives the writer of every format.
func (w *writerCk) formats(iface types.Type) map[string]types.Type {
	out := map[string]types.Type{}
	fn := w.c.w.fn("edlisp/writer", "NewWriter")
	if !w.r.check(fn != nil && len(fn.Params) == 1, "resolved", "edlisp/writer.NewWriter", "not found") {
		return out
	}
	an := w.lab().newAn()
	st := an.newState()
	f, ok := an.havoc(st, fn.Params[0].Type(), "format").(StrV)
	if !ok {
		return out
	}
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, fn, f) }); why != "" {
		w.r.fail("analysed", fnName(fn), "%s", why)
	}
	w.r.unit("paths", len(outs))
	for _, o := range outs {
		tv, ok := o.ret.(TupleV)
		if o.kind != outReturn || !ok {
			continue
		}
		for _, st := range o.st.assume(o.st.isNil(tv.E[1])) {
			wr, ok := tv.E[0].(IfaceV)
			if !w.r.check(ok, "unknown formats are refused", fnName(fn), "succeeds without a writer") {
				continue
			}
			c, isC := st.norm(f).constant()
			if !w.r.check(isC, "unknown formats are refused", fnName(fn), "gives a %s for any format", shortType(wr.T)) {
				continue
			}
			if t := out[c]; t != nil {
				w.r.check(types.Identical(t, wr.T), "resolved", "the writer of "+c, "there are two")
			}
			out[c] = wr.T
		}
	}
	w.r.engine(an, fnName(fn))
	return out
}

// kinds of values of the language
func (w *writerCk) kinds(an *An) []types.Type {
	ks := append([]types.Type{}, an.implementers(w.c.lab.valueT)...)
	sort.Slice(ks, func(i, j int) bool { return shortType(ks[i]) < shortType(ks[j]) })
	return ks
}

func (w *writerCk) method(t types.Type, name string) *ssa.Function {
	sel := w.c.w.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return w.c.w.prog.MethodValue(sel)
}

func (w *writerCk) recv(an *An, st *State, t types.Type, name string) Val {
	if p, ok := t.(*types.Pointer); ok {
		return an.ptr(st, p.Elem(), name)
	}
	return an.havoc(st, t, name)
}

const (
	ruleErr   = "failures are reported"
	ruleWhole = "what is written is the whole value"
)

// value: t writes a value of kind kt in format f.
func (w *writerCk) value(t types.Type, f string, kt types.Type) {
	fn := w.method(t, "WriteValue")
	what := shortType(t) + ".WriteValue of " + shortType(kt)
	if !w.r.check(fn != nil, "resolved", what, "no such method") {
		return
	}
	an := w.lab().newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	out := an.havoc(st, fn.Params[1].Type(), "out")
	pv := w.recv(an, st, kt, "value")
	val := IfaceV{T: kt, V: pv}
	args := []Val{w.recv(an, st, t, "w"), out, val}
	from := st.ev
	good := 0
	w.run(an, st, fn, args, what, func(st *State, isErr bool) {
		evs := eventsAfter(st.ev, from)
		x := &textCk{w: w, an: an, f: f, out: out}
		if isErr {
			why := x.refusal(st, evs, val)
			w.r.check(why == "", "only what the format cannot say is refused", what, "%s", why)
			return
		}
		good++
		why := x.written(st, evs, val, "")
		w.r.check(why == "", ruleWhole, what, "%s", why)
	})
	w.r.check(good > 0 || f == "shell", "analysed", what, "no path succeeds")
}

// run interprets fn and looks at its final states.
func (w *writerCk) run(an *An, st *State, fn *ssa.Function, args []Val, what string, f func(st *State, isErr bool)) {
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, fn, args...) }); why != "" {
		w.r.fail("analysed", what, "%s", why)
	}
	w.r.unit("paths", len(outs))
	w.r.unit("functions", 1)
	for _, o := range outs {
		if o.kind != outReturn {
			w.r.fail(ruleErr, what, "may panic or exit")
			continue
		}
		ec, ok := an.errCond(o.st, o.ret, fn.Signature)
		if !w.r.check(ok, "resolved", what, "reports no error") {
			return
		}
		for _, st := range o.st.assume(ec) {
			if st.eq(st.ghost["fail"], lc(0)) {
				f(st, true)
			} else {
				w.r.check(true, ruleErr, what, "")
			}
		}
		for _, st := range o.st.assume(ec.not()) {
			if !w.r.check(st.eq(st.ghost["fail"], lc(0)), ruleErr, what, "succeeds after a failure%s", lastFailure(st)) {
				continue
			}
			f(st, false)
		}
	}
	w.r.engine(an, what)
}

func lastFailure(st *State) string {
	for e := st.ev; e != nil; e = e.Prev {
		if e.Kind == "write-error" || e.Kind == "call" && !okEvent(e) {
			return " of " + e.Name + " at " + e.Pos
		}
	}
	return ""
}

// sequence: t writes a program.
func (w *writerCk) sequence(t types.Type, f string) {
	fn := w.method(t, "Write")
	what := shortType(t) + ".Write"
	if !w.r.check(fn != nil, "resolved", what, "no such method") {
		return
	}
	an := w.lab().newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	out := an.havoc(st, fn.Params[1].Type(), "out")
	seq, ok := an.havoc(st, fn.Params[2].Type(), "program").(SliceV)
	if !w.r.check(ok, "resolved", what, "takes no sequence") {
		return
	}
	args := []Val{w.recv(an, st, t, "w"), out, seq}
	from := st.ev
	good := 0
	w.run(an, st, fn, args, what, func(st *State, isErr bool) {
		evs := eventsAfter(st.ev, from)
		x := &textCk{w: w, an: an, f: f, out: out}
		if isErr {
			why := x.refusalIn(st, evs, seq)
			w.r.check(why == "", "only what the format cannot say is refused", what, "%s", why)
			return
		}
		good++
		why := x.each(st, evs, seq, func(b *State, evs []*Event, v Val) string {
			return x.written(b, evs, v, "\n")
		})
		w.r.check(why == "", "every element is written, in order, on a line of its own", what, "%s", why)
	})
	w.r.check(good > 0, "analysed", what, "no path succeeds")
}

// printed: the printed form of a value is made of the whole value.
func (w *writerCk) printed(kt types.Type) {
	fn := w.method(kt, "String")
	what := shortType(kt) + ".String"
	if !w.r.check(fn != nil, "resolved", what, "values of this kind have no printed form") {
		return
	}
	an := w.lab().newAn()
	st := an.newState()
	pv := w.recv(an, st, kt, "value")
	from := st.ev
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, fn, pv) }); why != "" {
		w.r.fail("analysed", what, "%s", why)
	}
	w.r.unit("paths", len(outs))
	w.r.unit("functions", 1)
	for _, o := range outs {
		if o.kind != outReturn {
			w.r.fail(ruleWhole, what, "may panic")
			continue
		}
		text, ok := o.ret.(StrV)
		x := &textCk{w: w, an: an, f: "sexp", self: true}
		why := "the result is not resolved"
		if ok {
			why = x.text(o.st, eventsAfter(o.st.ev, from), text, IfaceV{T: kt, V: pv})
		}
		w.r.check(why == "", ruleWhole, what, "%s", why)
	}
	w.r.engine(an, what)
}

// textCk decides whether a text is the text of a value.
type textCk struct {
	w    *writerCk
	an   *An
	f    string // format
	out  Val
	self bool // the text is the printed form itself
}

// concrete gives the dynamic value of v.
func (x *textCk) concrete(st *State, v Val) (IfaceV, Val, bool) {
	i, ok := v.(IfaceV)
	if s, isSym := v.(SymV); isSym {
		if i, ok = st.dyn[s.ID]; !ok {
			// all kinds but one are ruled out
			var left []types.Type
			for _, t := range x.an.implementers(x.w.c.lab.valueT) {
				out := false
				for _, e := range st.excl[s.ID] {
					out = out || types.Identical(e, t)
				}
				if !out {
					left = append(left, t)
				}
			}
			if len(left) == 1 {
				return IfaceV{T: left[0], V: v}, nil, true
			}
		}
	}
	if !ok {
		return i, nil, false
	}
	switch p := i.V.(type) {
	case PtrV:
		return i, x.an.load(st, p), true
	case SymV:
		if id, ok := st.symObj[p.ID]; ok {
			return i, x.an.load(st, PtrV{Obj: id}), true
		}
		return i, nil, true
	}
	return i, i.V, true
}

// is reports that a is the value v or its dynamic value.
func (x *textCk) is(st *State, a, v Val) bool {
	if st.sameVal(a, v) {
		return true
	}
	ia, _, ok1 := x.concrete(st, a)
	iv, _, ok2 := x.concrete(st, v)
	switch {
	case ok1 && ok2:
		return st.sameVal(ia.V, iv.V) || x.samePtr(st, ia.V, iv.V)
	case ok2:
		return st.sameVal(a, iv.V) || x.samePtr(st, a, iv.V)
	case ok1:
		return st.sameVal(ia.V, v) || x.samePtr(st, ia.V, v)
	}
	return false
}

func (x *textCk) samePtr(st *State, a, b Val) bool {
	id := func(v Val) int {
		switch p := v.(type) {
		case PtrV:
			if p.Path == "" && p.Idx == nil {
				return p.Obj
			}
		case SymV:
			return st.symObj[p.ID]
		}
		return 0
	}
	return id(a) != 0 && id(a) == id(b)
}

func (x *textCk) show(st *State, s StrV) string { return st.showStr(s) }

// written: the events write the value v, followed by nl.
func (x *textCk) written(st *State, evs []*Event, v Val, nl string) string {
	if x.f == "json" {
		var enc *Event
		for _, e := range evs {
			if e.Kind == "write" {
				return "writes something beside the JSON text"
			}
			if e.Kind != "call" || e.Name != "(*encoding/json.Encoder).Encode" {
				continue
			}
			if enc != nil {
				return "is written twice"
			}
			enc = e
		}
		if enc == nil {
			return "nothing is written"
		}
		from, ok := enc.Args[0].(SymV)
		if !ok || from.From == nil || from.From.Name != "encoding/json.NewEncoder" || !st.sameVal(from.From.Args[0], x.out) {
			return "is not written to the given output"
		}
		return x.json(st, evs, enc.Args[1], v)
	}
	text := StrV{}
	n := 0
	for _, e := range evs {
		if e.Kind != "write" {
			if e.Loop != nil && x.writes(e.Loop) {
				return "is written piece by piece in a loop"
			}
			continue
		}
		if !st.sameVal(e.Args[0], x.out) {
			return "is not written to the given output"
		}
		s, ok := e.Args[len(e.Args)-1].(StrV)
		if !ok {
			return "what is written is not a text"
		}
		n++
		text = concat(text, s)
	}
	if n == 0 {
		return "nothing is written"
	}
	text = st.norm(text)
	if nl != "" {
		k := len(text.P)
		if k == 0 || text.P[k-1].Base != nil || !strings.HasSuffix(text.P[k-1].Lit, nl) {
			return "is not followed by a newline"
		}
		ps := append([]Piece{}, text.P...)
		ps[k-1].Lit = strings.TrimSuffix(ps[k-1].Lit, nl)
		if ps[k-1].Lit == "" {
			ps = ps[:k-1]
		}
		text = StrV{P: ps}
	}
	return x.text(st, evs, text, v)
}

func (x *textCk) writes(l *LoopInfo) bool {
	for _, b := range l.Backs {
		for _, e := range l.iteration(b) {
			if e.Kind == "write" || e.Loop != nil && x.writes(e.Loop) {
				return true
			}
		}
	}
	return false
}

// whole gives the symbolic text s consists of.
func (x *textCk) whole(st *State, s StrV) *Base {
	s = st.norm(s)
	if len(s.P) == 1 && s.P[0].Base != nil && st.eq(s.P[0].Lo, lc(0)) && st.eq(s.P[0].Hi, s.P[0].Base.Len) {
		return s.P[0].Base
	}
	return nil
}

// text: s is the text of v, which is a whole value or an element of one.
func (x *textCk) text(st *State, evs []*Event, s StrV, v Val) string {
	return x.textOf(st, evs, s, v, x.self, true)
}

func (x *textCk) textOf(st *State, evs []*Event, s StrV, v Val, self, top bool) string {
	iv, cv, ok := x.concrete(st, v)
	b := x.whole(st, s)
	if b != nil && !self {
		if (b.Fn == "fmt%v" || b.Fn == "fmt%s" || b.Fn == "sprint[]") && x.is(st, b.Args[0], v) {
			if x.f == "sexp" {
				return ""
			}
			// a token must not be a list
			if ok && !x.isList(cv) {
				return ""
			}
			return "writes something the format cannot say"
		}
		if e := b.From; e != nil && e.Kind == "recurse" && x.f == "sexp" && len(e.Args) > 0 && x.is(st, e.Args[len(e.Args)-1], v) {
			return ""
		}
	}
	if !ok {
		return fmt.Sprintf("writes %s where an element is due", x.show(st, s))
	}
	sv, ok := cv.(StructV)
	if !ok || len(sv.F) != 1 {
		return "the value is not understood"
	}
	switch c := sv.F[0].(type) {
	case StrV:
		if x.isSymbol(iv.T) {
			if st.strEq(s, c) {
				return ""
			}
			return fmt.Sprintf("writes %s instead of the name of the symbol", x.show(st, s))
		}
		if b != nil && (b.Fn == "strconv.Quote" || b.Fn == "fmt%q") {
			if a, ok := b.Args[0].(StrV); ok && st.strEq(a, c) {
				return ""
			}
		}
		if k, ok := st.norm(c).constant(); ok && st.strEq(s, lit(strconv.Quote(k))) {
			return ""
		}
		return fmt.Sprintf("writes %s instead of the quoted text of the string", x.show(st, s))
	case FloatV:
		return x.number(st, s, b, c)
	case SliceV:
		if x.f == "shell" && !top {
			return "writes a nested list, which the format cannot say"
		}
		open, close := "(", ")"
		if x.f == "shell" {
			open, close = "", ""
		}
		return x.list(st, evs, s, c, open, close)
	}
	return "the value is not understood"
}

func (x *textCk) isList(cv Val) bool {
	sv, ok := cv.(StructV)
	if !ok || len(sv.F) != 1 {
		return true
	}
	_, ok = sv.F[0].(SliceV)
	return ok
}

func (x *textCk) listKind(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 1 {
		return false
	}
	_, ok = s.Field(0).Type().Underlying().(*types.Slice)
	return ok
}

func (x *textCk) isSymbol(t types.Type) bool { return strings.HasSuffix(shortType(t), "Symbol") }

// number: s is a numeral of f that reads back as f.
func (x *textCk) number(st *State, s StrV, b *Base, f FloatV) string {
	bad := fmt.Sprintf("writes %s instead of a numeral that reads back as the number", x.show(st, s))
	if b == nil || len(b.Args) == 0 {
		return bad
	}
	arg := b.Args[0]
	if i, ok := arg.(IfaceV); ok {
		arg = i.V
	}
	integral := func() bool { return st.integral(f) }
	trunc := func(a Val) bool {
		i, ok := a.(IntV)
		if !ok {
			return false
		}
		if f.Exact != nil {
			return st.eq(i.L, *f.Exact)
		}
		return f.F != nil && st.eq(i.L, f.F.Tr)
	}
	switch b.Fn {
	case "fmt%g", "fmt%v", "sprint[]":
		if st.sameVal(arg, f) {
			return ""
		}
	case "fmt%.0f":
		if st.sameVal(arg, f) && integral() {
			return ""
		}
	case "itoa", "fmt%d":
		if trunc(arg) && integral() {
			return ""
		}
	case "strconv.FormatFloat", "strconv.FormatFloat.0":
		if len(b.Args) == 4 && st.sameVal(arg, f) {
			prec, ok1 := b.Args[2].(IntV)
			bits, ok2 := b.Args[3].(IntV)
			if ok1 && ok2 && st.eq(prec.L, lc(-1)) && st.eq(bits.L, lc(64)) {
				return ""
			}
			if ok1 && ok2 && st.eq(prec.L, lc(0)) && integral() {
				return ""
			}
		}
	}
	return bad
}

// list: s is open, the texts of the elements separated by blanks, and close.
func (x *textCk) list(st *State, evs []*Event, s StrV, elems SliceV, open, close string) string {
	s = st.norm(s)
	if c, ok := s.constant(); ok {
		if c == open+close && st.eq(elems.Len, lc(0)) {
			return ""
		}
	}
	ps := append([]Piece{}, s.P...)
	inner := ""
	if open != "" && len(ps) > 0 && ps[0].Base != nil {
		inner = open
	} else if open != "" {
		if len(ps) == 0 || ps[0].Base != nil || ps[0].Lit != open {
			return fmt.Sprintf("writes %s, which does not start with %q", x.show(st, s), open)
		}
		ps = ps[1:]
	}
	if close != "" {
		if n := len(ps); n == 0 || ps[n-1].Base != nil || ps[n-1].Lit != close {
			return fmt.Sprintf("writes %s, which does not end with %q", x.show(st, s), close)
		}
		ps = ps[:len(ps)-1]
	}
	b := x.whole(st, StrV{P: ps})
	if b == nil {
		return fmt.Sprintf("writes %s instead of the elements", x.show(st, s))
	}
	el := func(b *State, evs []*Event, w, v Val) string {
		s, ok := w.(StrV)
		if !ok {
			return "the text of an element is not resolved"
		}
		return x.textOf(b, evs, s, v, false, false)
	}
	if b.Fn == "join" && inner == "" {
		parts, ok1 := b.Args[0].(SliceV)
		sep, ok2 := b.Args[1].(StrV)
		if !ok1 || !ok2 || !st.strEq(sep, lit(" ")) {
			return "the elements are not separated by one blank"
		}
		return x.seq(st, evs, parts, elems, el)
	}
	return x.accumulated(st, evs, b, elems, inner, el)
}

// seq: parts corresponds to elems element by element.
func (x *textCk) seq(st *State, evs []*Event, parts, elems SliceV, f func(b *State, evs []*Event, w, v Val) string) string {
	an := x.an
	if !st.eq(parts.Len, elems.Len) {
		return fmt.Sprintf("writes %s elements of %s", an.show(parts.Len), an.show(elems.Len))
	}
	if st.eq(parts.Len, lc(0)) {
		return ""
	}
	why := "the elements written are not those of the list"
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		for _, c := range l.Cells {
			h, ok := c.Head.(SliceV)
			en, ok2 := c.Entry.(SliceV)
			if _, isNil := c.Entry.(NilV); isNil {
				en, ok2 = SliceV{Arr: -1, Len: lc(0)}, true
			}
			if !ok || !ok2 || h.Arr != parts.Arr || !st.eq(h.Len, parts.Len) || !st.eq(h.Off, parts.Off) {
				continue
			}
			return x.grown(l, c, h, en, elems, f)
		}
		// elements stored first and the rest appended as one slice
		if w := x.spreadSeq(st, l, parts, elems, f); w == "" {
			return ""
		} else if w != "-" {
			why = w
		}
		// filled in place
		if w := x.filled(st, l, parts, elems, f); w == "" {
			return ""
		} else if w != "-" {
			why = w
		}
	}
	if n, ok := st.constOf(parts.Len); ok && n <= 8 {
		for i := int64(0); i < n; i++ {
			if why = f(st, evs, an.at(st, parts, lc(i)), an.at(st, elems, lc(i))); why != "" {
				return why
			}
		}
		return ""
	}
	return why
}

// spreadSeq: parts is a few elements and then those collected in loop l.
func (x *textCk) spreadSeq(st *State, l *LoopInfo, parts, elems SliceV, f func(b *State, evs []*Event, w, v Val) string) string {
	an := x.an
	for _, c := range l.Cells {
		s, ok := c.Head.(SliceV)
		if !ok || s.Arr == parts.Arr {
			continue
		}
		n, ok := st.constOf(parts.Len.sub(s.Len))
		if !ok || n < 0 || n > 3 || !spreads(st, parts, s) {
			continue
		}
		en, ok := sliceOf(c.Entry)
		if !ok {
			continue
		}
		for i := int64(0); i < n; i++ {
			if why := f(st, nil, an.at(st, parts, lc(i)), an.at(st, elems, lc(i))); why != "" {
				return why
			}
		}
		rest := SliceV{Arr: elems.Arr, Off: elems.Off.addk(n), Len: elems.Len.addk(-n)}
		return x.grown(l, c, s, en, rest, f)
	}
	return "-"
}

// spreads: the last step of making y was append(…, s...).
func spreads(st *State, y, s SliceV) bool {
	o := st.obj(y.Arr)
	if o == nil || o.Arr == nil || len(o.Arr.Log) == 0 {
		return false
	}
	last := o.Arr.Log[len(o.Arr.Log)-1]
	if len(last.Vals) != 1 {
		return false
	}
	v, ok := last.Vals[0].(SliceV)
	if !ok || v.Arr != s.Arr || !st.eq(v.Len, s.Len) || !st.eq(v.Off, s.Off) {
		return false
	}
	for _, e := range o.Arr.Els {
		if e.W && !st.lt(e.I, y.Len.sub(s.Len)) {
			return false
		}
	}
	return true
}

// grown: every iteration appends the next element.
func (x *textCk) grown(l *LoopInfo, c CellInfo, h, en, elems SliceV, f func(b *State, evs []*Event, w, v Val) string) string {
	an := x.an
	n, ok := l.Entry.constOf(en.Len)
	if !ok {
		return "starts with an unknown number of elements"
	}
	for i := int64(0); i < n; i++ {
		w := an.at(l.Entry, en, lc(i))
		v := an.at(l.Entry, elems, lc(i))
		if why := f(l.Entry, nil, w, v); why != "" {
			return why
		}
	}
	for i, b := range l.Backs {
		y, ok := c.Backs[i].(SliceV)
		if !ok || !b.eq(y.Len, h.Len.addk(1)) {
			return "an iteration does not add exactly one element"
		}
		w := an.at(b, y, h.Len)
		v := an.at(b, elems, h.Len)
		if why := f(b, l.iteration(b), w, v); why != "" {
			return why
		}
	}
	return ""
}

// counters gives what counts the iterations of l, starting with 0.
func (x *textCk) counters(l *LoopInfo, elems SliceV) []Lin {
	var out []Lin
	for _, c := range l.Cells {
		val := func(v Val) (Lin, bool) {
			switch y := v.(type) {
			case IntV:
				return y.L, true
			case SliceV:
				if y.Arr == elems.Arr {
					return y.Off.sub(elems.Off), true
				}
			}
			return Lin{}, false
		}
		h, ok1 := val(c.Head)
		e, ok2 := val(c.Entry)
		if !ok1 || !ok2 {
			continue
		}
		k, ok := l.Entry.constOf(e)
		if !ok {
			continue
		}
		good := true
		for i, b := range l.Backs {
			y, ok := val(c.Backs[i])
			if !ok || !b.eq(y, h.addk(1)) {
				good = false
			}
		}
		if good {
			out = append(out, h.addk(-k))
		}
	}
	return out
}

func (x *textCk) done(st *State, k Lin, elems SliceV) bool {
	return st.eq(k, elems.Len) || st.ge(k.sub(elems.Len))
}

// filled: every iteration stores the next element at its place.
func (x *textCk) filled(st *State, l *LoopInfo, parts, elems SliceV, f func(b *State, evs []*Event, w, v Val) string) string {
	an := x.an
	o := l.Head.obj(parts.Arr)
	if o == nil {
		return "-"
	}
	why := "-"
	for _, k0 := range x.counters(l, elems) {
		// p elements are stored before the loop
		for p := int64(0); p <= 3; p++ {
			k := k0.addk(p)
			if !x.done(st, k, elems) {
				continue
			}
			why = ""
			for i := int64(0); i < p && why == ""; i++ {
				why = f(l.Entry, nil, an.at(l.Entry, parts, lc(i)), an.at(l.Entry, elems, lc(i)))
			}
			for _, b := range l.Backs {
				bo := b.obj(parts.Arr)
				if bo == nil || bo.Arr == nil || bo == o {
					return "-"
				}
				if !onlyWrites(b, o, bo, parts.Off.add(k)) {
					why = "an element is changed after it was stored"
				}
				if why != "" {
					break
				}
				w := an.at(b, parts, k)
				v := an.at(b, elems, k)
				why = f(b, l.iteration(b), w, v)
			}
			if why == "" {
				return ""
			}
		}
	}
	return why
}

// onlyWrites: what was written to the array since head is element k.
func onlyWrites(b *State, head, now *Obj, k Lin) bool {
	for _, e := range now.Arr.Els {
		if !e.W || b.eq(e.I, k) {
			continue
		}
		old := false
		if head.Arr != nil {
			for _, f := range head.Arr.Els {
				old = old || f.W && f.I.eqSyn(e.I) && shallowSame(f.V, e.V)
			}
		}
		if !old {
			return false
		}
	}
	return true
}

// each: f holds of every iteration and the element that is due in it.
func (x *textCk) each(st *State, evs []*Event, elems SliceV, f func(b *State, evs []*Event, v Val) string) string {
	if st.eq(elems.Len, lc(0)) {
		return ""
	}
	why := "the elements are not written one by one"
	for _, e := range evs {
		if e.Kind == "write" {
			return "writes something beside the elements"
		}
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		for _, k := range x.counters(l, elems) {
			if !x.done(st, k, elems) {
				if why == "the elements are not written one by one" {
					why = fmt.Sprintf("elements from %s on may not be written", x.an.show(k))
				}
				continue
			}
			why = ""
			for _, b := range l.Backs {
				if why = f(b, l.iteration(b), x.an.at(b, elems, k)); why != "" {
					break
				}
			}
			if why == "" {
				return ""
			}
		}
	}
	return why
}

// accumulated: a loop appends the texts of the elements, separated by blanks.
func (x *textCk) accumulated(st *State, evs []*Event, base *Base, elems SliceV, open string, f func(b *State, evs []*Event, w, v Val) string) string {
	why := "writes " + base.Name + " instead of the elements"
	content := func(v Val) (StrV, bool) {
		switch y := v.(type) {
		case StrV:
			return y, true
		case BuilderV:
			return y.S, true
		}
		return StrV{}, false
	}
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		for _, c := range l.Cells {
			h, ok := content(c.Head)
			if !ok || x.whole(l.Head, h) != base {
				continue
			}
			en, ok := content(c.Entry)
			if !ok {
				continue
			}
			if k, isC := l.Entry.norm(en).constant(); !isC || k != open {
				return fmt.Sprintf("starts with %s, not %q", x.show(l.Entry, en), open)
			}
			for _, k := range x.counters(l, elems) {
				if !x.done(st, k, elems) {
					why = fmt.Sprintf("elements from %s on may not be written", x.an.show(k))
					continue
				}
				why = ""
				for i, b := range l.Backs {
					y, ok := content(c.Backs[i])
					y = b.norm(y)
					if !ok || len(y.P) == 0 || y.P[0].Base != base || !b.eq(y.P[0].Lo, lc(0)) || !b.eq(y.P[0].Hi, base.Len) {
						why = "an iteration does not append to the text"
						break
					}
					ps := append([]Piece{}, y.P[1:]...)
					if !b.eq(k, lc(0)) {
						if !b.ge(k.addk(-1)) || len(ps) == 0 || ps[0].Base != nil || !strings.HasPrefix(ps[0].Lit, " ") {
							why = "the elements are not separated by one blank"
							break
						}
						ps[0].Lit = ps[0].Lit[1:]
						if ps[0].Lit == "" {
							ps = ps[1:]
						}
					}
					if why = f(b, l.iteration(b), StrV{P: ps}, x.an.at(b, elems, k)); why != "" {
						break
					}
				}
				if why == "" {
					return ""
				}
			}
		}
	}
	return why
}

// json: j is what encoding/json needs to write v.
func (x *textCk) json(st *State, evs []*Event, j, v Val) string {
	if s, ok := j.(SymV); ok && s.From != nil && s.From.Kind == "recurse" {
		for _, a := range s.From.Args {
			if x.is(st, a, v) {
				return ""
			}
		}
		return "writes another value"
	}
	_, cv, ok := x.concrete(st, v)
	if !ok {
		return "writes something else where an element is due"
	}
	if i, ok := j.(IfaceV); ok {
		j = i.V
	}
	sv, ok := cv.(StructV)
	if !ok || len(sv.F) != 1 {
		return "the value is not understood"
	}
	switch c := sv.F[0].(type) {
	case StrV:
		if s, ok := j.(StrV); ok && st.strEq(s, c) {
			return ""
		}
		return "writes another text"
	case FloatV:
		if st.sameVal(j, c) {
			return ""
		}
		return "writes another number"
	case SliceV:
		parts, ok := j.(SliceV)
		if !ok {
			return "a list is not written as an array"
		}
		return x.seq(st, evs, parts, c, func(b *State, evs []*Event, w, v Val) string { return x.json(b, evs, w, v) })
	}
	return "the value is not understood"
}

// refusal: v is something the format cannot say.
func (x *textCk) refusal(st *State, evs []*Event, v Val) string {
	if x.f != "shell" {
		return "refuses a value the format can say"
	}
	_, cv, ok := x.concrete(st, v)
	if !ok {
		if s, isSym := v.(SymV); isSym {
			for _, e := range st.excl[s.ID] {
				if x.listKind(e) {
					return ""
				}
			}
		}
		return "refuses a value for no known reason"
	}
	if !x.isList(cv) {
		return ""
	}
	for _, e := range x.known(st, cv.(StructV).F[0].(SliceV)) {
		if _, ce, ok := x.concrete(st, e); ok && x.isList(ce) {
			return ""
		}
	}
	return "refuses a list without lists in it"
}

// refusalIn: an element of elems is something the format cannot say.
func (x *textCk) refusalIn(st *State, evs []*Event, elems SliceV) string {
	why := "refuses a program for no known reason"
	for _, e := range x.known(st, elems) {
		if why = x.refusal(st, evs, e); why == "" {
			return ""
		}
	}
	return why
}

// known gives the elements of s that were looked at.
func (x *textCk) known(st *State, s SliceV) (out []Val) {
	if o := st.obj(s.Arr); o != nil && o.Arr != nil {
		for _, e := range o.Arr.Els {
			if e.V != nil {
				out = append(out, e.V)
			}
		}
	}
	return out
}

// at gives element i of s.
func (an *An) at(st *State, s SliceV, i Lin) Val {
	if s.Arr < 0 {
		return nil
	}
	return an.elem(st, s.Arr, s.Off.add(i))
}

func dumpEvents(an *An, st *State, evs []*Event, ind string) {
	for _, e := range evs {
		if e.Loop != nil {
			fmt.Println(ind+"loop", e.Loop.Pos)
			for i, b := range e.Loop.Backs {
				fmt.Println(ind+"  iteration", i)
				for _, c := range e.Loop.Cells {
					fmt.Println(ind+"     cell", c.Name, an.showVal(e.Loop.Head, c.Head), "=>", an.showVal(b, c.Backs[i]))
				}
				dumpEvents(an, b, e.Loop.iteration(b), ind+"     ")
			}
			continue
		}
		s := ind + e.Kind + " " + e.Name
		for _, a := range e.Args {
			s += " | " + an.showVal(st, a)
		}
		s += " => "
		for _, a := range e.Ret {
			s += " | " + an.showVal(st, a)
		}
		fmt.Println(s)
	}
}
