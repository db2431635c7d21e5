package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: parsers account for every token of a script.

type parserCk struct {
	c *ctx
	r *Report
	k *cmdLab

	cuts map[*ssa.Function]string // functions cutting a text at quotes-aware places: "tokens" or "commands"
	tree map[*ssa.Function]bool   // functions reading one expression from tokens
}

func checkC26(c *ctx, r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "functions", "%s", e)
	}
	p := &parserCk{c: c, r: r, k: k, cuts: map[*ssa.Function]string{}, tree: map[*ssa.Function]bool{}}
	fns := p.functions()
	for _, f := range fns {
		if p.isCutter(f) {
			p.cutter(f)
		}
	}
	p.trees(fns)
	for _, role := range []*cutRole{tokenRole, partRole} {
		n := 0
		for _, k := range p.cuts {
			if k == role.name {
				n++
			}
		}
		r.check(n > 0, "analysed", "functions cutting a text into "+role.name, "none found")
	}
	for f := range p.tree {
		p.exprOf(f)
	}
	r.check(len(p.tree) > 0, "analysed", "functions reading one expression", "none found")
	p.converters()
	p.roots()
}

func (p *parserCk) functions() (out []*ssa.Function) {
	pkg := p.c.w.ssaPkg[modPath+"/edlisp/parser"]
	if !p.r.check(pkg != nil, "resolved", "edlisp/parser", "no such package") {
		return nil
	}
	for _, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// lab is the command lab with the parsers themselves interpreted.
func (p *parserCk) lab() *cmdLab {
	k := *p.k
	k.opq = map[*ssa.Function]string{}
	for f, n := range p.k.opq {
		if !strings.HasPrefix(n, "parse:") {
			k.opq[f] = n
		}
	}
	return &k
}

// isCutter: f walks over a text and gives pieces of it.
func (p *parserCk) isCutter(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 1 || !isString(s.Params().At(0).Type()) || s.Results().Len() == 0 {
		return false
	}
	sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isString(sl.Elem()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if isString(x.X.Type()) {
					return true
				}
			case *ssa.Lookup:
				if isString(x.X.Type()) {
					return true
				}
			case *ssa.Index:
				if isString(x.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

const (
	ruleKept = "every character is kept, in order"
	ruleCut  = "texts are cut exactly at delimiters outside quotes"
)

var (
	quoteSet = byteSetOf("\"")
	slashSet = byteSetOf("\\")
)

func byteSetOf(s string) (o ByteSet) {
	for i := 0; i < len(s); i++ {
		o.put(s[i])
	}
	return o
}

// quoting follows the quoting state of a text: ghosts "at" (position up to
// which the text was read), "quoted" and "escaped". Every character read is
// an event.
func (p *parserCk) quoting(an *An, text *Base) {
	an.onRead = func(st *State, s StrV, at, end Lin) []*State {
		s = st.norm(s)
		if len(s.P) != 1 || s.P[0].Base != text {
			return []*State{st}
		}
		at, end = s.P[0].Lo.add(at), s.P[0].Lo.add(end)
		pos := st.ghost["at"]
		if st.lt(at, pos) || st.lt(pos, at) {
			return []*State{st}
		}
		var out []*State
		step := func(st *State, class string, q, e int64) {
			n := st.clone()
			n.ghost["quoted"], n.ghost["escaped"], n.ghost["at"] = lc(q), lc(e), end
			n.event("char", class, []Val{IntV{at}, IntV{end}, IntV{pos}}, nil, "")
			out = append(out, n)
		}
		q, e := st.ghost["quoted"], st.ghost["escaped"]
		for _, st := range st.assume(ceq(e.addk(-1))) {
			step(st, "kept", 1, 0)
		}
		for _, st := range st.assume(ceq(e)) {
			for _, qs := range st.assume(ceq(q.addk(-1))) {
				for set, f := range map[ByteSet]func(st *State){
					quoteSet:                      func(st *State) { step(st, "kept", 0, 0) },
					slashSet:                      func(st *State) { step(st, "kept", 1, 1) },
					quoteSet.or(slashSet).compl(): func(st *State) { step(st, "kept", 1, 0) },
				} {
					if n := qs.addByte(text, at, set); n != nil {
						f(n)
					}
				}
			}
			for _, us := range st.assume(ceq(q)) {
				if n := us.addByte(text, at, quoteSet); n != nil {
					step(n, "kept", 1, 0)
				}
				if n := us.addByte(text, at, quoteSet.compl()); n != nil {
					step(n, "plain", 0, 0)
				}
			}
		}
		return out
	}
}

// role of a function cutting a text: what it cuts at.
type cutRole struct {
	name    string
	drop    ByteSet // delimiters that are left out
	maybe   ByteSet // may be delimiters that are left out
	alone   ByteSet // characters that are pieces of their own
	noEmpty bool    // pieces are not empty
}

var (
	tokenRole = &cutRole{"tokens", byteSetOf(" \t\n\r"), byteSetOf("\v\f"), byteSetOf("()"), true}
	partRole  = &cutRole{"commands", byteSetOf(";"), ByteSet{}, ByteSet{}, false}
)

// cutter decides a function cutting a text into pieces.
func (p *parserCk) cutter(f *ssa.Function) {
	what := fnName(f)
	an := p.lab().newAn()
	st := an.newState()
	text := st.newBase("text")
	st.ghost["at"], st.ghost["quoted"], st.ghost["escaped"] = lc(0), lc(0), lc(0)
	p.quoting(an, text)
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, f, baseStr(text)) }); why != "" {
		p.r.fail("analysed", what, "%s", why)
	}
	p.r.unit("paths", len(outs))
	p.r.unit("functions", 1)
	p.r.engine(an, what)
	hasErr := f.Signature.Results().Len() > 1
	// the role that fits best
	var best *cutRole
	var whys []string
	for _, role := range []*cutRole{tokenRole, partRole} {
		var ws []string
		for _, o := range outs {
			if o.kind != outReturn {
				ws = append(ws, "may panic")
				continue
			}
			sts := []*State{o.st}
			ret := o.ret
			if hasErr {
				ec, ok := an.errCond(o.st, o.ret, f.Signature)
				if !ok {
					ws = append(ws, "reports no error")
					continue
				}
				sts = o.st.assume(ec.not())
				if tv, ok := o.ret.(TupleV); ok {
					ret = tv.E[0]
				}
			}
			for _, st := range sts {
				x := &cutCk{p: p, an: an, role: role, text: text}
				ws = append(ws, x.result(st, ret))
				if hasErr && !st.eq(st.ghost["quoted"], lc(0)) && x.loops > 0 {
					ws = append(ws, "a text that ends inside quotes is accepted")
				}
			}
		}
		if best == nil || fails(ws) < fails(whys) {
			best, whys = role, ws
		}
	}
	if best == nil {
		return
	}
	p.cuts[f] = best.name
	for _, w := range whys {
		p.r.check(w == "", ruleCut, what+" ("+best.name+")", "%s", w)
	}
}

func fails(ws []string) (n int) {
	for _, w := range ws {
		if w != "" {
			n++
		}
	}
	return n
}

type cutCk struct {
	p     *parserCk
	an    *An
	role  *cutRole
	text  *Base
	loops int
}

// pending is the piece being collected at one point of the loop.
type pending struct {
	cell int
	win  bool // text[cell:at]
}

func (x *cutCk) read(st *State, v Val, q pending) (StrV, bool) {
	switch c := v.(type) {
	case StrV:
		return c, !q.win
	case BuilderV:
		return c.S, !q.win
	case IntV:
		return StrV{P: []Piece{{Base: x.text, Lo: c.L, Hi: st.ghost["at"]}}}, q.win && st.ge(c.L) && st.le(c.L, st.ghost["at"])
	}
	return StrV{}, false
}

func empty(st *State, s StrV) bool    { return st.eq(s.length(), lc(0)) }
func nonEmpty(st *State, s StrV) bool { return st.ge(s.length().addk(-1)) }

// result: the function returns the pieces.
func (x *cutCk) result(st *State, v Val) string {
	res, ok := v.(SliceV)
	if _, isNil := v.(NilV); isNil {
		res, ok = SliceV{Arr: -1, Len: lc(0)}, true
	}
	if !ok {
		return "the pieces are not resolved"
	}
	var loops []*LoopInfo
	for _, e := range events(st.ev) {
		if e.Loop != nil && x.reads(e.Loop) {
			loops = append(loops, e.Loop)
		}
	}
	x.loops = len(loops)
	if len(loops) == 0 {
		if st.eq(x.text.Len, lc(0)) && st.eq(res.Len, lc(0)) {
			return ""
		}
		return "the text is not read"
	}
	if len(loops) > 1 {
		return "the text is read in several loops"
	}
	l := loops[0]
	if !st.eq(st.ghost["at"], x.text.Len) {
		return "the text is not read to its end"
	}
	why := "the piece being collected is not resolved"
	for oi, oc := range l.Cells {
		out, ok := oc.Head.(SliceV)
		if !ok {
			continue
		}
		switch en := oc.Entry.(type) {
		case NilV:
		case SliceV:
			if !l.Entry.eq(en.Len, lc(0)) {
				continue
			}
		default:
			continue
		}
		for pi, pc := range l.Cells {
			q := pending{cell: pi}
			_, q.win = pc.Head.(IntV)
			h, ok := x.read(l.Head, pc.Head, q)
			if !ok {
				continue
			}
			en, ok := x.read(l.Entry, pc.Entry, q)
			if !ok || !empty(l.Entry, en) {
				continue
			}
			w := ""
			for i := range l.Backs {
				if w = x.iteration(l, i, oi, q, out, h); w != "" {
					break
				}
			}
			if w == "" {
				w = x.last(st, l, res, out, h)
			}
			if w == "" {
				return ""
			}
			if !q.win || why == "the piece being collected is not resolved" {
				why = w
			}
		}
	}
	return why
}

func (x *cutCk) reads(l *LoopInfo) bool {
	for _, b := range l.Backs {
		for _, e := range l.iteration(b) {
			if e.Kind == "char" || e.Loop != nil && x.reads(e.Loop) {
				return true
			}
		}
	}
	return false
}

// last: after the loop the piece collected is added unless it is empty.
func (x *cutCk) last(st *State, l *LoopInfo, res, out SliceV, h StrV) string {
	vals, why := x.an.appended(st, l.Head, res, out)
	if why != "" {
		return why
	}
	switch {
	case len(vals) == 0:
		if !empty(st, h) {
			return "the last piece may be left out"
		}
	case len(vals) == 1:
		s, ok := vals[0].(StrV)
		if !ok || !st.strEq(s, h) {
			return "the last piece is changed"
		}
		if x.role.noEmpty && !nonEmpty(st, h) {
			return "an empty piece may be added at the end"
		}
	default:
		return "several pieces are added at the end"
	}
	return ""
}

// iteration: what is read is added to the piece being collected, or ends it.
func (x *cutCk) iteration(l *LoopInfo, i, oi int, q pending, out SliceV, h StrV) string {
	b := l.Backs[i]
	var chars []*Event
	for _, e := range l.iteration(b) {
		if e.Kind == "char" {
			chars = append(chars, e)
		} else if e.Loop != nil && x.reads(e.Loop) {
			return "the text is read in a nested loop"
		}
	}
	if len(chars) == 0 {
		return "an iteration reads nothing"
	}
	end, ok := x.read(b, l.Cells[q.cell].Backs[i], q)
	if !ok {
		return "the piece being collected is not resolved"
	}
	var res SliceV
	switch v := l.Cells[oi].Backs[i].(type) {
	case SliceV:
		res = v
	default:
		return "the pieces are not resolved"
	}
	vals, why := x.an.appended(b, l.Head, res, out)
	if why != "" {
		return why
	}
	return x.step(b, chars, h, vals, end)
}

// step simulates the characters read: p is the piece collected so far, vals
// are the pieces added, end is the piece collected afterwards.
func (x *cutCk) step(st *State, chars []*Event, p StrV, vals []Val, end StrV) string {
	if len(chars) == 0 {
		if len(vals) > 0 {
			return "a piece too many is added"
		}
		if !st.strEq(end, p) {
			return fmt.Sprintf("%s becomes %s", st.showStr(p), st.showStr(end))
		}
		return ""
	}
	c := chars[0]
	at, hi, pos := c.Args[0].(IntV).L, c.Args[1].(IntV).L, c.Args[2].(IntV).L
	if !st.eq(at, pos) {
		return "characters may be read twice or left out"
	}
	r := StrV{P: []Piece{{Base: x.text, Lo: at, Hi: hi}}}
	keep := func(st *State) string { return x.step(st, chars[1:], concat(p, r), vals, end) }
	if c.Name == "kept" {
		return keep(st)
	}
	take := func(st *State, want StrV) (string, []Val) {
		if len(vals) == 0 {
			return "a piece is left out", nil
		}
		s, ok := vals[0].(StrV)
		if !ok || !st.strEq(s, want) {
			if ok {
				return fmt.Sprintf("the piece %s is added as %s", st.showStr(want), st.showStr(s)), nil
			}
			return "a piece is not resolved", nil
		}
		return "", vals[1:]
	}
	cut := func(st *State, alone bool) string {
		rest := func(st *State, vals []Val) string {
			y := *x
			if alone {
				if len(vals) == 0 {
					return "a delimiter is left out"
				}
				s, ok := vals[0].(StrV)
				if !ok || !st.strEq(s, r) && !x.sameByte(st, s, at) {
					return "a delimiter is changed"
				}
				vals = vals[1:]
			}
			return y.step(st, chars[1:], StrV{}, vals, end)
		}
		for _, st := range st.assume(cge(p.length().addk(-1))) {
			w, vs := take(st, p)
			if w == "" {
				w = rest(st, vs)
			}
			if w != "" {
				return w
			}
		}
		for _, st := range st.assume(ceq(p.length())) {
			w := rest(st, vals)
			if w != "" && !x.role.noEmpty {
				w2, vs := take(st, p)
				if w2 == "" {
					w2 = rest(st, vs)
				}
				w = w2
			}
			if w != "" {
				return w
			}
		}
		return ""
	}
	other := x.role.drop.or(x.role.maybe).or(x.role.alone).compl()
	for _, k := range []struct {
		set ByteSet
		f   func(st *State) string
	}{
		{x.role.drop, func(st *State) string { return cut(st, false) }},
		{x.role.alone, func(st *State) string { return cut(st, true) }},
		{x.role.maybe, func(st *State) string {
			if keep(st) == "" {
				return ""
			}
			return cut(st, false)
		}},
		{other, keep},
	} {
		n := st.addByte(x.text, at, k.set)
		if n == nil {
			continue
		}
		if w := k.f(n); w != "" {
			return fmt.Sprintf("at a character in %s outside quotes: %s", n.byteSet(x.text, at), w)
		}
	}
	return ""
}

// sameByte: s is the one byte at index at.
func (x *cutCk) sameByte(st *State, s StrV, at Lin) bool {
	c, ok := st.norm(s).constant()
	return ok && len(c) == 1 && st.byteSet(x.text, at) == byteSetOf(c)
}

// appended gives the values appended to h to make y; h is the slice in state
// head.
func (an *An) appended(st, head *State, y, h SliceV) ([]Val, string) {
	var vals []Val
	arr := y.Arr
	var log []AppendRec
	if o := st.obj(arr); o != nil && o.Arr != nil {
		log = o.Arr.Log
	}
	chain := []int{arr}
	for i := len(log) - 1; arr != h.Arr; i-- {
		if i < 0 {
			return nil, "pieces collected before are replaced"
		}
		vals = append(append([]Val{}, log[i].Vals...), vals...)
		arr = log[i].From
		chain = append(chain, arr)
	}
	if !st.eq(y.Off, h.Off) && len(chain) == 1 || !st.eq(y.Len, h.Len.addk(int64(len(vals)))) {
		return nil, "pieces collected before are dropped"
	}
	// nothing collected before is overwritten
	for _, id := range chain {
		o := st.obj(id)
		if o == nil || o.Arr == nil {
			continue
		}
		for _, e := range o.Arr.Els {
			if !e.W {
				continue
			}
			if id == h.Arr {
				old := false
				if ho := head.obj(id); ho != nil && ho.Arr != nil {
					for _, f := range ho.Arr.Els {
						old = old || f.W && f.I.eqSyn(e.I) && shallowSame(f.V, e.V)
					}
				}
				if !old {
					return nil, "pieces collected before are overwritten"
				}
				continue
			}
			if !st.ge(e.I.sub(h.Len)) {
				return nil, "pieces collected before are overwritten"
			}
		}
	}
	for i, v := range vals {
		if _, isSlice := v.(SliceV); isSlice {
			continue
		}
		if w := an.at(st, y, h.Len.addk(int64(i))); w == nil || !shallowSame(w, v) && !st.sameVal(w, v) {
			return nil, "a piece is changed after it was added"
		}
	}
	return vals, ""
}

// trees finds the functions reading one expression from tokens: they call
// themselves, perhaps through others, and are called by the rest.
func (p *parserCk) trees(fns []*ssa.Function) {
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		m := map[*ssa.Function]bool{}
		calls[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						m[g] = true
					}
				}
			}
		}
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			for g := range calls[f] {
				if !seen[g] {
					seen[g] = true
					walk(g)
				}
			}
		}
		walk(f)
		return seen
	}
	for _, f := range fns {
		if !reach(f)[f] || !p.readsTokens(f) {
			continue
		}
		for _, g := range fns {
			if calls[g][f] && !reach(f)[g] {
				p.tree[f] = true
			}
		}
	}
}

// readsTokens: f takes tokens and a position and gives a value.
func (p *parserCk) readsTokens(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 2 || s.Results().Len() < 2 {
		return false
	}
	sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isString(sl.Elem()) {
		return false
	}
	_, _, isInt := intRange(s.Params().At(1).Type())
	return isInt && types.Identical(s.Results().At(0).Type(), p.c.lab.valueT)
}

func (p *parserCk) flowLab(self *ssa.Function) *cmdLab {
	k := p.lab()
	for f, n := range p.cuts {
		k.opq[f] = "cut:" + n
	}
	for g := range p.tree {
		if g != self {
			k.opq[g] = "tree"
		}
	}
	return k
}

const (
	ruleTree = "an expression accounts for its tokens"
	ruleProg = "a program accounts for the whole script"
)

// exprOf: a function reading one expression from tokens.
func (p *parserCk) exprOf(f *ssa.Function) {
	what := fnName(f)
	an := p.flowLab(f).newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	toks, ok1 := an.havoc(st, f.Params[0].Type(), "tokens").(SliceV)
	from, ok2 := an.havoc(st, f.Params[1].Type(), "from").(IntV)
	if !p.r.check(ok1 && ok2, "resolved", what, "parameters") {
		return
	}
	st.must(from.L)
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, f, toks, from) }); why != "" {
		p.r.fail("analysed", what, "%s", why)
	}
	p.r.unit("paths", len(outs))
	p.r.unit("functions", 1)
	p.r.engine(an, what)
	good := 0
	for _, o := range outs {
		tv, ok := o.ret.(TupleV)
		if o.kind != outReturn || !ok {
			p.r.fail(ruleTree, what, "may panic")
			continue
		}
		ec, ok := an.errCond(o.st, o.ret, f.Signature)
		if !p.r.check(ok, "resolved", what, "reports no error") {
			return
		}
		for _, st := range o.st.assume(ec.not()) {
			good++
			a := &account{p: p, an: an, toks: toks}
			evs := events(st.ev)
			end, why := a.element(st, evs, tv.E[0], from.L)
			if why == "" {
				why = p.noFailure(st, evs)
			}
			if e, ok := tv.E[1].(IntV); why == "" && (!ok || !st.eq(e.L, end)) {
				why = fmt.Sprintf("the expression ends at %s, not %s", an.show(end), an.showVal(st, tv.E[1]))
			}
			p.r.check(why == "", ruleTree, what, "%s", why)
		}
	}
	p.r.check(good > 1, "analysed", what, "succeeds on %d paths", good)
}

// noFailure: no call failed, and none in an iteration.
func (p *parserCk) noFailure(st *State, evs []*Event) string {
	for _, e := range evs {
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				if w := p.noFailure(b, e.Loop.iteration(b)); w != "" {
					return w
				}
			}
			continue
		}
		if (e.Kind == "call" || e.Kind == "opaque" || e.Kind == "recurse") && !okEvent(e) {
			if len(e.Ret) == 0 || !types.Identical(types.Universe.Lookup("error").Type(), typeOfVal(e.Ret[len(e.Ret)-1])) {
				continue
			}
			if strings.HasSuffix(e.Name, ".Decode") && p.isEOF(st, e.Ret[0]) {
				continue
			}
			return "succeeds although " + strings.TrimPrefix(e.Name, "(*bufio.Scanner).") + " failed"
		}
	}
	return ""
}

func typeOfVal(v Val) types.Type {
	if s, ok := v.(SymV); ok && s.T != nil {
		return s.T
	}
	return types.Typ[types.Invalid]
}

// isEOF: v is known to be io.EOF.
func (p *parserCk) isEOF(st *State, v Val) bool {
	an := st.an
	g, ok := an.lazy["g:io.EOF"].(PtrV)
	if !ok {
		return false
	}
	eof := an.load(st, g)
	for _, c := range []Cond{an.eqCond(st, v, eof), an.pred("errors.Is", v, eof)} {
		if t, known := st.truth(c); known && t {
			return true
		}
	}
	return false
}

// account decides which tokens a value stands for.
type account struct {
	p    *parserCk
	an   *An
	toks SliceV
}

func (a *account) tok(st *State, i Lin) (StrV, bool) {
	s, ok := a.an.at(st, a.toks, i).(StrV)
	return s, ok
}

func (a *account) isTok(st *State, i Lin, t string) bool {
	s, ok := a.tok(st, i)
	if !ok {
		return false
	}
	return len(st.assume(Cond{Kind: CStrEq, S: s, T: lit(t), Neg: true})) == 0
}

func (a *account) mayBe(st *State, i Lin, t string) bool {
	s, ok := a.tok(st, i)
	return !ok || len(st.assume(Cond{Kind: CStrEq, S: s, T: lit(t)})) > 0
}

// element: v is the expression in the tokens from index from; gives its end.
func (a *account) element(st *State, evs []*Event, v Val, from Lin) (Lin, string) {
	if s, ok := v.(SymV); ok {
		for _, e := range evs {
			if (e.Kind == "opaque" && e.Name == "tree" || e.Kind == "recurse") && len(e.Ret) == 3 && len(e.Args) >= 2 && okEvent(e) && st.sameVal(e.Ret[0], s) {
				if !st.sameVal(e.Args[len(e.Args)-2], a.toks) {
					return Lin{}, "other tokens are read"
				}
				at, ok := e.Args[len(e.Args)-1].(IntV)
				if !ok || !st.eq(at.L, from) {
					return Lin{}, fmt.Sprintf("the expression at token %s is read where that at %s is due", a.an.showVal(st, e.Args[len(e.Args)-1]), a.an.show(from))
				}
				end, ok := e.Ret[1].(IntV)
				if !ok {
					return Lin{}, "the end of an expression is not resolved"
				}
				return end.L, ""
			}
		}
		return Lin{}, "the value is not resolved"
	}
	iv, ok := v.(IfaceV)
	if !ok {
		return Lin{}, "the value is not resolved"
	}
	t, ok := a.tok(st, from)
	if !ok {
		return Lin{}, "the token is not resolved"
	}
	w := tokenValue(a.an, st, iv, t)
	if w == "" {
		for _, q := range []string{"(", ")"} {
			if a.mayBe(st, from, q) {
				return Lin{}, "a parenthesis may be read as a " + shortType(iv.T)
			}
		}
		return from.addk(1), ""
	}
	if w != "-" {
		return Lin{}, w
	}
	els, ok := listOf(a.an, st, iv)
	if !ok {
		return Lin{}, "the value is not understood"
	}
	if !a.isTok(st, from, "(") {
		return Lin{}, "a list is made of something that does not start with a parenthesis"
	}
	end, why := a.elements(st, evs, els, from.addk(1))
	if why != "" {
		return Lin{}, why
	}
	if !a.isTok(st, end, ")") {
		return Lin{}, "a list may end without a closing parenthesis"
	}
	return end.addk(1), ""
}

// tokenValue: v is what token t stands for; "-" if v is a list.
func tokenValue(an *An, st *State, iv IfaceV, t StrV) string {
	p, ok := iv.V.(PtrV)
	if !ok {
		return "the value is not understood"
	}
	sv, ok := an.load(st, p).(StructV)
	if !ok || len(sv.F) != 1 {
		return "the value is not understood"
	}
	switch c := sv.F[0].(type) {
	case SliceV, NilV:
		return "-"
	case FloatV:
		if n, ok := st.findUF("ParseFloat", []Val{t}); ok && st.sameVal(n, c) {
			return ""
		}
		return fmt.Sprintf("a number that is not the value of %s is made", st.showStr(t))
	case StrV:
		c = st.norm(c)
		if len(c.P) == 1 && c.P[0].Base != nil && strings.HasPrefix(c.P[0].Base.Fn, "strconv.Unquote") && st.eq(c.length(), c.P[0].Base.Len) {
			if u, ok := c.P[0].Base.Args[0].(StrV); ok && st.strEq(u, t) {
				if strings.HasSuffix(shortType(iv.T), "Symbol") {
					return "a symbol is made of a string"
				}
				return ""
			}
		}
		if st.strEq(c, t) {
			if !strings.HasSuffix(shortType(iv.T), "Symbol") {
				return "a string is made of a token that is not one"
			}
			// a quoted text is no symbol
			q := st.asBase(t)
			for _, s := range st.assume(cge(t.length().addk(-2))) {
				if q.Base == nil {
					continue
				}
				if s = s.addByte(q.Base, q.Lo, quoteSet); s == nil {
					continue
				}
				if s = s.addByte(q.Base, q.Hi.addk(-1), quoteSet); s != nil {
					return "a quoted string may be read as a symbol"
				}
			}
			return ""
		}
		return fmt.Sprintf("the text %s is made of the token %s", st.showStr(c), st.showStr(t))
	}
	return "the value is not understood"
}

func listOf(an *An, st *State, iv IfaceV) (SliceV, bool) {
	p, ok := iv.V.(PtrV)
	if !ok {
		return SliceV{}, false
	}
	sv, ok := an.load(st, p).(StructV)
	if !ok || len(sv.F) != 1 {
		return SliceV{}, false
	}
	return sliceOf(sv.F[0])
}

func sliceOf(v Val) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case NilV:
		return SliceV{Arr: -1, Len: lc(0)}, true
	}
	return SliceV{}, false
}

// elements: els are the expressions in the tokens from index start; gives the
// index after them.
func (a *account) elements(st *State, evs []*Event, els SliceV, start Lin) (Lin, string) {
	if st.eq(els.Len, lc(0)) {
		return start, ""
	}
	why := "the elements are not collected one by one"
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		for _, c := range l.Cells {
			h, ok := c.Head.(SliceV)
			if !ok || h.Arr != els.Arr || !st.eq(h.Len, els.Len) || !st.eq(h.Off, els.Off) {
				continue
			}
			if en, ok := sliceOf(c.Entry); !ok || !l.Entry.eq(en.Len, lc(0)) {
				return Lin{}, "the elements are not collected from the start"
			}
			for pi, pc := range l.Cells {
				ph, ok1 := pc.Head.(IntV)
				pe, ok2 := pc.Entry.(IntV)
				if !ok1 || !ok2 || !l.Entry.eq(pe.L, start) {
					continue
				}
				w := ""
				for i, b := range l.Backs {
					if w = a.one(l, i, c.Backs[i], h, ph.L, l.Cells[pi].Backs[i]); w != "" {
						break
					}
					_ = b
				}
				if w == "" {
					return ph.L, ""
				}
				why = w
			}
		}
	}
	return Lin{}, why
}

// one: an iteration adds the expression at pos and moves behind it.
func (a *account) one(l *LoopInfo, i int, y Val, h SliceV, pos Lin, next Val) string {
	b := l.Backs[i]
	ys, ok := sliceOf(y)
	if !ok {
		return "the elements are not resolved"
	}
	vals, why := a.an.appended(b, l.Head, ys, h)
	if why != "" {
		return why
	}
	if len(vals) != 1 {
		return fmt.Sprintf("an iteration adds %d elements", len(vals))
	}
	end, why := a.element(b, l.iteration(b), vals[0], pos)
	if why != "" {
		return why
	}
	if n, ok := next.(IntV); !ok || !b.eq(n.L, end) {
		return fmt.Sprintf("an expression ends at token %s, but reading goes on at %s", a.an.show(end), a.an.showVal(b, next))
	}
	return ""
}

var blankSet = byteSetOf(" \t\n\v\f\r").or(byteRange(128, 255))

// within: s is x without white space around it.
func within(st *State, s, x StrV) bool {
	s, x = st.norm(s), st.norm(x)
	if st.strEq(s, x) || blank(st, s) && blank(st, x) {
		return true
	}
	if len(x.P) != 1 || x.P[0].Base == nil || len(s.P) != 1 || s.P[0].Base != x.P[0].Base {
		return false
	}
	p, q := s.P[0], x.P[0]
	return st.le(q.Lo, p.Lo) && st.le(p.Hi, q.Hi) && st.allIn(p.Base, q.Lo, p.Lo, blankSet) && st.allIn(p.Base, p.Hi, q.Hi, blankSet)
}

// blank: there is nothing but white space in s.
func blank(st *State, s StrV) bool {
	s = st.norm(s)
	for _, p := range s.P {
		if p.Base == nil {
			if strings.TrimSpace(p.Lit) != "" {
				return false
			}
		} else if !st.allIn(p.Base, p.Lo, p.Hi, blankSet) {
			return false
		}
	}
	return true
}

// wholeText: v stands for the whole text x, one command.
func (p *parserCk) wholeText(an *An, st *State, evs []*Event, v Val, x StrV) string {
	why := "the text is not cut into tokens"
	for _, e := range evs {
		if e.Kind != "opaque" || e.Name != "cut:tokens" || !okEvent(e) {
			continue
		}
		s, ok := e.Args[len(e.Args)-1].(StrV)
		toks, ok2 := e.Ret[0].(SliceV)
		if !ok || !ok2 {
			continue
		}
		if !within(st, s, x) {
			why = fmt.Sprintf("only %s of %s is read", st.showStr(s), st.showStr(x))
			continue
		}
		a := &account{p: p, an: an, toks: toks}
		end, w := a.element(st, evs, v, lc(0))
		if w != "" {
			iv, ok := v.(IfaceV)
			if !ok {
				return w
			}
			els, ok := listOf(an, st, iv)
			if !ok {
				return w
			}
			if end, w = a.elements(st, evs, els, lc(0)); w != "" {
				return w
			}
		}
		if !st.eq(end, toks.Len) && !st.ge(end.sub(toks.Len)) {
			return fmt.Sprintf("tokens from %s on are left out", an.show(end))
		}
		return ""
	}
	if iv, ok := v.(IfaceV); ok {
		s := st.norm(x)
		if len(s.P) == 1 && s.P[0].Base != nil {
			// the trimmed text is one token
			if w, ok := p.trimmed(an, st, iv, s); ok {
				return w
			}
		}
	}
	return why
}

// trimmed: v is the token x consists of but for white space around it.
func (p *parserCk) trimmed(an *An, st *State, iv IfaceV, x StrV) (string, bool) {
	q := x.P[0]
	tries := []StrV{x}
	for _, u := range st.uf {
		if !strings.HasPrefix(u.Fn, "TrimSpace") {
			continue
		}
		lo, hi := q.Lo, q.Hi
		for _, v := range st.uf {
			n, ok := v.Ret.(IntV)
			if !ok || len(v.Args) != 1 || !st.sameVal(v.Args[0], u.Args[0]) {
				continue
			}
			switch {
			case strings.HasPrefix(v.Fn, "TrimSpace") && strings.HasSuffix(v.Fn, ".lo"):
				lo = q.Lo.add(n.L)
			case strings.HasPrefix(v.Fn, "TrimSpace") && strings.HasSuffix(v.Fn, ".hi"):
				hi = q.Hi.sub(n.L)
			}
		}
		tries = append(tries, StrV{P: []Piece{{Base: q.Base, Lo: lo, Hi: hi}}})
	}
	why := ""
	for _, s := range tries {
		if !within(st, s, x) {
			continue
		}
		why = tokenValue(an, st, iv, s)
		if why == "" {
			return "", true
		}
	}
	return why, why != ""
}

// roots are the functions giving programs.
func (p *parserCk) roots() {
	n := 0
	for _, f := range p.functions() {
		s := f.Signature
		if s.Results().Len() != 2 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), p.c.lab.valueT) {
			continue
		}
		n++
		p.program(f)
	}
	p.r.check(n >= 6, "analysed", "parsers", "only %d", n)
}

func (p *parserCk) program(f *ssa.Function) {
	what := fnName(f)
	an := p.flowLab(nil).newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	var args []Val
	for _, q := range f.Params {
		args = append(args, an.havoc(st, q.Type(), q.Name()))
	}
	src := args[len(args)-1]
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, f, args...) }); why != "" {
		p.r.fail("analysed", what, "%s", why)
	}
	p.r.unit("paths", len(outs))
	p.r.unit("functions", 1)
	p.r.engine(an, what)
	good := 0
	for _, o := range outs {
		if o.kind != outReturn {
			p.r.fail(ruleProg, what, "may panic")
			continue
		}
		ec, ok := an.errCond(o.st, o.ret, f.Signature)
		if !p.r.check(ok, "resolved", what, "reports no error") {
			return
		}
		for _, st := range o.st.assume(ec.not()) {
			good++
			evs := events(st.ev)
			why := "the result is not resolved"
			if res, ok := sliceOf(o.ret.(TupleV).E[0]); ok {
				var kind string
				kind, why = p.accounted(an, st, evs, res, src)
				if why == "" && len(args) == 2 {
					why = p.dialect(st, args[0], kind)
				}
			}
			if why == "" {
				why = p.noFailure(st, evs)
			}
			p.r.check(why == "", ruleProg, what, "%s", why)
		}
	}
	p.r.check(good > 0, "analysed", what, "never succeeds")
}

// dialect: the script was read in the given format.
func (p *parserCk) dialect(st *State, format Val, kind string) string {
	f, ok := format.(StrV)
	if !ok {
		return ""
	}
	for name, want := range map[string]string{"shell": "lines", "json": "json", "sexp": "expression"} {
		if t, known := st.truth(Cond{Kind: CStrEq, S: f, T: lit(name)}); (!known || t) && kind != want && kind != "blank" {
			if known || len(st.assume(Cond{Kind: CStrEq, S: f, T: lit(name)})) > 0 {
				return fmt.Sprintf("a script in format %s is read as %s", name, kind)
			}
		}
	}
	return ""
}

// accounted: res is the program in src.
func (p *parserCk) accounted(an *An, st *State, evs []*Event, res SliceV, src Val) (string, string) {
	for _, e := range evs {
		if e.Loop == nil {
			continue
		}
		for _, b := range e.Loop.Backs {
			for _, y := range e.Loop.iteration(b) {
				if y.Kind == "scan" {
					return "lines", p.lines(an, st, evs, e.Loop, res, src)
				}
				if y.Kind == "call" && strings.HasSuffix(y.Name, "json.Decoder).Decode") {
					return "json", p.decoded(an, st, evs, e.Loop, res, src)
				}
			}
		}
	}
	for _, e := range evs {
		switch {
		case e.Kind == "scan":
			return "lines", "the lines are not read in a loop"
		case e.Kind == "call" && strings.HasSuffix(e.Name, "json.Decoder).Decode"):
			return "json", "the values are not read in a loop"
		case e.Kind == "call" && e.Name == "encoding/json.Unmarshal":
			return "json", p.unmarshalled(an, st, evs, e, res, src)
		}
	}
	x, ok := src.(StrV)
	if !ok {
		return "", "the input is not read"
	}
	if st.eq(res.Len, lc(0)) {
		if !blank(st, x) {
			return "blank", "a script that is not blank gives nothing"
		}
		return "blank", ""
	}
	if !st.eq(res.Len, lc(1)) {
		return "expression", "one expression gives several instructions"
	}
	return "expression", p.wholeText(an, st, evs, an.at(st, res, lc(0)), x)
}

// readsFrom: v reads src.
func readsFrom(st *State, v, src Val) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.V
	}
	if st.sameVal(v, src) {
		return true
	}
	if p, ok := v.(PtrV); ok {
		if o := st.obj(p.Obj); o != nil && o.Lib != nil {
			if t, ok := o.Lib["text"].(StrV); ok && o.Name == "strings.Reader" {
				s, ok := src.(StrV)
				return ok && st.strEq(s, t)
			}
			if r := o.Lib["src"]; r != nil {
				return readsFrom(st, r, src)
			}
		}
	}
	return false
}

// lines: every line of the input gives its commands.
func (p *parserCk) lines(an *An, st *State, evs []*Event, l *LoopInfo, res SliceV, src Val) string {
	// the end of the input was reached without an error
	asked := false
	for _, e := range evs {
		if e.Kind == "call" && e.Name == "(*bufio.Scanner).Err" {
			asked = okEvent(e)
		}
		if e.Kind == "scan" && !readsFrom(st, e.Args[0], src) {
			return "something else is read"
		}
	}
	if !asked {
		return "a read error or an oversized line ends the script"
	}
	c := headCell(st, l, res)
	if c == nil {
		return "the instructions are not collected line by line"
	}
	h := c.Head.(SliceV)
	if en, ok := sliceOf(c.Entry); !ok || !l.Entry.eq(en.Len, lc(0)) {
		return "the program does not start empty"
	}
	for i, b := range l.Backs {
		evs := l.iteration(b)
		var line StrV
		n := 0
		for _, e := range evs {
			if e.Kind == "scan" {
				n++
				if e.Name != "line" {
					return "reading goes on after the end"
				}
				line, _ = e.Ret[0].(StrV)
			}
		}
		if n != 1 {
			return "an iteration reads several lines or none"
		}
		y, ok := sliceOf(c.Backs[i])
		if !ok {
			return "the instructions are not resolved"
		}
		if w := p.line(an, b, l, evs, y, h, line); w != "" {
			return w
		}
	}
	return ""
}

// headCell finds the cell holding s after the loop.
func headCell(st *State, l *LoopInfo, s SliceV) *CellInfo {
	for i := range l.Cells {
		if h, ok := l.Cells[i].Head.(SliceV); ok && h.Arr == s.Arr && st.eq(h.Len, s.Len) && st.eq(h.Off, s.Off) {
			return &l.Cells[i]
		}
	}
	return nil
}

// spread: y is append(h, s...).
func spread(st *State, y, h SliceV) (SliceV, bool) {
	o := st.obj(y.Arr)
	if o == nil || o.Arr == nil || len(o.Arr.Log) == 0 {
		return SliceV{}, false
	}
	last := o.Arr.Log[len(o.Arr.Log)-1]
	if last.From != h.Arr || len(last.Vals) != 1 || !st.eq(h.Off, lc(0)) {
		return SliceV{}, false
	}
	s, ok := last.Vals[0].(SliceV)
	for _, e := range o.Arr.Els {
		if e.W {
			return SliceV{}, false
		}
	}
	return s, ok && st.eq(y.Len, h.Len.add(s.Len)) && st.eq(y.Off, lc(0))
}

// line: y is h and the instructions of a line.
func (p *parserCk) line(an *An, st *State, out *LoopInfo, evs []*Event, y, h SliceV, line StrV) string {
	if y.Arr == h.Arr && st.eq(y.Len, h.Len) && blank(st, line) {
		return ""
	}
	for _, e := range evs {
		if e.Kind != "opaque" || e.Name != "cut:commands" {
			continue
		}
		s, ok := e.Args[len(e.Args)-1].(StrV)
		parts, ok2 := e.Ret[0].(SliceV)
		if !ok || !ok2 || !within(st, s, line) {
			continue
		}
		if st.eq(parts.Len, lc(0)) {
			if y.Arr == h.Arr && st.eq(y.Len, h.Len) {
				return ""
			}
			return "an instruction is made of nothing"
		}
		for _, e := range evs {
			if e.Loop == nil {
				continue
			}
			c := headCell(st, e.Loop, y)
			if c == nil {
				// the commands of the line collected first, then added
				if s, ok := spread(st, y, h); ok {
					if c = headCell(st, e.Loop, s); c != nil {
						if en, ok := sliceOf(c.Entry); !ok || !e.Loop.Entry.eq(en.Len, lc(0)) {
							return "instructions are repeated"
						}
						return p.parts(an, st, e.Loop, c, parts)
					}
				}
				continue
			}
			en, ok := sliceOf(c.Entry)
			if !ok || en.Arr != h.Arr || !e.Loop.Entry.eq(en.Len, h.Len) {
				return "instructions of other lines are dropped"
			}
			return p.parts(an, st, e.Loop, c, parts)
		}
		return "the commands of a line are not read one by one"
	}
	if y.Arr == h.Arr {
		return fmt.Sprintf("the line %s is left out", st.showStr(line))
	}
	return "the line is not cut into commands"
}

func (p *parserCk) parts(an *An, st *State, l *LoopInfo, c *CellInfo, parts SliceV) string {
	x := &textCk{an: an}
	why := "not all commands of a line are read"
	for _, k := range x.counters(l, parts) {
		if !x.done(st, k, parts) {
			continue
		}
		w := ""
		for i, b := range l.Backs {
			part, ok := an.at(b, parts, k).(StrV)
			y, ok2 := sliceOf(c.Backs[i])
			if !ok || !ok2 {
				w = "the commands are not resolved"
				break
			}
			vals, why := an.appended(b, l.Head, y, c.Head.(SliceV))
			switch {
			case why != "":
				w = why
			case len(vals) == 0 && !blank(b, part):
				w = "a command may be left out"
			case len(vals) == 1:
				w = p.wholeText(an, b, l.iteration(b), vals[0], part)
			case len(vals) > 1:
				w = "a command gives several instructions"
			}
			if w != "" {
				break
			}
		}
		if w == "" {
			return ""
		}
		why = w
	}
	return why
}

// decoded: every JSON value of the input gives one instruction.
func (p *parserCk) decoded(an *An, st *State, evs []*Event, l *LoopInfo, res SliceV, src Val) string {
	end := false
	for _, e := range evs {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "json.Decoder).Decode") {
			end = p.isEOF(st, e.Ret[0])
		}
		if e.Kind == "call" && e.Name == "encoding/json.NewDecoder" && !readsFrom(st, e.Args[0], src) {
			return "something else is read"
		}
	}
	if !end {
		return "reading may end before the end of the input"
	}
	c := headCell(st, l, res)
	if c == nil {
		return "the instructions are not collected one by one"
	}
	if en, ok := sliceOf(c.Entry); !ok || !l.Entry.eq(en.Len, lc(0)) {
		return "the program does not start empty"
	}
	for i, b := range l.Backs {
		evs := l.iteration(b)
		var at Val
		n := 0
		for _, e := range evs {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "json.Decoder).Decode") {
				n++
				if !okEvent(e) {
					return "reading goes on after an error"
				}
				at = e.Args[len(e.Args)-1]
			}
		}
		if n != 1 {
			return "an iteration reads several values or none"
		}
		y, ok := sliceOf(c.Backs[i])
		if !ok {
			return "the instructions are not resolved"
		}
		vals, why := an.appended(b, l.Head, y, c.Head.(SliceV))
		if why != "" {
			return why
		}
		if len(vals) != 1 {
			return fmt.Sprintf("a value gives %d instructions", len(vals))
		}
		if iv, ok := at.(IfaceV); ok {
			at = iv.V
		}
		ptr, ok := at.(PtrV)
		if !ok {
			return "the value is not resolved"
		}
		if w := p.jsonValue(an, b, evs, vals[0], an.load(b, ptr)); w != "" {
			return w
		}
	}
	return ""
}

// unmarshalled: every element of the JSON array gives one instruction.
func (p *parserCk) unmarshalled(an *An, st *State, evs []*Event, e *Event, res SliceV, src Val) string {
	text, ok := an.strOf(st, e.Args[0])
	s, ok2 := src.(StrV)
	if !ok || !ok2 || !st.strEq(text, s) {
		return "something else is read"
	}
	at := e.Args[1]
	if iv, ok := at.(IfaceV); ok {
		at = iv.V
	}
	ptr, ok := at.(PtrV)
	if !ok {
		return "the values are not resolved"
	}
	switch raw := an.load(st, ptr).(type) {
	case NilV:
		return "the script null is accepted and gives nothing"
	case SliceV:
		x := &textCk{an: an}
		return x.seq(st, evs, res, raw, func(b *State, evs []*Event, w, v Val) string { return p.jsonValue(an, b, evs, w, v) })
	}
	return "the values are not resolved"
}

// jsonValue: v is what the decoded JSON value j stands for.
func (p *parserCk) jsonValue(an *An, st *State, evs []*Event, v, j Val) string {
	if s, ok := v.(SymV); ok {
		for _, e := range evs {
			if e.Kind != "recurse" || len(e.Ret) != 2 || !okEvent(e) || !st.sameVal(e.Ret[0], s) {
				continue
			}
			for _, a := range e.Args {
				if p.sameJSON(an, st, a, j) {
					return ""
				}
			}
			return "another value is converted"
		}
		return "the value is not resolved"
	}
	iv, ok := v.(IfaceV)
	if !ok {
		return "the value is not resolved"
	}
	ptr, ok := iv.V.(PtrV)
	if !ok {
		return "the value is not resolved"
	}
	sv, ok := an.load(st, ptr).(StructV)
	if !ok || len(sv.F) != 1 {
		return "the value is not understood"
	}
	d, ok := dynOf(st, j)
	if !ok {
		return "the kind of a JSON value is not looked at"
	}
	switch c := sv.F[0].(type) {
	case StrV:
		if t, ok := d.V.(StrV); ok && st.strEq(c, t) {
			return ""
		}
		return "a text is changed"
	case FloatV:
		if st.sameVal(c, d.V) {
			return ""
		}
		return "a number is changed"
	case SliceV, NilV:
		els, _ := sliceOf(c)
		arr, ok := d.V.(SliceV)
		if !ok {
			return "a list is made of something else"
		}
		x := &textCk{an: an}
		return x.seq(st, evs, els, arr, func(b *State, evs []*Event, w, v Val) string { return p.jsonValue(an, b, evs, w, v) })
	}
	return "the value is not understood"
}

func dynOf(st *State, j Val) (IfaceV, bool) {
	switch x := j.(type) {
	case IfaceV:
		return x, true
	case SymV:
		d, ok := st.dyn[x.ID]
		return d, ok
	}
	return IfaceV{}, false
}

func (p *parserCk) sameJSON(an *An, st *State, a, j Val) bool {
	if st.sameVal(a, j) {
		return true
	}
	if d, ok := dynOf(st, j); ok && st.sameVal(a, d.V) {
		return true
	}
	if d, ok := dynOf(st, a); ok {
		if e, ok := dynOf(st, j); ok {
			return st.sameVal(d.V, e.V)
		}
	}
	return false
}

// converters: the functions of JSON values that call themselves.
func (p *parserCk) converters() {
	n := 0
	for _, f := range p.functions() {
		s := f.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 2 || !types.Identical(s.Results().At(0).Type(), p.c.lab.valueT) {
			continue
		}
		t := s.Params().At(0).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if it, ok := t.Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
			continue
		}
		n++
		p.converter(f)
	}
	p.r.check(n > 0, "analysed", "conversions of JSON values", "none found")
}

func (p *parserCk) converter(f *ssa.Function) {
	what := fnName(f)
	an := p.flowLab(nil).newAn()
	st := an.newState()
	st.ghost["fail"] = lc(0)
	j := an.havoc(st, f.Params[0].Type(), "json")
	var outs []Out
	if why := an.guard(func() { outs = an.run(st, f, j) }); why != "" {
		p.r.fail("analysed", what, "%s", why)
	}
	p.r.unit("paths", len(outs))
	p.r.unit("functions", 1)
	p.r.engine(an, what)
	if s, ok := j.(SliceV); ok {
		j = IfaceV{T: f.Params[0].Type(), V: s}
	}
	for _, o := range outs {
		if o.kind != outReturn {
			p.r.fail(ruleTree, what, "may panic")
			continue
		}
		ec, ok := an.errCond(o.st, o.ret, f.Signature)
		if !p.r.check(ok, "resolved", what, "reports no error") {
			return
		}
		for _, st := range o.st.assume(ec.not()) {
			evs := events(st.ev)
			why := p.jsonValue(an, st, evs, o.ret.(TupleV).E[0], j)
			if why == "" {
				why = p.noFailure(st, evs)
			}
			p.r.check(why == "", ruleTree, what, "%s", why)
		}
	}
}
