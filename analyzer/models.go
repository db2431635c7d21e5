package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// external models a call of a library function.
func (an *An) external(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	st = st.clone()
	if strings.HasSuffix(name, ".init") && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
		return []Out{{st: st}}
	}
	an.curPos = pos
	if m, ok := models[name]; ok {
		if outs := m(&mcall{an, st, fn, name, args, pos}); outs != nil {
			return outs
		}
	}
	if outs := an.builderCall(st, fn, name, args); outs != nil {
		return outs
	}
	if outs := an.family(st, fn, name, args, pos); outs != nil {
		return outs
	}
	return an.unknownCall(st, fn, name, args)
}

// purePkg: calls depend on their arguments only and have no effects.
func purePkg(p string) bool {
	switch p {
	case "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "math", "math/bits", "path", "errors", "regexp", "regexp/syntax", "bytes", "sort", "slices", "maps", "cmp", "html", "net/url", "encoding/hex", "encoding/base64":
		return true
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (an *An) unknownCall(st *State, fn *ssa.Function, name string, args []Val) []Out {
	sig := fn.Signature.Results()
	if purePkg(fnPkg(fn)) && len(args) > 0 {
		ok := true
		for _, a := range args {
			switch a.(type) {
			case IntV, StrV, FloatV, BoolV, SymV, NilV, FuncV:
			case PtrV:
			default:
				ok = false
			}
		}
		if ok {
			return an.pure(st, name, sig, args)
		}
	}
	an.havocReach(st, args)
	return an.results(st, sig, "call", name, args)
}

// pure is a memoised unknown function.
func (an *An) pure(st *State, name string, sig *types.Tuple, args []Val) []Out {
	n := sig.Len()
	errIdx := -1
	if n > 0 && types.Identical(sig.At(n-1).Type(), an.w.errType) {
		errIdx = n - 1
	}
	mk := func(s *State) []Val {
		vals := make([]Val, n)
		for i := 0; i < n; i++ {
			if i == errIdx {
				vals[i] = NilV{}
				continue
			}
			t := sig.At(i).Type()
			key := fmt.Sprintf("%s.%d", name, i)
			if isString(t) {
				vals[i] = s.ufStr(key, args, nil)
			} else if isBool(t) {
				vals[i] = BoolV{an.pred(key, args...)}
			} else {
				vals[i] = s.ufVal(key, args, func() Val { return an.havoc(s, t, name) })
			}
			if sv, ok := vals[i].(SymV); ok && errIdx >= 0 {
				s.must(sv.NN.addk(-1))
			}
		}
		return vals
	}
	if errIdx < 0 {
		return ret1(st, tup(mk(st)))
	}
	var outs []Out
	c := an.pred(name+" ok", args...)
	for _, s := range st.assume(c) {
		s = s.clone()
		outs = append(outs, Out{st: s, ret: tup(mk(s))})
	}
	for _, s := range st.assume(c.not()) {
		s = s.clone()
		v := make([]Val, n)
		for i := range v {
			v[i] = an.zero(s, sig.At(i).Type())
		}
		v[errIdx] = an.mkErr(s, s.ufStr(name+" error", args, nil), nil)
		an.failed(s, name)
		outs = append(outs, Out{st: s, ret: tup(v)})
	}
	return outs
}

func (an *An) pred(op string, args ...Val) Cond {
	k := op
	for _, a := range args {
		s := valKey(a)
		if s == "" {
			s = fmt.Sprintf("#%d", an.nextID())
		}
		k += "|" + s
	}
	return Cond{Kind: COpaque, Op: op, Key: k, Args: args}
}

func (an *An) mkErr(st *State, msg StrV, wraps []Val) Val {
	lib := map[string]Val{"msg": msg, "wrap": TupleV{E: wraps}}
	id := st.newObj(&Obj{T: types.Universe.Lookup("error").Type(), Lib: lib, Name: "error"})
	return IfaceV{T: an.w.extErr, V: PtrV{Obj: id}}
}

// matched is the result of matching text against a pattern.
func (m *mcall) matched(st *State, pattern, text Val) Val {
	v := BoolV{m.an.pred("re.match", pattern, text)}
	if m.an.opt.Lean {
		st.event("match", m.name, []Val{pattern, text}, []Val{v}, m.an.w.pos(m.pos))
	}
	return v
}

type mcall struct {
	an   *An
	st   *State
	fn   *ssa.Function
	name string
	a    []Val
	pos  token.Pos
}

func (m *mcall) str(i int) (StrV, bool) {
	if i >= len(m.a) {
		return StrV{}, false
	}
	return m.an.strOf(m.st, m.a[i])
}

func (m *mcall) strs(idx ...int) ([]StrV, bool) {
	var out []StrV
	for _, i := range idx {
		s, ok := m.str(i)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func (m *mcall) int(i int) (Lin, bool) {
	if i >= len(m.a) {
		return Lin{}, false
	}
	v, ok := m.a[i].(IntV)
	return v.L, ok
}

func (m *mcall) ret(v ...Val) []Out { return ret1(m.st, tup(v)) }

// split gives the outcomes of condition c.
func (m *mcall) split(c Cond, yes, no func(s *State) []Out) []Out {
	var outs []Out
	for _, s := range m.st.assume(c) {
		outs = append(outs, yes(s.clone())...)
	}
	for _, s := range m.st.assume(c.not()) {
		outs = append(outs, no(s.clone())...)
	}
	return outs
}

func (m *mcall) results() []Out {
	return m.an.results(m.st, m.fn.Signature.Results(), "call", m.name, m.a)
}

var models map[string]func(*mcall) []Out

func constFold1(f func(string) string, uf string) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.str(0)
		if !ok {
			return nil
		}
		s = m.st.norm(s)
		if c, ok := s.constant(); ok {
			return m.ret(lit(f(c)))
		}
		return m.ret(m.st.ufStr(uf, []Val{s}, nil))
	}
}

func oneByte(st *State, s StrV) (byte, bool) {
	c, ok := st.norm(s).constant()
	if ok && len(c) == 1 {
		return c[0], true
	}
	return 0, false
}

// indexSet finds the first (or last) byte of s in set.
func (m *mcall) indexSet(s StrV, set ByteSet, last bool, f func(st *State, i Lin) []Out) []Out {
	st := m.st
	s = st.norm(s)
	if c, ok := s.constant(); ok {
		r := int64(-1)
		for i := 0; i < len(c); i++ {
			if set.has(c[i]) {
				r = int64(i)
				if !last {
					break
				}
			}
		}
		return f(st, lc(r))
	}
	p := st.asBase(s)
	if p.Base == nil {
		return f(st, lc(-1))
	}
	var outs []Out
	n := p.length()
	// not found
	if !last || true {
		no := st.clone()
		no.addRange(p.Base, p.Lo, p.Hi, set.compl())
		if no.feasible() {
			outs = append(outs, f(no, lc(-1))...)
		}
	}
	yes := st.clone()
	op := "indexset"
	if last {
		op = "lastindexset"
	}
	i := yes.ufInt(op+set.String(), []Val{StrV{P: []Piece{p}}}, nil)
	yes.must(i)
	yes.must(n.sub(i).addk(-1))
	if yes.dead {
		return outs
	}
	if last {
		yes.addRange(p.Base, p.Lo.add(i).addk(1), p.Hi, set.compl())
	} else {
		yes.addRange(p.Base, p.Lo, p.Lo.add(i), set.compl())
	}
	if y := yes.addByte(p.Base, p.Lo.add(i), set); y != nil && y.feasible() {
		outs = append(outs, f(y.clone(), i)...)
	}
	return outs
}

// indexStr finds sub in s.
func (m *mcall) indexStr(s, sub StrV, last bool, f func(st *State, i Lin) []Out) []Out {
	st := m.st
	s, sub = st.norm(s), st.norm(sub)
	cs, ok1 := s.constant()
	cc, ok2 := sub.constant()
	if ok1 && ok2 {
		if last {
			return f(st, lc(int64(strings.LastIndex(cs, cc))))
		}
		return f(st, lc(int64(strings.Index(cs, cc))))
	}
	if ok2 && len(cc) == 1 {
		var set ByteSet
		set.put(cc[0])
		return m.indexSet(s, set, last, f)
	}
	op := "index"
	if last {
		op = "lastindex"
	}
	var outs []Out
	c := m.an.pred("contains", s, sub)
	for _, y := range st.assume(c) {
		y = y.clone()
		i := y.ufInt(op, []Val{s, sub}, nil)
		y.must(i)
		y.must(s.length().sub(i).sub(sub.length()))
		if !y.dead {
			outs = append(outs, f(y, i)...)
		}
	}
	for _, n := range st.assume(c.not()) {
		// the empty string is found everywhere
		if n = n.add(sub.length().addk(-1)); n != nil {
			outs = append(outs, f(n.clone(), lc(-1))...)
		}
	}
	return outs
}

func retInt(st *State, i Lin) []Out { return ret1(st, IntV{i}) }

// hasPrefix splits on whether s starts (ends) with p.
func (m *mcall) hasAffix(s, p StrV, suffix bool, yes, no func(st *State) []Out) []Out {
	st := m.st
	s, p = st.norm(s), st.norm(p)
	cs, ok1 := s.constant()
	cp, ok2 := p.constant()
	if ok1 && ok2 {
		if suffix && strings.HasSuffix(cs, cp) || !suffix && strings.HasPrefix(cs, cp) {
			return yes(st)
		}
		return no(st)
	}
	var outs []Out
	d := s.length().sub(p.length())
	for _, n := range st.assume(cge(d).not()) {
		outs = append(outs, no(n.clone())...)
	}
	for _, y := range st.assume(cge(d)) {
		y = y.clone()
		part := StrV{}
		if suffix {
			part = y.slice(s, d, s.length())
		} else {
			part = y.slice(s, lc(0), p.length())
		}
		c := m.an.eqCond(y, part, p)
		for _, z := range y.assume(c) {
			outs = append(outs, yes(z.clone())...)
		}
		for _, z := range y.assume(c.not()) {
			outs = append(outs, no(z.clone())...)
		}
	}
	return outs
}

var spaceSet = func() ByteSet {
	var s ByteSet
	for _, c := range []byte{' ', '\t', '\n', '\v', '\f', '\r'} {
		s.put(c)
	}
	return s
}()

// trim yields s with leading/trailing bytes of set (plus, when unicode is
// set, possibly non-ASCII ones) removed.
func (m *mcall) trim(s StrV, set ByteSet, left, right, uni bool, op string) []Out {
	st := m.st
	s = st.norm(s)
	p := st.asBase(s)
	if c, ok := s.constant(); ok && op == "TrimSpace" {
		return m.ret(lit(strings.TrimSpace(c)))
	}
	if p.Base == nil {
		return m.ret(StrV{})
	}
	kept := false
	// a text that starts (ends) with a literal to keep is not cut there
	if n := len(s.P); n > 0 {
		keep := func(c byte) bool { return c < 128 && !set.has(c) }
		if f := s.P[0]; f.Base == nil && f.Lit != "" && keep(f.Lit[0]) {
			left, kept = false, true
		}
		if f := s.P[n-1]; f.Base == nil && f.Lit != "" && keep(f.Lit[len(f.Lit)-1]) {
			right, kept = false, true
		}
		if !left && !right {
			return m.ret(s)
		}
	}
	arg := []Val{StrV{P: []Piece{p}}}
	lo, hi := p.Lo, p.Hi
	cut := set
	if uni {
		cut = cut.or(byteRange(128, 255))
	}
	if left {
		lo = p.Lo.add(st.ufInt(op+".lo", arg, nil))
		st.must(lo.sub(p.Lo))
	}
	if right {
		hi = p.Hi.sub(st.ufInt(op+".hi", arg, nil))
		st.must(p.Hi.sub(hi))
	}
	st.must(hi.sub(lo))
	if left {
		st.addRange(p.Base, p.Lo, lo, cut)
	}
	if right {
		st.addRange(p.Base, hi, p.Hi, cut)
	}
	// what remains, if anything, starts and ends outside the set
	var outs []Out
	if e := st.addEq(hi.sub(lo)); e != nil && !kept {
		empty := StrV{}
		if m.an.opt.Lean {
			empty.P = []Piece{{Base: p.Base, Lo: lo, Hi: lo}} // where it came from
		}
		outs = append(outs, Out{st: e.clone(), ret: empty})
	}
	if n := st.add(hi.sub(lo).addk(-1)); n != nil {
		if left {
			n = n.addByte(p.Base, lo, set.compl())
		}
		if n != nil && right {
			n = n.addByte(p.Base, hi.addk(-1), set.compl())
		}
		if n != nil {
			outs = append(outs, Out{st: n.clone(), ret: StrV{P: []Piece{{Base: p.Base, Lo: lo, Hi: hi}}}})
		}
	}
	return outs
}

func runeClass(f func(rune) bool, name string) func(*mcall) []Out {
	return func(m *mcall) []Out {
		l, ok := m.int(0)
		if !ok {
			return nil
		}
		return m.ret(BoolV{m.runeCond(f, name, l)})
	}
}

func (m *mcall) runeCond(f func(rune) bool, name string, l Lin) Cond {
	if k, ok := l.constInt(); ok {
		return Cond{Kind: CConst, B: f(rune(k))}
	}
	if s, ok := l.singleSym(); ok {
		if r, ok := m.an.byteSym[s]; ok {
			var set ByteSet
			for c := 0; c < 256; c++ {
				if f(rune(c)) {
					set.put(byte(c))
				}
			}
			return Cond{Kind: CByte, Base: r.Base, L: r.Idx, Set: set}
		}
	}
	return m.an.pred(name, IntV{l})
}

func init() {
	models = map[string]func(*mcall) []Out{
		"strings.Index": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.indexStr(s[0], s[1], false, retInt)
		},
		"strings.LastIndex": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.indexStr(s[0], s[1], true, retInt)
		},
		"strings.Compare": compareStr,
		"cmp.Compare":     compareStr,
		"cmp.Less": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.ret(BoolV{strLess(s[0], s[1])})
		},
		"strings.Contains": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.indexStr(s[0], s[1], false, func(st *State, i Lin) []Out {
				return ret1(st, BoolV{cge(i)})
			})
		},
		"strings.IndexByte":     indexByte(false),
		"strings.LastIndexByte": indexByte(true),
		"strings.IndexRune":     indexByte(false),
		"strings.IndexAny":      indexAny(false),
		"strings.LastIndexAny":  indexAny(true),
		"strings.ContainsRune": func(m *mcall) []Out {
			s, ok := m.str(0)
			c, ok2 := m.int(1)
			k, ok3 := c.constInt()
			if !ok || !ok2 || !ok3 || k >= 128 {
				return nil
			}
			var set ByteSet
			set.put(byte(k))
			return m.indexSet(s, set, false, func(st *State, i Lin) []Out { return ret1(st, BoolV{cge(i)}) })
		},
		"strings.ContainsAny": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			c, ok := m.st.norm(s[1]).constant()
			if !ok || !ascii(c) {
				return nil
			}
			var set ByteSet
			for i := range c {
				set.put(c[i])
			}
			return m.indexSet(s[0], set, false, func(st *State, i Lin) []Out { return ret1(st, BoolV{cge(i)}) })
		},
		"strings.HasPrefix":  affix(false),
		"strings.HasSuffix":  affix(true),
		"strings.TrimPrefix": trimAffix(false),
		"strings.TrimSuffix": trimAffix(true),
		"strings.CutPrefix":  cutAffix(false),
		"strings.CutSuffix":  cutAffix(true),
		"strings.Cut": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.indexStr(s[0], s[1], false, func(st *State, i Lin) []Out {
				var outs []Out
				for _, a := range st.assume(cge(i)) {
					a = a.clone()
					outs = append(outs, Out{st: a, ret: TupleV{E: []Val{a.slice(s[0], lc(0), i), a.slice(s[0], i.add(s[1].length()), s[0].length()), cb(true)}}})
				}
				for _, a := range st.assume(cge(i).not()) {
					outs = append(outs, Out{st: a.clone(), ret: TupleV{E: []Val{s[0], StrV{}, cb(false)}}})
				}
				return outs
			})
		},
		"strings.Count": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			b, ok := oneByte(m.st, s[1])
			if !ok {
				return nil
			}
			var set ByteSet
			set.put(b)
			return m.ret(IntV{m.st.countOf(s[0], set)})
		},
		"strings.Split": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			b, ok := oneByte(m.st, s[1])
			if !ok {
				return nil
			}
			return m.ret(m.an.splitVal(m.st, s[0], b))
		},
		"strings.ToUpper": constFold1(strings.ToUpper, "strings.ToUpper"),
		"strings.ToLower": constFold1(strings.ToLower, "strings.ToLower"),
		"strings.Title":   constFold1(strings.Title, "strings.Title"), //nolint
		"strings.Clone": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			return m.ret(s)
		},
		"strings.TrimSpace": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			return m.trim(s, spaceSet, true, true, true, "TrimSpace")
		},
		"strings.TrimLeftFunc":  trimFunc(true, false),
		"strings.TrimRightFunc": trimFunc(false, true),
		"strings.TrimFunc":      trimFunc(true, true),
		"strings.Trim":          trimSet(true, true),
		"strings.TrimLeft":      trimSet(true, false),
		"strings.TrimRight":     trimSet(false, true),
		"strings.Join": func(m *mcall) []Out {
			sep, ok := m.str(1)
			if !ok {
				return nil
			}
			if el, ok := m.an.constSlice(m.st, m.a[0]); ok {
				out := StrV{}
				for i, e := range el {
					s, ok := e.(StrV)
					if !ok {
						return nil
					}
					if i > 0 {
						out = concat(out, sep)
					}
					out = concat(out, s)
				}
				return m.ret(out)
			}
			m.st.event("join", "strings.Join", m.a, nil, m.an.w.pos(m.pos))
			return m.ret(m.st.ufStr("join", m.a, nil))
		},
		"strings.Repeat": func(m *mcall) []Out {
			if n, ok := m.int(1); ok {
				var outs []Out
				for _, s := range m.an.check(m.st, cge(n), "negative repeat", m.pos, "strings.Repeat") {
					s = s.clone()
					outs = append(outs, Out{st: s, ret: s.ufStr("repeat", m.a, nil)})
				}
				return outs
			}
			return nil
		},
		"strings.NewReader": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			id := m.st.newObj(&Obj{T: m.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), Lib: map[string]Val{"text": s}, Name: "strings.Reader"})
			return m.ret(PtrV{Obj: id})
		},
		"strings.EqualFold": func(m *mcall) []Out { return m.ret(BoolV{m.an.pred("EqualFold", m.a...)}) },

		"strconv.Quote": constFold1(strconv.Quote, "strconv.Quote"),
		"strconv.Itoa": func(m *mcall) []Out {
			l, ok := m.int(0)
			if !ok {
				return nil
			}
			return m.ret(itoa(m.st, l))
		},
		"strconv.ParseFloat": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			c := m.an.pred("number syntax", s)
			return m.split(c, func(st *State) []Out {
				v := st.ufVal("ParseFloat", []Val{s}, func() Val { return m.an.havoc(st, types.Typ[types.Float64], "number") })
				return ret1(st, TupleV{E: []Val{v, NilV{}}})
			}, func(st *State) []Out {
				m.an.failed(st, m.name)
				return ret1(st, TupleV{E: []Val{m.an.havoc(st, types.Typ[types.Float64], "number"), m.an.mkErr(st, lit("number"), nil)}})
			})
		},

		"fmt.Sprintf": func(m *mcall) []Out {
			s, _ := m.an.sprintf(m.st, m.a)
			return m.ret(s)
		},
		"fmt.Sprint":   func(m *mcall) []Out { return m.ret(m.an.sprint(m.st, m.a[len(m.a)-1], false)) },
		"fmt.Sprintln": func(m *mcall) []Out { return m.ret(m.an.sprint(m.st, m.a[len(m.a)-1], true)) },
		"fmt.Errorf": func(m *mcall) []Out {
			s, w := m.an.sprintf(m.st, m.a)
			return m.ret(m.an.mkErr(m.st, s, w))
		},
		"fmt.Printf": func(m *mcall) []Out {
			s, _ := m.an.sprintf(m.st, m.a)
			return m.output("stdout", s)
		},
		"fmt.Print":   func(m *mcall) []Out { return m.output("stdout", m.an.sprint(m.st, m.a[0], false)) },
		"fmt.Println": func(m *mcall) []Out { return m.output("stdout", m.an.sprint(m.st, m.a[0], true)) },
		"fmt.Fprintf": func(m *mcall) []Out {
			s, _ := m.an.sprintf(m.st, m.a[1:])
			return m.writeTo(m.a[0], s)
		},
		"fmt.Fprint":   func(m *mcall) []Out { return m.writeTo(m.a[0], m.an.sprint(m.st, m.a[1], false)) },
		"fmt.Fprintln": func(m *mcall) []Out { return m.writeTo(m.a[0], m.an.sprint(m.st, m.a[1], true)) },
		"io.WriteString": func(m *mcall) []Out {
			s, ok := m.str(1)
			if !ok {
				return nil
			}
			return m.writeTo(m.a[0], s)
		},
		"(*os.File).WriteString": func(m *mcall) []Out {
			s, ok := m.str(1)
			if !ok {
				return nil
			}
			return m.writeTo(m.a[0], s)
		},
		"(*os.File).Write": func(m *mcall) []Out {
			s, ok := m.str(1)
			if !ok {
				return nil
			}
			return m.writeTo(m.a[0], s)
		},
		"errors.New": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			return m.ret(m.an.mkErr(m.st, s, nil))
		},
		"errors.Unwrap": func(m *mcall) []Out { return m.ret(m.an.unwrap(m.st, m.a[0])) },
		"errors.Is": func(m *mcall) []Out {
			if _, ok := m.a[0].(NilV); ok {
				_, o2 := m.a[1].(NilV)
				return m.ret(cb(o2))
			}
			return m.ret(BoolV{m.an.pred("errors.Is", m.a...)})
		},
		"errors.Join": func(m *mcall) []Out {
			el, ok := m.an.constSlice(m.st, m.a[0])
			if s, isSlice := m.a[0].(SliceV); !ok && isSlice {
				text := func(st *State) []Out {
					return ret1(st, m.an.mkErr(st, st.ufStr("errors.Join", []Val{s}, nil), []Val{s}))
				}
				return m.split(cge(s.Len.addk(-1)), func(st *State) []Out {
					if m.an.neverNil(st, s, 0) {
						return text(st)
					}
					return append(text(st.clone()), ret1(st, NilV{})...) // all of them may be nil
				}, func(st *State) []Out { return ret1(st, NilV{}) })
			}
			if !ok {
				return nil
			}
			var w []Val
			for _, e := range el {
				if _, isNil := e.(NilV); !isNil {
					w = append(w, e)
				}
			}
			if len(w) == 0 {
				return m.ret(NilV{})
			}
			return m.ret(m.an.mkErr(m.st, m.st.ufStr("errors.Join", w, nil), w))
		},

		"regexp.Compile": func(m *mcall) []Out { return m.compile("regexp", true) },
		"regexp.MustCompile": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			if c, ok := m.st.norm(s).constant(); ok {
				if _, err := regexp.Compile(c); err == nil {
					return m.ret(m.an.regexpVal(m.st, "regexp", s, m.fn.Signature.Results().At(0).Type()))
				}
			}
			var outs []Out
			for _, y := range m.an.check(m.st, m.an.pred("regexp ok", s), "invalid regexp", m.pos, "regexp.MustCompile") {
				y = y.clone()
				outs = append(outs, Out{st: y, ret: m.an.regexpVal(y, "regexp", s, m.fn.Signature.Results().At(0).Type())})
			}
			return outs
		},
		"regexp/syntax.Parse": func(m *mcall) []Out { return m.compile("syntax", false) },
		"(*regexp/syntax.Regexp).String": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			if !ok {
				return nil
			}
			return m.ret(m.st.ufStr("syntax.String", []Val{p}, nil))
		},
		"(*regexp.Regexp).String": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			if !ok {
				return nil
			}
			return m.ret(p)
		},
		"regexp.MatchString": func(m *mcall) []Out {
			s, ok := m.strs(0, 1)
			if !ok {
				return nil
			}
			return m.split(m.an.pred("regexp ok", s[0]), func(st *State) []Out {
				return ret1(st, TupleV{E: []Val{m.matched(st, s[0], s[1]), NilV{}}})
			}, func(st *State) []Out {
				m.an.failed(st, m.name)
				return ret1(st, TupleV{E: []Val{cb(false), m.an.mkErr(st, lit("invalid regexp"), nil)}})
			})
		},
		"(*regexp.Regexp).MatchString": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			s, ok2 := m.str(1)
			if !ok || !ok2 {
				return nil
			}
			return m.ret(m.matched(m.st, p, m.st.norm(s)))
		},
		"(*regexp.Regexp).FindStringIndex": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			s, ok2 := m.str(1)
			if !ok || !ok2 {
				return nil
			}
			s = m.st.norm(s)
			return m.split(m.an.pred("re.match", p, s), func(st *State) []Out {
				lo, hi := m.an.matchAt(st, p, s, lc(0))
				return ret1(st, m.an.mkSlice(st, types.Typ[types.Int], []Val{IntV{lo}, IntV{hi}}, "match"))
			}, func(st *State) []Out { return ret1(st, NilV{}) })
		},
		"(*regexp.Regexp).FindString": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			s, ok2 := m.str(1)
			if !ok || !ok2 {
				return nil
			}
			s = m.st.norm(s)
			return m.split(m.an.pred("re.match", p, s), func(st *State) []Out {
				lo, hi := m.an.matchAt(st, p, s, lc(0))
				return ret1(st, st.slice(s, lo, hi))
			}, func(st *State) []Out { return ret1(st, StrV{}) })
		},
		"(*regexp.Regexp).FindAllStringIndex": func(m *mcall) []Out {
			p, ok := m.pattern(m.a[0])
			s, ok2 := m.str(1)
			if !ok || !ok2 {
				return nil
			}
			s = m.st.norm(s)
			lim, hasLim := m.int(2)
			return m.split(m.an.pred("re.match", p, s), func(st *State) []Out {
				st = st.clone()
				n := st.ufInt("re.count", []Val{p, s}, nil)
				k, isConst := lim.constInt()
				if !hasLim || !isConst || k >= 0 {
					n = ls(st.newSym("matches"))
					if isConst && k > 0 {
						st.must(lc(k).sub(n))
					}
				}
				st.must(n.addk(-1))
				st.must(s.length().addk(1).sub(n))
				nsym, _ := n.singleSym()
				m.an.rng[nsym] = [2]*big.Int{big.NewInt(1), big.NewInt(maxLen + 1)}
				elem := types.NewSlice(types.Typ[types.Int])
				a := &ArrObj{Elem: elem, Sym: true}
				a.Gen = func(s2 *State, i Lin) Val {
					lo, hi := m.an.matchAt(s2, p, s, i)
					return m.an.mkSlice(s2, types.Typ[types.Int], []Val{IntV{lo}, IntV{hi}}, "match")
				}
				id := st.newObj(&Obj{T: types.NewSlice(elem), Arr: a, Name: "matches"})
				return ret1(st, SliceV{Arr: id, Off: lc(0), Len: n})
			}, func(st *State) []Out { return ret1(st, NilV{}) })
		},
		"(*regexp.Regexp).ReplaceAllString":        replaceAll("re.ReplaceAllString"),
		"(*regexp.Regexp).ReplaceAllLiteralString": replaceAll("re.ReplaceAllLiteralString"),

		"unicode/utf8.DecodeRuneInString": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			return m.decodeRune(m.st.norm(s), false)
		},
		"unicode/utf8.DecodeLastRuneInString": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			return m.decodeRune(m.st.norm(s), true)
		},
		"unicode/utf8.RuneCountInString": func(m *mcall) []Out {
			s, ok := m.str(0)
			if !ok {
				return nil
			}
			if c, ok := m.st.norm(s).constant(); ok {
				return m.ret(IntV{lc(int64(utf8.RuneCountInString(c)))})
			}
			n := m.st.ufInt("runecount", []Val{s}, nil)
			m.st.must(n)
			m.st.must(s.length().sub(n))
			return m.ret(IntV{n})
		},
		"math.IsNaN": func(m *mcall) []Out {
			f, ok := m.a[0].(FloatV)
			if !ok {
				return nil
			}
			if f.F == nil {
				return m.ret(cb(f.Const != nil && math.IsNaN(*f.Const)))
			}
			return m.ret(BoolV{ceq(f.F.NaN.addk(-1))})
		},
		"math.Floor": floatRound("floor"),
		"math.Ceil":  floatRound("ceil"),
		"math.Trunc": func(m *mcall) []Out {
			f, ok := m.a[0].(FloatV)
			if !ok {
				return nil
			}
			if f.Exact != nil {
				return m.ret(f)
			}
			if f.F != nil {
				v := m.st.ufVal("math.Trunc", m.a, func() Val {
					return FloatV{F: &FloatSym{ID: m.an.nextID(), Tr: f.F.Tr, NaN: f.F.NaN}}
				}).(FloatV)
				m.st.opq[integralKey(v)] = true
				return m.ret(v)
			}
			return m.ret(floatConst(math.Trunc(*f.Const)))
		},

		"sort.Strings":          sortModel,
		"sort.Slice":            sortModel,
		"sort.SliceStable":      sortModel,
		"sort.Ints":             sortModel,
		"slices.Sort":           sortModel,
		"slices.SortFunc":       sortModel,
		"slices.SortStableFunc": sortModel,

		"(*sync.RWMutex).Lock":    lockModel,
		"(*sync.RWMutex).Unlock":  lockModel,
		"(*sync.RWMutex).RLock":   lockModel,
		"(*sync.RWMutex).RUnlock": lockModel,
		"(*sync.Mutex).Lock":      lockModel,
		"(*sync.Mutex).Unlock":    lockModel,
		"(*sync.Once).Do": func(m *mcall) []Out {
			outs := m.an.callFunc(m.st, m.a[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), m.pos)
			outs = append(outs, Out{st: m.st.clone()})
			return outs
		},

		"os.Exit": func(m *mcall) []Out {
			e := m.st.event("exit", "os.Exit", m.a, nil, m.an.w.pos(m.pos))
			e.At = m.pos
			return []Out{{st: m.st, kind: outStop}}
		},
		"os.WriteFile": func(m *mcall) []Out {
			s, ok := m.str(1)
			if !ok {
				s = baseStr(m.st.newBase("data"))
			}
			return m.an.results(m.st, m.fn.Signature.Results(), "call", m.name, []Val{m.a[0], s, m.a[2]})
		},

		"bufio.NewScanner": func(m *mcall) []Out {
			id := m.st.newObj(&Obj{T: m.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), Lib: map[string]Val{"src": m.a[0]}, Name: "bufio.Scanner"})
			m.st.event("call", m.name, m.a, []Val{PtrV{Obj: id}}, m.an.w.pos(m.pos))
			return m.ret(PtrV{Obj: id})
		},
		"(*bufio.Scanner).Scan": func(m *mcall) []Out {
			p, ok := m.a[0].(PtrV)
			if !ok {
				return nil
			}
			no := m.st.clone()
			no.event("scan", "end", m.a, nil, m.an.w.pos(m.pos))
			no.ghost["scan"] = lc(0)
			o := *m.st.obj(p.Obj)
			lib := map[string]Val{}
			for k, v := range o.Lib {
				lib[k] = v
			}
			b := m.st.newBase("line")
			lib["text"] = baseStr(b)
			o.Lib = lib
			m.st.put(p.Obj, &o)
			m.st.addRange(b, lc(0), b.Len, nlSet.compl())
			m.st.event("scan", "line", m.a, []Val{lib["text"]}, m.an.w.pos(m.pos))
			return []Out{{st: m.st, ret: cb(true)}, {st: no, ret: cb(false)}}
		},
		"(*bufio.Scanner).Text": func(m *mcall) []Out {
			p, ok := m.a[0].(PtrV)
			if !ok {
				return nil
			}
			if o := m.st.obj(p.Obj); o != nil && o.Lib["text"] != nil {
				return m.ret(o.Lib["text"])
			}
			return m.ret(baseStr(m.st.newBase("line")))
		},
		"path/filepath.Base":  func(m *mcall) []Out { return m.ret(m.st.ufStr("filepath.Base", m.a, nil)) },
		"path/filepath.Ext":   func(m *mcall) []Out { return m.ret(m.st.ufStr("filepath.Ext", m.a, nil)) },
		"path/filepath.Clean": func(m *mcall) []Out { return m.ret(m.st.ufStr("filepath.Clean", m.a, nil)) },
		"path/filepath.Dir":   func(m *mcall) []Out { return m.ret(m.st.ufStr("filepath.Dir", m.a, nil)) },
		"path/filepath.Join": func(m *mcall) []Out {
			if parts, ok := m.an.constSlice(m.st, m.a[0]); ok {
				var names []string
				for _, p := range parts {
					if s, ok := p.(StrV); ok {
						if c, ok := m.st.norm(s).constant(); ok {
							names = append(names, c)
						}
					}
				}
				if len(names) == len(parts) {
					return m.ret(lit(filepath.Join(names...)))
				}
				return m.ret(m.st.ufStr("filepath.Join", parts, nil))
			}
			return m.ret(baseStr(m.st.newBase("filepath.Join")))
		},

		"github.com/mark3labs/mcp-go/mcp.NewToolResultText":  toolResult("ok"),
		"github.com/mark3labs/mcp-go/mcp.NewToolResultError": toolResult("error"),
		"github.com/mark3labs/mcp-go/mcp.NewToolResultErrorf": func(m *mcall) []Out {
			s, _ := m.an.sprintf(m.st, m.a)
			m.a = []Val{s}
			return toolResult("error")(m)
		},
		"github.com/mark3labs/mcp-go/mcp.NewToolResultErrorFromErr": toolResult("error"),
	}
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper,
		"IsLower": unicode.IsLower, "IsNumber": unicode.IsNumber, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic} {
		models["unicode."+n] = runeClass(f, "unicode."+n)
	}
	// byte slice versions of string functions
	for _, n := range []string{"Index", "LastIndex", "IndexByte", "LastIndexByte", "Contains", "HasPrefix", "HasSuffix", "Count"} {
		if f, ok := models["strings."+n]; ok {
			models["bytes."+n] = f
		}
	}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func toolResult(kind string) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.str(0)
		if !ok {
			s = baseStr(m.st.newBase("text"))
		}
		id := m.st.newObj(&Obj{T: m.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), Lib: map[string]Val{"tool": lit(kind), "text": s}, Name: "tool result " + kind})
		return m.ret(PtrV{Obj: id})
	}
}

func lockModel(m *mcall) []Out {
	m.st.event("lock", m.name[strings.LastIndexByte(m.name, '.')+1:], m.a, nil, m.an.w.pos(m.pos))
	return []Out{{st: m.st}}
}

func sortModel(m *mcall) []Out {
	v := m.a[0]
	if i, ok := v.(IfaceV); ok {
		v = i.V
	}
	// what is put in order, when known
	what, _ := m.an.constSlice(m.st, v)
	m.st.event("sort", m.name, m.a, what, m.an.w.pos(m.pos))
	if s, ok := v.(SliceV); ok && s.Arr >= 0 {
		if o := m.st.obj(s.Arr); o != nil && o.Arr != nil {
			n := *o
			m.an.nver++
			els, known := m.an.constSlice(m.st, s)
			n.Arr = &ArrObj{Elem: o.Arr.Elem, Sym: true, Ver: m.an.nver}
			if known {
				// a constant list of strings can be put in order
				var ss []string
				for _, e := range els {
					if sv, ok := e.(StrV); ok {
						if c, ok := sv.constant(); ok {
							ss = append(ss, c)
						}
					}
				}
				if len(ss) == len(els) && (m.name == "sort.Strings" || m.name == "slices.Sort") {
					sortStrings(ss)
					for i, c := range ss {
						n.Arr.Els = append(n.Arr.Els, ArrEl{I: s.Off.addk(int64(i)), V: lit(c), W: true})
					}
				}
			}
			m.st.put(s.Arr, &n)
		}
	}
	return []Out{{st: m.st}}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func floatRound(op string) func(*mcall) []Out {
	return func(m *mcall) []Out {
		f, ok := m.a[0].(FloatV)
		if !ok {
			return nil
		}
		if f.Exact != nil {
			return m.ret(f)
		}
		if f.Const != nil {
			if op == "floor" {
				return m.ret(floatConst(math.Floor(*f.Const)))
			}
			return m.ret(floatConst(math.Ceil(*f.Const)))
		}
		v := m.st.ufVal("math."+op, m.a, func() Val {
			tr := ls(m.st.newSym(op))
			return FloatV{F: &FloatSym{ID: m.an.nextID(), Tr: tr, NaN: f.F.NaN}}
		}).(FloatV)
		d := v.F.Tr.sub(f.F.Tr)
		m.st.must(d.addk(1))
		m.st.must(lc(1).sub(d))
		m.st.opq[integralKey(v)] = true
		return m.ret(v)
	}
}

func replaceAll(op string) func(*mcall) []Out {
	return func(m *mcall) []Out {
		p, ok := m.pattern(m.a[0])
		s, ok2 := m.strs(1, 2)
		if !ok || !ok2 {
			return nil
		}
		return m.ret(m.st.ufStr(op, []Val{p, m.st.norm(s[0]), m.st.norm(s[1])}, nil))
	}
}

func indexByte(last bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.str(0)
		c, ok2 := m.int(1)
		k, ok3 := c.constInt()
		if !ok || !ok2 || !ok3 || k < 0 || k > 127 {
			return nil
		}
		var set ByteSet
		set.put(byte(k))
		return m.indexSet(s, set, last, retInt)
	}
}

func indexAny(last bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.strs(0, 1)
		if !ok {
			return nil
		}
		c, ok := m.st.norm(s[1]).constant()
		if !ok || !ascii(c) {
			return nil
		}
		var set ByteSet
		for i := range c {
			set.put(c[i])
		}
		return m.indexSet(s[0], set, last, retInt)
	}
}

func affix(suffix bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.strs(0, 1)
		if !ok {
			return nil
		}
		return m.hasAffix(s[0], s[1], suffix,
			func(st *State) []Out { return ret1(st, cb(true)) },
			func(st *State) []Out { return ret1(st, cb(false)) })
	}
}

func trimAffix(suffix bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.strs(0, 1)
		if !ok {
			return nil
		}
		return m.hasAffix(s[0], s[1], suffix,
			func(st *State) []Out { return ret1(st, cutOff(st, s[0], s[1], suffix)) },
			func(st *State) []Out { return ret1(st, s[0]) })
	}
}

func cutAffix(suffix bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.strs(0, 1)
		if !ok {
			return nil
		}
		return m.hasAffix(s[0], s[1], suffix,
			func(st *State) []Out {
				return ret1(st, TupleV{E: []Val{cutOff(st, s[0], s[1], suffix), cb(true)}})
			},
			func(st *State) []Out { return ret1(st, TupleV{E: []Val{s[0], cb(false)}}) })
	}
}

func cutOff(st *State, s, p StrV, suffix bool) StrV {
	if suffix {
		return st.slice(s, lc(0), s.length().sub(p.length()))
	}
	return st.slice(s, p.length(), s.length())
}

func trimFunc(left, right bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.str(0)
		f, ok2 := m.a[1].(FuncV)
		if !ok || !ok2 || f.Fn == nil || f.Fn.String() != "unicode.IsSpace" {
			if ok {
				return m.trim(s, allBytes, left, right, true, fmt.Sprintf("trimfunc%d", m.an.nextID()))
			}
			return nil
		}
		return m.trim(s, spaceSet, left, right, true, fmt.Sprintf("TrimSpace%v%v", left, right))
	}
}

func trimSet(left, right bool) func(*mcall) []Out {
	return func(m *mcall) []Out {
		s, ok := m.strs(0, 1)
		if !ok {
			return nil
		}
		c, ok := m.st.norm(s[1]).constant()
		if !ok || !ascii(c) {
			return nil
		}
		var set ByteSet
		for i := range c {
			set.put(c[i])
		}
		return m.trim(s[0], set, left, right, false, "Trim"+strconv.Quote(c))
	}
}

// countOf is the number of bytes of s in set.
func (st *State) countOf(s StrV, set ByteSet) Lin {
	s = st.norm(s)
	total := lc(0)
	for _, p := range s.P {
		if p.Base == nil {
			for i := 0; i < len(p.Lit); i++ {
				if set.has(p.Lit[i]) {
					total = total.addk(1)
				}
			}
			continue
		}
		found := false
		for _, f := range st.cnts {
			if f.Base == p.Base && f.Set == set && st.eq(f.Lo, p.Lo) && st.eq(f.Hi, p.Hi) {
				total = total.add(f.N)
				found = true
				break
			}
		}
		if found {
			continue
		}
		n := ls(st.newSym("count"))
		st.addCnt(CntFact{p.Base, set, p.Lo, p.Hi, n})
		total = total.add(n)
	}
	return total
}

// splitVal models strings.Split with a one-byte separator: piece i is
// s[splitAt(i) : splitAt(i+1)-1], splitAt(0) = 0, splitAt(n) = len+1.
func (an *An) splitVal(st *State, s StrV, sep byte) Val {
	s = st.norm(s)
	if c, ok := s.constant(); ok {
		var vals []Val
		for _, x := range strings.Split(c, string([]byte{sep})) {
			vals = append(vals, lit(x))
		}
		return an.mkSlice(st, types.Typ[types.String], vals, "split")
	}
	p := st.asBase(s)
	var set ByteSet
	set.put(sep)
	w := StrV{P: []Piece{p}}
	n := st.countOf(w, set).addk(1)
	st.must(n.addk(-1))
	at := func(s2 *State, i Lin) Lin { return s2.splitAt(w, sep, i) }
	st.ufInt("splitAt", []Val{w, IntV{lc(int64(sep))}, IntV{lc(0)}}, func(l Lin) { st.mustEq(l) })
	a := &ArrObj{Elem: types.Typ[types.String], Sym: true}
	a.Gen = func(s2 *State, i Lin) Val {
		lo := at(s2, i)
		var hi Lin
		if s2.eq(i.addk(1), n) {
			hi = p.length()
		} else {
			hi = at(s2, i.addk(1)).addk(-1)
		}
		s2.must(hi.sub(lo))
		s2.must(p.length().sub(hi))
		s2.addRange(p.Base, p.Lo.add(lo), p.Lo.add(hi), set.compl())
		if s2.lt(i.addk(1), n) {
			if y := s2.addByte(p.Base, p.Lo.add(hi), set); y != nil {
				*s2 = *y
			}
		}
		return StrV{P: []Piece{{Base: p.Base, Lo: p.Lo.add(lo), Hi: p.Lo.add(hi)}}}
	}
	id := st.newObj(&Obj{T: types.NewSlice(types.Typ[types.String]), Arr: a, Name: "split"})
	return SliceV{Arr: id, Off: lc(0), Len: n}
}

func (st *State) splitAt(w StrV, sep byte, i Lin) Lin {
	if st.eq(i, lc(0)) {
		return lc(0)
	}
	l := st.ufInt("splitAt", []Val{w, IntV{lc(int64(sep))}, IntV{i}}, nil)
	st.must(l)
	st.must(w.length().addk(1).sub(l))
	return l
}

func itoa(st *State, l Lin) StrV {
	if k, ok := st.constOf(l); ok {
		return lit(strconv.FormatInt(k, 10))
	}
	return st.ufStr("itoa", []Val{IntV{l}}, func(b *Base) { st.must(b.Len.addk(-1)) })
}

// decodeRune models utf8.DecodeRuneInString.
func (m *mcall) decodeRune(s StrV, last bool) []Out {
	var outs []Out
	n := s.length()
	for _, e := range m.st.assume(ceq(n)) {
		outs = append(outs, Out{st: e.clone(), ret: TupleV{E: []Val{IntV{lc(0xfffd)}, IntV{lc(0)}}}})
	}
	for _, y := range m.st.assume(cge(n.addk(-1))) {
		y = y.clone()
		at := lc(0)
		op := "runesize"
		if last {
			at = n.addk(-1)
			op = "lastrunesize"
		}
		b, ok := m.an.byteAt(y, s, at).(IntV)
		if !ok {
			continue
		}
		if k, ok := b.L.constInt(); ok && k < 128 {
			outs = append(outs, Out{st: y, ret: TupleV{E: []Val{b, IntV{lc(1)}}}})
			continue
		}
		sy, ok := b.L.singleSym()
		ref, isB := m.an.byteSym[sy]
		if !ok || !isB {
			outs = append(outs, m.an.results(y, m.fn.Signature.Results(), "call", m.name, m.a)...)
			continue
		}
		if a := y.addByte(ref.Base, ref.Idx, byteRange(0, 127)); a != nil {
			outs = append(outs, Out{st: a.clone(), ret: TupleV{E: []Val{b, IntV{lc(1)}}}})
		}
		if h := y.addByte(ref.Base, ref.Idx, byteRange(128, 255)); h != nil {
			h = h.clone()
			w := h.ufInt(op, []Val{s}, nil)
			h.must(w.addk(-1))
			h.must(lc(4).sub(w))
			h.must(n.sub(w))
			r := h.ufInt("rune"+op, []Val{s}, nil)
			h.must(r.addk(-128))
			h.must(lc(0x10ffff).sub(r))
			if rs, ok := r.singleSym(); ok && !last {
				m.an.runeSym[rs] = ref
				m.an.runeW[rs] = w
			}
			outs = append(outs, Out{st: h, ret: TupleV{E: []Val{IntV{r}, IntV{w}}}})
		}
	}
	return outs
}

// ---- regular expressions -----------------------------------------------------

func (an *An) regexpVal(st *State, kind string, pat StrV, t types.Type) Val {
	pat = st.norm(pat)
	return st.ufVal(kind, []Val{pat}, func() Val {
		var elem types.Type = t
		if p, ok := t.(*types.Pointer); ok {
			elem = p.Elem()
		}
		id := st.newObj(&Obj{T: elem, Lib: map[string]Val{"pat": pat}, Name: kind})
		return PtrV{Obj: id}
	})
}

func (m *mcall) compile(kind string, _ bool) []Out {
	s, ok := m.str(0)
	if !ok {
		return nil
	}
	s = m.st.norm(s)
	t := m.fn.Signature.Results().At(0).Type()
	yes := func(st *State) []Out {
		return ret1(st, TupleV{E: []Val{m.an.regexpVal(st, kind, s, t), NilV{}}})
	}
	no := func(st *State) []Out {
		m.an.failed(st, m.name)
		return ret1(st, TupleV{E: []Val{NilV{}, m.an.mkErr(st, st.ufStr("regexp error", []Val{s}, nil), nil)}})
	}
	if c, ok := s.constant(); ok {
		if _, err := regexp.Compile(c); err == nil {
			return yes(m.st)
		}
		return no(m.st)
	}
	return m.split(m.an.pred("regexp ok", s), yes, no)
}

func (m *mcall) pattern(v Val) (StrV, bool) {
	if p, ok := v.(PtrV); ok {
		if o := m.st.obj(p.Obj); o != nil && o.Lib != nil {
			s, ok := o.Lib["pat"].(StrV)
			return s, ok
		}
	}
	return StrV{}, false
}

// matchAt gives the bounds of the i-th match of pat in s.
func (an *An) matchAt(st *State, pat, s StrV, i Lin) (Lin, Lin) {
	lo := st.ufInt("re.lo", []Val{pat, s, IntV{i}}, nil)
	hi := st.ufInt("re.hi", []Val{pat, s, IntV{i}}, nil)
	st.must(lo)
	st.must(hi.sub(lo))
	st.must(s.length().sub(hi))
	return lo, hi
}

// ---- formatting --------------------------------------------------------------

// sprintf formats; it also returns the operands of %w.
func (an *An) sprintf(st *State, args []Val) (StrV, []Val) {
	f, ok := args[0].(StrV)
	if !ok {
		return baseStr(st.newBase("formatted")), nil
	}
	format, isConst := st.norm(f).constant()
	var ops []Val
	known := true
	if len(args) > 1 {
		ops, known = an.constSlice(st, args[1])
	}
	if !isConst || !known {
		if len(args) > 1 {
			if known {
				return st.ufStr("sprintf", append([]Val{f}, ops...), nil), nil
			}
			return st.ufStr("sprintf", []Val{f, args[1]}, nil), nil
		}
		return st.ufStr("sprintf", []Val{f}, nil), nil
	}
	out := StrV{}
	var wraps []Val
	k := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = concat(out, lit(format[i:]))
			break
		}
		out = concat(out, lit(format[i:i+j]))
		i += j + 1
		s := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[s : i+1]
		i++
		if verb == "%" {
			out = concat(out, lit("%"))
			continue
		}
		if k >= len(ops) {
			out = concat(out, lit("%!"+verb+"(MISSING)"))
			continue
		}
		v := ops[k]
		k++
		if strings.HasSuffix(verb, "w") {
			wraps = append(wraps, v)
		}
		out = concat(out, an.format(st, verb, v))
	}
	return out, wraps
}

func (an *An) format(st *State, verb string, v Val) StrV {
	if x, ok := v.(IfaceV); ok {
		switch y := x.V.(type) {
		case StrV:
			switch verb {
			case "s", "v":
				if _, isB := x.T.Underlying().(*types.Basic); isB && an.noStringer(x.T) {
					return y
				}
			case "q":
				if c, ok := st.norm(y).constant(); ok {
					return lit(strconv.Quote(c))
				}
				return st.ufStr("strconv.Quote", []Val{y}, nil)
			}
		case IntV:
			if (verb == "d" || verb == "v") && an.noStringer(x.T) {
				return itoa(st, y.L)
			}
			if verb == "c" {
				return an.runeStr(st, y.L)
			}
		}
		if x.T == an.w.extErr {
			if p, ok := x.V.(PtrV); ok {
				if o := st.obj(p.Obj); o != nil && o.Lib != nil && (verb == "v" || verb == "s" || verb == "w") {
					if m, ok := o.Lib["msg"].(StrV); ok {
						return m
					}
				}
			}
		}
	}
	if verb == "w" || verb == "v" || verb == "s" {
		if s, ok := v.(SymV); ok && types.Identical(s.T, an.w.errType) {
			return st.ufStr("Error", []Val{v}, nil)
		}
	}
	return st.ufStr("fmt%"+verb, []Val{v}, nil)
}

func (an *An) noStringer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return !ok || n.NumMethods() == 0
}

// sprint formats operands like fmt.Sprint (ln: Sprintln).
func (an *An) sprint(st *State, v Val, ln bool) StrV {
	ops, ok := an.constSlice(st, v)
	if !ok {
		return st.ufStr(fmt.Sprintf("sprint%v", ln), []Val{v}, nil)
	}
	out := StrV{}
	for i, o := range ops {
		if i > 0 && ln {
			out = concat(out, lit(" "))
		}
		out = concat(out, an.format(st, "v", o))
	}
	if ln {
		out = concat(out, lit("\n"))
	}
	return out
}

func (m *mcall) output(kind string, s StrV) []Out {
	e := m.st.event(kind, m.name, []Val{s}, nil, m.an.w.pos(m.pos))
	e.At = m.pos
	if len(m.an.stack) > 0 {
		e.Fn = m.an.stack[len(m.an.stack)-1]
	}
	n := m.fn.Signature.Results().Len()
	if n == 2 {
		return m.ret(IntV{s.length()}, m.an.havoc(m.st, m.an.w.errType, "output error"))
	}
	return []Out{{st: m.st}}
}

// writeTo writes s to writer w.
func (m *mcall) writeTo(w Val, s StrV) []Out {
	if i, ok := w.(IfaceV); ok {
		w = i.V
	}
	switch x := w.(type) {
	case SymV:
		if x.Note == "os.Stdout" {
			e := m.st.event("stdout", m.name, []Val{s}, nil, m.an.w.pos(m.pos))
			e.At = m.pos
			return m.errSplit("stdout write")
		}
		if x.Note == "os.Stderr" {
			m.st.event("stderr", m.name, []Val{s}, nil, m.an.w.pos(m.pos))
			return m.ret(IntV{s.length()}, NilV{})
		}
	case PtrV:
		if b, ok := m.an.load(m.st, x).(BuilderV); ok {
			m.an.store(m.st, x, BuilderV{concat(b.S, s)})
			return m.ret(IntV{s.length()}, NilV{})
		}
	}
	e := m.st.event("write", m.name, []Val{w, s}, nil, m.an.w.pos(m.pos))
	e.At = m.pos
	return m.errSplit("write")
}

func (m *mcall) errSplit(what string) []Out {
	bad := m.st.clone()
	n := m.an.havoc(m.st, types.Typ[types.Int], "written").(IntV)
	ev := bad.event("write-error", what, nil, nil, m.an.w.pos(m.pos))
	m.an.failed(bad, what)
	er := SymV{ID: m.an.nextID(), T: m.an.w.errType, NN: lc(1), Note: what + " error", From: ev}
	ev.Ret = []Val{er}
	return []Out{{st: m.st, ret: TupleV{E: []Val{n, NilV{}}}}, {st: bad, ret: TupleV{E: []Val{n, er}}}}
}

// ---- text accumulators ---------------------------------------------------------

func (an *An) builderCall(st *State, fn *ssa.Function, name string, args []Val) []Out {
	recv := fn.Signature.Recv()
	if recv == nil || len(args) == 0 {
		return nil
	}
	rt := recv.Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	if !isBuilder(rt) {
		return nil
	}
	p, ok := args[0].(PtrV)
	if !ok {
		return nil
	}
	b, ok := an.load(st, p).(BuilderV)
	if !ok {
		return nil
	}
	set := func(s StrV) { an.store(st, p, BuilderV{s}) }
	switch fn.Name() {
	case "String":
		return ret1(st, b.S)
	case "Bytes":
		return ret1(st, an.bytesVal(st, b.S))
	case "Len":
		return ret1(st, IntV{b.S.length()})
	case "Reset":
		set(StrV{})
		return []Out{{st: st}}
	case "Grow":
		return []Out{{st: st}}
	case "Cap", "Available":
		return ret1(st, an.havoc(st, types.Typ[types.Int], "cap"))
	case "WriteString", "Write":
		s, ok := an.strOf(st, args[1])
		if !ok {
			return nil
		}
		set(concat(b.S, s))
		return ret1(st, TupleV{E: []Val{IntV{s.length()}, NilV{}}})
	case "WriteByte":
		l := args[1].(IntV).L
		set(concat(b.S, an.byteStr(st, l)))
		return ret1(st, NilV{})
	case "WriteRune":
		l := args[1].(IntV).L
		s := an.runeStr(st, l)
		set(concat(b.S, s))
		return ret1(st, TupleV{E: []Val{IntV{s.length()}, NilV{}}})
	case "Truncate":
		if n, ok := args[1].(IntV); ok {
			var outs []Out
			for _, s := range an.check(st, cge(n.L), "slice bounds", an.curPos, "Truncate") {
				for _, s := range an.check(s, cge(b.S.length().sub(n.L)), "slice bounds", an.curPos, "Truncate") {
					s = s.clone()
					an.store(s, p, BuilderV{s.slice(b.S, lc(0), n.L)})
					outs = append(outs, Out{st: s})
				}
			}
			return outs
		}
	}
	return nil
}

// ---- families of library calls ---------------------------------------------

func (an *An) family(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) []Out {
	switch {
	case strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).") && (fn.Name() == "Flags" || fn.Name() == "PersistentFlags" || fn.Name() == "LocalFlags"):
		if p, ok := args[0].(PtrV); ok && p.Path == "" {
			v := st.ufVal("cobra.Flags", args, func() Val {
				return SymV{ID: an.nextID(), T: fn.Signature.Results().At(0).Type(), NN: lc(1), Note: fmt.Sprintf("flags#%d", p.Obj)}
			})
			return ret1(st, v)
		}
	case name == "(*github.com/spf13/cobra.Command).AddCommand":
		if els, ok := an.constSlice(st, args[1]); ok {
			st.event("addcmd", fn.Name(), args[:1], els, an.w.pos(pos)).At = pos
			return []Out{{st: st}}
		}
	case strings.HasPrefix(name, "(*github.com/spf13/pflag.FlagSet)."):
		fs, _ := args[0].(SymV)
		nameAt := func(i int) string {
			if i < len(args) {
				if s, ok := args[i].(StrV); ok {
					c, _ := st.norm(s).constant()
					return c
				}
			}
			return ""
		}
		sig := fn.Signature
		switch {
		case strings.HasPrefix(fn.Name(), "Get") && sig.Params().Len() == 1 && sig.Results().Len() == 2:
			if v, ok := an.flagVal[fs.Note+" "+nameAt(1)]; ok {
				if t := sig.Results().At(0).Type(); types.Identical(an.flagType[fs.Note+" "+nameAt(1)], t) {
					return ret1(st, TupleV{E: []Val{v, NilV{}}})
				}
			}
		case sig.Params().Len() >= 3 && strings.Contains(fn.Name(), "Var"):
			p, ok := args[1].(PtrV)
			pt, ok2 := sig.Params().At(0).Type().(*types.Pointer)
			if ok && ok2 && fs.Note != "" && nameAt(2) != "" {
				st.event("flag", nameAt(2), []Val{fs, p}, []Val{flagDecl{pt.Elem(), fn.Name()}}, an.w.pos(pos)).At = pos
				return []Out{{st: st}}
			}
		case sig.Params().Len() >= 3 && sig.Results().Len() <= 1:
			if pt, ok := typeOfFlag(sig); ok && fs.Note != "" && nameAt(1) != "" {
				var ret Val
				if sig.Results().Len() == 1 {
					ret = PtrV{Obj: st.newObj(&Obj{T: pt, Sym: true, Name: "flag " + nameAt(1)})}
				}
				st.event("flag", nameAt(1), []Val{fs, ret}, []Val{flagDecl{pt, fn.Name()}}, an.w.pos(pos)).At = pos
				return []Out{{st: st, ret: ret}}
			}
		}
	case name == "encoding/xml.Unmarshal" || name == "encoding/json.Unmarshal":
		// fills its second argument
		an.havocReach(st, args[1:])
		outs := an.results(st, fn.Signature.Results(), "call", name, args)
		// the text null gives no slice
		if iv, ok := args[1].(IfaceV); ok && len(outs) > 0 {
			if p, ok := iv.V.(PtrV); ok {
				if _, ok := an.load(st, p).(SliceV); ok {
					n := outs[0].st.clone()
					an.store(n, p, NilV{})
					outs = append(outs, Out{st: n, ret: outs[0].ret})
				}
			}
		}
		return outs
	case strings.HasPrefix(name, "(github.com/mark3labs/mcp-go/mcp.CallToolRequest)."):
		return an.toolParam(st, fn, args)
	case strings.HasPrefix(name, "github.com/mark3labs/mcp-go/mcp."):
		r := fn.Signature.Results()
		if r.Len() == 1 {
			id := st.newObj(&Obj{T: r.At(0).Type(), Lib: map[string]Val{"mcp": lit(fn.Name()), "args": TupleV{E: args}}, Name: "mcp." + fn.Name()})
			e := st.event("mcp", fn.Name(), args, nil, an.w.pos(pos))
			var v Val = PtrV{Obj: id}
			switch r.At(0).Type().Underlying().(type) {
			case *types.Signature:
				v = FuncV{Ext: fmt.Sprintf("mcp#%d", id)}
			case *types.Struct:
				v = an.havoc(st, r.At(0).Type(), fn.Name())
			}
			e.Ret = []Val{v}
			return ret1(st, v)
		}
	}
	return nil
}

// toolParam models reading a parameter of a tool call: it is absent, of a
// wrong kind, or any value.
func (an *An) toolParam(st *State, fn *ssa.Function, args []Val) []Out {
	sig := fn.Signature
	get, req := strings.HasPrefix(fn.Name(), "Get") && sig.Params().Len() == 2, strings.HasPrefix(fn.Name(), "Require")
	if !get && !req || len(args) < 2 {
		return nil
	}
	ks, ok := args[1].(StrV)
	key, ok2 := st.norm(ks).constant()
	if !ok || !ok2 {
		return nil
	}
	t := sig.Results().At(0).Type()
	kind := strings.TrimPrefix(strings.TrimPrefix(fn.Name(), "Get"), "Require")
	var outs []Out
	add := func(s *State, rets ...Val) {
		ev := s.event("param", fn.Name(), []Val{args[0], lit(key)}, rets, "")
		ev.At = an.curPos
		if len(an.stack) > 0 {
			ev.Fn = an.stack[len(an.stack)-1]
		}
		for _, r := range rets {
			if sv, ok := r.(SymV); ok && sv.From == nil && types.Identical(sv.T, an.w.errType) {
				sv.From = ev
				ev.Ret[len(rets)-1] = sv
			}
		}
		outs = append(outs, Out{st: s, ret: tup(ev.Ret)})
	}
	absent := "absent " + key
	a, known := st.ghost[absent]
	if !known || a.isZero() {
		s := st.clone()
		s.ghost[absent] = lc(0)
		v := an.fresh(s, "param "+kind+" "+key, t, "parameter "+key)
		if req {
			add(s, v, NilV{})
		} else {
			add(s, v)
		}
	}
	if get && known && a.isZero() {
		return outs
	}
	s := st.clone()
	if req {
		s.ghost[absent] = lc(1)
		s.ghost["fail"] = lc(1)
		add(s, an.zero(s, t), SymV{ID: an.nextID(), T: an.w.errType, NN: lc(1), Note: "error of " + fn.Name()})
	} else {
		s.ghost[absent] = lc(1)
		add(s, args[2])
	}
	return outs
}

// flagDecl is the type of a declared flag and the function declaring it.
type flagDecl struct {
	T  types.Type
	By string
}

// typeOfFlag is the type of the flag declared by a function like StringP.
func typeOfFlag(sig *types.Signature) (types.Type, bool) {
	if sig.Results().Len() == 1 {
		if p, ok := sig.Results().At(0).Type().(*types.Pointer); ok {
			return p.Elem(), true
		}
	}
	return nil, false
}

// unwrap gives the error wrapped by v, or nil.
func (an *An) unwrap(st *State, v Val) Val {
	switch x := v.(type) {
	case IfaceV:
		if x.T == an.w.extErr {
			if p, ok := x.V.(PtrV); ok {
				if o := st.obj(p.Obj); o != nil && o.Lib != nil {
					if w, ok := o.Lib["wrap"].(TupleV); ok && len(w.E) == 1 {
						return w.E[0]
					}
				}
			}
			return NilV{}
		}
		if m := an.w.prog.LookupMethod(x.T, nil, "Unwrap"); m != nil && an.w.inMod(m) {
			outs := an.call(st, m, []Val{x.V}, nil)
			if len(outs) == 1 && outs[0].kind == outReturn {
				return outs[0].ret
			}
		}
		return NilV{}
	case NilV:
		return x
	}
	return SymV{ID: an.nextID(), T: an.w.errType, NN: st.boolSym("unwrapped"), Note: "unwrapped error"}
}

// libInvoke models a method call on an unknown library object.
func (an *An) libInvoke(st *State, x SymV, m *types.Func, args []Val, c *ssa.CallCommon, pos token.Pos) ([]Out, bool) {
	switch m.Name() {
	case "Error":
		if types.Identical(x.T, an.w.errType) {
			st = st.clone()
			return ret1(st, st.ufStr("Error", []Val{x}, nil)), true
		}
	case "Write":
		if len(args) == 1 && m.Type().(*types.Signature).Results().Len() == 2 {
			st = st.clone()
			s, ok := an.strOf(st, args[0])
			if !ok {
				s = baseStr(st.newBase("data"))
			}
			mc := &mcall{an: an, st: st, name: "Write", a: args, pos: pos}
			return mc.writeTo(x, s), true
		}
	}
	return nil, false
}

// compareStr is a three-way comparison.
func compareStr(m *mcall) []Out {
	s, ok := m.strs(0, 1)
	if !ok {
		x, ok1 := m.int(0)
		y, ok2 := m.int(1)
		if !ok1 || !ok2 {
			return nil
		}
		k := func(n int64) func(s *State) []Out {
			return func(s *State) []Out { return ret1(s, IntV{L: lc(n)}) }
		}
		return m.split(cge(y.sub(x).addk(-1)), k(-1), func(s *State) []Out {
			m.st = s
			return m.split(ceq(y.sub(x)), k(0), k(1))
		})
	}
	k := func(n int64) func(s *State) []Out {
		return func(s *State) []Out { return ret1(s, IntV{L: lc(n)}) }
	}
	return m.split(Cond{Kind: CStrEq, S: s[0], T: s[1]}, k(0), func(st *State) []Out {
		m.st = st
		return m.split(strLess(s[0], s[1]), k(-1), k(1))
	})
}
