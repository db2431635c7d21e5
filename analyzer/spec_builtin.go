package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- contracts of the built-in functions -------------------------------------

// Contract is what a built-in function promises.
type Contract struct {
	Min, Max int      // argument count; Max -1: any
	Kinds    []string // kind of each argument ("n", "s"); the last one repeats
	Class    string   // query, move, region, search, edit
	Prop     string   // property the result specification belongs to
	Post     func(c *SC)
	Err      func(c *SC) bool // an error is allowed in this state
}

var contracts map[string]*Contract

func init() {
	q := func(post func(c *SC), kinds ...string) *Contract {
		return &Contract{Min: len(kinds), Max: len(kinds), Kinds: kinds, Class: "query", Prop: "C10", Post: post}
	}
	mv := func(class, prop string, min int, post func(c *SC), kinds ...string) *Contract {
		return &Contract{Min: min, Max: len(kinds), Kinds: kinds, Class: class, Prop: prop, Post: post}
	}
	contracts = map[string]*Contract{
		// queries
		"point":            q(func(c *SC) { c.retNum(c.P()) }),
		"mark":             q(func(c *SC) { c.retNum(c.M()) }),
		"point-min":        q(func(c *SC) { c.retNum(lc(1)) }),
		"point-max":        q(func(c *SC) { c.retNum(c.L().addk(1)) }),
		"buffer-size":      q(func(c *SC) { c.retNum(c.L()) }),
		"region-beginning": q(func(c *SC) { c.minmax(c.P(), c.M(), func(c *SC, lo, hi Lin) { c.retNum(lo) }) }),
		"region-end":       q(func(c *SC) { c.minmax(c.P(), c.M(), func(c *SC, lo, hi Lin) { c.retNum(hi) }) }),
		"line-number-at-pos": q(func(c *SC) {
			n, ok := c.num()
			c.must(ok && c.countNL(lc(0), c.P().addk(-1), n.addk(-1)), "the value is not 1 + the number of newlines before point")
		}),
		"current-column": q(nil),
		"buffer-substring": q(func(c *SC) {
			a, b := c.argNum(0), c.argNum(1)
			c.split(ceq(b.addk(1)), func(c *SC) { c.subText(c.T(), a, c.L().addk(1)) },
				func(c *SC) { c.subText(c.T(), a, b) })
		}, "n", "n"),
		"substring": {Min: 2, Max: 3, Kinds: []string{"s", "n", "n"}, Class: "query", Prop: "C10", Post: func(c *SC) {
			s := c.argStr(0)
			if len(c.args) == 2 {
				c.subText(s, c.argNum(1), s.length().addk(1))
			} else {
				c.subText(s, c.argNum(1), c.argNum(2))
			}
		}},
		"length":     q(func(c *SC) { c.retNum(c.argStr(0).length()) }, "s"),
		"upcase":     q(func(c *SC) { c.retStr(c.uf("strings.ToUpper", c.argStr(0))) }, "s"),
		"downcase":   q(func(c *SC) { c.retStr(c.uf("strings.ToLower", c.argStr(0))) }, "s"),
		"capitalize": q(func(c *SC) { c.capitalize() }, "s"),
		"concat": {Min: 0, Max: -1, Kinds: []string{"s"}, Class: "query", Prop: "C10", Post: func(c *SC) {
			if c.args == nil {
				return
			}
			s := StrV{}
			for i := range c.args {
				s = concat(s, c.argStr(i))
			}
			c.retStr(s)
		}},
		"string-match": q(func(c *SC) { c.stringMatch() }, "s", "s"),
		"looking-at":   q(func(c *SC) { c.lookingAt() }, "s"),
		"looking-back": {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "query", Prop: "C10", Post: func(c *SC) { c.lookingBack() },
			Err: func(c *SC) bool { return !c.regexpFacts(c.argStr(0)) }},
		"replace-regexp-in-string": {Min: 3, Max: 3, Kinds: []string{"s", "s", "s"}, Class: "query", Prop: "C10",
			Post: func(c *SC) {
				c.retStr(c.uf("re.ReplaceAllString", c.argStr(0), c.argStr(2), c.argStr(1)))
			},
			Err: func(c *SC) bool { return c.predFalse("regexp ok", c.argStr(0)) }},

		// movement
		"goto-char":           mv("move", "C08", 1, func(c *SC) { c.pointClamped(c.argNum(0)) }, "n"),
		"forward-char":        mv("move", "C08", 0, func(c *SC) { c.pointClamped(c.P().add(c.count())) }, "n"),
		"backward-char":       mv("move", "C08", 0, func(c *SC) { c.pointClamped(c.P().sub(c.count())) }, "n"),
		"beginning-of-buffer": mv("move", "C08", 0, func(c *SC) { c.pointIs(lc(1)) }),
		"end-of-buffer":       mv("move", "C08", 0, func(c *SC) { c.pointIs(c.L().addk(1)) }),
		"beginning-of-line": mv("move", "C08", 0, func(c *SC) {
			c.must(c.lineStart(c.P().addk(-1), c.P2().addk(-1)), "point is not at the beginning of its line")
		}),
		"end-of-line": mv("move", "C08", 0, func(c *SC) {
			c.must(c.lineEnd(c.P().addk(-1), c.P2().addk(-1)), "point is not at the end of its line")
		}),
		"forward-word": mv("move", "C08", 0, func(c *SC) {
			c.times("word-end", c.P().addk(-1), c.count(), c.P2().addk(-1), "point is not after the count-th word end")
		}, "n"),
		"backward-word": mv("move", "C08", 0, func(c *SC) {
			c.times("word-start", c.P().addk(-1), c.count(), c.P2().addk(-1), "point is not at the count-th word start before it")
		}, "n"),
		"goto-line": mv("move", "C08", 1, func(c *SC) { c.gotoLine(c.argNum(0)) }, "n"),

		// region
		"set-mark": mv("region", "C08", 0, func(c *SC) { c.markIs(c.P()); c.pointIs(c.P()) }),
		"set-mark-command": mv("region", "C08", 0, func(c *SC) {
			if len(c.args) == 1 {
				c.clamped(c.argNum(0), c.L().addk(1), func(c *SC, x Lin) { c.markIs(x) })
			} else {
				c.markIs(c.P())
			}
			c.pointIs(c.P())
		}, "n"),
		"exchange-point-and-mark": mv("region", "C08", 0, func(c *SC) { c.pointIs(c.M()); c.markIs(c.P()) }),
		"mark-whole-buffer":       mv("region", "C08", 0, func(c *SC) { c.markIs(lc(1)); c.pointIs(c.L().addk(1)) }),
		"mark-word": mv("region", "C08", 0, func(c *SC) {
			c.split(cge(c.P().addk(-1).sub(c.L())), func(c *SC) { c.pointIs(c.P()); c.markIs(c.M()) },
				func(c *SC) {
					p, a, b := c.P().addk(-1), c.M2().addk(-1), c.P2().addk(-1)
					c.must(c.le(a, p) && c.le(p, b), "the marked word does not surround point")
					c.must(c.allIn(a, b, letterSet), "the region is not made of word characters")
					c.must(c.atStart(a) || c.byteIn(a.addk(-1), letterSet.compl()), "the region does not start at a word start")
					c.must(c.atEnd(b) || c.byteIn(b, letterSet.compl()), "the region does not end at a word end")
				})
		}),
		"mark-line": mv("region", "C08", 0, func(c *SC) {
			c.must(c.lineStart(c.P().addk(-1), c.M2().addk(-1)), "mark is not at the beginning of the line")
			c.times("next-line", c.P().addk(-1), c.count(), c.P2().addk(-1), "point is not after the marked lines")
		}, "n"),

		// search
		"search-forward":     {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "search", Prop: "C07", Post: func(c *SC) { c.searched(false, false) }, Err: func(c *SC) bool { return c.notFound(false, false) }},
		"search-backward":    {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "search", Prop: "C07", Post: func(c *SC) { c.searched(true, false) }, Err: func(c *SC) bool { return c.notFound(true, false) }},
		"re-search-forward":  {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "search", Prop: "C07", Post: func(c *SC) { c.searched(false, true) }, Err: func(c *SC) bool { return c.notFound(false, true) }},
		"re-search-backward": {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "search", Prop: "C07", Post: func(c *SC) { c.searched(true, true) }, Err: func(c *SC) bool { return c.notFound(true, true) }},
		"replace-match": {Min: 1, Max: 1, Kinds: []string{"s"}, Class: "edit", Prop: "C07", Post: nil,
			Err: func(c *SC) bool { return true }},

		// editing
		"insert": mv("edit", "C09", 1, func(c *SC) {
			s := c.argStr(0)
			c.edited(c.P().addk(-1), c.P().addk(-1), s)
			c.pointIs(c.P().add(s.length()))
		}, "s"),
		"delete-char": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			c.between(p.add(c.count()), p, c.L(), func(c *SC, e Lin) { c.edited(p, e, StrV{}); c.pointIs(c.P()) })
		}, "n"),
		"delete-backward-char": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			c.between(p.sub(c.count()), lc(0), p, func(c *SC, s Lin) { c.edited(s, p, StrV{}); c.pointIs(s.addk(1)) })
		}, "n"),
		"delete-region": mv("edit", "C09", 0, func(c *SC) {
			c.minmax(c.P(), c.M(), func(c *SC, lo, hi Lin) { c.edited(lo.addk(-1), hi.addk(-1), StrV{}); c.pointIs(lo) })
		}),
		"replace-region": mv("edit", "C09", 1, func(c *SC) {
			s := c.argStr(0)
			c.minmax(c.P(), c.M(), func(c *SC, lo, hi Lin) {
				c.split(ceq(hi.sub(lo)), func(c *SC) { c.edited(lc(0), lc(0), StrV{}); c.pointIs(c.P()) },
					func(c *SC) { c.edited(lo.addk(-1), hi.addk(-1), s); c.pointIs(lo.add(s.length())) })
			})
		}, "s"),
		"kill-word": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			e := c.removedFrom(p)
			c.times("word-end", p, c.count(), e, "the text removed does not end at the count-th word end")
			c.pointIs(c.P())
		}, "n"),
		"backward-kill-word": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			a := c.P2().addk(-1)
			c.times("word-start", p, c.count(), a, "the text removed does not start at the count-th word start")
			c.split(cge(c.count().addk(-1)), func(c *SC) {
				c.between(p.addk(1), lc(0), c.L(), func(c *SC, e Lin) { c.edited(a, e, StrV{}) })
			}, func(c *SC) { // nothing, or the character at point
				c.between(p.addk(1), lc(0), c.L(), func(c *SC, e Lin) {
					if !c.isEdit(p, p, StrV{}) {
						c.edited(p, e, StrV{})
					}
				})
			})
		}, "n"),
		"kill-line": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			c.pointIs(c.P())
			c.split(cge(p.sub(c.L())), func(c *SC) { c.edited(lc(0), lc(0), StrV{}) }, func(c *SC) {
				n := c.count()
				c.split(ceq(n.addk(-1)), func(c *SC) {
					e := c.removedFrom(p.addk(1))
					c.must(c.lineEnd(p.addk(1), e), "the text removed does not end at the end of the line")
				}, func(c *SC) {
					e := c.removedFrom(p)
					c.times("next-line", p, n, e, "the text removed does not end after the count-th line")
				})
			})
		}, "n"),
		"delete-line": mv("edit", "C09", 0, func(c *SC) {
			p := c.P().addk(-1)
			a := c.P2().addk(-1)
			c.must(c.lineStart(p, a), "the text removed does not start at the beginning of the line")
			e := c.removedFrom(a)
			c.times("next-line", p, c.count(), e, "the text removed does not end after the count-th line")
		}, "n"),
	}
}

// ---- specification context -----------------------------------------------------

// SC evaluates a specification in one final state.
type SC struct {
	lab   *Lab
	an    *An
	st    *State
	pre   Obs
	post  Obs
	args  []Val
	ret   Val
	fails *[]string
	done  *int
}

func (c *SC) with(st *State) *SC { n := *c; n.st = st; return &n }

func (c *SC) must(ok bool, f string, a ...interface{}) {
	*c.done++
	if !ok {
		*c.fails = append(*c.fails, fmt.Sprintf(f, a...)+c.context())
	}
}

func (c *SC) context() string {
	return fmt.Sprintf(" [point %s -> %s, mark %s -> %s, text -> %s, value %s; when %s]", c.an.show(c.pre.Point), c.an.show(c.post.Point), c.an.show(c.pre.Mark), c.an.show(c.post.Mark),
		c.st.showStr(c.post.Text), c.an.showVal(c.st, c.ret), short(c.st.describe(), 700))
}

func (c *SC) T() StrV { return c.pre.Text }
func (c *SC) L() Lin  { return c.pre.Text.length() }
func (c *SC) P() Lin  { return c.pre.Point }
func (c *SC) M() Lin  { return c.pre.Mark }
func (c *SC) P2() Lin { return c.post.Point }
func (c *SC) M2() Lin { return c.post.Mark }

func (c *SC) le(a, b Lin) bool { return c.st.le(a, b) }

func (c *SC) split(q Cond, yes, no func(c *SC)) {
	for _, s := range c.st.assume(q) {
		if s.feasible() {
			yes(c.with(s))
		}
	}
	for _, s := range c.st.assume(q.not()) {
		if s.feasible() {
			no(c.with(s))
		}
	}
}

// between calls f with x restricted to [lo,hi] (lo <= hi).
func (c *SC) between(x, lo, hi Lin, f func(c *SC, x Lin)) {
	c.split(cge(lo.sub(x)), func(c *SC) { f(c, lo) }, func(c *SC) {
		c.split(cge(x.sub(hi)), func(c *SC) { f(c, hi) }, func(c *SC) { f(c, x) })
	})
}

func (c *SC) clamped(x, hi Lin, f func(c *SC, x Lin)) { c.between(x, lc(1), hi, f) }

func (c *SC) minmax(a, b Lin, f func(c *SC, lo, hi Lin)) {
	c.split(cge(b.sub(a)), func(c *SC) { f(c, a, b) }, func(c *SC) { f(c, b, a) })
}

func (c *SC) pointClamped(x Lin) {
	c.clamped(x, c.L().addk(1), func(c *SC, x Lin) { c.pointIs(x) })
}

func (c *SC) pointIs(x Lin) {
	c.must(c.st.eq(c.P2(), x), "point is %s, not %s", c.an.show(c.P2()), c.an.show(x))
}

func (c *SC) markIs(x Lin) {
	// the mark may have been moved inside the (shortened) buffer
	c.must(c.st.eq(c.M2(), x), "mark is %s, not %s", c.an.show(c.M2()), c.an.show(x))
}

// ---- text ----

// base of the original text.
func (c *SC) base() *Base {
	s := c.pre.Text
	if len(s.P) == 1 && s.P[0].Base != nil {
		return s.P[0].Base
	}
	return nil
}

func (c *SC) sub(lo, hi Lin) StrV {
	b := c.base()
	return StrV{P: []Piece{{Base: b, Lo: lo, Hi: hi}}}
}

func (c *SC) isEdit(a, b Lin, ins StrV) bool {
	want := concat(concat(c.sub(lc(0), a), ins), c.sub(b, c.L()))
	return c.st.strEq(c.post.Text, want) || c.st.strEq(c.st.norm(c.post.Text), c.st.norm(want))
}

func (c *SC) edited(a, b Lin, ins StrV) {
	c.must(c.isEdit(a, b, ins), "the text is not text[0:%s] + %s + text[%s:]", c.an.show(a), c.st.showStr(ins), c.an.show(b))
}

// removedFrom gives the end of the range removed at position a.
func (c *SC) removedFrom(a Lin) Lin {
	e := a.add(c.L()).sub(c.post.Text.length())
	c.must(c.isEdit(a, e, StrV{}), "the text is not the original without a range starting at %s", c.an.show(a))
	return e
}

func (c *SC) allIn(lo, hi Lin, s ByteSet) bool { return c.st.allIn(c.base(), lo, hi, s) }
func (c *SC) byteIn(i Lin, s ByteSet) bool     { return c.st.byteSet(c.base(), i).subset(s) }
func (c *SC) atStart(i Lin) bool               { return c.le(i, lc(0)) }
func (c *SC) atEnd(i Lin) bool                 { return c.le(c.L(), i) }

func (c *SC) lineStart(p, q Lin) bool {
	return c.le(q, p) && c.allIn(q, p, nlSet.compl()) && (c.atStart(q) || c.byteIn(q.addk(-1), nlSet))
}

func (c *SC) lineEnd(p, q Lin) bool {
	return c.le(p, q) && c.allIn(p, q, nlSet.compl()) && (c.atEnd(q) || c.byteIn(q, nlSet)) && c.le(q, c.L())
}

func (c *SC) countNL(lo, hi, n Lin) bool {
	return c.st.cntHolds(CntFact{c.base(), nlSet, lo, hi, n})
}

// times: res is the max(n,0)-fold application of step f to p.
func (c *SC) times(f string, p, n, res Lin, what string) {
	c.split(cge(n.addk(-1)), func(c *SC) {
		c.split(ceq(n.addk(-1)), func(c *SC) {
			c.must(c.st.isStep(f, c.base(), p, res) || c.st.iterHolds(IterFact{f, c.base(), p, lc(1), res}) || c.st.iterHolds(IterFact{f, c.base(), p, n, res}), "%s (count 1)", what)
		}, func(c *SC) {
			c.must(c.st.iterHolds(IterFact{f, c.base(), p, n, res}), "%s", what)
		})
	}, func(c *SC) {
		c.must(c.st.eq(p, res), "%s (count below 1)", what)
	})
}

func (c *SC) gotoLine(n Lin) {
	q := c.P2().addk(-1)
	b := c.base()
	w := c.pre.Text
	ok := func(c *SC, k Lin) bool { // q starts line k (0-based), which exists
		if c.st.eq(k, lc(0)) {
			return c.st.eq(q, lc(0))
		}
		if v, ok := c.st.findUF("splitAt", []Val{w, IntV{lc('\n')}, IntV{k}}); ok {
			// the start of an existing line is a position of the text
			s := c.st.add(c.L().sub(v.(IntV).L))
			if s == nil || s.eq(v.(IntV).L, q) {
				return true
			}
		}
		if c.countNL(lc(0), q, k) && (c.atStart(q) || c.byteIn(q.addk(-1), nlSet)) {
			return true
		}
		return c.st.iterHolds(IterFact{"line-next", b, lc(0), k, q})
	}
	c.split(cge(n.neg().addk(1)), func(c *SC) { // n <= 1
		c.must(ok(c, lc(0)), "point is not at the start of the first line")
	}, func(c *SC) {
		// number of lines, if the analysis knows it
		for _, f := range c.st.cnts {
			if f.Base == b && f.Set == nlSet && c.st.eq(f.Lo, lc(0)) && c.st.eq(f.Hi, b.Len) {
				c.split(cge(n.addk(-1).sub(f.N)), func(c *SC) {
					c.must(ok(c, f.N), "point is not at the start of the last line")
				}, func(c *SC) {
					c.must(ok(c, n.addk(-1)), "point is not at the start of the requested line")
				})
				return
			}
		}
		c.must(ok(c, n.addk(-1)), "point is not at the start of the requested line")
	})
}

// ---- arguments and values ----

func (c *SC) count() Lin {
	if len(c.args) == 0 {
		return lc(1)
	}
	return c.argNum(0)
}

func (l *Lab) valueType(kind string) types.Type {
	n := map[string]string{"s": "String", "n": "Number", "y": "Symbol", "l": "List"}[kind]
	t := l.w.typ("edlisp", n)
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

// content reads the payload of a value of the given kind: its only field.
func (l *Lab) content(an *An, st *State, v Val, kind string) (Val, bool) {
	if s, ok := v.(SymV); ok {
		d, ok := st.dyn[s.ID]
		if !ok {
			return nil, false
		}
		v = d
	}
	i, ok := v.(IfaceV)
	if !ok || !types.Identical(i.T, l.valueType(kind)) {
		return nil, false
	}
	p, ok := i.V.(PtrV)
	if !ok {
		return nil, false
	}
	s, ok := an.load(st, p).(StructV)
	if !ok || len(s.F) == 0 {
		return nil, false
	}
	for _, f := range s.F {
		switch f.(type) {
		case FloatV:
			if kind == "n" {
				return f, true
			}
		case StrV:
			if kind == "s" || kind == "y" {
				return f, true
			}
		}
	}
	return nil, false
}

func (c *SC) argStr(i int) StrV {
	v, ok := c.lab.content(c.an, c.st, c.args[i], "s")
	s, ok2 := v.(StrV)
	if !ok || !ok2 {
		return lit("?no string argument?")
	}
	return s
}

// argNum is the integer part of argument i.
func (c *SC) argNum(i int) Lin {
	v, ok := c.lab.content(c.an, c.st, c.args[i], "n")
	f, ok2 := v.(FloatV)
	if !ok || !ok2 || f.F == nil {
		return ls(c.st.newSym("?no number argument?"))
	}
	return f.F.Tr
}

func (c *SC) num() (Lin, bool) {
	v, ok := c.lab.content(c.an, c.st, c.ret, "n")
	f, ok2 := v.(FloatV)
	if !ok || !ok2 || f.Exact == nil {
		return Lin{}, false
	}
	return *f.Exact, true
}

func (c *SC) retNum(x Lin) {
	n, ok := c.num()
	c.must(ok && c.st.eq(n, x), "the value is %s, not the number %s", c.an.showVal(c.st, c.ret), c.an.show(x))
}

func (c *SC) str() (StrV, bool) {
	v, ok := c.lab.content(c.an, c.st, c.ret, "s")
	s, ok2 := v.(StrV)
	return s, ok && ok2
}

func (c *SC) retStr(x StrV) {
	s, ok := c.str()
	c.must(ok && c.st.strEq(s, x), "the value is %s, not the string %s", c.an.showVal(c.st, c.ret), c.st.showStr(x))
}

func (c *SC) sym() (string, bool) {
	v, ok := c.lab.content(c.an, c.st, c.ret, "y")
	s, ok2 := v.(StrV)
	if !ok || !ok2 {
		return "", false
	}
	return c.st.norm(s).constant()
}

// subText: the value is s[a-1:b-1] with both positions clamped.
func (c *SC) subText(s StrV, a, b Lin) {
	n := s.length()
	c.between(a.addk(-1), lc(0), n, func(c *SC, lo Lin) {
		c.between(b.addk(-1), lc(0), n, func(c *SC, hi Lin) {
			c.split(cge(hi.sub(lo).addk(-1)), func(c *SC) { c.retStr(c.st.slice(s, lo, hi)) }, func(c *SC) { c.retStr(StrV{}) })
		})
	})
}

func (c *SC) uf(name string, args ...StrV) StrV {
	var vs []Val
	allc := true
	for _, a := range args {
		a = c.st.norm(a)
		if _, ok := a.constant(); !ok {
			allc = false
		}
		vs = append(vs, a)
	}
	if allc && len(args) == 1 {
		k, _ := c.st.norm(args[0]).constant()
		switch name {
		case "strings.ToUpper":
			return lit(strings.ToUpper(k))
		case "strings.ToLower":
			return lit(strings.ToLower(k))
		}
	}
	return c.st.ufStr(name, vs, nil)
}

func (c *SC) capitalize() {
	s := c.argStr(0)
	c.split(ceq(s.length()), func(c *SC) { c.retStr(StrV{}) }, func(c *SC) {
		// first character: one byte if ASCII, else as long as the decoder says
		size := func(c *SC, n Lin) {
			c.retStr(concat(c.uf("strings.ToUpper", c.st.slice(s, lc(0), n)), c.uf("strings.ToLower", c.st.slice(s, n, s.length()))))
		}
		p := c.st.norm(s).P[0]
		if p.Base == nil {
			return
		}
		c.split(Cond{Kind: CByte, Base: p.Base, L: p.Lo, Set: byteRange(0, 127)}, func(c *SC) { size(c, lc(1)) }, func(c *SC) {
			if v, ok := c.st.findUF("runesize", []Val{s}); ok {
				size(c, v.(IntV).L)
				return
			}
			c.must(false, "a first character outside ASCII is not decoded as a whole")
		})
	})
}

func (c *SC) predFalse(op string, args ...StrV) bool {
	var vs []Val
	for _, a := range args {
		vs = append(vs, c.st.norm(a))
	}
	return len(c.st.assume(c.an.pred(op, vs...))) == 0
}

func (c *SC) predSplit(op string, yes, no func(c *SC), args ...StrV) {
	var vs []Val
	for _, a := range args {
		vs = append(vs, c.st.norm(a))
	}
	c.split(c.an.pred(op, vs...), yes, no)
}

func (c *SC) ufInt(op string, args ...Val) (Lin, bool) {
	v, ok := c.st.findUF(op, args)
	if !ok {
		return Lin{}, false
	}
	i, ok := v.(IntV)
	return i.L, ok
}

func (c *SC) retNil() {
	s, ok := c.sym()
	c.must(ok && s == "nil", "the value is %s, not the symbol nil", c.an.showVal(c.st, c.ret))
}

func (c *SC) retT() {
	s, ok := c.sym()
	c.must(ok && s == "t", "the value is %s, not the symbol t", c.an.showVal(c.st, c.ret))
}

// index gives the position of the first or last occurrence of x in s.
func (c *SC) index(last bool, s, x StrV, found func(c *SC, i Lin), missing func(c *SC)) {
	op := "index"
	if last {
		op = "lastindex"
	}
	c.split(ceq(x.length()), func(c *SC) {
		at := lc(0)
		if last {
			at = s.length()
		}
		// what the library function computes for an empty text
		st := c.st.clone()
		i := st.ufInt(op, []Val{st.norm(s), st.norm(x)}, nil)
		for _, u := range st.uf {
			// the same application recorded before the text was known empty
			if u.Fn == op && len(u.Args) == 2 && st.sameVal(u.Args[0], s) {
				if y, ok := u.Args[1].(StrV); ok && st.eq(y.length(), lc(0)) {
					if v, ok := u.Ret.(IntV); ok {
						if st = st.addEq(v.L.sub(at)); st == nil {
							return
						}
					}
				}
			}
		}
		if st = st.addEq(i.sub(at)); st != nil && st.feasible() {
			found(c.with(st), at)
		}
	}, func(c *SC) {
		c.predSplit("contains", func(c *SC) {
			i := c.st.ufInt(op, []Val{c.st.norm(s), c.st.norm(x)}, nil)
			found(c, i)
		}, missing, s, x)
	})
}

func (c *SC) stringMatch() {
	pat, s := c.argStr(0), c.argStr(1)
	c.predSplit("regexp ok", func(c *SC) {
		c.predSplit("re.match", func(c *SC) {
			i, ok := c.ufInt("re.lo", c.st.norm(pat), c.st.norm(s), IntV{lc(0)})
			n, ok2 := c.num()
			c.must(ok && ok2 && c.st.eq(i, n), "the value is not the position of the first match")
		}, func(c *SC) { c.retNil() }, pat, s)
	}, func(c *SC) {
		c.index(false, s, pat, func(c *SC, i Lin) { c.retNum(i) }, func(c *SC) { c.retNil() })
	}, pat)
}

func (c *SC) lookingAt() {
	pat := c.argStr(0)
	c.split(cge(c.P().addk(-1).sub(c.L())), func(c *SC) { // at the end
		if s, ok := c.sym(); ok && s == "t" {
			return // an empty match at the end of the buffer
		}
		c.retNil()
	}, func(c *SC) {
		rest := c.st.slice(c.T(), c.P().addk(-1), c.L())
		c.predSplit("regexp ok", func(c *SC) {
			c.predSplit("re.match", func(c *SC) {
				lo, ok := c.ufInt("re.lo", c.st.norm(pat), c.st.norm(rest), IntV{lc(0)})
				if !ok {
					c.must(false, "a match after point is not examined")
					return
				}
				c.split(ceq(lo), func(c *SC) { c.retT() }, func(c *SC) { c.retNil() })
			}, func(c *SC) { c.retNil() }, pat, rest)
		}, func(c *SC) {
			c.affix(rest, pat, false)
		}, pat)
	})
}

// affix: the value says whether s starts (ends) with x.
func (c *SC) affix(s, x StrV, suffix bool) {
	n, m := s.length(), x.length()
	c.split(cge(m.sub(n).addk(-1)), func(c *SC) { c.retNil() }, func(c *SC) {
		part := c.st.slice(s, lc(0), m)
		if suffix {
			part = c.st.slice(s, n.sub(m), n)
		}
		c.split(Cond{Kind: CStrEq, S: part, T: x}, func(c *SC) { c.retT() }, func(c *SC) { c.retNil() })
	})
}

// regexpFacts: a pattern that compiles also parses, and stays valid when it
// is grouped and anchored.
func (c *SC) regexpFacts(pat StrV) bool {
	for _, u := range c.st.uf {
		if u.Fn != "pred:regexp ok" && u.Fn != "pred:syntax ok" || len(u.Args) != 1 {
			continue
		}
		p, ok := u.Args[0].(StrV)
		id, ok2 := u.Ret.(OpaqueV)
		if !ok || !ok2 {
			continue
		}
		if c.st.strEq(p, pat) && u.Fn == "pred:regexp ok" || !c.st.strEq(p, pat) && !c.anchored(p, pat) {
			continue
		}
		if b, ok := c.st.opq[fmt.Sprintf("p%d", id.ID)]; ok && !b {
			return false
		}
	}
	return true
}

func (c *SC) lookingBack() {
	pat := c.argStr(0)
	c.split(ceq(c.P().addk(-1)), func(c *SC) { // nothing before point
		if s, ok := c.sym(); ok && s == "t" {
			return
		}
		c.retNil()
	}, func(c *SC) {
		before := c.st.slice(c.T(), lc(0), c.P().addk(-1))
		c.predSplit("regexp ok", func(c *SC) {
			// decided by a match of the pattern anchored at the end
			s, ok := c.sym()
			if !ok || (s != "t" && s != "nil") {
				c.must(false, "the value is %s, neither t nor nil", c.an.showVal(c.st, c.ret))
				return
			}
			found := false
			for _, u := range c.st.uf {
				if u.Fn != "pred:re.match" || len(u.Args) != 2 {
					continue
				}
				p, ok1 := u.Args[0].(StrV)
				t, ok2 := u.Args[1].(StrV)
				if !ok1 || !ok2 || !c.st.strEq(t, before) || !c.anchored(p, pat) {
					continue
				}
				if id, ok := u.Ret.(OpaqueV); ok {
					if b, ok := c.st.opq[fmt.Sprintf("p%d", id.ID)]; ok && b == (s == "t") {
						found = true
					}
				}
			}
			c.must(found || !c.regexpFacts(pat), "the value is not decided by matching the pattern, anchored at point, against the text before point")
		}, func(c *SC) {
			c.affix(before, pat, true)
		}, pat)
	})
}

// anchored: p is pat grouped and anchored at the end of the text.
func (c *SC) anchored(p, pat StrV) bool {
	p = c.st.norm(p)
	n := len(p.P)
	if n < 3 || p.P[0].Base != nil || p.P[n-1].Base != nil {
		return false
	}
	a, z := p.P[0].Lit, p.P[n-1].Lit
	if (a != "(?:" && a != "(") || (z != `)\z` && z != ")$") {
		return false
	}
	mid := StrV{P: p.P[1 : n-1]}
	if c.st.strEq(mid, pat) {
		return true
	}
	if v, ok := c.st.findUF("syntax.String", []Val{c.st.norm(pat)}); ok {
		if s, ok := v.(StrV); ok && c.st.strEq(mid, s) {
			return true
		}
	}
	return false
}

// ---- search ----

// matched calls f with the bounds (offsets in the text) of the match a
// search must find.
func (c *SC) matched(back, re bool, f func(c *SC, lo, hi Lin), none func(c *SC)) {
	pat := c.argStr(0)
	p := c.P().addk(-1)
	area, off := c.st.slice(c.T(), p, c.L()), p
	if back {
		area, off = c.st.slice(c.T(), lc(0), p), lc(0)
	}
	if !re {
		c.index(back, area, pat, func(c *SC, i Lin) {
			f(c, off.add(i), off.add(i).add(pat.length()))
		}, none)
		return
	}
	c.predSplit("regexp ok", func(c *SC) {
		c.predSplit("re.match", func(c *SC) {
			k := lc(0)
			if back {
				n, ok := c.ufInt("re.count", c.st.norm(pat), c.st.norm(area))
				if !ok {
					c.must(false, "the last match is not determined")
					return
				}
				k = n.addk(-1)
			}
			lo, ok := c.ufInt("re.lo", c.st.norm(pat), c.st.norm(area), IntV{k})
			hi, ok2 := c.ufInt("re.hi", c.st.norm(pat), c.st.norm(area), IntV{k})
			if !ok || !ok2 {
				c.must(false, "the bounds of the match are not determined")
				return
			}
			f(c, off.add(lo), off.add(hi))
		}, none, pat, area)
	}, none, pat)
}

func (c *SC) searched(back, re bool) {
	c.matched(back, re, func(c *SC, lo, hi Lin) { c.pointIs(hi.addk(1)) },
		func(c *SC) { c.must(false, "the search succeeds although there is no match") })
}

// notFound: an error is right because there is no match.
func (c *SC) notFound(back, re bool) bool {
	ok := true
	c.matched(back, re, func(c *SC, lo, hi Lin) {
		// an empty match at the very end of the buffer may be refused
		if !back && c.le(c.L(), c.P().addk(-1)) {
			return
		}
		ok = false
	}, func(c *SC) {})
	return ok
}

// ---- driver --------------------------------------------------------------------

// BRun is the analysis of one built-in function at one argument count.
type BRun struct {
	Name  string
	N     int
	Many  bool
	An    *An
	Outs  []Outcome
	Panic string
}

// runAll analyses built-in functions for 0..maxArgs and more arguments.
func (l *Lab) runAll(names []string, counts func(name string) []int) []*BRun {
	type job struct {
		name string
		n    int
	}
	var jobs []job
	for _, n := range names {
		for _, k := range counts(n) {
			jobs = append(jobs, job{n, k})
		}
	}
	res := make([]*BRun, len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		b := &BRun{Name: j.name, N: j.n, Many: j.n < 0}
		b.An = newAn(l.w)
		func() {
			defer func() {
				if e := recover(); e != nil {
					b.Panic = fmt.Sprintf("%v", e)
				}
			}()
			if j.n < 0 {
				b.N = -j.n
				b.Outs = l.runBuiltin(b.An, l.builtins[j.name], -j.n, true)
			} else {
				b.Outs = l.runBuiltin(b.An, l.builtins[j.name], j.n, false)
			}
		}()
		res[i] = b
	})
	return res
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (l *Lab) construct(name string) string {
	if f := l.builtins[name]; f != nil {
		return name + " (" + fnName(f) + ", " + l.w.pos(f.Pos()) + ")"
	}
	return name
}
