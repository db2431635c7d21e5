package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: documentation and functions agree ------------------------------------

// FnDoc is one entry of the documentation, as the initialisation of the
// packages leaves it.
type FnDoc struct {
	Key, Name string
	Category  string
	Params    []ParDoc
	Examples  []string
	SeeAlso   []string
}

type ParDoc struct {
	Name, Type, Desc string
	Optional         bool
}

// docTable recovers the documentation from the interpreted initialisation.
func (c *ctx) docTable(r *Report) map[string]*FnDoc {
	an := newAn(c.w)
	st := an.newState()
	out := map[string]*FnDoc{}
	t := c.w.typ("edlisp", "FunctionDoc")
	if t == nil {
		r.fail("resolved", "edlisp.FunctionDoc", "the type of documentation entries is not found")
		return nil
	}
	tables := 0
	for _, g := range sortedGlobals(c.w) {
		is := func(e types.Type) bool {
			if p, ok := e.(*types.Pointer); ok {
				e = p.Elem()
			}
			return types.Identical(e, t)
		}
		v := an.load(st, PtrV{Obj: c.w.globals[g]})
		var keys, vals []Val
		ok := false
		switch u := g.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Map:
			if !is(u.Elem()) {
				continue
			}
			if mv, isMap := v.(MapV); isMap {
				if o := st.obj(mv.Obj); o != nil && o.Map != nil && !o.Map.Open {
					keys, vals, ok = o.Map.Keys, o.Map.Vals, true
				}
			}
		case *types.Slice:
			if !is(u.Elem()) {
				continue
			}
			vals, ok = an.constSlice(st, v)
		default:
			continue
		}
		tables++
		if !ok {
			r.fail("resolved", g.String(), "the documentation is not resolved")
			continue
		}
		for i, v := range vals {
			if p, isPtr := v.(PtrV); isPtr {
				v = an.load(st, p)
			}
			d := &FnDoc{}
			ok := v != nil && an.docEntry(st, t, v, d)
			d.Key = d.Name
			if ok && keys != nil {
				var s StrV
				if s, ok = an.strOf(st, keys[i]); ok {
					d.Key, ok = s.constant()
				}
			}
			if !ok {
				r.fail("resolved", g.String(), "entry %d of the documentation is not resolved", i)
				continue
			}
			out[d.Key] = d
		}
	}
	r.check(tables == 1, "resolved", "documentation", "%d tables of documentation", tables)
	return out
}

func (an *An) docEntry(st *State, t types.Type, v Val, d *FnDoc) bool {
	str := func(v Val) (string, bool) {
		s, ok := an.strOf(st, v)
		if !ok {
			return "", false
		}
		return s.constant()
	}
	list := func(v Val) ([]Val, bool) {
		if v == nil {
			return nil, false
		}
		if _, isNil := v.(NilV); isNil {
			return nil, true
		}
		return an.constSlice(st, v)
	}
	var ok bool
	if d.Name, ok = str(fieldOf(v, t, "Name")); !ok {
		return false
	}
	if d.Category, ok = str(fieldOf(v, t, "Category")); !ok {
		return false
	}
	ps, ok := list(fieldOf(v, t, "Parameters"))
	if !ok {
		return false
	}
	pt := elemOf(t, "Parameters")
	for _, p := range ps {
		var x ParDoc
		var a, b bool
		x.Name, a = str(fieldOf(p, pt, "Name"))
		x.Type, b = str(fieldOf(p, pt, "Type"))
		x.Desc, _ = str(fieldOf(p, pt, "Description"))
		o, isB := fieldOf(p, pt, "Optional").(BoolV)
		if !a || !b || !isB {
			return false
		}
		v, known := st.truth(o.C)
		if !known {
			return false
		}
		x.Optional = v
		d.Params = append(d.Params, x)
	}
	es, ok := list(fieldOf(v, t, "Examples"))
	if !ok {
		return false
	}
	et := elemOf(t, "Examples")
	for _, e := range es {
		s, ok := str(fieldOf(e, et, "Input"))
		if !ok {
			return false
		}
		d.Examples = append(d.Examples, s)
	}
	as, ok := list(fieldOf(v, t, "SeeAlso"))
	if !ok {
		return false
	}
	for _, a := range as {
		s, ok := str(a)
		if !ok {
			return false
		}
		d.SeeAlso = append(d.SeeAlso, s)
	}
	return true
}

// lookups: the entries are found by name, and listed once each.
func (c *ctx) lookups(r *Report, docs map[string]*FnDoc) {
	t := c.w.typ("edlisp", "FunctionDoc")
	name := func(an *An, st *State, v Val) string {
		s, ok := an.strOf(st, fieldOf(v, t, "Name"))
		if !ok {
			return "?"
		}
		n, ok := s.constant()
		if !ok {
			return "?"
		}
		return n
	}
	// by name
	if f := c.w.fn("edlisp", "GetDocumentation"); f != nil {
		try := func(what string, arg func(st *State) StrV) {
			an := newAn(c.w)
			st := an.newState()
			q := arg(st)
			n := 0
			for _, o := range an.run(st, f, q) {
				if o.kind != outReturn || !o.st.feasible() {
					r.check(o.kind == outReturn, "found by name", what, "the lookup does not return")
					continue
				}
				n++
				res, ok := o.ret.(TupleV)
				if !ok || len(res.E) != 2 {
					r.fail("found by name", what, "the result is not resolved")
					continue
				}
				found, known := false, false
				if b, ok := res.E[1].(BoolV); ok {
					found, known = o.st.truth(b.C)
				}
				k := o.st.norm(q)
				key, isConst := k.constant()
				switch {
				case !known:
					r.fail("found by name", what, "whether it is found is not resolved")
				case found:
					got := name(an, o.st, res.E[0])
					r.check(docs[got] != nil && o.st.strEq(q, lit(got)), "found by name", what, "%s is found for %s", got, o.st.showStr(q))
				case isConst:
					r.check(docs[key] == nil, "found by name", what, "%s is not found", key)
				default:
					r.ok("found by name", what)
				}
			}
			r.check(n > 0, "found by name", what, "the lookup never returns")
			r.engine(an, "edlisp.GetDocumentation")
		}
		for _, k := range sortedKeys(docs) {
			try("documentation of "+k, func(*State) StrV { return lit(k) })
		}
		try("documentation of any other name", func(st *State) StrV { return baseStr(st.newBase("name")) })
	} else {
		r.fail("resolved", "edlisp.GetDocumentation", "the lookup is not found")
	}
	// lists
	list := func(fn, what string, want map[string]bool, args ...Val) {
		f := c.w.fn("edlisp", fn)
		if f == nil {
			r.fail("resolved", "edlisp."+fn, "the list is not found")
			return
		}
		an := newAn(c.w)
		st := an.newState()
		outs := an.run(st, f, args...)
		r.check(len(outs) > 0, "listed", what, "there is no list")
		for _, o := range outs {
			if o.kind != outReturn {
				r.fail("listed", what, "the list is not returned")
				continue
			}
			var els []Val
			for _, e := range events(o.st.ev) {
				if e.Kind == "sort" && len(e.Ret) > 0 {
					els = e.Ret
				}
			}
			now, ok := an.constSlice(o.st, o.ret)
			r.check(ok && (els == nil || len(els) == len(now)), "listed", what, "the list is not resolved")
			if els == nil {
				els = now
			}
			got := map[string]bool{}
			for _, e := range els {
				if p, ok := e.(PtrV); ok {
					e = an.load(o.st, p)
				}
				n := name(an, o.st, e)
				r.check(!got[n], "listed", what, "%s is listed twice", n)
				got[n] = true
				r.check(want[n], "listed", what, "%s is listed", n)
			}
			for n := range want {
				r.check(got[n], "listed", what, "%s is not listed", n)
			}
		}
		r.engine(an, "edlisp."+fn)
	}
	all := map[string]bool{}
	cats := map[string]map[string]bool{}
	for n, d := range docs {
		all[n] = true
		if cats[d.Category] == nil {
			cats[d.Category] = map[string]bool{}
		}
		cats[d.Category][n] = true
	}
	list("GetAllDocumentation", "list of all functions", all)
	for _, k := range sortedKeys(cats) {
		list("GetDocumentationByCategory", "list of category "+k, cats[k], lit(k))
	}
}

// Call is a call in an example.
type Call struct {
	Fn   string
	Args []CallArg
}

type CallArg struct {
	Kind string // n, s, y or call
	Text string
	Call *Call
}

// parseScript reads an example in the shell-like language: commands are
// separated by line ends and semicolons, and are words or one list.
func parseScript(s string) ([]*Call, error) {
	var toks []string
	var calls []*Call
	flush := func() error {
		if len(toks) == 0 {
			return nil
		}
		ts := toks
		toks = nil
		if ts[0] != "(" {
			ts = append(append([]string{"("}, ts...), ")")
		}
		c, n, err := parseCall(ts, 0)
		if err == nil && n != len(ts) {
			err = fmt.Errorf("text after the expression: %s", strings.Join(ts[n:], " "))
		}
		calls = append(calls, c)
		return err
	}
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ';' || ch == '\n':
			if err := flush(); err != nil {
				return nil, err
			}
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == '(' || ch == ')':
			toks = append(toks, string(ch))
			i++
		default:
			j, quoted := i, false
			for j < len(s) {
				if quoted {
					if s[j] == '\\' && j+1 < len(s) {
						j++
					} else if s[j] == '"' {
						quoted = false
					}
				} else if s[j] == '"' {
					quoted = true
				} else if strings.IndexByte("(); \t\r\n", s[j]) >= 0 {
					break
				}
				j++
			}
			if quoted {
				return nil, fmt.Errorf("a string does not end")
			}
			toks = append(toks, s[i:j])
			i = j
		}
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return calls, nil
}

func parseCall(ts []string, i int) (*Call, int, error) {
	c := &Call{}
	i++ // "("
	for first := true; ; first = false {
		if i >= len(ts) {
			return nil, i, fmt.Errorf("a list does not end")
		}
		t := ts[i]
		switch {
		case t == ")":
			if first {
				return nil, i, fmt.Errorf("an empty list is called")
			}
			return c, i + 1, nil
		case t == "(":
			if first {
				return nil, i, fmt.Errorf("a list is called")
			}
			x, n, err := parseCall(ts, i)
			if err != nil {
				return nil, n, err
			}
			c.Args = append(c.Args, CallArg{Kind: "call", Call: x})
			i = n
			continue
		case strings.HasPrefix(t, `"`) && strings.HasSuffix(t, `"`):
			u, err := strconv.Unquote(t)
			if err != nil {
				return nil, i, fmt.Errorf("%s is not a string literal", t)
			}
			if first {
				return nil, i, fmt.Errorf("a string is called")
			}
			c.Args = append(c.Args, CallArg{Kind: "s", Text: u})
		default:
			_, err := strconv.ParseFloat(t, 64)
			switch {
			case first && err == nil:
				return nil, i, fmt.Errorf("a number is called")
			case first:
				c.Fn = t
			case err == nil:
				c.Args = append(c.Args, CallArg{Kind: "n", Text: t})
			default:
				c.Args = append(c.Args, CallArg{Kind: "y", Text: t})
			}
		}
		i++
	}
}

var kindNames = map[string]string{"n": "number", "s": "string", "y": "symbol", "l": "list"}

// FnShape is what the code of a function accepts and returns.
type FnShape struct {
	Counts map[int]bool
	Many   bool
	Kinds  map[int]map[string]bool // per argument
	Ret    map[string]bool
}

func (s *FnShape) accepts(n int) bool {
	if n >= 4 {
		return s.Many
	}
	return s.Counts[n]
}

func (c *ctx) shapes(r *Report) map[string]*FnShape {
	out := map[string]*FnShape{}
	kinds := []string{"s", "n", "y", "l"}
	for _, b := range c.runsFor(r, c.lab.names, func(string) []int { return []int{0, 1, 2, 3, -4} }) {
		s := out[b.Name]
		if s == nil {
			s = &FnShape{Counts: map[int]bool{}, Kinds: map[int]map[string]bool{}, Ret: map[string]bool{}}
			out[b.Name] = s
		}
		for i := range b.Outs {
			o := &b.Outs[i]
			if o.out.kind != outReturn || !o.ok || !o.out.st.feasible() {
				continue
			}
			if b.Many {
				s.Many = true
			} else {
				s.Counts[b.N] = true
			}
			for _, k := range kinds {
				ty := c.lab.valueType(k)
				for _, q := range o.out.st.assume(Cond{Kind: CType, V: o.ret, Ty: ty}) {
					if q.feasible() {
						s.Ret[k] = true
					}
				}
				if b.Many {
					continue
				}
				for j, v := range o.args {
					for _, q := range o.out.st.assume(Cond{Kind: CType, V: v, Ty: ty}) {
						if q.feasible() {
							if s.Kinds[j] == nil {
								s.Kinds[j] = map[string]bool{}
							}
							s.Kinds[j][k] = true
						}
					}
				}
			}
		}
	}
	return out
}

func kindSet(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, kindNames[k])
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

var moreRE = regexp.MustCompile(`(?i)\bor more\b|\bany number\b|\ball\b`)

func checkC24(c *ctx, r *Report) {
	docs := c.docTable(r)
	for _, n := range c.lab.names {
		r.check(docs[n] != nil, "documented", c.lab.construct(n), "%s can be called and is not documented", n)
	}
	shapes := c.shapes(r)
	r.check(len(docs) >= 40, "analysed", "documentation", "only %d entries of documentation found", len(docs))
	examples := 0
	for _, n := range sortedKeys(docs) {
		d := docs[n]
		con := "documentation of " + n
		r.check(d.Name == n, "documented", con, "the entry is named %s", d.Name)
		r.check(c.lab.builtins[n] != nil, "callable", con, "%s is documented and not a function", n)
		for _, s := range d.SeeAlso {
			r.check(docs[s] != nil, "cross references", con, "refers to %s, which is not documented", s)
		}
		if s := shapes[n]; s != nil {
			c.paramsAgree(r, con, d, s)
		}
		for i, e := range d.Examples {
			examples++
			c.example(r, fmt.Sprintf("example %d of %s", i+1, n), e, shapes)
		}
	}
	c.lookups(r, docs)
	r.unit("examples", examples)
	r.check(examples >= 60, "analysed", "examples", "only %d examples found", examples)
	texts := 0
	for _, e := range c.embedded(r) {
		n := 0
		for _, s := range textExamples(e.text) {
			texts++
			n++
			c.example(r, fmt.Sprintf("example %q in %s", s, e.file), s, shapes)
		}
		r.unit("description files", 1)
	}
	r.unit("examples in descriptions", texts)
}

// paramsAgree: the documented parameters are those the function accepts.
func (c *ctx) paramsAgree(r *Report, con string, d *FnDoc, s *FnShape) {
	req := 0
	opt := false
	for _, p := range d.Params {
		if p.Optional {
			opt = true
			continue
		}
		req++
		r.check(!opt, "parameters agree", con, "parameter %s follows an optional one and is not optional", p.Name)
	}
	more := len(d.Params) > 0 && moreRE.MatchString(d.Params[len(d.Params)-1].Desc)
	for k := 0; k <= 4; k++ {
		documented := k >= req && k <= len(d.Params)
		switch {
		case documented:
			r.check(s.accepts(k), "parameters agree", con, "%d arguments are documented and not accepted", k)
		case s.accepts(k):
			r.check(more && s.Many, "parameters agree", con, "%d arguments are accepted, %d to %d are documented", k, req, len(d.Params))
		default:
			r.ok("parameters agree", con)
		}
	}
	names := map[string]bool{}
	for i, p := range d.Params {
		r.check(p.Name != "" && !names[p.Name], "parameters agree", con, "parameter %d has no name of its own", i+1)
		names[p.Name] = true
		if ks := s.Kinds[i]; len(ks) > 0 {
			r.check(kindSet(ks) == strings.ToLower(p.Type), "parameters agree", con, "parameter %s is documented as a %s, the function takes a %s", p.Name, p.Type, kindSet(ks))
		} else if i < 3 {
			r.fail("parameters agree", con, "parameter %s is documented and never accepted", p.Name)
		}
	}
}

func (c *ctx) example(r *Report, con, text string, shapes map[string]*FnShape) {
	calls, err := parseScript(text)
	if err != nil {
		r.fail("examples are callable", con, "%q does not parse: %v", text, err)
		return
	}
	r.check(len(calls) > 0, "examples are callable", con, "there is no instruction in %q", text)
	for _, x := range calls {
		why := callable(x, shapes)
		r.check(why == "", "examples are callable", con, "%q: %s", text, why)
	}
}

func callable(x *Call, shapes map[string]*FnShape) string {
	s := shapes[x.Fn]
	if s == nil {
		return "there is no function " + x.Fn
	}
	if !s.accepts(len(x.Args)) {
		return fmt.Sprintf("%s does not accept %d arguments", x.Fn, len(x.Args))
	}
	for i, a := range x.Args {
		ks := s.Kinds[i]
		if s.Many && i > 2 {
			ks = s.Kinds[2]
		}
		if a.Kind == "call" {
			if why := callable(a.Call, shapes); why != "" {
				return why
			}
			for k := range shapes[a.Call.Fn].Ret {
				if !ks[k] {
					return fmt.Sprintf("argument %d of %s is a %s, the result of %s", i+1, x.Fn, kindNames[k], a.Call.Fn)
				}
			}
			continue
		}
		if a.Kind == "y" {
			return fmt.Sprintf("argument %d of %s is the symbol %s, which has no value", i+1, x.Fn, a.Text)
		}
		if !ks[a.Kind] {
			return fmt.Sprintf("argument %d of %s is a %s", i+1, x.Fn, kindNames[a.Kind])
		}
	}
	return ""
}

// EmbeddedText is a file that a package embeds.
type EmbeddedText struct{ file, text string }

func (c *ctx) embedded(r *Report) []EmbeddedText {
	var out []EmbeddedText
	for _, p := range c.w.pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR || g.Doc == nil {
					continue
				}
				for _, cm := range g.Doc.List {
					rest, ok := strings.CutPrefix(cm.Text, "//go:embed ")
					if !ok {
						continue
					}
					dir := filepath.Dir(c.w.fset.Position(f.Pos()).Filename)
					for _, name := range strings.Fields(rest) {
						if filepath.Ext(name) != ".txt" {
							continue
						}
						b, err := os.ReadFile(filepath.Join(dir, name))
						if err != nil {
							r.fail("resolved", name, "%v", err)
							continue
						}
						out = append(out, EmbeddedText{filepath.Base(dir) + "/" + name, string(b)})
					}
				}
			}
		}
	}
	return out
}

// textExamples finds the scripts that a description shows: lines starting
// with "Example:" or "script:", and there the part in script '…'.
func textExamples(text string) []string {
	var out []string
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimLeft(strings.TrimSpace(line), "- ")
		rest, ok := strings.CutPrefix(line, "Example: ")
		if !ok {
			rest, ok = strings.CutPrefix(line, "script: ")
		}
		if !ok {
			continue
		}
		if _, after, ok := strings.Cut(rest, "script '"); ok {
			if s, _, ok := strings.Cut(after, "'"); ok {
				out = append(out, s)
			}
			continue
		}
		rest, _, _ = strings.Cut(rest, " →")
		if rest == "" || !unicode.IsLower(rune(rest[0])) && rest[0] != '(' {
			continue
		}
		out = append(out, rest)
	}
	return out
}

// elemOf is the element type of the slice field name of struct t.
func elemOf(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
				return sl.Elem()
			}
		}
	}
	return nil
}

func sortedGlobals(w *World) []*ssa.Global {
	var out []*ssa.Global
	for g := range w.globals {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return w.globals[out[i]] < w.globals[out[j]] })
	return out
}
