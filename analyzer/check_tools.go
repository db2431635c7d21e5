package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Tools: the tools that the mcp command registers are recovered from its
// interpretation; their handlers are interpreted with arbitrary parameters.

type toolDecl struct {
	name    string
	at      string
	params  map[string]toolParamDecl
	handler FuncV
	unknown string
}

type toolParamDecl struct {
	kind     string
	required bool
}

var declKinds = map[string]string{"WithString": "String", "WithBoolean": "Bool", "WithNumber": "Number", "WithArray": "Slice", "WithObject": "Object"}

func paramKind(method string) string {
	m := strings.TrimPrefix(strings.TrimPrefix(method, "Get"), "Require")
	switch {
	case strings.HasSuffix(m, "Slice"):
		return "Slice"
	case m == "Int" || m == "Float":
		return "Number"
	}
	return m
}

// lib gives the declaration made by a function of the mcp package.
func mcpLib(st *State, v Val) (name string, args []Val) {
	if f, ok := v.(FuncV); ok && strings.HasPrefix(f.Ext, "mcp#") {
		var id int
		fmt.Sscanf(f.Ext, "mcp#%d", &id)
		if o := st.obj(id); o != nil && o.Lib != nil {
			n, _ := o.Lib["mcp"].(StrV)
			c, _ := n.constant()
			t, _ := o.Lib["args"].(TupleV)
			return c, t.E
		}
	}
	return "", nil
}

// tools lists the tools registered on one path of the mcp command.
func (k *cmdLab) toolsOf(run *cmdRun, o Out, from *Event) []*toolDecl {
	an, st := run.an, o.st
	var out []*toolDecl
	evs := eventsAfter(st.ev, from)
	for _, e := range evs {
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				for _, q := range e.Loop.iteration(b) {
					if strings.Contains(q.Name, "MCPServer)") && strings.Contains(q.Name, "Tool") {
						out = append(out, &toolDecl{at: an.w.pos(q.At), unknown: "registered in a loop"})
					}
				}
			}
		}
		if e.Kind != "call" || !strings.Contains(e.Name, "MCPServer).") {
			continue
		}
		short := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
		switch short {
		case "AddTool":
			if len(e.Args) == 3 {
				out = append(out, k.tool(an, st, e, e.Args[1], e.Args[2], evs))
			}
		case "AddTools", "SetTools":
			els, ok := an.constSlice(st, e.Args[1])
			if !ok {
				out = append(out, &toolDecl{at: an.w.pos(e.At), unknown: "list of tools not resolved"})
			}
			for _, x := range els {
				if s, ok := x.(StructV); ok && len(s.F) == 2 {
					out = append(out, k.tool(an, st, e, s.F[0], s.F[1], evs))
				} else {
					out = append(out, &toolDecl{at: an.w.pos(e.At), unknown: "tool not resolved"})
				}
			}
		case "DeleteTools":
			out = append(out, &toolDecl{at: an.w.pos(e.At), unknown: "tools are removed"})
		}
	}
	return out
}

func (k *cmdLab) tool(an *An, st *State, e *Event, tool, handler Val, evs []*Event) *toolDecl {
	d := &toolDecl{at: an.w.pos(e.At), params: map[string]toolParamDecl{}}
	f, ok := handler.(FuncV)
	if !ok || f.Fn == nil {
		d.unknown = "the handler is not resolved"
		return d
	}
	d.handler = f
	var decl *Event
	for _, q := range evs {
		if q.Kind == "mcp" && q.Name == "NewTool" && len(q.Ret) == 1 && st.sameVal(q.Ret[0], tool) {
			decl = q
		}
	}
	if decl == nil {
		d.unknown = "the tool's declaration is not resolved"
		return d
	}
	name, ok := decl.Args[0].(StrV)
	if !ok {
		d.unknown = "the tool's name is not resolved"
		return d
	}
	d.name = template(st.norm(name))
	opts, ok := an.constSlice(st, decl.Args[1])
	if !ok {
		d.unknown = "the tool's parameters are not resolved"
	}
	for _, o := range opts {
		fn, args := mcpLib(st, o)
		if fn == "" {
			d.unknown = "an option of the tool is not resolved"
			continue
		}
		if declKinds[fn] == "" {
			continue
		}
		pn, _ := args[0].(StrV)
		key, ok := st.norm(pn).constant()
		if !ok {
			d.unknown = "the name of a parameter is not resolved"
			continue
		}
		if _, dup := d.params[key]; dup {
			d.unknown = "parameter " + key + " is declared twice"
		}
		p := toolParamDecl{kind: declKinds[fn]}
		props, ok := an.constSlice(st, args[1])
		if !ok {
			d.unknown = "the options of parameter " + key + " are not resolved"
		}
		for _, q := range props {
			if n, _ := mcpLib(st, q); n == "Required" {
				p.required = true
			} else if n == "" {
				d.unknown = "an option of parameter " + key + " is not resolved"
			}
		}
		d.params[key] = p
	}
	return d
}

// handlerRun is the interpretation of a tool handler.
type handlerRun struct {
	fn    *ssa.Function
	an    *An
	start *State
	outs  []Out
	why   string
}

func (k *cmdLab) handler(fv FuncV) *handlerRun { return k.handlerOn(k.newAn(), fv) }

func (k *cmdLab) handlerOn(an *An, fv FuncV) *handlerRun {
	h := &handlerRun{fn: fv.Fn, an: an}
	st := h.an.newState()
	st.ghost["fail"] = lc(0)
	sig := fv.Fn.Signature
	args := make([]Val, sig.Params().Len())
	for i := range args {
		args[i] = h.an.havoc(st, sig.Params().At(i).Type(), sig.Params().At(i).Name())
		if s, ok := args[i].(SymV); ok {
			st.must(s.NN.addk(-1))
		}
	}
	h.start = st.clone()
	h.why = h.an.guard(func() { h.outs = h.an.callFunc(st, fv, args, sig, 0) })
	return h
}

// result is the answer of a handler.
func (h *handlerRun) result(o Out) (kind string, text StrV, why string) {
	t, ok := o.ret.(TupleV)
	if o.kind != outReturn || !ok || len(t.E) != 2 {
		return "", StrV{}, "does not return"
	}
	if _, isNil := t.E[1].(NilV); !isNil {
		return "", StrV{}, "returns a protocol-level error"
	}
	p, ok := t.E[0].(PtrV)
	if !ok {
		return "", StrV{}, "returns no result"
	}
	ob := o.st.obj(p.Obj)
	if ob == nil || ob.Lib == nil {
		return "", StrV{}, "the result is not resolved"
	}
	ks, _ := ob.Lib["tool"].(StrV)
	kind, _ = ks.constant()
	text, _ = ob.Lib["text"].(StrV)
	if kind == "" {
		return "", StrV{}, "the result is not resolved"
	}
	return kind, text, ""
}

// toolLab is the registered tools with the interpretation of their handlers.
type toolLab struct {
	k     *cmdLab
	run   *cmdRun
	tools []*tool
}

type tool struct {
	*toolDecl
	base string // name without the prefix
	h    *handlerRun
}

// toolLab recovers the registered tools; every path of the mcp command has to
// register the same ones.
func (c *ctx) toolLab(r *Report, k *cmdLab) *toolLab {
	for _, e := range k.errs {
		r.fail("resolved", "core functions", "%s", e)
	}
	t := &toolLab{k: k}
	run, why := k.run("mcp", 0)
	if run == nil || why != "" {
		r.fail("analysed", "command mcp", "%s", why)
		return t
	}
	t.run = run
	var first []string
	for i, o := range run.outs {
		if o.kind == outPanic {
			continue
		}
		var names []string
		for _, d := range k.toolsOf(run, o, run.start.ev) {
			if d.unknown != "" {
				r.fail("resolved", "tool "+d.name+" registered at "+d.at, "%s", d.unknown)
				continue
			}
			base := strings.TrimPrefix(d.name, "\x01")
			names = append(names, fmt.Sprintf("%s=%s", base, fnName(d.handler.Fn)))
			seen := false
			for _, x := range t.tools {
				seen = seen || x.base == base && x.handler.Fn == d.handler.Fn
			}
			if !seen {
				t.tools = append(t.tools, &tool{toolDecl: d, base: base})
			}
		}
		sort.Strings(names)
		if i == 0 {
			first = names
		} else {
			r.check(strings.Join(names, " ") == strings.Join(first, " "), "every start of the server registers the same tools", "command mcp", "%v on one path, %v on another", first, names)
		}
	}
	r.check(len(t.tools) >= 3, "resolved", "registered tools", "only %d", len(t.tools))
	for _, x := range t.tools {
		if r.id == "C36" && x.base != "texted_doc" {
			continue
		}
		if r.id != "C19" && r.id != "C20" && r.id != "C36" && !c.reachesEval(x.handler.Fn, k) {
			continue
		}
		x.h = k.handler(x.handler)
		if x.h.why != "" {
			r.fail("analysed", fnName(x.h.fn), "%s", x.h.why)
		}
		r.unit("handlers", 1)
		r.unit("paths", len(x.h.outs))
	}
	return t
}

func (t *toolLab) named(base string) *tool {
	for _, x := range t.tools {
		if x.base == base {
			return x
		}
	}
	return nil
}

func (h *handlerRun) param(kind, key string) Val { return h.an.lazy["param "+kind+" "+key] }

// absent: on this path the parameter was known to be absent (1) or given (0);
// -1 when it was not read.
func absent(st *State, key string) int {
	g, ok := st.ghost["absent "+key]
	switch {
	case !ok:
		return -1
	case st.eq(g, lc(0)):
		return 0
	case st.eq(g, lc(1)):
		return 1
	}
	return -1
}

func checkC20(c *ctx, r *Report) {
	k := c.newCmdLab()
	t := c.toolLab(r, k)
	if t.run == nil {
		return
	}
	names := map[string]string{}
	for _, x := range t.tools {
		r.fns[fnName(x.h.fn)] = true
		if o, dup := names[x.base]; dup {
			r.fail("tool names are distinct", x.base, "registered at %s and at %s", o, x.at)
		}
		names[x.base] = x.at
	}
	t.prefixed(r)
	for _, x := range t.tools {
		reads := map[string]map[string]bool{}
		for _, o := range x.h.outs {
			walk(o.st, eventsAfter(o.st.ev, x.h.start.ev), nil, func(st *State, e *Event, _ []*Event) {
				if e.Kind != "param" {
					if (e.Kind == "call" || e.Kind == "mcp") && strings.Contains(e.Name, "CallToolRequest") {
						r.fail("parameters are declared as they are read", e.Name+" in "+fnName(x.h.fn), "reads arguments in a way that is not understood")
					}
					return
				}
				key, _ := e.Args[1].(StrV).constant()
				if reads[key] == nil {
					reads[key] = map[string]bool{}
				}
				reads[key][e.Name] = true
			})
		}
		where := fnName(x.h.fn)
		var keys []string
		for key := range reads {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			d, ok := x.params[key]
			if !r.check(ok, "a parameter that is read is declared", "tool "+x.base+", parameter "+key, "read by %s but not declared", where) {
				continue
			}
			var ms []string
			for m := range reads[key] {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			for _, m := range ms {
				r.check(paramKind(m) == d.kind, "a parameter is read as it is declared", "tool "+x.base+", parameter "+key, "declared as %s but read with %s", d.kind, m)
			}
		}
		keys = keys[:0]
		for key := range x.params {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			con := "tool " + x.base + ", parameter " + key
			if !r.check(reads[key] != nil, "a declared parameter is read", con, "never read by %s", where) {
				continue
			}
			accepted, rejected, given := 0, 0, 0
			for _, o := range x.h.outs {
				kind, _, _ := x.h.result(o)
				switch absent(o.st, key) {
				case 1:
					if kind == "error" {
						rejected++
					} else {
						accepted++
					}
				case 0:
					if kind == "ok" {
						given++
					}
				}
			}
			if x.params[key].required {
				r.check(accepted == 0, "a required parameter is demanded", con, "declared as required, but its absence is accepted by %s", where)
			} else {
				r.check(accepted > 0, "an optional parameter may be left out", con, "not declared as required, but its absence is always rejected by %s", where)
			}
			r.check(given > 0, "a given parameter is accepted", con, "a call giving it never succeeds")
		}
		r.check(len(keys) > 0 || len(reads) == 0, "resolved", "tool "+x.base, "no parameters")
		r.engine(x.h.an, fnName(x.h.fn))
	}
}

// prefixed: every declared name is the prefix followed by a constant.
func (t *toolLab) prefixed(r *Report) {
	pre, ok := t.run.flags["prefix"].(StrV)
	if !r.check(ok, "resolved", "mcp --prefix", "flag not declared") {
		return
	}
	n := 0
	for _, o := range t.run.outs {
		if o.kind == outPanic {
			continue
		}
		walk(o.st, eventsAfter(o.st.ev, t.run.start.ev), nil, func(st *State, e *Event, _ []*Event) {
			if e.Kind != "mcp" || e.Name != "NewTool" {
				return
			}
			n++
			s, _ := e.Args[0].(StrV)
			base := strings.TrimPrefix(template(st.norm(s)), "\x01")
			r.check(base != "" && !strings.Contains(base, "\x01") && st.strEq(s, concat(pre, lit(base))), "tools are registered under their prefixed name", "tool "+base, "named %s", st.showStr(s))
		})
	}
	r.check(n >= 3, "resolved", "declared tools", "only %d", n)
}

func checkC19(c *ctx, r *Report) {
	k := c.newCmdLab()
	t := c.toolLab(r, k)
	if t.run == nil {
		return
	}
	g := newGraph(c.w)
	var roots []*ssa.Function
	for _, x := range t.tools {
		roots = append(roots, x.h.fn)
	}
	t.stream(r, g, roots)
	for _, x := range t.tools {
		fn := fnName(x.h.fn)
		r.fns[fn] = true
		r.check(len(x.h.outs) > 0, "analysed", fn, "no path returns")
		for _, o := range x.h.outs {
			if o.kind == outPanic {
				r.fail("every call is answered", fn, "may panic")
				continue
			}
			kind, text, why := x.h.result(o)
			r.check(why == "", "every call is answered", fn, "%s", why)
			if why != "" {
				continue
			}
			walk(o.st, eventsAfter(o.st.ev, x.h.start.ev), nil, func(st *State, e *Event, _ []*Event) {
				con := fmt.Sprintf("%s in %s, %s", e.Name, fn, x.h.an.w.pos(e.At))
				bad := e.Kind == "stdout" || e.Kind == "exit" || e.Kind == "scan"
				for _, a := range e.Args {
					bad = bad || e.Kind != "opaque" && (isNote(a, "os.Stdout") || isNote(a, "os.Stdin"))
				}
				if bad {
					r.fail("the protocol stream is left alone", con, "uses the process's standard output or input, or ends it")
				}
			})
			if x.base == "edit_file" {
				continue
			}
			t.answer(c, r, x, o, kind, text)
		}
		r.engine(x.h.an, fn)
	}
	for _, n := range []string{"edit_file", "texted_eval", "texted_doc"} {
		r.check(t.named(n) != nil, "resolved", "tool "+n, "not registered")
	}
	if x := t.named("edit_file"); x != nil {
		t.editMessages(c, r, x)
	}
}

// stream: nothing a handler may call writes to standard output, reads
// standard input or ends the process.
func (t *toolLab) stream(r *Report, g *Graph, roots []*ssa.Function) {
	fns := g.reach(roots)
	r.check(len(fns) >= 100, "analysed", "functions handlers may call", "only %d", len(fns))
	r.unit("functions", len(fns))
	const rule = "the protocol stream is left alone"
	for _, f := range fns {
		r.fns[fnName(f)] = true
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					if g.w.inMod(x) {
						continue
					}
					if s := streamFunc(x); s != "" {
						r.fail(rule, fmt.Sprintf("%s in %s, %s", fnName(x), fnName(f), c2pos(g, in.Pos())), "%s", s)
					}
				case *ssa.Global:
					if s := x.String(); s == "os.Stdout" || s == "os.Stdin" {
						r.fail(rule, fmt.Sprintf("%s in %s, %s", s, fnName(f), c2pos(g, in.Pos())), "the stream belongs to the protocol")
					}
				}
			}
		})
		r.ok(rule, fnName(f))
	}
}

func streamFunc(f *ssa.Function) string {
	switch p := fnPkg(f); p {
	case "fmt":
		switch f.Name() {
		case "Print", "Printf", "Println":
			return "writes to standard output"
		case "Scan", "Scanf", "Scanln":
			return "reads standard input"
		}
	case "os":
		if f.Name() == "Exit" {
			return "ends the process"
		}
	case "log", "log/slog":
		n := f.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
			return "ends the process"
		}
	case "runtime":
		if f.Name() == "Goexit" {
			return "ends the handler without an answer"
		}
	case "syscall":
		switch f.Name() {
		case "Exit", "Kill":
			return "ends the process"
		case "Write", "Read":
			return "uses a file descriptor"
		}
	}
	return ""
}

// answer: failures are answered with a tool error, and nothing else is.
func (t *toolLab) answer(c *ctx, r *Report, x *tool, o Out, kind string, text StrV) {
	st, h := o.st, x.h
	fn := fnName(h.fn)
	evs := eventsAfter(st.ev, h.start.ev)
	failed, maybe := isFailed(st)
	if failed {
		r.check(kind == "error", "a failure is answered with a tool error", fn, "answers normally although %s failed", firstFailed(h.an, st, evs))
		if kind == "error" {
			walk(st, evs, nil, func(s *State, e *Event, _ []*Event) {
				if e.Kind != "param" && h.an.failEvent(e) {
					r.check(h.an.mentionsAny(st, text, e.Ret[len(e.Ret)-1], 0), "the tool error says what failed", fmt.Sprintf("failing %s, %s", e.Name, fn), "the answer %s does not contain the error", st.showStr(text))
				}
			})
		}
		return
	}
	if maybe {
		r.fail("a failure is answered with a tool error", fn, "may answer without looking at a failure")
		return
	}
	switch x.base {
	case "texted_eval":
		t.evalAnswer(c, r, x, st, evs, kind, text)
	case "texted_doc":
		t.docAnswer(r, x, st, evs, kind, text)
	default:
		r.ok("a call without failure is answered", fn)
	}
}

func firstFailed(an *An, st *State, evs []*Event) string {
	name := "an operation"
	walk(st, evs, nil, func(_ *State, e *Event, _ []*Event) {
		if an.failEvent(e) && name == "an operation" {
			name = e.Name
		}
	})
	return name
}

// isText: what is known about v being the text s: 1 it is, 0 it is not, -1 unknown.
func isText(st *State, v Val, s string) int {
	sv, ok := v.(StrV)
	if !ok {
		return -1
	}
	b, known := st.truth(Cond{Kind: CStrEq, S: sv, T: lit(s)})
	switch {
	case !known:
		return -1
	case b:
		return 1
	}
	return 0
}

func (t *toolLab) evalAnswer(c *ctx, r *Report, x *tool, st *State, evs []*Event, kind string, text StrV) {
	h := x.h
	fn := fnName(h.fn)
	mode := h.param("String", "output")
	buffer, expr := isText(st, mode, "buffer"), isText(st, mode, "expression")
	if absent(st, "output") == 1 {
		buffer, expr = 1, 0
	}
	switch {
	case kind == "error":
		evals := 0
		walk(st, evs, nil, func(_ *State, e *Event, _ []*Event) {
			if isEval(e) {
				evals++
			}
		})
		r.check(buffer == 0 && expr == 0 && evals == 0, "a successful call is not answered with a tool error", fn, "answers %s although nothing failed", st.showStr(text))
	case buffer == 1:
		f := t.fileCtx(c, r, x)
		_, _, from, why := f.delivery(st, text, evs)
		if why == "" && from != "input" {
			why = "was not computed from the input"
		}
		r.check(why == "", "the buffer is the answer", fn, "the answer %s", why)
	case expr == 1:
		f := t.fileCtx(c, r, x)
		why := "the answer is not the text written for the value of the script"
		for i, e := range evs {
			if !isWriter(e) || !okEvent(e) {
				continue
			}
			for _, a := range e.Args {
				p, isP := stripIface(a).(PtrV)
				if !isP {
					continue
				}
				b, isB := h.an.load(e.Post, p).(BuilderV)
				if !isB || !st.strEq(b.S, text) {
					continue
				}
				pre, _ := h.an.load(e.Pre, p).(BuilderV)
				if !e.Pre.eq(pre.S.length(), lc(0)) {
					why = "the answer contains more than the value"
					continue
				}
				for _, ev := range evs[:i] {
					if !isEval(ev) || !okEvent(ev) {
						continue
					}
					written := false
					for _, a := range e.Args {
						written = written || st.sameVal(a, ev.Ret[0])
					}
					if !written {
						continue
					}
					_, from := f.source(st, ev, evs)
					why = f.program(st, ev, evs)
					if why == "" && from != "input" {
						why = "the value was not computed from the input"
					}
				}
			}
		}
		r.check(why == "", "the value is the answer", fn, "%s", why)
	default:
		r.fail("an unknown output mode is rejected", fn, "answers normally although output may be neither 'buffer' nor 'expression'")
	}
}

func (t *toolLab) docAnswer(r *Report, x *tool, st *State, evs []*Event, kind string, text StrV) {
	h := x.h
	fn := fnName(h.fn)
	name, cat := h.param("String", "function_name"), h.param("String", "category")
	nameNo, catNo := isText(st, name, ""), isText(st, cat, "")
	if absent(st, "function_name") == 1 {
		nameNo, name = 1, lit("")
	}
	if absent(st, "category") == 1 {
		catNo, cat = 1, lit("")
	}
	// what the registry was asked and what it answered
	query := map[string]*Event{}
	found, known := false, false
	empty := 0
	for _, e := range evs {
		if e.Kind != "opaque" || !strings.HasPrefix(e.Name, "doc:") {
			continue
		}
		q := strings.TrimPrefix(e.Name, "doc:")
		query[q] = e
		switch {
		case q == "GetDocumentation" && len(e.Ret) == 2:
			if b, ok := e.Ret[1].(BoolV); ok {
				found, known = st.truth(b.C)
			}
			r.check(len(e.Args) == 1 && st.sameVal(e.Args[0], name), "the documentation asked for is the one named", e.Name+" in "+fn, "asks for %s", h.an.showVal(st, e.Args[0]))
		case q == "GetDocumentationByCategory":
			r.check(len(e.Args) == 1 && st.sameVal(e.Args[0], cat), "the documentation asked for is the one named", e.Name+" in "+fn, "asks for %s", h.an.showVal(st, e.Args[0]))
			empty = isEmpty(st, e.Ret[0])
		case q == "GetAllDocumentation" && query["GetDocumentation"] == nil && query["GetDocumentationByCategory"] == nil:
			empty = isEmpty(st, e.Ret[0])
		}
	}
	why := ""
	switch {
	case kind == "error":
		switch {
		case nameNo == 0 && catNo == 0:
		case nameNo == 0:
			if !known || found {
				why = "answers with a tool error although the function may be documented"
			}
		case catNo == 0:
			if query["GetDocumentationByCategory"] == nil || empty != 1 {
				why = "answers with a tool error although the category may have functions"
			}
		default:
			if query["GetAllDocumentation"] == nil || empty != 1 {
				why = "answers with a tool error although there may be functions"
			}
		}
		r.check(why == "", "an answerable query is not answered with a tool error", fn, "%s", why)
	default:
		switch {
		case nameNo == 0 && catNo != 1:
			why = "answers although both a function and a category are given"
		case nameNo == 0:
			if !known || !found {
				why = "answers although the function may not be documented"
			}
		case nameNo == 1 && catNo == 0:
			if query["GetDocumentationByCategory"] == nil || empty != 0 {
				why = "answers although the category may have no functions"
			}
		case nameNo == 1 && catNo == 1:
			if query["GetAllDocumentation"] == nil || empty != 0 {
				why = "answers without functions"
			}
		default:
			why = "answers without looking at the parameters"
		}
		r.check(why == "", "an unanswerable query is answered with a tool error", fn, "%s", why)
	}
}

// isEmpty: 1 the list is empty, 0 it is not, -1 unknown.
func isEmpty(st *State, v Val) int {
	switch x := v.(type) {
	case NilV:
		return 1
	case SliceV:
		if st.eq(x.Len, lc(0)) {
			return 1
		}
		if st.ge(x.Len.addk(-1)) {
			return 0
		}
	}
	return -1
}

// fileCtx describes a handler as an entry point.
func (t *toolLab) fileCtx(c *ctx, r *Report, x *tool) *fileCtx {
	h := x.h
	f := &fileCtx{c: c, r: r, an: h.an, what: fnName(h.fn), lang: t.k.language, canon: t.k.parserOf, parsers: t.k.parsers, mu: &sync.Mutex{}, succ: map[string]string{}, failed: map[string]string{}, textCache: map[*Event][]*StrV{}}
	if v := h.param("String", "input"); v != nil {
		f.input = v
	}
	if v := h.param("String", "script"); v != nil {
		f.scripts = []Val{v}
	}
	if v, ok := h.param("StringSlice", "files").(SliceV); ok {
		f.files = &v
	}
	return f
}

// toolFiles: the handlers as entry points that run scripts (C14, C17, C21, C25).
func (c *ctx) toolFiles(r *Report, k *cmdLab) {
	switch r.id {
	case "C14", "C17", "C21", "C25":
	default:
		return
	}
	t := c.toolLab(r, k)
	for _, x := range t.tools {
		if x.h == nil {
			continue
		}
		f := t.fileCtx(c, r, x)
		if x.base == "edit_file" && f.files == nil {
			r.fail("resolved", "parameter files of edit_file", "never read")
			continue
		}
		for _, o := range x.h.outs {
			if o.kind != outReturn {
				continue
			}
			f.path(o, x.h.start.ev, false)
			kind, text, why := x.h.result(o)
			if why != "" || kind != "ok" {
				continue
			}
			if evs := eventsAfter(o.st.ev, x.h.start.ev); f.tainted(evs, text) {
				_, _, _, why := f.delivery(o.st, text, evs)
				f.rule("C14", why == "", "a tool's answer is the complete result", fnName(x.h.fn), "the text answered %s", why)
			}
			never := Cond{Kind: CConst}
			f.formats(o, x.h.start.ev, never)
			if f.files == nil {
				continue
			}
			if isFalse(o.st, x.h.param("Bool", "loopUntilError")) || absent(o.st, "loopUntilError") == 1 {
				f.cover(o.st, x.h.start.ev, false, fnName(x.h.fn))
			}
		}
		r.unit("entry points", 1)
		r.engine(x.h.an, fnName(x.h.fn))
	}
}

func isFalse(st *State, v Val) bool {
	b, ok := v.(BoolV)
	if !ok {
		return false
	}
	t, known := st.truth(b.C)
	return known && !t
}

// reachesEval: fn may run a script.
func (c *ctx) reachesEval(fn *ssa.Function, k *cmdLab) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if k.opq[f] == "eval" {
			return true
		}
		if _, o := k.opq[f]; o || seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range c.w.callees(f) {
			if visit(g) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// editMessages: the answer of edit_file tells for each file whether it was
// edited, and why not.  The handler is interpreted with the functions of
// package texted that edit several files returning one or two results.
func (t *toolLab) editMessages(c *ctx, r *Report, x *tool) {
	res := c.w.typ("", "EditResult")
	if !r.check(res != nil, "resolved", "texted.EditResult", "not found") {
		return
	}
	rt := res.Underlying().(*types.Struct)
	sp := map[*ssa.Function]bool{}
	if p := c.w.ssaPkg[modPath]; p != nil {
		for _, m := range sortedMembers(p) {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Signature.Results().Len() != 2 {
				continue
			}
			if s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), res) {
				sp[fn] = true
			}
		}
	}
	if !r.check(len(sp) > 0, "resolved", "functions returning edit results", "none") {
		return
	}
	good, bad := map[string]bool{}, map[string]bool{}
	fn := fnName(x.h.fn)
	checked := 0
	for n := 1; n <= 2; n++ {
		n := n
		an := t.k.newAn()
		an.special = map[*ssa.Function]func(st *State, args []Val) []Out{}
		type made struct {
			ok   []bool
			name []Val
			err  []Val
		}
		all := map[*Event]*made{}
		for f := range sp {
			f := f
			an.special[f] = func(st *State, args []Val) []Out {
				var outs []Out
				for m := 0; m < 1<<n; m++ {
					s := st.clone()
					mk := &made{}
					var vals []Val
					for i := 0; i < n; i++ {
						v := an.havoc(s, res, fmt.Sprintf("result %d", i)).(StructV)
						v.F = append([]Val(nil), v.F...)
						okv := m&(1<<i) == 0
						mk.ok = append(mk.ok, okv)
						for j := 0; j < rt.NumFields(); j++ {
							switch rt.Field(j).Name() {
							case "Success":
								v.F[j] = BoolV{Cond{Kind: CConst, B: okv}}
							case "Filename":
								mk.name = append(mk.name, v.F[j])
							case "Error":
								if okv {
									v.F[j] = NilV{}
								} else {
									v.F[j] = SymV{ID: an.nextID(), T: an.w.errType, NN: lc(1), Note: fmt.Sprintf("error of file %d", i)}
								}
								mk.err = append(mk.err, v.F[j])
							}
						}
						vals = append(vals, v)
					}
					list := an.mkSlice(s, res, vals, "results")
					ev := s.event("edits", fnName(f), args, []Val{list, NilV{}}, "")
					ev.At = an.curPos
					all[ev] = mk
					outs = append(outs, Out{st: s, ret: tup(ev.Ret)})
				}
				return outs
			}
		}
		h := t.k.handlerOn(an, x.handler)
		if h.why != "" {
			r.fail("analysed", fn, "%s", h.why)
			continue
		}
		for _, o := range h.outs {
			kind, text, why := h.result(o)
			if why != "" {
				continue
			}
			var last *made
			for _, e := range eventsAfter(o.st.ev, h.start.ev) {
				if m := all[e]; m != nil {
					last = m
				}
			}
			st := o.st
			if last == nil {
				r.check(kind == "error", "edit_file without edits is a tool error", fn, "answers normally without editing")
				allowed := isEmpty(st, h.param("StringSlice", "files")) == 1
				if f, _ := isFailed(st); f {
					allowed = true
				}
				r.check(allowed, "a successful call is not answered with a tool error", fn, "answers %s although nothing failed", st.showStr(text))
				continue
			}
			if len(last.name) != n || len(last.err) != n {
				r.fail("resolved", "texted.EditResult", "has no Filename or Error")
				return
			}
			any := false
			ls := lines(text)
			for i := range last.ok {
				any = any || !last.ok[i]
				listed, reason := false, false
				for _, l := range ls {
					if !h.an.mentionsAny(st, l, last.name[i], 0) && !containsText(st, l, last.name[i]) {
						continue
					}
					listed = true
					reason = reason || h.an.mentionsAny(st, l, last.err[i], 0)
					tm := template(l)
					if last.ok[i] {
						good[tm] = true
					} else {
						bad[tm] = true
					}
				}
				checked++
				r.check(listed, "the answer lists every file", fn, "file %d of %d is missing in %s", i+1, n, st.showStr(text))
				if !last.ok[i] {
					r.check(reason, "the answer says why a file failed", fn, "the error of file %d of %d is missing in %s", i+1, n, st.showStr(text))
				}
			}
			r.check(any || kind == "ok", "a successful call is not answered with a tool error", fn, "answers with a tool error although every file was edited")
		}
		r.engine(an, fn)
	}
	r.check(checked >= 4, "analysed", "answers of edit_file", "only %d", checked)
	for tm := range good {
		r.check(!bad[tm], "the answer distinguishes edited files from others", fn, "the same line %q is used for both", strings.ReplaceAll(tm, "\x01", "…"))
	}
}

// containsText: v is one of the parts of s.
func containsText(st *State, s StrV, v Val) bool {
	t, ok := v.(StrV)
	if !ok || len(t.P) != 1 || t.P[0].Base == nil {
		return false
	}
	return mentionsBase(s, []*Base{t.P[0].Base}, 0)
}

// lines splits a text at its literal line ends.
func lines(s StrV) []StrV {
	var out []StrV
	var cur StrV
	for _, p := range s.P {
		if p.Base != nil {
			cur.P = append(cur.P, p)
			continue
		}
		ls := strings.Split(p.Lit, "\n")
		for i, l := range ls {
			if i > 0 {
				out = append(out, cur)
				cur = StrV{}
			}
			if l != "" {
				cur = concat(cur, lit(l))
			}
		}
	}
	return append(out, cur)
}

func (c *ctx) toolDebug() {
	k := c.newCmdLab()
	run, why := k.run("mcp", 0)
	fmt.Println(why, k.errs)
	seen := map[*ssa.Function]bool{}
	for _, o := range run.outs {
		for _, d := range k.toolsOf(run, o, run.start.ev) {
			fmt.Printf("%+v\n", *d)
			if d.handler.Fn == nil || seen[d.handler.Fn] {
				continue
			}
			seen[d.handler.Fn] = true
			h := k.handler(d.handler)
			fmt.Println(fnName(h.fn), len(h.outs), h.why, h.an.unres)
			for _, o := range h.outs {
				kind, text, why := h.result(o)
				fmt.Println("   ->", o.kind, kind, short(h.an.showVal(o.st, text), 200), why, "fail", o.st.ghost["fail"], o.st.ghost)
				for _, e := range eventsAfter(o.st.ev, h.start.ev) {
					fmt.Println("       ", k.showEv(h.an, o.st, e))
				}
			}
		}
	}
	_ = types.Typ
}
