package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The file properties (C14-C18, C25): every path of every entry point that
// reads, edits or converts text is walked; its events (reads, parses,
// evaluations, writes, output) are matched with what the entry point may do.

// fileCtx describes one entry point.
type fileCtx struct {
	c    *ctx
	r    *Report
	an   *An
	what string

	files      *SliceV // files named for editing
	file       Val     // the file named for editing
	input      Val     // text handed in
	scripts    []Val   // script texts handed in
	scriptFile Val     // file the script may be read from
	exprs      *SliceV // expressions handed in
	format     Val     // script format handed in (nil: the default language)
	outFormat  Val     // format of printed values handed in
	output     Val     // destination file
	backup     Val     // suffix of backup files
	stdin      bool
	run        *cmdRun

	lang      func(key string) string
	canon     func(key string) string
	parsers   *parserUse
	mu        *sync.Mutex
	succ      map[string]string // message templates of successful files
	failed    map[string]string // of failing ones
	textCache map[*Event][]*StrV
}

// rule records an instance for the property being checked.
func (x *fileCtx) rule(id string, ok bool, rule, construct, why string, a ...interface{}) {
	if x.r.id == id {
		x.r.check(ok, rule, construct, why, a...)
	}
}

// site names the construct an event belongs to.
func (x *fileCtx) site(e *Event) string {
	fn := x.what
	if e.Fn != nil {
		fn = fnName(e.Fn)
	}
	return fmt.Sprintf("%s in %s, %s", e.Name, fn, x.an.w.pos(e.At))
}

// walk visits the events of a path, those of loop iterations included.
func walk(st *State, evs, prior []*Event, f func(st *State, e *Event, prior []*Event)) {
	prior = append([]*Event(nil), prior...)
	for _, e := range evs {
		if e.Loop != nil {
			for _, b := range e.Loop.Backs {
				walk(b, e.Loop.iteration(b), prior, f)
			}
		} else {
			f(st, e, prior)
		}
		prior = append(prior, e)
	}
}

// okEvent: the call succeeded.
func okEvent(e *Event) bool {
	if len(e.Ret) == 0 {
		return true
	}
	_, isNil := e.Ret[len(e.Ret)-1].(NilV)
	return isNil
}

// failEvent: the call returned an error.
func (an *An) failEvent(e *Event) bool {
	if e.Kind == "write-error" {
		return true
	}
	if len(e.Ret) == 0 {
		return false
	}
	s, ok := e.Ret[len(e.Ret)-1].(SymV)
	return ok && types.Identical(s.T, an.w.errType) && s.From != nil
}

func isNote(v Val, note string) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.V
	}
	s, ok := v.(SymV)
	return ok && s.Note == note
}

// read recognises reading the whole of a file or of standard input.
func (x *fileCtx) read(st *State, e *Event, prior []*Event) (name Val, stdin bool, content StrV, ok bool) {
	if e.Kind != "call" || !okEvent(e) || e.Post == nil || len(e.Ret) != 2 {
		return
	}
	switch e.Name {
	case "os.ReadFile":
		name = e.Args[0]
	case "io.ReadAll":
		if isNote(e.Args[0], "os.Stdin") {
			stdin = true
			break
		}
		for _, p := range prior {
			if p.Kind == "call" && p.Name == "os.Open" && okEvent(p) && st.sameVal(stripIface(e.Args[0]), p.Ret[0]) {
				name = p.Args[0]
			}
		}
		if name == nil {
			return
		}
	default:
		return
	}
	content, ok = x.an.strOf(e.Post, e.Ret[0])
	return
}

func stripIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.V
	}
	return v
}

// evalBuf is the buffer an evaluation runs on.
func (x *fileCtx) evalBuf(e *Event) (PtrV, bool) {
	for _, a := range e.Args {
		if p, ok := a.(PtrV); ok {
			if o := e.Pre.obj(p.Obj); o != nil && o.T != nil && types.Identical(o.T, x.c.lab.bufT) {
				return p, true
			}
		}
	}
	return PtrV{}, false
}

// texts are the buffer's texts before and after an evaluation.
func (x *fileCtx) texts(e *Event) (pre, post *StrV) {
	if t, ok := x.textCache[e]; ok {
		return t[0], t[1]
	}
	get := func(st *State) *StrV {
		b, ok := x.evalBuf(e)
		if !ok || st == nil {
			return nil
		}
		x.an.quiet++
		defer func() { x.an.quiet-- }()
		outs := x.an.run(st.clone(), x.c.lab.mString, b)
		if len(outs) != 1 || outs[0].kind != outReturn {
			return nil
		}
		s, ok := x.an.strOf(outs[0].st, outs[0].ret)
		if !ok {
			return nil
		}
		return &s
	}
	pre, post = get(e.Pre), get(e.Post)
	x.textCache[e] = []*StrV{pre, post}
	return
}

func isEval(e *Event) bool  { return e.Kind == "opaque" && e.Name == "eval" }
func isParse(e *Event) bool { return e.Kind == "opaque" && strings.HasPrefix(e.Name, "parse:") }
func isWriter(e *Event) bool {
	return e.Kind == "opaque" && strings.HasPrefix(e.Name, "writer:")
}

// result finds the evaluation whose resulting text is data.
func (x *fileCtx) result(st *State, prior []*Event, data StrV) *Event {
	for i := len(prior) - 1; i >= 0; i-- {
		if e := prior[i]; isEval(e) {
			if _, post := x.texts(e); post != nil && st.strEq(data, *post) {
				return e
			}
		}
	}
	return nil
}

// tainted: the text contains (part of) the text of an evaluated buffer.
func (x *fileCtx) tainted(prior []*Event, s StrV) bool {
	var bases []*Base
	for _, e := range prior {
		if isEval(e) {
			_, post := x.texts(e)
			if post == nil {
				return true
			}
			for _, p := range post.P {
				if p.Base != nil {
					bases = append(bases, p.Base)
				}
			}
		}
	}
	return len(bases) > 0 && mentionsBase(s, bases, 0)
}

func mentionsBase(s StrV, bases []*Base, depth int) bool {
	for _, p := range s.P {
		if p.Base == nil {
			continue
		}
		for _, b := range bases {
			if p.Base == b {
				return true
			}
		}
		if depth < 6 {
			for _, a := range p.Base.Args {
				if i, ok := a.(IfaceV); ok {
					a = i.V
				}
				if t, ok := a.(StrV); ok && mentionsBase(t, bases, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// named: v is a file named for editing.
func (x *fileCtx) named(st *State, v Val) bool {
	if x.file != nil && st.sameVal(v, x.file) {
		return true
	}
	if x.files != nil {
		_, ok := x.an.indexOf(st, *x.files, v)
		return ok
	}
	return false
}

// source finds where the text an evaluation started from comes from: the name
// of the file, or stdin, or the input.
func (x *fileCtx) source(st *State, ev *Event, prior []*Event) (name Val, kind string) {
	pre, _ := x.texts(ev)
	if pre == nil {
		return nil, ""
	}
	if x.input != nil && st.sameVal(*pre, x.input) {
		return nil, "input"
	}
	for i := len(prior) - 1; i >= 0; i-- {
		n, in, content, ok := x.read(st, prior[i], prior)
		if !ok || !st.strEq(*pre, content) {
			continue
		}
		if in {
			return nil, "stdin"
		}
		return n, "file"
	}
	return nil, ""
}

// program checks that an evaluation runs the whole of a script handed in.
func (x *fileCtx) program(st *State, ev *Event, prior []*Event) string {
	var prog Val
	for _, a := range ev.Args {
		if s, ok := a.(SliceV); ok {
			prog = s
			break
		}
		if _, ok := a.(NilV); ok {
			prog = a
			break
		}
	}
	if prog == nil {
		return "the program of the evaluation is unknown"
	}
	for i := len(prior) - 1; i >= 0; i-- {
		p := prior[i]
		if !isParse(p) || !okEvent(p) || !st.sameVal(prog, p.Ret[0]) {
			continue
		}
		return x.script(st, p, prior)
	}
	return "evaluates something that is not the result of parsing a script"
}

// parsed is the text a parser is called with.
func (x *fileCtx) parsed(p *Event) (StrV, bool) {
	for i := len(p.Args) - 1; i >= 0; i-- {
		switch v := stripIface(p.Args[i]).(type) {
		case StrV:
			return v, true
		case PtrV:
			if o := p.Pre.obj(v.Obj); o != nil && o.Lib != nil {
				if s, ok := o.Lib["text"].(StrV); ok {
					return s, true
				}
			}
		}
	}
	return StrV{}, false
}

// script checks that the text given to a parser is a script handed in.
func (x *fileCtx) script(st *State, p *Event, prior []*Event) string {
	text, ok := x.parsed(p)
	if !ok {
		return "the text given to the parser is unknown"
	}
	for _, s := range x.scripts {
		if st.sameVal(text, s) {
			return ""
		}
	}
	if x.exprs != nil {
		if _, ok := x.an.indexOf(st, *x.exprs, text); ok {
			return ""
		}
	}
	if x.scriptFile != nil {
		for _, e := range prior {
			if n, in, content, ok := x.read(st, e, prior); ok && !in && st.strEq(text, content) && st.sameVal(n, x.scriptFile) {
				return ""
			}
		}
	}
	return fmt.Sprintf("parses %s, which is not the script handed in", st.showStr(text))
}

// delivery says what a write of data is.
func (x *fileCtx) delivery(st *State, data StrV, prior []*Event) (ev *Event, name Val, kind, why string) {
	ev = x.result(st, prior, data)
	if ev == nil {
		return nil, nil, "", "is not the complete text resulting from an evaluation"
	}
	if !okEvent(ev) {
		return ev, nil, "", "is written although the script failed"
	}
	name, kind = x.source(st, ev, prior)
	if kind == "" {
		return ev, nil, "", "was not computed from content read here"
	}
	if kind == "file" && !x.named(st, name) {
		return ev, nil, "", "was computed from a file that was not named for editing"
	}
	if kind == "stdin" && !x.stdin {
		return ev, nil, "", "was computed from standard input"
	}
	return ev, name, kind, x.program(st, ev, prior)
}

// readOnly are functions of package os and others that change nothing.
var readOnly = map[string]bool{
	"os.ReadFile": true, "os.Open": true, "os.Stat": true, "os.Lstat": true, "os.ReadDir": true, "os.Getwd": true, "os.Getenv": true, "os.LookupEnv": true,
	"(*os.File).Read": true, "(*os.File).Close": true, "(*os.File).Stat": true, "(*os.File).Name": true, "os.IsNotExist": true, "os.IsExist": true,
	"os.IsPermission": true, "os.Executable": true, "os.Environ": true, "os.Hostname": true, "os.Getpid": true, "(*os.File).Seek": true, "os.Exit": true,
	"(*os.File).ReadAt": true, "(*os.File).Fd": true, "os.UserHomeDir": true, "os.TempDir": true,
}

// mutates: the call may change files, processes or other external state.
func mutates(e *Event) bool {
	if e.Kind != "call" && e.Kind != "invoke" && e.Kind != "dyncall" {
		return false
	}
	n := strings.TrimPrefix(strings.TrimPrefix(e.Name, "("), "*")
	for _, p := range []string{"os.", "syscall.", "io/ioutil.", "os/exec.", "net.", "net/http.", "golang.org/x/sys", "io/fs.", "path/filepath.Walk"} {
		if strings.HasPrefix(n, p) {
			return !readOnly[e.Name]
		}
	}
	return false
}

// outText is the text of an output event on standard output.
func outText(e *Event) (StrV, bool) {
	if e.Kind != "stdout" || len(e.Args) == 0 {
		return StrV{}, false
	}
	s, ok := e.Args[len(e.Args)-1].(StrV)
	return s, ok
}

// isBackup: the write copies a named file to its backup name.
func (x *fileCtx) isBackup(st *State, e *Event, prior []*Event) (Val, bool) {
	if x.backup == nil || e.Name != "os.WriteFile" {
		return nil, false
	}
	name, ok := e.Args[0].(StrV)
	data, ok2 := e.Args[1].(StrV)
	suf, ok3 := x.backup.(StrV)
	if !ok || !ok2 || !ok3 {
		return nil, false
	}
	for _, p := range prior {
		n, in, content, ok := x.read(st, p, prior)
		if !ok || in || !x.named(st, n) || !st.strEq(data, content) {
			continue
		}
		if nn, ok := n.(StrV); ok && st.strEq(name, concat(nn, suf)) {
			return n, true
		}
	}
	return nil, false
}

// overwrite: e writes a result into the file it was computed from.
func (x *fileCtx) overwrite(st *State, e *Event, prior []*Event) (Val, bool) {
	if e.Kind != "call" || e.Name != "os.WriteFile" || !x.named(st, e.Args[0]) {
		return nil, false
	}
	return e.Args[0], true
}

// path checks one outcome.
func (x *fileCtx) path(o Out, from *Event, dry bool) {
	st := o.st
	evs := eventsAfter(st.ev, from)
	walk(st, evs, nil, func(st *State, e *Event, prior []*Event) {
		if mutates(e) {
			site := x.site(e)
			x.rule("C16", !dry, "a dry run changes nothing", site, "called although a dry run was requested (flags: %s)", x.what)
			if e.Name != "os.WriteFile" {
				x.rule("C14", false, "files are written with complete results only", site, "changes files in a way that is not understood")
			} else if n, ok := x.isBackup(st, e, prior); ok {
				x.rule("C14", true, "files are written with complete results only", site, "")
				_ = n
			} else {
				data, _ := e.Args[1].(StrV)
				_, name, kind, why := x.delivery(st, data, prior)
				if why == "" {
					switch {
					case kind == "file" && st.sameVal(name, e.Args[0]):
					case x.output != nil && st.sameVal(e.Args[0], x.output):
					default:
						why = "is written to " + x.an.showVal(st, e.Args[0]) + ", which is neither the file it was computed from nor the output file"
					}
				}
				x.rule("C14", why == "", "files are written with complete results only", site, "the text written %s (%s)", why, x.what)
				if n, ok := x.overwrite(st, e, prior); ok && x.backup != nil {
					x.backedUp(st, e, n, prior)
				}
			}
		}
		if e.Kind == "stdout" || e.Kind == "write" {
			site := x.site(e)
			s, ok := outText(e)
			if e.Kind == "write" {
				s, ok = e.Args[len(e.Args)-1].(StrV)
			}
			if !ok {
				x.rule("C14", false, "output receives complete results only", site, "unknown text")
				return
			}
			if x.tainted(prior, s) {
				_, _, _, why := x.delivery(st, s, prior)
				x.rule("C14", why == "", "output receives complete results only", site, "the text %s (%s)", why, x.what)
				x.rule("C16", !dry, "a dry run changes nothing", site, "edited text is written although a dry run was requested (%s)", x.what)
			}
		}
		if isEval(e) && x.r.id == "C21" {
			b, ok := x.evalBuf(e)
			x.rule("C21", ok && x.an.allocs[b.Obj], "every evaluation has a buffer of its own", x.site(e), "the buffer was not created by this edit (%s)", x.what)
			x.ownEnv(st, e, prior)
		}
		if isParse(e) {
			if x.scripts != nil || x.exprs != nil {
				why := x.script(st, e, prior)
				x.rule("C25", why == "", "the script is parsed verbatim", x.site(e), "%s (%s)", why, x.what)
			}
		}
	})
}

// ownEnv: the functions an evaluation uses are not shared, or never change.
func (x *fileCtx) ownEnv(st *State, e *Event, prior []*Event) {
	own := false
	for _, a := range e.Args {
		for _, p := range prior {
			if p.Kind == "opaque" && p.Name == "environment" && len(p.Ret) == 1 && st.sameVal(a, p.Ret[0]) {
				own = true
			}
		}
		if p, ok := a.(PtrV); ok && x.an.allocs[p.Obj] {
			if o := e.Pre.obj(p.Obj); o != nil && o.T != nil && types.Identical(o.T, x.c.w.typ("edlisp", "Environment")) {
				own = true
			}
		}
	}
	x.rule("C21", own, "every evaluation has a function table of its own", x.site(e), "the environment was not created by this edit (%s)", x.what)
}

// backedUp: before e overwrites file n, n's content was copied.
func (x *fileCtx) backedUp(st *State, e *Event, n Val, prior []*Event) {
	suf, ok := x.backup.(StrV)
	if !ok {
		return
	}
	if v, known := st.truth(Cond{Kind: CStrEq, S: suf, T: StrV{}}); known && v {
		return
	}
	site := x.site(e)
	for i := len(prior) - 1; i >= 0; i-- {
		p := prior[i]
		if m, ok := x.overwrite(st, p, prior[:i]); ok && st.sameVal(m, n) {
			break
		}
		if !okEvent(p) {
			continue
		}
		if m, ok := x.isBackup(st, p, prior[:i]); ok && st.sameVal(m, n) {
			x.rule("C15", true, "overwriting is preceded by a backup", site, "")
			return
		}
	}
	x.rule("C15", false, "overwriting is preceded by a backup", site, "no successful copy of the file's content to its name plus the suffix precedes the write (%s)", x.what)
}

// ---- failures and successes (C17) ----------------------------------------------

// isFailed: the ghost says an operation of the path failed.
func isFailed(st *State) (failed, maybe bool) {
	g, ok := st.ghost["fail"]
	if !ok {
		return false, false
	}
	if st.eq(g, lc(0)) {
		return false, false
	}
	return st.ge(g.addk(-1)), true
}

// reported checks that a failure is reported: err is the error result.
func (x *fileCtx) reported(o Out, isErr Cond, construct string) {
	st := o.st
	for _, s := range st.assume(isErr.not()) {
		s = s.clone()
		g, ok := s.ghost["fail"]
		if !ok {
			continue
		}
		if s.add(g.addk(-1)) != nil {
			x.rule("C17", false, "a failure is reported", construct, "succeeds although %s failed (%s)", x.firstFailure(s), x.what)
			return
		}
	}
	x.rule("C17", true, "a failure is reported", construct, "")
}

func (x *fileCtx) firstFailure(st *State) string {
	name := "an operation"
	walk(st, events(st.ev), nil, func(_ *State, e *Event, _ []*Event) {
		if x.an.failEvent(e) && name == "an operation" {
			name = e.Name
		}
	})
	return name
}

// sweep follows the files named by a path's events in order.
type sweep struct {
	x    *fileCtx
	next Lin // files before this index were handled
	any  bool
	seg  segment
	why  string
}

type segment struct {
	open      bool
	delivered bool
	failed    bool
	site      string
	msgs      []string
	after     bool
}

// theFormat is the known script format of a state: "" when none is known.
func theFormat(st *State, v Val) string {
	s, ok := v.(StrV)
	if !ok {
		return ""
	}
	for _, f := range []string{"shell", "sexp", "json"} {
		if t, known := st.truth(Cond{Kind: CStrEq, S: s, T: lit(f)}); known && t {
			return f
		}
	}
	return ""
}

func (x *fileCtx) badFormat(st *State) bool { return x.format != nil && theFormat(st, x.format) == "" }

// index is the index of the named file an event is about.
func (x *fileCtx) index(st *State, e *Event) (Lin, bool) {
	if e.Kind != "call" || len(e.Args) == 0 || x.files == nil {
		return Lin{}, false
	}
	return x.an.indexOf(st, *x.files, e.Args[0])
}

// delivers: e hands a complete result to its destination.
func (x *fileCtx) delivers(st *State, e *Event, prior []*Event) bool {
	switch {
	case e.Kind == "call" && e.Name == "os.WriteFile" && okEvent(e):
		data, _ := e.Args[1].(StrV)
		_, name, kind, why := x.delivery(st, data, prior)
		return why == "" && (kind == "file" && st.sameVal(name, e.Args[0]) || x.output != nil && st.sameVal(e.Args[0], x.output))
	case e.Kind == "stdout":
		s, ok := outText(e)
		if !ok || x.result(st, prior, s) == nil {
			return false
		}
		_, _, _, why := x.delivery(st, s, prior)
		return why == ""
	}
	return false
}

func (w *sweep) note(st *State, e *Event) {
	if s, ok := outText(e); ok {
		t := template(s)
		if strings.IndexFunc(t, func(r rune) bool { return r < 128 && (r|32) >= 'a' && (r|32) <= 'z' }) >= 0 {
			if w.seg.delivered {
				w.seg.msgs = append(w.seg.msgs, t)
			} else {
				w.seg.msgs = append(w.seg.msgs, "-"+t)
			}
		}
	}
}

// template is the literal text of a message.
func template(s StrV) string {
	var b strings.Builder
	for _, p := range s.P {
		if p.Base == nil {
			b.WriteString(p.Lit)
		} else {
			b.WriteByte(1)
		}
	}
	return b.String()
}

// done ends the segment of a file.
func (w *sweep) done(lastErr bool) {
	s := w.seg
	w.seg = segment{}
	if !s.open {
		return
	}
	x := w.x
	failed := s.failed || lastErr
	x.mu.Lock()
	for _, m := range s.msgs {
		after := !strings.HasPrefix(m, "-")
		m = strings.TrimPrefix(m, "-")
		if failed {
			x.failed[m] = s.site
		} else if after {
			x.succ[m] = s.site
		}
	}
	x.mu.Unlock()
	x.rule("C17", failed || s.delivered, "a file handled without failure is written", s.site, "neither written nor failed (%s)", x.what)
}

// run follows evs; it reports why the order is wrong.
func (w *sweep) run(st *State, evs, prior []*Event) string {
	x := w.x
	prior = append([]*Event(nil), prior...)
	for _, e := range evs {
		if i, ok := x.index(st, e); ok {
			w.any = true
			switch {
			case w.seg.open && st.eq(i.addk(1), w.next):
			case st.eq(i, w.next):
				w.done(false)
				w.seg = segment{open: true, site: x.site(e)}
				w.next = w.next.addk(1)
			default:
				return fmt.Sprintf("handles file %s where file %s is due", x.an.show(i), x.an.show(w.next))
			}
		}
		if e.Loop != nil {
			if why := w.loop(e.Loop, st, prior); why != "" {
				return why
			}
		} else {
			if x.an.failEvent(e) {
				w.seg.failed = true
			}
			if x.delivers(st, e, prior) {
				w.seg.delivered = true
			}
			w.note(st, e)
		}
		prior = append(prior, e)
	}
	return ""
}

func (w *sweep) loop(l *LoopInfo, st *State, prior []*Event) string {
	x := w.x
	var at *Lin
	for _, b := range l.Backs {
		for _, e := range l.iteration(b) {
			if i, ok := x.index(b, e); ok {
				if at == nil {
					at = &i
				} else if !b.eq(*at, i) {
					return "an iteration handles more than one file"
				}
			}
		}
	}
	if at == nil {
		again := false
		for _, b := range l.Backs {
			walk(b, l.iteration(b), nil, func(st *State, e *Event, _ []*Event) {
				if _, ok := x.index(st, e); ok {
					again = true
				}
			})
		}
		if again {
			return "a loop handles the files repeatedly"
		}
		return ""
	}
	if !l.Entry.eq(subst(*at, l.EntryMap), w.next) {
		return fmt.Sprintf("the loop starts at file %s, not %s", x.an.show(subst(*at, l.EntryMap)), x.an.show(w.next))
	}
	w.done(false)
	w.any = true
	for i, b := range l.Backs {
		sub := &sweep{x: x, next: *at}
		if why := sub.run(b, l.iteration(b), prior); why != "" {
			return why
		}
		if !sub.any {
			return "a kind of iteration skips its file"
		}
		// a failure without an event of its own
		if g, h := b.ghost["fail"], l.Head.ghost["fail"]; !g.eqSyn(h) && b.ge(g.addk(-1)) && !l.Head.ge(h.addk(-1)) {
			sub.seg.failed = true
		}
		sub.seg.failed = sub.seg.failed || x.badFormat(b)
		sub.done(false)
		if !b.eq(subst(*at, l.BackMaps[i]), sub.next) {
			return fmt.Sprintf("after file %s the loop goes on with file %s", x.an.show(*at), x.an.show(subst(*at, l.BackMaps[i])))
		}
	}
	w.next = *at
	return ""
}

// covers checks that a path handles every named file once, in order.
func (x *fileCtx) covers(o Out, from *Event, isErr Cond, construct string) {
	for _, s := range o.st.assume(isErr) {
		x.cover(s, from, true, construct)
	}
	for _, s := range o.st.assume(isErr.not()) {
		x.cover(s, from, false, construct)
	}
}

func (x *fileCtx) cover(st *State, from *Event, err bool, construct string) {
	evs := eventsAfter(st.ev, from)
	w := &sweep{x: x, next: lc(0)}
	why := w.run(st, evs, nil)
	x.rule("C17", why == "", "files are handled once each, in order", construct, "%s (%s)", why, x.what)
	if why != "" {
		return
	}
	w.done(err)
	if w.any || !err {
		x.rule("C17", st.ge(w.next.sub(x.files.Len)), "a failure does not stop the other files", construct, "returns after %s of %s files (%s)", x.an.show(w.next), x.an.show(x.files.Len), x.what)
	}
}

func (x *fileCtx) messages() {
	if x.r.id != "C17" {
		return
	}
	var ks []string
	for m := range x.succ {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	for _, m := range ks {
		site, bad := x.failed[m]
		x.r.check(!bad, "a success message is only printed for a written file", strings.ReplaceAll(m, "\x01", "…"), "also printed when the file was not written: %s", site)
	}
}

// ---- formats (C25) ---------------------------------------------------------------

// languages maps the keys of the parsers to the language they parse: "json"
// for those that reach encoding/json, "lines" for the others.
func (k *cmdLab) language(key string) string {
	for f, n := range k.opq {
		if n != key {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var rands []*ssa.Value
					for _, o := range in.Operands(rands) {
						if g, ok := (*o).(*ssa.Function); ok {
							if fnPkg(g) == "encoding/json" || k.c.w.inMod(g) && visit(g) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		if visit(f) {
			return "json"
		}
		return "lines"
	}
	return ""
}

// parserUse collects which parsers are used for which format.
type parserUse struct {
	mu sync.Mutex
	m  map[string]map[string]map[string]bool // format, parser, entry point
}

func (u *parserUse) add(format, parser, where string) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.m[format] == nil {
		u.m[format] = map[string]map[string]bool{}
	}
	if u.m[format][parser] == nil {
		u.m[format][parser] = map[string]bool{}
	}
	u.m[format][parser][where] = true
}

// check: every entry point uses the same parser for a format.
func (u *parserUse) check(r *Report) {
	for _, f := range []string{"json", "sexp", "shell"} {
		var ps, ws []string
		for p, where := range u.m[f] {
			ps = append(ps, p)
			var w []string
			for x := range where {
				w = append(w, x)
			}
			sort.Strings(w)
			ws = append(ws, p+" in "+strings.Join(w, ", "))
		}
		sort.Strings(ps)
		sort.Strings(ws)
		r.check(len(ps) == 1, "a format means one language everywhere", f+": "+strings.Join(ps, ", "), "parsed by %s", strings.Join(ws, "; "))
	}
}

// parserOf follows parsers that only hand their text to another parser.
func (k *cmdLab) parserOf(key string) string {
	for range 4 {
		next := ""
		for f, n := range k.opq {
			if n != key {
				continue
			}
			calls := map[string]bool{}
			own := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Call.StaticCallee()
					switch {
					case g == nil:
						own++
					case strings.HasPrefix(k.opq[g], "parse:"):
						calls[k.opq[g]] = true
					case fnPkg(g) == "strings" || fnPkg(g) == "bytes":
					default:
						own++
					}
				}
			}
			if len(calls) == 1 && own == 0 {
				for c := range calls {
					next = c
				}
			}
		}
		if next == "" {
			break
		}
		key = next
	}
	return strings.TrimPrefix(key, "parse:")
}

// formats checks one outcome: nothing is parsed, run or written in a format
// that is not valid, which is an error, and parsers match the format.
func (x *fileCtx) formats(o Out, from *Event, isErr Cond) {
	if x.r.id != "C25" {
		return
	}
	walk(o.st, eventsAfter(o.st.ev, from), nil, func(st *State, e *Event, prior []*Event) {
		f := "shell"
		if x.format != nil {
			f = theFormat(st, x.format)
		}
		fo := ""
		if x.outFormat != nil {
			fo = theFormat(st, x.outFormat)
		}
		effect := isParse(e) || isEval(e) || isWriter(e) || mutates(e) || e.Kind == "stdout" || e.Kind == "write"
		if effect && x.format != nil {
			x.r.check(f != "", "other formats are rejected first", x.site(e), "reached with a format that may be none of shell, sexp and json (%s)", x.what)
		}
		if effect && x.outFormat != nil {
			x.r.check(fo != "", "other output formats are rejected first", x.site(e), "reached with an output format that may be none of shell, sexp and json (%s)", x.what)
		}
		if isParse(e) && f != "" {
			x.usesParser(e, f)
		}
		if isWriter(e) && x.outFormat != nil {
			x.usesWriter(e, fo)
		}
	})
	for _, s := range o.st.assume(isErr.not()) {
		if x.format != nil && (x.files == nil || x.outFormat != nil) {
			x.r.check(theFormat(s, x.format) != "", "other formats are an error", x.what, "succeeds with a format that may be none of shell, sexp and json")
		}
		if x.outFormat != nil {
			x.r.check(theFormat(s, x.outFormat) != "", "other output formats are an error", x.what, "succeeds with an output format that may be none of shell, sexp and json")
		}
	}
}

func (x *fileCtx) usesParser(e *Event, format string) {
	if x.r.id != "C25" {
		return
	}
	want := "lines"
	if format == "json" {
		want = "json"
	}
	got := x.lang(e.Name)
	x.r.check(got == want, "the parser of the requested format is used", x.site(e), "parses %s for format %s (%s)", got, format, x.what)
	x.parsers.add(format, x.canon(e.Name), strings.SplitN(x.what, " with ", 2)[0])
}

func (x *fileCtx) usesWriter(e *Event, format string) {
	t := e.Name[strings.LastIndexByte(e.Name, ':')+1:]
	x.rule("C25", writerFor(format) != "" && strings.HasSuffix(t, "."+writerFor(format)), "the writer of the requested format is used", x.site(e), "uses %s for format %s (%s)", t, format, x.what)
}

// ---- entry points ---------------------------------------------------------------

// errCond is the condition that the error among a function's results is not nil.
func (an *An) errCond(st *State, ret Val, sig *types.Signature) (Cond, bool) {
	n := sig.Results().Len()
	if n == 0 || !types.Identical(sig.Results().At(n-1).Type(), an.w.errType) {
		return Cond{}, false
	}
	if t, ok := ret.(TupleV); ok {
		ret = t.E[n-1]
	}
	return st.isNil(ret).not(), true
}

func (c *ctx) files(r *Report) {
	k := c.newCmdLab()
	for _, e := range k.errs {
		r.fail("resolved", "core functions", "%s", e)
	}
	if len(k.errs) > 0 {
		return
	}
	c.libraryFiles(r, k)
	c.editCommand(r, k)
	c.otherCommands(r, k)
	c.toolFiles(r, k)
	if r.id == "C25" {
		k.parsers.check(r)
	}
}

// libraryFiles: the functions of package texted.
func (c *ctx) libraryFiles(r *Report, k *cmdLab) {
	p := c.w.ssaPkg[modPath]
	if p == nil {
		r.fail("resolved", "package texted", "not found")
		return
	}
	n := 0
	for _, m := range sortedMembers(p) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		if !c.reachesAny(fn, k) {
			continue
		}
		n++
		an := k.newAn()
		st := an.newState()
		st.ghost["fail"] = lc(0)
		x := &fileCtx{c: c, r: r, an: an, what: fnName(fn), lang: k.language, canon: k.parserOf, parsers: k.parsers, mu: &sync.Mutex{}, succ: map[string]string{}, failed: map[string]string{}, textCache: map[*Event][]*StrV{}}
		args := make([]Val, len(fn.Params))
		known := true
		for i, q := range fn.Params {
			args[i] = an.havoc(st, q.Type(), q.Name())
			switch {
			case i == 0 && isString(q.Type()) && strings.HasPrefix(fn.Name(), "Edit"):
				x.file = args[i]
			case i == 0 && isString(q.Type()):
				x.input = args[i]
			case i == 0:
				s, ok := args[i].(SliceV)
				if ok {
					x.files = &s
				}
				known = known && ok
			case i == 1 && isString(q.Type()):
				x.scripts = append(x.scripts, args[i])
			case i == 2 && isString(q.Type()):
				x.format = args[i]
			default:
				known = false
			}
		}
		if !known {
			r.fail("resolved", x.what, "parameters of an exported function that runs scripts are not understood")
			continue
		}
		from := st.ev
		var outs []Out
		if why := an.guard(func() { outs = an.run(st, fn, args...) }); why != "" {
			r.fail("analysed", x.what, "%s", why)
		}
		r.unit("paths", len(outs))
		r.unit("entry points", 1)
		for _, o := range outs {
			if o.kind != outReturn {
				continue
			}
			x.path(o, from, false)
			x.keeps(o, from, true)
			ec, ok := an.errCond(o.st, o.ret, fn.Signature)
			if !ok {
				x.rule("C17", false, "a failure is reported", x.what, "has no error result")
				continue
			}
			x.formats(o, from, ec)
			switch {
			case x.files != nil:
				x.results(o, from, ec)
			case x.file != nil:
				x.reported(o, ec, x.what)
				x.wrote(o, from, ec)
			default:
				x.reported(o, ec, x.what)
				x.returns(o, from, ec)
			}
		}
		x.messages()
		r.engine(an, x.what)
	}
	r.check(n >= 6, "analysed", "entry points of package texted", "only %d functions that run scripts", n)
}

// reachesAny: fn may call one of the opaque functions.
func (c *ctx) reachesAny(fn *ssa.Function, k *cmdLab) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if _, ok := k.opq[f]; ok {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range c.w.callees(f) {
			if visit(g) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// returns: a successful ExecuteScript returns the resulting text.
func (x *fileCtx) returns(o Out, from *Event, isErr Cond) {
	t, ok := o.ret.(TupleV)
	if !ok {
		return
	}
	text, ok := t.E[0].(StrV)
	for _, s := range o.st.assume(isErr.not()) {
		evs := eventsAfter(s.ev, from)
		why := "the result is not a text"
		if ok {
			_, _, _, why = x.delivery(s, text, evs)
		}
		x.rule("C14", why == "", "the returned text is the complete result", x.what, "the returned text %s", why)
	}
}

// wrote: a successful EditFile wrote its file.
func (x *fileCtx) wrote(o Out, from *Event, isErr Cond) {
	for _, s := range o.st.assume(isErr.not()) {
		done := false
		var prior []*Event
		for _, e := range eventsAfter(s.ev, from) {
			done = done || e.Kind == "call" && x.delivers(s, e, prior)
			prior = append(prior, e)
		}
		x.rule("C17", done, "success means the file was written", x.what, "returns no error although the file was not written")
	}
}

// stored is a value stored by a loop iteration into a sequence.
type stored struct {
	key string
	arr int
	idx Lin
	val Val
}

// stores lists what iteration i of l stores into or appends to sequences that
// exist at the loop's head.
func (an *An) stores(b *State, l *LoopInfo, i int) []stored {
	var out []stored
	for id, o := range b.heap {
		if o.Arr == nil {
			continue
		}
		h := l.Head.obj(id)
		if h == nil || h.Arr == nil {
			continue
		}
		for _, e := range o.Arr.Els {
			if e.W {
				out = append(out, stored{fmt.Sprintf("arr%d", id), id, e.I, e.V})
			}
		}
	}
	for _, c := range l.Cells {
		h, ok := c.Head.(SliceV)
		v, ok2 := c.Backs[i].(SliceV)
		if !ok || !ok2 || h.Arr < 0 || v.Arr < 0 {
			continue
		}
		empty := false
		switch e := c.Entry.(type) {
		case SliceV:
			empty = l.Entry.eq(e.Len, lc(0))
		case NilV:
			empty = true
		}
		o := b.obj(v.Arr)
		if o == nil || o.Arr == nil || len(o.Arr.Log) == 0 {
			continue
		}
		g := o.Arr.Log[len(o.Arr.Log)-1]
		if empty && g.From == h.Arr && len(g.Vals) == 1 && b.eq(v.Len, h.Len.addk(1)) {
			out = append(out, stored{fmt.Sprintf("cell%d", h.Arr), h.Arr, h.Len, g.Vals[0]})
		}
	}
	return out
}

// results: the multi-file functions return one truthful result per file.
func (x *fileCtx) results(o Out, from *Event, isErr Cond) {
	an := x.an
	res := x.c.w.typ("", "EditResult")
	if res == nil {
		x.rule("C17", false, "resolved", "texted.EditResult", "not found")
		return
	}
	rt := res.Underlying().(*types.Struct)
	for _, s := range o.st.assume(isErr) {
		_ = s
		x.rule("C17", false, "one result per file", x.what, "fails as a whole instead of reporting each file")
	}
	for _, s := range o.st.assume(isErr.not()) {
		x.cover(s, from, false, x.what)
		t, _ := o.ret.(TupleV)
		var list SliceV
		ok := len(t.E) == 2
		if ok {
			list, ok = t.E[0].(SliceV)
		}
		if s.eq(x.files.Len, lc(0)) {
			x.rule("C17", !ok || s.eq(list.Len, lc(0)), "one result per file", x.what, "returns results without files")
			continue
		}
		var loops []*Event
		for _, e := range eventsAfter(s.ev, from) {
			if e.Loop != nil {
				loops = append(loops, e)
			}
		}
		if !ok || !s.eq(list.Len, x.files.Len) {
			x.rule("C17", false, "one result per file", x.what, "returns %s for %s files", an.showVal(s, t), an.show(x.files.Len))
			continue
		}
		good, why := false, "no loop stores a result for every file"
		for _, e := range loops {
			l := e.Loop
			done := len(l.Backs) > 0
			for i, b := range l.Backs {
				if w := x.resultOf(b, l, i, list, rt); w != "" {
					done, why = false, w
				}
			}
			good = good || done
		}
		x.rule("C17", good, "one result per file", x.what, "%s", why)
	}
}

// resultOf checks the result iteration i of l stores for its file.
func (x *fileCtx) resultOf(b *State, l *LoopInfo, i int, list SliceV, rt *types.Struct) string {
	an := x.an
	var at Lin
	found := false
	for _, e := range l.iteration(b) {
		if n, ok := x.index(b, e); ok {
			at, found = n, true
		}
	}
	if !found {
		return "an iteration handles no file"
	}
	for _, s := range an.stores(b, l, i) {
		if s.arr != list.Arr {
			continue
		}
		if !b.eq(s.idx, at) {
			return fmt.Sprintf("the result of file %s is stored at %s", an.show(at), an.show(s.idx))
		}
		v, ok := s.val.(StructV)
		if !ok {
			return "the stored result is unknown"
		}
		f := map[string]Val{}
		for j := range v.F {
			f[rt.Field(j).Name()] = v.F[j]
		}
		if n, ok := an.indexOf(b, *x.files, f["Filename"]); !ok || !b.eq(n, at) {
			return "the result does not carry the file's name"
		}
		failed := x.badFormat(b)
		for _, e := range l.iteration(b) {
			failed = failed || an.failEvent(e)
		}
		if g, h := b.ghost["fail"], l.Head.ghost["fail"]; b.ge(g.addk(-1)) && !l.Head.ge(h.addk(-1)) {
			failed = true
		}
		su, ok := f["Success"].(BoolV)
		if !ok {
			return "the success of the result is unknown"
		}
		tr, known := b.truth(su.C)
		if !known || tr == failed {
			return fmt.Sprintf("Success is %s where the file %s", an.showVal(b, su), map[bool]string{true: "failed", false: "was written"}[failed])
		}
		isNil, known := b.truth(b.isNil(f["Error"]))
		if !known || isNil == failed {
			return "Error is not set exactly for the files that failed"
		}
		return ""
	}
	return "an iteration stores no result"
}

// editCommand: texted edit, once per combination of its boolean flags.
func (c *ctx) editCommand(r *Report, k *cmdLab) {
	n := k.combos("edit")
	if !r.check(n > 1, "resolved", "command edit", "not registered by main, or without flags") {
		return
	}
	var mu sync.Mutex
	succ, failed := map[string]string{}, map[string]string{}
	var last *fileCtx
	parallel(n, func(i int) {
		sub := newReport(r.id)
		defer func() {
			if e := recover(); e != nil {
				sub.fail("analysed", "command edit", "the analysis stopped: %v", e)
			}
			mu.Lock()
			r.merge(sub)
			mu.Unlock()
		}()
		x := c.editCombo(sub, k, i)
		mu.Lock()
		for m, s := range x.succ {
			succ[m] = s
		}
		for m, s := range x.failed {
			failed[m] = s
		}
		last = x
		mu.Unlock()
	})
	if last != nil {
		last.r, last.succ, last.failed = r, succ, failed
		last.messages()
	}
}

func (c *ctx) editCombo(r *Report, k *cmdLab, i int) *fileCtx {
	run, why := k.run("edit", i)
	x := &fileCtx{c: c, r: r, what: fmt.Sprintf("edit, combination %d", i), lang: k.language, canon: k.parserOf, parsers: k.parsers, mu: &sync.Mutex{}, succ: map[string]string{}, failed: map[string]string{}, textCache: map[*Event][]*StrV{}}
	if run == nil || why != "" {
		r.fail("analysed", "command edit", "%s", why)
		return x
	}
	x.an, x.run = run.an, run
	x.what = "edit with [" + run.combo + "]"
	files := run.args
	x.files = &files
	x.stdin = true
	for _, f := range []string{"script", "file", "expression", "output", "backup", "format", "output-format"} {
		if run.flags[f] == nil {
			r.fail("resolved", "edit --"+f, "flag not declared")
			return x
		}
	}
	for _, f := range []string{"in-place", "dry-run", "verbose", "quiet", "shell", "sexp", "json"} {
		if _, ok := run.bools[f]; !ok {
			r.fail("resolved", "edit --"+f, "boolean flag not declared")
			return x
		}
	}
	x.scripts = []Val{run.flags["script"]}
	x.scriptFile, x.output, x.backup, x.format, x.outFormat = run.flags["file"], run.flags["output"], run.flags["backup"], run.flags["format"], run.flags["output-format"]
	ex, ok := run.flags["expression"].(SliceV)
	if !r.check(ok, "resolved", "edit --expression", "is not a list of texts") {
		return x
	}
	x.exprs = &ex
	for _, f := range []string{"json", "sexp", "shell"} {
		if run.bools[f] {
			x.format = lit(f)
		}
	}
	r.unit("paths", len(run.outs))
	r.unit("combinations of boolean flags", 1)
	dry := run.bools["dry-run"]
	for _, o := range run.outs {
		if o.kind == outPanic {
			continue
		}
		x.path(o, run.start.ev, dry)
		x.keeps(o, run.start.ev, false)
		x.quiet(o, run)
		isErr, ok := run.errCond(o)
		if !ok {
			r.fail("resolved", x.what, "the command's error is not resolved")
			continue
		}
		x.reported(o, isErr, x.what)
		x.formats(o, run.start.ev, isErr)
		x.delivered(o, run, isErr, dry)
	}
	r.engine(run.an, x.what)
	return x
}

// errCond: the condition under which an outcome of a command makes the
// process exit with a status other than 0.
func (run *cmdRun) errCond(o Out) (Cond, bool) {
	switch o.kind {
	case outReturn:
		if run.field == "RunE" {
			return run.an.errCond(o.st, o.ret, run.fn.Signature)
		}
		return Cond{Kind: CConst}, true
	case outStop:
		if e := o.st.ev; e != nil && e.Kind == "exit" && len(e.Args) == 1 {
			if n, ok := e.Args[0].(IntV); ok {
				return ceq(n.L).not(), true
			}
		}
	}
	return Cond{}, false
}

// delivered: without error, everything asked for was done.
func (x *fileCtx) delivered(o Out, run *cmdRun, isErr Cond, dry bool) {
	if x.r.id != "C17" || dry {
		return
	}
	from := run.start.ev
	for _, n := range []bool{true, false} {
		c := isErr
		if !n {
			c = c.not()
		}
		for _, s := range o.st.assume(c) {
			// with expressions nothing is edited
			for _, s := range s.assume(cge(x.exprs.Len.addk(-1)).not()) {
				for _, s := range s.assume(cge(x.files.Len.addk(-1))) {
					x.cover(s, from, n, x.what)
				}
				if n {
					continue
				}
				for _, s := range s.assume(cge(x.files.Len.addk(-1)).not()) {
					done := false
					var prior []*Event
					for _, e := range eventsAfter(s.ev, from) {
						done = done || x.delivers(s, e, prior)
						prior = append(prior, e)
					}
					x.r.check(done, "success means the result was delivered", x.what, "succeeds without delivering the edited standard input")
				}
			}
		}
	}
}

// quiet checks what else is written to standard output (C18).
func (x *fileCtx) quiet(o Out, run *cmdRun) {
	if x.r.id != "C18" {
		return
	}
	st := o.st
	var result []*Event
	var other []*Event
	walk(st, eventsAfter(st.ev, run.start.ev), nil, func(st *State, e *Event, prior []*Event) {
		if e.Kind == "stdout" {
			s, ok := outText(e)
			if ok {
				if ev := x.result(st, prior, s); ev != nil {
					result = append(result, e)
					return
				}
			}
			other = append(other, e)
			return
		}
		for _, a := range e.Args {
			if isNote(a, "os.Stdout") && e.Kind != "flag" {
				other = append(other, e)
				return
			}
		}
	})
	for _, e := range other {
		x.r.check(!run.bools["quiet"], "quiet prints nothing but the edited text", x.site(e), "prints although quiet was requested (%s)", x.what)
		x.r.check(len(result) == 0 || run.bools["verbose"], "the edited text is the only output", x.site(e), "prints besides the edited text (%s)", x.what)
	}
	for _, e := range result {
		x.r.ok("the edited text is printed", x.site(e))
	}
}

// otherCommands: parse, and the commands that change no file.
func (c *ctx) otherCommands(r *Report, k *cmdLab) {
	m := k.main()
	for _, e := range m.errs {
		r.fail("resolved", "main", "%s", e)
	}
	if r.id == "C17" {
		c.exitStatus(r, k, m)
	}
	var names []string
	for n := range m.cmds {
		if n != "edit" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	r.check(len(names) >= 4, "resolved", "commands", "only %v are registered besides edit", names)
	for _, name := range names {
		n := k.combos(name)
		for i := 0; i < n; i++ {
			run, why := k.run(name, i)
			if run == nil || why != "" {
				r.fail("analysed", "command "+name, "%s", why)
				continue
			}
			x := &fileCtx{c: c, r: r, an: run.an, what: name + " with [" + run.combo + "]", lang: k.language, canon: k.parserOf, parsers: k.parsers, mu: &sync.Mutex{}, succ: map[string]string{}, failed: map[string]string{}, textCache: map[*Event][]*StrV{}}
			r.unit("paths", len(run.outs))
			r.unit("combinations of boolean flags", 1)
			for _, o := range run.outs {
				if o.kind == outPanic {
					continue
				}
				x.path(o, run.start.ev, false)
				isErr, ok := run.errCond(o)
				if !ok {
					r.fail("resolved", x.what, "the command's error is not resolved")
					continue
				}
				x.reported(o, isErr, x.what)
				if name == "parse" {
					x.convert(o, run, isErr)
				}
			}
			r.engine(run.an, x.what)
		}
	}
}

// convert checks the parse command.
func (x *fileCtx) convert(o Out, run *cmdRun, isErr Cond) {
	in, out := run.flags["input-format"], run.flags["output-format"]
	if in == nil || out == nil {
		x.r.fail("resolved", "parse --input-format and --output-format", "flags not declared")
		return
	}
	var parse, write *Event
	var delivered, others []*Event
	walk(o.st, eventsAfter(o.st.ev, run.start.ev), nil, func(st *State, e *Event, prior []*Event) {
		fi, fo := theFormat(st, in), theFormat(st, out)
		if isParse(e) || isWriter(e) || e.Kind == "stdout" || e.Kind == "write" || e.Kind == "call" && e.Name == "io.ReadAll" {
			x.rule("C25", fi != "" && fo != "", "other formats are rejected first", x.site(e), "reached with an input or output format that may be none of shell, sexp and json")
		}
		switch {
		case isParse(e):
			if fi != "" {
				x.usesParser(e, fi)
			}
			text := false
			for _, a := range e.Args {
				text = text || isNote(a, "os.Stdin")
			}
			if s, ok := x.parsed(e); ok {
				for _, p := range prior {
					if _, in, content, ok := x.read(st, p, prior); ok && in && st.strEq(s, content) {
						text = true
					}
				}
			}
			x.rule("C25", text, "the script is parsed verbatim", x.site(e), "does not parse standard input")
			if okEvent(e) {
				parse = e
			}
		case isWriter(e):
			x.usesWriter(e, fo)
			ok := false
			if parse != nil {
				for _, a := range e.Args {
					ok = ok || st.sameVal(a, parse.Ret[0])
				}
			}
			x.rule("C14", ok, "the whole converted script is written", x.site(e), "writes something that is not the parsed script")
			if okEvent(e) {
				write = e
			}
			for _, a := range e.Args {
				if isNote(a, "os.Stdout") {
					delivered = append(delivered, e)
				}
			}
		case e.Kind == "stdout":
			s, ok := outText(e)
			if ok && write != nil {
				for _, a := range write.Args {
					if p, isP := stripIface(a).(PtrV); isP {
						if b, isB := x.an.load(write.Post, p).(BuilderV); isB && st.strEq(b.S, s) {
							delivered = append(delivered, e)
							return
						}
					}
				}
			}
			others = append(others, e)
		}
	})
	for _, e := range others {
		x.rule("C18", len(delivered) == 0, "the converted script is the only output", x.site(e), "prints besides the converted script")
	}
	for _, e := range delivered {
		x.rule("C18", len(others) == 0, "the converted script is the only output", x.site(e), "")
	}
	for _, s := range o.st.assume(isErr.not()) {
		x.rule("C17", write != nil && len(delivered) == 1, "success means the result was delivered", x.what, "succeeds without writing the converted script to standard output")
		x.rule("C25", theFormat(s, in) != "" && theFormat(s, out) != "", "other formats are an error", x.what, "succeeds with formats that may be none of shell, sexp and json")
	}
}

func writerFor(format string) string {
	return map[string]string{"shell": "ShellWriter", "sexp": "SExpWriter", "json": "JSONWriter"}[format]
}

// exitStatus: main exits non-zero exactly when the root command fails.
func (c *ctx) exitStatus(r *Report, k *cmdLab, m *mainRun) {
	n := 0
	for _, o := range m.outs {
		var ex *Event
		for _, e := range events(o.st.ev) {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "(*github.com/spf13/cobra.Command).Execute") {
				ex = e
			}
		}
		if ex == nil {
			r.fail("the exit status tells failure", "main", "a path does not execute the root command")
			continue
		}
		if p, ok := ex.Args[0].(PtrV); !ok || p.Obj != m.root {
			r.fail("the exit status tells failure", "main", "executes another command than the one the commands were added to")
		}
		n++
		switch {
		case o.kind == outPanic:
			r.fail("the exit status tells failure", "main", "may panic")
		case okEvent(ex):
			ok := o.kind == outReturn
			if o.kind == outStop && o.st.ev.Kind == "exit" {
				v, isInt := o.st.ev.Args[0].(IntV)
				ok = isInt && o.st.eq(v.L, lc(0))
			}
			r.check(ok, "the exit status tells failure", "main after success", "the process does not end with status 0")
		default:
			ok := false
			if o.kind == outStop && o.st.ev.Kind == "exit" {
				v, isInt := o.st.ev.Args[0].(IntV)
				code, isConst := int64(0), false
				if isInt {
					code, isConst = o.st.constOf(v.L)
				}
				ok = isConst && code&255 != 0
			}
			r.check(ok, "the exit status tells failure", "main after failure", "the process ends with status 0 although the command failed")
		}
	}
	r.check(n >= 2, "analysed", "main", "only %d outcomes", n)
	r.engine(m.an, "main")
}

func checkFiles(c *ctx, r *Report) { c.files(r) }
