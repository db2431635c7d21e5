package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	repo    string
	mod     string
	pkgs    []*packages.Package // module packages, dependency order
	prog    *ssa.Program
	ssaPkg  map[string]*ssa.Package
	fset    *token.FileSet
	globals map[*ssa.Global]int
	gname   map[int]*ssa.Global
	base    map[int]*Obj
	nobj    int
	impl    map[string][]types.Type
	loops   map[*ssa.Function]*loopNest
	mu      sync.Mutex
	errType types.Type
	extErr  types.Type // synthetic dynamic type of library errors
	initAn  *An
}

const modPath = "github.com/dhamidi/texted"

func load(repo string) (*World, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedEmbedFiles,
		Dir: repo,
		Env: env,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("no packages in %s", repo)
	}
	w := &World{repo: repo, mod: modPath, ssaPkg: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, gname: map[int]*ssa.Global{},
		base: map[int]*Obj{}, impl: map[string][]types.Type{}, loops: map[*ssa.Function]*loopNest{}}
	var bad []string
	seen := map[string]bool{}
	packages.Visit(initial, nil, func(p *packages.Package) { // post-order
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
			}
			if !seen[p.PkgPath] {
				seen[p.PkgPath] = true
				w.pkgs = append(w.pkgs, p)
			}
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("cannot type-check: %s", strings.Join(bad, "; "))
	}
	w.fset = w.pkgs[0].Fset
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, p := range w.pkgs {
		w.ssaPkg[p.PkgPath] = prog.Package(p.Types)
	}
	w.errType = types.Universe.Lookup("error").Type()
	ext := types.NewNamed(types.NewTypeName(token.NoPos, nil, "liberror", nil), types.NewStruct(nil, nil), nil)
	w.extErr = types.NewPointer(ext)
	return w, w.runInits()
}

// runInits interprets the initialisation of the module's packages.
func (w *World) runInits() error {
	an := newAn(w)
	an.initMode = true
	w.initAn = an
	st := an.newState()
	for _, p := range w.pkgs {
		sp := w.ssaPkg[p.PkgPath]
		for _, m := range sortedMembers(sp) {
			if g, ok := m.(*ssa.Global); ok {
				elem := g.Type().(*types.Pointer).Elem()
				an.nobj++
				st.heap[an.nobj] = &Obj{T: elem, V: an.zero(st, elem), Name: g.String()}
				w.globals[g] = an.nobj
				w.gname[an.nobj] = g
			}
		}
	}
	for _, p := range w.pkgs {
		fn := w.ssaPkg[p.PkgPath].Func("init")
		if fn == nil {
			continue
		}
		outs := an.call(st, fn, nil, nil)
		if len(outs) != 1 || outs[0].kind != outReturn {
			return fmt.Errorf("initialisation of %s has %d outcomes", p.PkgPath, len(outs))
		}
		st = outs[0].st
	}
	w.base = st.heap
	w.nobj = an.nobj
	return nil
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []ssa.Member
	for _, n := range names {
		out = append(out, p.Members[n])
	}
	return out
}

func (w *World) inMod(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return w.ssaPkg[f.Pkg.Pkg.Path()] != nil
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return w.ssaPkg[f.Object().Pkg().Path()] != nil
	}
	// wrappers, thunks and bound methods of module types
	if f.Signature.Recv() != nil {
		return w.modType(f.Signature.Recv().Type())
	}
	if len(f.FreeVars) > 0 {
		return w.modType(f.FreeVars[0].Type())
	}
	return false
}

func (w *World) modType(t types.Type) bool {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && w.ssaPkg[n.Obj().Pkg().Path()] != nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	r, err := filepath.Rel(w.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// fn finds a function "pkg.Name" or method "pkg.(Type).Name" by short package path.
func (w *World) fn(pkg, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := w.ssaPkg[path]
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		o := p.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			ms := w.prog.MethodSets.MethodSet(t)
			if sel := ms.Lookup(p.Pkg, name[i+1:]); sel != nil {
				return w.prog.MethodValue(sel)
			}
		}
		return nil
	}
	return p.Func(name)
}

func (w *World) typ(pkg, name string) types.Type {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := w.ssaPkg[path]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Option tunes one analysis.
type Option struct {
	// Opaque functions are not entered: they become events named by their
	// key with unknown results.
	Opaque map[*ssa.Function]string
	// Havoc lists opaque functions that may modify what their arguments reach.
	Havoc map[*ssa.Function]bool
	// Lean: loops are not unrolled partially and fewer invariants are tried.
	Lean bool
}

// An is one analysis run.
type An struct {
	collect    []*LoopInfo // loops of the path being checked (C12)
	w          *World
	opt        Option
	nobj       int
	nbase      int
	nev        int
	nid        int
	nver       int
	names      []string
	rng        map[Sym][2]*big.Int
	queries    int
	initMode   bool
	quiet      int
	stack      []*ssa.Function
	lazy       map[string]Val
	onSymPtr   func(st *State, id int)                             // an unknown object is used for the first time
	special    map[*ssa.Function]func(st *State, args []Val) []Out // functions with given outcomes
	byteSym    map[Sym]ByteRef
	runeSym    map[Sym]ByteRef
	byteKey    map[string]Sym
	oblig      map[string]*Oblig
	loopsRun   map[string]*LoopReport
	fns        map[*ssa.Function]bool
	unres      map[string]bool
	steps      int
	maxSteps   int
	deadline   time.Time
	lenSyms    map[Sym]bool
	objSite    map[int]string
	allocs     map[int]bool // objects made by allocations of the program
	extra      map[string]interface{}
	loopDepth  int
	curPos     token.Pos
	runeW      map[Sym]Lin
	mapNonNil  bool
	frozen     []types.Type                                  // objects of these types are not changed by unknown calls
	onRead     func(st *State, s StrV, at, end Lin) []*State // a byte or character of a string is read
	nonNil     types.Type                                    // unknown elements of this type are not nil
	recursed   map[string]bool
	failGhost  func(name string) bool
	noPeel     map[*ssa.BasicBlock]bool
	flagVal    map[string]Val // values of command line flags
	flagType   map[string]types.Type
	onReturn   func(fn *ssa.Function, pre *State, args []Val, outs []Out)
	onMapStore func(st *State, m MapV, k, v Val)
	onStore    func(st *State, p PtrV, v Val)
}

// ByteRef says a symbol is the byte (or rune starting) at Base[Idx].
type ByteRef struct {
	Base *Base
	Idx  Lin
}

// Oblig is a proof obligation at a program construct.
type Oblig struct {
	Kind string
	Fn   string
	Pos  string
	What string
	OK   int
	Fail int
	Why  string
}

// LoopReport describes how a loop was handled.
type LoopReport struct {
	Fn, Pos string
	Mode    string
	Inv     []string
	Rank    string
	Bounded bool
	Fails   int
}

func newAn(w *World) *An {
	an := newAn0(w)
	if i := w.initAn; i != nil {
		// values made while initialising the packages keep their meaning
		an.names = append(an.names, i.names...)
		an.nbase, an.nid, an.nev = i.nbase, i.nid, i.nev
		for k, v := range i.rng {
			an.rng[k] = v
		}
		for k := range i.lenSyms {
			an.lenSyms[k] = true
		}
	}
	return an
}

func newAn0(w *World) *An {
	return &An{w: w, nobj: w.nobj, rng: map[Sym][2]*big.Int{}, lazy: map[string]Val{}, byteSym: map[Sym]ByteRef{}, runeSym: map[Sym]ByteRef{}, runeW: map[Sym]Lin{},
		byteKey: map[string]Sym{}, oblig: map[string]*Oblig{}, loopsRun: map[string]*LoopReport{}, fns: map[*ssa.Function]bool{}, unres: map[string]bool{},
		maxSteps: 4000000, deadline: time.Now().Add(600 * time.Second), lenSyms: map[Sym]bool{}, objSite: map[int]string{}, extra: map[string]interface{}{}}
}

func (an *An) newState() *State {
	return &State{an: an, poly: newPoly(), heap: map[int]*Obj{}, dyn: map[int]IfaceV{}, excl: map[int][]types.Type{}, symObj: map[int]int{},
		bind: map[int]string{}, strNe: map[string]bool{}, opq: map[string]bool{}, ghost: map[string]Lin{}}
}

func (an *An) nextEv() int { an.nev++; return an.nev }
func (an *An) nextID() int { an.nid++; return an.nid }

func (an *An) newSym(name string) Sym {
	an.names = append(an.names, name)
	return Sym(len(an.names))
}

func (an *An) symName(s Sym) string {
	if int(s) >= 1 && int(s) <= len(an.names) {
		n := an.names[s-1]
		for _, v := range []string{"len(", "point", "mark"} {
			if strings.HasPrefix(n, v) {
				return n
			}
		}
		return fmt.Sprintf("%s#%d", n, s)
	}
	return fmt.Sprintf("s%d", s)
}

func (an *An) unresolved(f string, a ...interface{}) {
	if an.quiet > 0 {
		return
	}
	an.unres[fmt.Sprintf(f, a...)] = true
}

// implementers returns the module types implementing a module interface.
func (an *An) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || !an.w.modType(t) || it.NumMethods() == 0 {
		return nil
	}
	key := t.String()
	an.w.mu.Lock()
	defer an.w.mu.Unlock()
	if l, ok := an.w.impl[key]; ok {
		return l
	}
	var out []types.Type
	for _, p := range an.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			}
			if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) && !types.Implements(tn.Type(), it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

func (an *An) typeMatches(t, ty types.Type) bool {
	if it, ok := ty.Underlying().(*types.Interface); ok {
		return types.Implements(t, it)
	}
	return types.Identical(t, ty)
}

func (an *An) payload(st *State, t types.Type, note string) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		an.nobj++
		id := an.nobj
		st.heap[id] = &Obj{T: p.Elem(), Sym: true, Name: note}
		return PtrV{Obj: id}
	}
	return an.havoc(st, t, note)
}

// check records an obligation; it returns the states in which it holds.
func (an *An) check(st *State, c Cond, kind string, pos token.Pos, what string) []*State {
	good := st.assume(c)
	if an.quiet > 0 {
		return good
	}
	fn := "?"
	if len(an.stack) > 0 {
		fn = fnName(an.stack[len(an.stack)-1])
	}
	p := an.w.pos(pos)
	key := kind + "|" + fn + "|" + p + "|" + what
	o := an.oblig[key]
	if o == nil {
		o = &Oblig{Kind: kind, Fn: fn, Pos: p, What: what}
		an.oblig[key] = o
	}
	if bad := st.assume(c.not()); len(bad) > 0 {
		o.Fail++
		if o.Why == "" {
			o.Why = bad[0].describe()
		}
	} else {
		o.OK++
	}
	return good
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "texted.")
	return s
}
