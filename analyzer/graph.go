package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Graph holds what the flow-insensitive analyses need: the functions of the
// module, who may call whom, and where functions are used as values.
type Graph struct {
	w       *World
	fns     []*ssa.Function // all functions of the module with a body
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
	bySig   map[string][]*ssa.Function
	inits   map[*ssa.Function]bool // only run while a package is initialised
}

func newGraph(w *World) *Graph {
	g := &Graph{w: w, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, bySig: map[string][]*ssa.Function{}, inits: map[*ssa.Function]bool{}}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Blocks != nil && w.inMod(f) {
			g.fns = append(g.fns, f)
		}
	}
	sort.Slice(g.fns, func(i, j int) bool {
		a, b := g.fns[i], g.fns[j]
		if x, y := a.String(), b.String(); x != y {
			return x < y
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			var callee *ssa.Function
			if c, ok := in.(ssa.CallInstruction); ok {
				callee = c.Common().StaticCallee()
			}
			for i, o := range in.Operands(nil) {
				if h, ok := (*o).(*ssa.Function); ok {
					if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && callee == h && !c.Common().IsInvoke() {
						continue
					}
					if m, isClosure := in.(*ssa.MakeClosure); isClosure && onlyCalled(m) {
						continue
					}
					g.taken[h] = true
				}
			}
		})
	}
	for f := range g.taken {
		if f.Blocks != nil && w.inMod(f) {
			k := sigKey(f.Signature)
			g.bySig[k] = append(g.bySig[k], f)
		}
	}
	for _, f := range g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range g.targets(c) {
					g.callers[t] = append(g.callers[t], c)
				}
			}
		})
	}
	// functions that only run during initialisation
	for _, f := range g.fns {
		if isInit(f) {
			g.inits[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range g.fns {
			if g.inits[f] || g.taken[f] || exportedFn(f) {
				continue
			}
			cs := g.callers[f]
			if p := f.Parent(); p != nil && len(cs) == 0 {
				continue
			}
			all := len(cs) > 0
			for _, c := range cs {
				if !g.inits[c.Parent()] {
					all = false
				}
			}
			if all {
				g.inits[f] = true
				changed = true
			}
		}
	}
	return g
}

// onlyCalled: the closure is only ever called directly.
func onlyCalled(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != m {
			return false
		}
		for _, a := range c.Common().Args {
			if a == m {
				return false
			}
		}
	}
	return true
}

func isInit(f *ssa.Function) bool {
	return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func exportedFn(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() || f.Parent() == nil && f.Name() == "main"
}

func eachInstr(f *ssa.Function, visit func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			visit(in)
		}
	}
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), nil)
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// targets are the module functions a call may reach.
func (g *Graph) targets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return g.methods(cc.Value.Type(), cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Blocks != nil && g.w.inMod(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return g.bySig[sigKey(cc.Signature())]
}

// methods are the module methods an interface method may denote.
func (g *Graph) methods(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range g.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			for _, rt := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(rt, it) {
					continue
				}
				if sel := g.w.prog.MethodSets.MethodSet(rt).Lookup(m.Pkg(), m.Name()); sel != nil {
					if f := g.w.prog.MethodValue(sel); f != nil && f.Blocks != nil {
						out = append(out, f)
					}
				}
				break
			}
		}
	}
	return out
}

// reach is the closure of roots under calls, references and closures.
func (g *Graph) reach(roots []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work, out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && g.w.inMod(f) && !seen[f] {
			seen[f] = true
			work = append(work, f)
			out = append(out, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, t := range g.targets(c) {
					add(t)
				}
			}
			for _, o := range in.Operands(nil) {
				if h, ok := (*o).(*ssa.Function); ok {
					add(h)
				}
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ---- value flow -------------------------------------------------------------

// taint bits
const (
	tElem   = 1 // writing elements changes the source
	tAppend = 2 // appending may change the source
)

type fieldKey struct {
	t string
	i int
}

// Flow propagates facts about values, flow-insensitively, through the module.
type Flow struct {
	g      *Graph
	val    map[ssa.Value]int
	why    map[ssa.Value]string
	fields map[fieldKey]int
	cells  map[ssa.Value]int // contents of allocations and globals
	work   []ssa.Value
	// follow decides which loads through a tainted pointer stay tainted
	deref func(t types.Type) bool
	skip  func(f *ssa.Function) bool
	extra func(v ssa.Value, bits int, why string, r ssa.Instruction)
}

func newFlow(g *Graph) *Flow {
	return &Flow{g: g, val: map[ssa.Value]int{}, why: map[ssa.Value]string{}, fields: map[fieldKey]int{}, cells: map[ssa.Value]int{},
		deref: func(t types.Type) bool { return true }}
}

func (fl *Flow) mark(v ssa.Value, bits int, why string) {
	if v == nil || fl.val[v]&bits == bits {
		return
	}
	if f := v.Parent(); f != nil && fl.skip != nil && fl.skip(f) {
		return
	}
	if fl.why[v] == "" {
		fl.why[v] = why
	}
	fl.val[v] |= bits
	fl.work = append(fl.work, v)
}

func keyOfField(t types.Type, i int) fieldKey {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fieldKey{types.TypeString(t, nil), i}
}

// refType: values of the type refer to storage that others may share.
func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (fl *Flow) run() {
	for len(fl.work) > 0 {
		v := fl.work[len(fl.work)-1]
		fl.work = fl.work[:len(fl.work)-1]
		bits, why := fl.val[v], fl.why[v]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			fl.step(v, bits, why, r)
		}
	}
}

// cellOf is the storage an address denotes when it is a variable.
func cellOf(a ssa.Value) ssa.Value {
	switch x := a.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return x
	}
	return nil
}

func (fl *Flow) step(v ssa.Value, bits int, why string, r ssa.Instruction) {
	if fl.extra != nil {
		fl.extra(v, bits, why, r)
	}
	switch x := r.(type) {
	case *ssa.Phi:
		fl.mark(x, bits, why)
	case *ssa.ChangeType:
		fl.mark(x, bits, why)
	case *ssa.ChangeInterface:
		fl.mark(x, bits, why)
	case *ssa.MakeInterface:
		if refType(v.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.TypeAssert:
		fl.mark(x, bits, why)
	case *ssa.Extract:
		if refType(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Slice:
		b := bits
		if x.Max != nil {
			b &^= tAppend
		}
		fl.mark(x, b, why)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if x.Operands(nil)[0] != nil && *x.Operands(nil)[0] == v {
			fl.mark(r.(ssa.Value), bits, why)
		}
	case *ssa.Field:
		if refType(x.Type()) && fl.deref(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Index:
		if x.X == v && refType(x.Type()) && fl.deref(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Lookup:
		if x.X == v && refType(x.Type()) && fl.deref(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Range:
		if refType(v.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Next:
		if refType(x.Type()) && fl.deref(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && refType(x.Type()) && fl.deref(x.Type()) {
			fl.mark(x, bits, why)
		}
	case *ssa.Store:
		if x.Val == v {
			fl.store(x.Addr, bits, why)
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				fl.mark(f.FreeVars[i], bits, why)
			}
		}
	case *ssa.Return:
		f := x.Parent()
		for _, c := range fl.g.callers[f] {
			cv, ok := c.(*ssa.Call)
			if !ok {
				continue
			}
			for i, o := range x.Results {
				if o != v {
					continue
				}
				if len(x.Results) == 1 {
					fl.mark(cv, bits, why)
					continue
				}
				for _, u := range *cv.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						fl.mark(e, bits, why)
					}
				}
			}
		}
	case ssa.CallInstruction:
		fl.call(v, bits, why, x)
	}
}

func (fl *Flow) store(addr ssa.Value, bits int, why string) {
	if c := cellOf(addr); c != nil {
		if fl.cells[c]&bits != bits {
			fl.cells[c] |= bits
			if refs := c.Referrers(); refs != nil {
				for _, r := range *refs {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						fl.mark(u, bits, why)
					}
					if m, ok := r.(*ssa.MakeClosure); ok {
						f := m.Fn.(*ssa.Function)
						for i, b := range m.Bindings {
							if b == c {
								fl.store(f.FreeVars[i], bits, why)
							}
						}
					}
				}
			} else if g, ok := c.(*ssa.Global); ok {
				fl.loads(g, bits, why)
			}
		}
		return
	}
	if f, ok := addr.(*ssa.FieldAddr); ok {
		k := keyOfField(f.X.Type(), f.Field)
		if fl.fields[k]&bits != bits {
			fl.fields[k] |= bits
			for _, fn := range fl.g.fns {
				eachInstr(fn, func(in ssa.Instruction) {
					switch y := in.(type) {
					case *ssa.FieldAddr:
						if keyOfField(y.X.Type(), y.Field) == k {
							for _, r := range *y.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
									fl.mark(u, bits, why)
								}
							}
						}
					case *ssa.Field:
						if keyOfField(y.X.Type(), y.Field) == k {
							fl.mark(y, bits, why)
						}
					}
				})
			}
		}
	}
}

// loads marks the loads of a global.
func (fl *Flow) loads(g *ssa.Global, bits int, why string) {
	for _, fn := range fl.g.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(g) {
				fl.mark(u, bits, why)
			}
		})
	}
}

func (fl *Flow) call(v ssa.Value, bits int, why string, c ssa.CallInstruction) {
	cc := c.Common()
	for _, f := range fl.g.targets(c) {
		k := 0
		if cc.IsInvoke() {
			if cc.Value == v && len(f.Params) > 0 {
				fl.mark(f.Params[0], bits, why)
			}
			k = 1
		}
		for i, a := range cc.Args {
			if a == v && i+k < len(f.Params) {
				fl.mark(f.Params[i+k], bits, why)
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cc.Args) > 0 && cc.Args[0] == v && bits&tAppend != 0 {
		if cv, ok := c.(*ssa.Call); ok {
			fl.mark(cv, bits, why)
		}
	}
}

// ---- freshness ----------------------------------------------------------------

// fresh: v is (a pointer to) storage allocated by the function it occurs in
// or, for a parameter, by all callers.
func (g *Graph) fresh(v ssa.Value) bool { return g.freshIn(v, map[ssa.Value]bool{}) }

func (g *Graph) freshIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !g.freshIn(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return g.freshIn(x.X, seen)
	case *ssa.MakeInterface:
		return g.freshIn(x.X, seen)
	case *ssa.Slice:
		return g.freshIn(x.X, seen)
	case *ssa.FieldAddr:
		return g.freshIn(x.X, seen)
	case *ssa.IndexAddr:
		return g.freshIn(x.X, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		// a variable of this function that only ever holds fresh storage
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			// a field of fresh storage filled by this function
			if f, ok := x.X.(*ssa.FieldAddr); ok {
				if b, ok := f.X.(*ssa.Alloc); ok {
					return g.cellFresh(b, f.Field, seen)
				}
			}
			return false
		}
		return g.cellFresh(a, -1, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return g.resultFresh(c, x.Index, seen)
		}
	case *ssa.Call:
		return g.resultFresh(x, 0, seen)
	case *ssa.Parameter:
		f := x.Parent()
		if g.taken[f] || exportedFn(f) {
			return false
		}
		cs := g.callers[f]
		if len(cs) == 0 {
			return false
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		for _, c := range cs {
			cc := c.Common()
			if cc.IsInvoke() || cc.StaticCallee() != f || idx >= len(cc.Args) || !g.freshIn(cc.Args[idx], seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (g *Graph) cellFresh(a *ssa.Alloc, field int, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(a) {
				if field >= 0 || !g.freshIn(y.Val, seen) {
					return false
				}
				n++
			}
		case *ssa.FieldAddr:
			if field < 0 || y.Field != field {
				continue
			}
			for _, q := range *y.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					if !g.freshIn(s.Val, seen) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func (g *Graph) resultFresh(c *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return g.freshIn(c.Call.Args[0], seen)
	}
	ts := g.targets(c)
	if f := c.Call.StaticCallee(); f != nil && len(ts) == 0 {
		return false
	}
	if len(ts) == 0 {
		return false
	}
	for _, f := range ts {
		ok := true
		eachInstr(f, func(in ssa.Instruction) {
			if r, isRet := in.(*ssa.Return); isRet && i < len(r.Results) && !g.freshIn(r.Results[i], seen) {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return true
}
