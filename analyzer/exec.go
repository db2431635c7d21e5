package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outKind int

const (
	outReturn outKind = iota
	outPanic
	outStop
)

// Out is one outcome of a call.
type Out struct {
	st   *State
	ret  Val
	kind outKind
}

type frame struct {
	fn     *ssa.Function
	fv     []Val
	params []Val
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	prev *deferRec
}

type item struct {
	blk, pred *ssa.BasicBlock
	idx       int
	st        *State
	regs      map[ssa.Value]Val
	defers    *deferRec
	phisSet   bool
	limit     Sym // loop heads: symbols known before the loop
}

func (it item) fork(st *State) item {
	n := it
	n.st = st
	n.regs = make(map[ssa.Value]Val, len(it.regs)+4)
	for k, v := range it.regs {
		n.regs[k] = v
	}
	return n
}

type runResult struct {
	outs  []Out
	exits []item
	backs []item
}

const maxDepth = 40

type stopAnalysis struct{ why string }

// call runs fn; st is consumed (cloned on entry).
func (an *An) call(st *State, fn *ssa.Function, args []Val, fv []Val) []Out {
	if len(an.stack) > maxDepth {
		an.unresolved("call depth exceeded at %s", fnName(fn))
		return an.havocCall(st, fn, args, "deep")
	}
	for _, f := range an.stack {
		if f == fn {
			return an.recursion(st, fn, args)
		}
	}
	if f, ok := an.special[fn]; ok {
		return f(st, args)
	}
	if len(fn.Blocks) == 0 {
		return an.external(st, fn, args, token.NoPos)
	}
	an.fns[fn] = true
	an.stack = append(an.stack, fn)
	defer func() { an.stack = an.stack[:len(an.stack)-1] }()
	fr := &frame{fn: fn, fv: fv, params: args}
	regs := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(fv) {
			regs[f] = fv[i]
		}
	}
	r := an.explore([]item{{blk: fn.Blocks[0], st: st.clone(), regs: regs}}, nil, fr)
	if an.onReturn != nil && an.quiet == 0 {
		an.onReturn(fn, st, args, r.outs)
	}
	return an.mergeOuts(r.outs)
}

// recursion summarises a call of a function that is already active.
func (an *An) recursion(st *State, fn *ssa.Function, args []Val) []Out {
	if an.recursed == nil {
		an.recursed = map[string]bool{}
	}
	an.recursed[fnName(fn)] = true
	return an.havocCall(st, fn, args, "recurse")
}

// havocCall treats a call as unknown: an event with unknown results.
func (an *An) havocCall(st *State, fn *ssa.Function, args []Val, kind string) []Out {
	n := st.clone()
	name := fnName(fn)
	if k, ok := an.opt.Opaque[fn]; ok {
		name = k
	}
	if kind != "opaque" || an.opt.Havoc[fn] {
		an.havocReach(n, args)
	}
	return withPre(st, an.results(n, fn.Signature.Results(), kind, name, args))
}

// withPre records the state before a call in its event.
func withPre(pre *State, outs []Out) []Out {
	for _, o := range outs {
		o.st.ev.Pre = pre
		if o.st.ev.Kind == "opaque" {
			o.st.ev.Post = o.st.clone()
		}
	}
	return outs
}

// results makes unknown results for an event, splitting on error results.
func (an *An) results(st *State, sig *types.Tuple, kind, name string, args []Val) []Out {
	ev := st.event(kind, name, args, nil, "")
	if len(an.stack) > 0 {
		ev.Fn = an.stack[len(an.stack)-1]
	}
	ev.At = an.curPos
	short := name[strings.LastIndexByte(name, '.')+1:]
	rets := make([]Val, sig.Len())
	errIdx := -1
	for i := range rets {
		t := sig.At(i).Type()
		if types.Identical(t, an.w.errType) && i == sig.Len()-1 {
			errIdx = i
			continue
		}
		rets[i] = an.havoc(st, t, short)
		if s, ok := rets[i].(SymV); ok {
			s.From = ev
			rets[i] = s
		}
	}
	if errIdx < 0 {
		ev.Ret = rets
		return []Out{{st: st, ret: tup(rets)}}
	}
	bad := st.clone()
	bad.ev = &Event{}
	*bad.ev = *ev
	okr := append([]Val(nil), rets...)
	okr[errIdx] = NilV{}
	ev.Ret = okr
	one := lc(1)
	badr := append([]Val(nil), rets...)
	for i := range badr {
		// a failed call conventionally returns no object
		if s, ok := badr[i].(SymV); ok && i != errIdx {
			_ = s
		}
	}
	badr[errIdx] = SymV{ID: an.nextID(), T: an.w.errType, NN: one, Note: "error of " + name, From: bad.ev}
	bad.ev.Ret = badr
	an.failed(bad, name)
	defer func() {
		if kind == "call" && (name == "os.ReadFile" || name == "io.ReadAll") {
			ev.Post = st.clone()
		}
	}()
	if len(rets) == 2 {
		if s, ok := okr[0].(SymV); ok {
			// library convention: no error means a usable object
			if n := st.addEq(s.NN.addk(-1)); n != nil {
				st = n
			}
		}
	}
	return []Out{{st: st, ret: tup(okr)}, {st: bad, ret: tup(badr)}}
}

// failed marks that some operation failed on this path.
func (an *An) failed(st *State, name string) {
	if an.failGhost != nil && an.failGhost(name) {
		st.ghost["fail"] = lc(1)
	}
}

func tup(v []Val) Val {
	switch len(v) {
	case 0:
		return nil
	case 1:
		return v[0]
	}
	return TupleV{E: v}
}

// havocReach forgets the contents of the objects reachable from args, except
// immutable script values.
func (an *An) havocReach(st *State, args []Val) {
	seen := map[int]bool{}
	var visit func(v Val)
	visitObj := func(id int) {
		if id < 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o == nil {
			return
		}
		if _, g := an.w.gname[id]; g {
			return
		}
		for _, t := range an.frozen {
			if o.T != nil && types.Identical(o.T, t) {
				return
			}
		}
		if o.V != nil {
			visit(o.V)
		}
		if o.Arr != nil {
			for _, e := range o.Arr.Els {
				visit(e.V)
			}
		}
		if o.Map != nil {
			for _, e := range o.Map.Vals {
				visit(e)
			}
		}
		if an.immutable(o.T) {
			return
		}
		n := *o
		switch {
		case o.Arr != nil:
			n.Arr = &ArrObj{Elem: o.Arr.Elem, Sym: true}
			if o.Arr.Bytes != nil {
				b := st.newBase(o.Name)
				st.mustEq(b.Len.sub(o.Arr.Bytes.length()))
				s := baseStr(b)
				n.Arr.Bytes = &s
			}
		case o.Map != nil:
			n.Map = &MapObj{Open: true, Key: o.Map.Key, Elem: o.Map.Elem}
		case o.Lib != nil:
		default:
			n.V = an.havoc(st, o.T, o.Name+"'")
		}
		st.put(id, &n)
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			visitObj(x.Obj)
		case IfaceV:
			visit(x.V)
		case SliceV:
			visitObj(x.Arr)
		case MapV:
			visitObj(x.Obj)
		case ArrV:
			visitObj(x.Obj)
		case StructV:
			for _, f := range x.F {
				visit(f)
			}
		case FuncV:
			for _, f := range x.Bind {
				visit(f)
			}
		case SymV:
			if id, ok := st.symObj[x.ID]; ok {
				visitObj(id)
			}
			if d, ok := st.dyn[x.ID]; ok {
				visit(d.V)
			}
		}
	}
	for _, a := range args {
		visit(a)
	}
}

// immutable types are those whose objects are never written after
// construction (property C29 establishes this for script values).
func (an *An) immutable(t types.Type) bool {
	for _, n := range []string{"String", "Number", "Symbol", "List"} {
		if x := an.w.typ("edlisp", n); x != nil && t != nil && types.Identical(t, x) {
			return true
		}
	}
	return false
}

// explore runs work to the end of region L (nil: the function).
func (an *An) explore(work []item, L *Loop, fr *frame) runResult {
	var r runResult
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		an.steps++
		if an.steps > an.maxSteps || time.Now().After(an.deadline) {
			panic(stopAnalysis{"analysis budget exceeded in " + fnName(fr.fn)})
		}
		if it.st == nil || it.st.dead {
			continue
		}
		if it.idx == 0 && !it.phisSet {
			an.doPhis(&it)
		}
		an.block(it, L, fr, &work, &r)
	}
	return r
}

func (an *An) doPhis(it *item) {
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, an.phiVal(it.st, it.regs, p, it.pred))
	}
	for i, p := range phis {
		it.regs[p] = vals[i]
	}
}

func (an *An) phiVal(st *State, regs map[ssa.Value]Val, p *ssa.Phi, pred *ssa.BasicBlock) Val {
	for i, e := range p.Edges {
		if p.Block().Preds[i] == pred {
			return an.val(st, regs, e)
		}
	}
	return OpaqueV{T: p.Type(), ID: an.nextID()}
}

func (an *An) val(st *State, regs map[ssa.Value]Val, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return an.constVal(st, x)
	case *ssa.Global:
		if id, ok := an.w.globals[x]; ok {
			return PtrV{Obj: id}
		}
		return an.extGlobal(st, x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Ext: "builtin " + x.Name()}
	}
	if r, ok := regs[v]; ok && r != nil {
		return r
	}
	if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
		return nil
	}
	an.unresolved("value of %s (%T) in %s is unknown", v.Name(), v, fnName(v.Parent()))
	r := an.havoc(st, v.Type(), v.Name())
	regs[v] = r
	return r
}

// extGlobal is a variable of a library package.
func (an *An) extGlobal(st *State, g *ssa.Global) Val {
	key := "g:" + g.String()
	if v, ok := an.lazy[key]; ok {
		id := v.(PtrV).Obj
		if st.obj(id) == nil {
			st.put(id, an.lazy[key+":o"].(*Obj))
		}
		return v
	}
	an.nobj++
	id := an.nobj
	elem := g.Type().(*types.Pointer).Elem()
	o := &Obj{T: elem, Name: g.String()}
	switch elem.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		o.V = SymV{ID: an.nextID(), T: elem, NN: lc(1), Note: g.String()}
	default:
		o.Sym = true
	}
	st.put(id, o)
	an.lazy[key] = PtrV{Obj: id}
	an.lazy[key+":o"] = o
	return PtrV{Obj: id}
}

func (an *An) jump(to *ssa.BasicBlock, it item, L *Loop, fr *frame, work *[]item, r *runResult) {
	n := it
	n.pred = it.blk
	n.blk = to
	n.idx = 0
	n.phisSet = false
	an.route(n, L, fr, work, r)
}

func (an *An) route(n item, L *Loop, fr *frame, work *[]item, r *runResult) {
	to := n.blk
	if L != nil {
		if to == L.header {
			r.backs = append(r.backs, n)
			return
		}
		if !L.blocks[to] {
			r.exits = append(r.exits, n)
			return
		}
	}
	if M := an.w.loopAt(fr.fn, to); M != nil && !M.blocks[n.pred] {
		lr := an.doLoop(M, n, fr)
		r.outs = append(r.outs, lr.outs...)
		for _, e := range lr.exits {
			an.route(e, L, fr, work, r)
		}
		return
	}
	*work = append(*work, n)
}

// block executes the rest of a block.
func (an *An) block(it item, L *Loop, fr *frame, work *[]item, r *runResult) {
	st := it.st
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		in := it.blk.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			an.curPos = p
		}
		if st.dead {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			it.st = st
			an.jump(it.blk.Succs[0], it, L, fr, work, r)
			return
		case *ssa.If:
			c := an.condOf(st, an.val(st, it.regs, x.Cond))
			tr, fa := st.assume(c), st.assume(c.not())
			for _, s := range fa {
				an.jump(it.blk.Succs[1], it.fork(s), L, fr, work, r)
			}
			for _, s := range tr {
				an.jump(it.blk.Succs[0], it.fork(s), L, fr, work, r)
			}
			return
		case *ssa.Return:
			vals := make([]Val, len(x.Results))
			for k, e := range x.Results {
				vals[k] = an.val(st, it.regs, e)
			}
			r.outs = append(r.outs, Out{st: st, ret: tup(vals)})
			return
		case *ssa.Panic:
			an.check(st, Cond{Kind: CConst}, "panic", x.Pos(), "explicit panic")
			r.outs = append(r.outs, Out{st: st, kind: outPanic})
			return
		}
		outs := an.instr(st, in, &it, fr)
		switch len(outs) {
		case 0:
			return
		case 1:
			if outs[0].kind != outReturn {
				r.outs = append(r.outs, outs[0])
				return
			}
			st = outs[0].st
			it.st = st
			if v, ok := in.(ssa.Value); ok && outs[0].ret != nil {
				it.regs[v] = outs[0].ret
			}
			if v, ok := in.(ssa.Value); ok && outs[0].ret == nil {
				delete(it.regs, v)
			}
			continue
		}
		for k := len(outs) - 1; k >= 0; k-- {
			o := outs[k]
			if o.kind != outReturn {
				r.outs = append(r.outs, o)
				continue
			}
			if o.st == nil || o.st.dead {
				continue
			}
			n := it.fork(o.st)
			n.idx = i + 1
			n.phisSet = true
			if v, ok := in.(ssa.Value); ok {
				if o.ret != nil {
					n.regs[v] = o.ret
				} else {
					delete(n.regs, v)
				}
			}
			*work = append(*work, n)
		}
		return
	}
}

func ret1(st *State, v Val) []Out { return []Out{{st: st, ret: v}} }

func (an *An) condOf(st *State, v Val) Cond {
	switch x := v.(type) {
	case BoolV:
		return x.C
	case OpaqueV:
		return Cond{Kind: COpaque, Key: fmt.Sprintf("ob%d", x.ID)}
	}
	return Cond{Kind: COpaque, Key: fmt.Sprintf("ob%d", an.nextID())}
}

func (an *An) instr(st *State, in ssa.Instruction, it *item, fr *frame) []Out {
	get := func(v ssa.Value) Val { return an.val(st, it.regs, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		id := st.newObj(&Obj{T: elem, Name: x.Comment})
		an.objSite[id] = an.w.pos(x.Pos())
		if an.allocs != nil {
			an.allocs[id] = true
		}
		if a, ok := elem.Underlying().(*types.Array); ok {
			st.heap[id].Arr = &ArrObj{Elem: a.Elem()}
		} else {
			st.heap[id].V = an.zero(st, elem)
		}
		return ret1(st, PtrV{Obj: id})
	case *ssa.BinOp:
		return an.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		return an.unop(st, x, get(x.X))
	case *ssa.Store:
		return an.derefThen(st, get(x.Addr), x.Addr.Type(), x.Pos(), func(s *State, p PtrV) []Out {
			an.store(s, p, get(x.Val))
			return ret1(s, nil)
		})
	case *ssa.FieldAddr:
		return an.derefThen(st, get(x.X), x.X.Type(), x.Pos(), func(s *State, p PtrV) []Out {
			p.Path += fmt.Sprintf(".%d", x.Field)
			return ret1(s, p)
		})
	case *ssa.Field:
		v := get(x.X)
		if s, ok := v.(StructV); ok && x.Field < len(s.F) {
			return ret1(st, s.F[x.Field])
		}
		return ret1(st, an.havoc(st, x.Type(), "field"))
	case *ssa.IndexAddr:
		return an.indexAddr(st, x, get(x.X), get(x.Index))
	case *ssa.Index:
		return an.indexVal(st, get(x.X), get(x.Index), x.Type(), x.X.Type(), x.Pos())
	case *ssa.Lookup:
		return an.lookup(st, x, get(x.X), get(x.Index))
	case *ssa.MapUpdate:
		an.mapUpdate(st, get(x.Map), get(x.Key), get(x.Value), x.Pos())
		return ret1(st, nil)
	case *ssa.Slice:
		return an.sliceOp(st, x, it)
	case *ssa.MakeSlice:
		n, _ := get(x.Len).(IntV)
		elem := x.Type().Underlying().(*types.Slice).Elem()
		var outs []Out
		for _, s := range an.check(st, cge(n.L), "makeslice", x.Pos(), "negative length") {
			a := &ArrObj{Elem: elem}
			id := s.newObj(&Obj{T: x.Type(), Arr: a, Name: "make"})
			if isByteSlice(x.Type()) {
				b := s.newBase("bytes")
				s.mustEq(b.Len.sub(n.L))
				sv := baseStr(b)
				s.heap[id].Arr.Bytes = &sv
				if k, ok := n.L.constInt(); ok && k == 0 {
					e := StrV{}
					s.heap[id].Arr.Bytes = &e
				}
			}
			outs = append(outs, Out{st: s, ret: SliceV{Arr: id, Off: lc(0), Len: n.L}})
		}
		return outs
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		id := st.newObj(&Obj{T: x.Type(), Map: &MapObj{Key: m.Key(), Elem: m.Elem()}, Name: "map"})
		return ret1(st, MapV{Obj: id})
	case *ssa.MakeInterface:
		return ret1(st, IfaceV{T: x.X.Type(), V: get(x.X)})
	case *ssa.ChangeInterface:
		return ret1(st, get(x.X))
	case *ssa.ChangeType:
		return ret1(st, get(x.X))
	case *ssa.Convert:
		return an.convert(st, get(x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MultiConvert:
		return an.convert(st, get(x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.TypeAssert:
		return an.typeAssert(st, x, get(x.X))
	case *ssa.Extract:
		if t, ok := get(x.Tuple).(TupleV); ok && x.Index < len(t.E) && t.E[x.Index] != nil {
			return ret1(st, t.E[x.Index])
		}
		return ret1(st, an.havoc(st, x.Type(), "extract"))
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, get(v))
		}
		return ret1(st, FuncV{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.Call:
		return an.callCommon(st, &x.Call, get, x.Pos())
	case *ssa.Defer:
		d := &deferRec{call: &x.Call, prev: it.defers}
		if !x.Call.IsInvoke() {
			d.fn = get(x.Call.Value)
		} else {
			d.fn = get(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, get(a))
		}
		it.defers = d
		return ret1(st, nil)
	case *ssa.RunDefers:
		outs := []Out{{st: st}}
		for d := it.defers; d != nil; d = d.prev {
			var next []Out
			for _, o := range outs {
				if o.kind != outReturn {
					next = append(next, o)
					continue
				}
				for _, o2 := range an.callValue(o.st, d.call, d.fn, d.args, x.Pos()) {
					o2.ret = nil
					next = append(next, o2)
				}
			}
			outs = next
		}
		it.defers = nil
		return outs
	case *ssa.Range:
		v := get(x.X)
		switch y := v.(type) {
		case StrV:
			id := st.newObj(&Obj{T: iterType, V: StructV{F: []Val{IntV{lc(0)}}}, Name: "iter"})
			return ret1(st, IterV{Kind: "string", Str: y, ID: id})
		default:
			id := st.newObj(&Obj{T: iterType, V: StructV{F: []Val{IntV{lc(0)}}}, Name: "iter"})
			st.event("maprange", fnName(fr.fn), []Val{v}, nil, an.w.pos(x.Pos()))
			return ret1(st, IterV{Kind: "map", Map: v, ID: id})
		}
	case *ssa.Next:
		return an.next(st, x, get(x.Iter))
	case *ssa.Go:
		st.event("go", fnName(fr.fn), nil, nil, an.w.pos(x.Pos()))
		an.unresolved("go statement at %s", an.w.pos(x.Pos()))
		return ret1(st, nil)
	}
	an.unresolved("unsupported instruction %T at %s", in, an.w.pos(in.Pos()))
	if v, ok := in.(ssa.Value); ok {
		return ret1(st, an.havoc(st, v.Type(), "unsupported"))
	}
	return ret1(st, nil)
}

// derefThen resolves a pointer value, checking that it is not nil.
func (an *An) derefThen(st *State, v Val, t types.Type, pos token.Pos, f func(*State, PtrV) []Out) []Out {
	switch p := v.(type) {
	case PtrV:
		return f(st, p)
	case NilV:
		an.check(st, Cond{Kind: CConst}, "nil dereference", pos, "")
		return []Out{{st: st, kind: outPanic}}
	case SymV:
		var outs []Out
		for _, s := range an.check(st, ceq(p.NN.addk(-1)), "nil dereference", pos, p.Note) {
			outs = append(outs, f(s, an.symPtr(s, p, t))...)
		}
		return outs
	}
	an.unresolved("dereference of %T at %s", v, an.w.pos(pos))
	id := st.newObj(&Obj{T: t.Underlying().(*types.Pointer).Elem(), Sym: true, Name: "unknown"})
	return f(st, PtrV{Obj: id})
}

func (an *An) symPtr(st *State, p SymV, t types.Type) PtrV {
	if id, ok := st.symObj[p.ID]; ok {
		return PtrV{Obj: id}
	}
	key := fmt.Sprintf("so%d", p.ID)
	var id int
	if v, ok := an.lazy[key]; ok {
		id = v.(PtrV).Obj
	} else {
		an.nobj++
		id = an.nobj
		an.lazy[key] = PtrV{Obj: id}
	}
	st.symObj[p.ID] = id
	if _, ok := st.heap[id]; !ok {
		st.heap[id] = &Obj{T: t.Underlying().(*types.Pointer).Elem(), Sym: true, Name: p.Note}
	}
	if an.onSymPtr != nil {
		an.onSymPtr(st, id)
	}
	return PtrV{Obj: id}
}

func (an *An) unop(st *State, x *ssa.UnOp, v Val) []Out {
	switch x.Op {
	case token.MUL:
		return an.derefThen(st, v, x.X.Type(), x.Pos(), func(s *State, p PtrV) []Out {
			r := an.load(s, p)
			return ret1(s, r)
		})
	case token.NOT:
		return ret1(st, BoolV{an.condOf(st, v).not()})
	case token.SUB:
		switch y := v.(type) {
		case IntV:
			return an.arith(st, y.L.neg(), x.Type())
		case FloatV:
			if y.Exact != nil {
				l := y.Exact.neg()
				return ret1(st, FloatV{Exact: &l})
			}
			if y.Const != nil {
				f := -*y.Const
				return ret1(st, FloatV{Const: &f})
			}
			return ret1(st, FloatV{F: &FloatSym{ID: an.nextID(), Tr: y.F.Tr.neg(), NaN: y.F.NaN}})
		}
	case token.XOR:
		if y, ok := v.(IntV); ok {
			return an.arith(st, y.L.neg().addk(-1), x.Type())
		}
	case token.ARROW:
		an.unresolved("channel receive at %s", an.w.pos(x.Pos()))
	}
	return ret1(st, an.havoc(st, x.Type(), "unop"))
}

// bounds gives static bounds of l from the ranges of its symbols.
func (an *An) bounds(l Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k()), new(big.Int).Set(l.k())
	for _, t := range l.T {
		r, ok := an.rng[t.S]
		if !ok {
			return nil, nil
		}
		a := new(big.Int).Mul(r[0], big.NewInt(t.C))
		b := new(big.Int).Mul(r[1], big.NewInt(t.C))
		if t.C < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

// arith reduces the mathematical value l to type t, splitting on overflow.
func (an *An) arith(st *State, l Lin, t types.Type) []Out {
	lo, hi, ok := intRange(t)
	if !ok {
		return ret1(st, IntV{l})
	}
	if a, b := an.bounds(l); a != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return ret1(st, IntV{l})
	}
	var outs []Out
	over := st.add(l.sub(lbig(hi)).addk(-1))
	under := st.add(lbig(lo).sub(l).addk(-1))
	if over == nil && under == nil {
		return ret1(st, IntV{l})
	}
	if n := st.add(l.sub(lbig(lo))); n != nil {
		if n = n.add(lbig(hi).sub(l)); n != nil {
			outs = append(outs, Out{st: n, ret: IntV{l}})
		}
	}
	w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if over != nil {
		v := l.sub(lbig(w))
		if s := over.add(lbig(hi).sub(v)); s != nil {
			over = s
		}
		outs = append(outs, Out{st: over.add(v.sub(lbig(lo))), ret: IntV{v}})
	}
	if under != nil {
		v := l.add(lbig(w))
		outs = append(outs, Out{st: under.add(lbig(hi).sub(v)), ret: IntV{v}})
	}
	var live []Out
	for _, o := range outs {
		if o.st != nil {
			live = append(live, o)
		}
	}
	if len(live) == 0 { // wraps more than once
		return ret1(st, an.havoc(st, t, "wrapped"))
	}
	return live
}

func (an *An) binop(st *State, op token.Token, a, b Val, t, rt types.Type, pos token.Pos) []Out {
	switch op {
	case token.EQL, token.NEQ:
		return an.eqOp(st, op, a, b)
	}
	switch x := a.(type) {
	case IntV:
		y, ok := b.(IntV)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return an.arith(st, x.L.add(y.L), rt)
		case token.SUB:
			return an.arith(st, x.L.sub(y.L), rt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ret1(st, BoolV{an.cmpInt(op, x.L, y.L)})
		case token.MUL:
			if k, ok := x.L.constInt(); ok {
				return an.arith(st, y.L.mulk(k), rt)
			}
			if k, ok := y.L.constInt(); ok {
				return an.arith(st, x.L.mulk(k), rt)
			}
			return ret1(st, an.havoc(st, rt, "product"))
		case token.QUO, token.REM:
			return an.divide(st, op, x.L, y.L, rt, pos)
		case token.SHL:
			if k, ok := y.L.constInt(); ok && k < 62 && k >= 0 {
				return an.arith(st, x.L.mulk(1<<uint(k)), rt)
			}
		case token.SHR:
			if k, ok := y.L.constInt(); ok && k < 62 && k >= 0 && st.ge(x.L) {
				return an.divide(st, token.QUO, x.L, lc(1<<uint(k)), rt, pos)
			}
		}
		p, ok1 := x.L.constInt()
		q, ok2 := y.L.constInt()
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return ret1(st, IntV{lc(p & q)})
			case token.OR:
				return an.arith(st, lc(p|q), rt)
			case token.XOR:
				return an.arith(st, lc(p^q), rt)
			case token.AND_NOT:
				return an.arith(st, lc(p&^q), rt)
			}
		}
		// bit operations on byte values have explicit tables
		if r := an.byteOp(st, op, x.L, y.L); r != nil {
			return r
		}
		return ret1(st, an.havoc(st, rt, "bits"))
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			break
		}
		if op == token.ADD {
			return ret1(st, concat(x, y))
		}
		cx, o1 := st.norm(x).constant()
		cy, o2 := st.norm(y).constant()
		if o1 && o2 {
			r := false
			switch op {
			case token.LSS:
				r = cx < cy
			case token.LEQ:
				r = cx <= cy
			case token.GTR:
				r = cx > cy
			case token.GEQ:
				r = cx >= cy
			}
			return ret1(st, cb(r))
		}
		switch op {
		case token.LSS:
			return ret1(st, BoolV{strLess(x, y)})
		case token.GTR:
			return ret1(st, BoolV{strLess(y, x)})
		case token.LEQ:
			return ret1(st, BoolV{strLess(y, x).not()})
		case token.GEQ:
			return ret1(st, BoolV{strLess(x, y).not()})
		}
		return ret1(st, an.havoc(st, rt, "binop"))
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			break
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return an.floatCmp(st, op, x, y)
		}
		if x.Exact != nil && y.Exact != nil {
			var l Lin
			switch op {
			case token.ADD:
				l = x.Exact.add(*y.Exact)
			case token.SUB:
				l = x.Exact.sub(*y.Exact)
			default:
				return ret1(st, an.havoc(st, rt, "float"))
			}
			return ret1(st, FloatV{Exact: &l})
		}
		return ret1(st, an.havoc(st, rt, "float"))
	}
	return ret1(st, an.havoc(st, rt, "binop"))
}

// strLess: x comes before y in the order of strings, which is total.
func strLess(x, y StrV) Cond {
	return Cond{Kind: COpaque, Op: "str<", Key: "str<" + x.key() + "|" + y.key(), Args: []Val{x, y}}
}

// byteOp handles c|0x20, c&^0x20 and the like on bytes of text by splitting
// into the byte classes on which the result is linear.
func (an *An) byteOp(st *State, op token.Token, l, m Lin) []Out {
	k, ok := m.constInt()
	if !ok || k < 0 || k > 255 {
		return nil
	}
	s, ok := l.singleSym()
	if !ok {
		return nil
	}
	ref, ok := an.byteSym[s]
	if !ok {
		return nil
	}
	classes := map[int]ByteSet{}
	for c := 0; c < 256; c++ {
		r := c
		switch op {
		case token.OR:
			r = c | int(k)
		case token.AND:
			r = c & int(k)
		case token.XOR:
			r = c ^ int(k)
		case token.AND_NOT:
			r = c &^ int(k)
		default:
			return nil
		}
		set := classes[r-c]
		set.put(byte(c))
		classes[r-c] = set
	}
	if len(classes) > 4 {
		return nil
	}
	var outs []Out
	for d, set := range classes {
		n := st.addByte(ref.Base, ref.Idx, set)
		if n == nil {
			continue
		}
		outs = append(outs, Out{st: n, ret: IntV{l.addk(int64(d))}})
	}
	return outs
}

// cmpInt builds the condition l op m, using byte sets where a byte of text is
// compared with a constant.
func (an *An) cmpInt(op token.Token, l, m Lin) Cond {
	if k, ok := m.constInt(); ok {
		if c, ok := an.byteCond(op, l, k); ok {
			return c
		}
	}
	if k, ok := l.constInt(); ok {
		fl := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		if c, ok := an.byteCond(fl[op], m, k); ok {
			return c
		}
	}
	// byte - byte comparisons stay linear
	switch op {
	case token.LSS:
		return cge(m.sub(l).addk(-1))
	case token.LEQ:
		return cge(m.sub(l))
	case token.GTR:
		return cge(l.sub(m).addk(-1))
	case token.GEQ:
		return cge(l.sub(m))
	case token.EQL:
		return ceq(l.sub(m))
	}
	return ceq(l.sub(m)).not()
}

func (an *An) byteCond(op token.Token, l Lin, k int64) (Cond, bool) {
	if len(l.T) != 1 || l.T[0].C != 1 || !l.k().IsInt64() {
		return Cond{}, false
	}
	d := l.k().Int64()
	ref, ok := an.byteSym[l.T[0].S]
	if !ok {
		return Cond{}, false
	}
	var set ByteSet
	for c := 0; c < 256; c++ {
		v := int64(c) + d
		r := false
		switch op {
		case token.LSS:
			r = v < k
		case token.LEQ:
			r = v <= k
		case token.GTR:
			r = v > k
		case token.GEQ:
			r = v >= k
		case token.EQL:
			r = v == k
		case token.NEQ:
			r = v != k
		}
		if r {
			set.put(byte(c))
		}
	}
	return Cond{Kind: CByte, Base: ref.Base, L: ref.Idx, Set: set}, true
}

func (an *An) divide(st *State, op token.Token, l, m Lin, t types.Type, pos token.Pos) []Out {
	var outs []Out
	for _, s := range an.check(st, ceq(m).not(), "division by zero", pos, "") {
		k, ok := m.constInt()
		if ok && k > 0 && s.ge(l) {
			if c, ok := l.constInt(); ok {
				if op == token.QUO {
					outs = append(outs, Out{st: s, ret: IntV{lc(c / k)}})
				} else {
					outs = append(outs, Out{st: s, ret: IntV{lc(c % k)}})
				}
				continue
			}
			s = s.clone()
			q := ls(s.newSym("quotient"))
			s.must(l.sub(q.mulk(k)))
			s.must(q.mulk(k).addk(k - 1).sub(l))
			s.must(q)
			if op == token.QUO {
				outs = append(outs, Out{st: s, ret: IntV{q}})
			} else {
				outs = append(outs, Out{st: s, ret: IntV{l.sub(q.mulk(k))}})
			}
			continue
		}
		outs = append(outs, Out{st: s, ret: an.havoc(s, t, "quotient")})
	}
	return outs
}

func (an *An) floatCmp(st *State, op token.Token, x, y FloatV) []Out {
	return ret1(st, BoolV{Cond{Kind: CFloat, F: x, G: y, Op: op.String()}})
}

func (an *An) eqOp(st *State, op token.Token, a, b Val) []Out {
	fin := func(c Cond) []Out {
		if op == token.NEQ {
			c = c.not()
		}
		return ret1(st, BoolV{c})
	}
	return fin(an.eqCond(st, a, b))
}

func (an *An) eqCond(st *State, a, b Val) Cond {
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		return st.isNil(a)
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return an.cmpInt(token.EQL, x.L, y.L)
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			// a one-byte window compared with a one-byte literal
			for _, p := range [][2]StrV{{x, y}, {y, x}} {
				s, c := st.norm(p[0]), st.norm(p[1])
				if k, ok := c.constant(); ok && len(k) == 1 && len(s.P) == 1 && s.P[0].Base != nil {
					if w := s.P[0]; st.eq(w.Hi, w.Lo.addk(1)) {
						var set ByteSet
						set.put(k[0])
						return Cond{Kind: CByte, Base: w.Base, L: w.Lo, Set: set}
					}
				}
			}
			return Cond{Kind: CStrEq, S: x, T: y}
		}
	case FloatV:
		if y, ok := b.(FloatV); ok {
			if x.Exact != nil && y.Exact != nil {
				return ceq(x.Exact.sub(*y.Exact))
			}
			return Cond{Kind: CFloat, F: x, G: y, Op: "=="}
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if t, ok := st.truth(y.C); ok {
				if t {
					return x.C
				}
				return x.C.not()
			}
			if t, ok := st.truth(x.C); ok {
				if t {
					return y.C
				}
				return y.C.not()
			}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if x.Obj != y.Obj || x.Path != y.Path {
				return Cond{Kind: CConst, B: false}
			}
			if x.Idx != nil && y.Idx != nil {
				return ceq(x.Idx.sub(*y.Idx))
			}
			return Cond{Kind: CConst, B: true}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if !types.Identical(x.T, y.T) {
				return Cond{Kind: CConst, B: false}
			}
			return an.eqCond(st, x.V, y.V)
		}
	case SymV:
		if y, ok := b.(SymV); ok && x.ID == y.ID {
			return Cond{Kind: CConst, B: true}
		}
	}
	if st.sameVal(a, b) {
		return Cond{Kind: CConst, B: true}
	}
	ka, kb := valKey(a), valKey(b)
	if ka > kb {
		ka, kb = kb, ka
	}
	if ka == "" || kb == "" {
		return Cond{Kind: COpaque, Key: fmt.Sprintf("eq%d", an.nextID())}
	}
	return Cond{Kind: COpaque, Key: "eq:" + ka + "=" + kb}
}

func valKey(v Val) string {
	switch x := v.(type) {
	case SymV:
		return fmt.Sprintf("sym%d", x.ID)
	case PtrV:
		return fmt.Sprintf("ptr%d%s", x.Obj, x.Path)
	case IfaceV:
		return "if:" + x.T.String() + valKey(x.V)
	case IntV:
		return x.L.key()
	case StrV:
		return x.key()
	case OpaqueV:
		return fmt.Sprintf("op%d", x.ID)
	case FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
	}
	return ""
}

func (an *An) convert(st *State, v Val, from, to types.Type, pos token.Pos) []Out {
	switch {
	case isString(to):
		switch x := v.(type) {
		case StrV:
			return ret1(st, x)
		case IntV: // string(rune)
			return ret1(st, an.runeStr(st, x.L))
		case SliceV, NilV:
			if s, ok := an.strOf(st, v); ok {
				return ret1(st, s)
			}
		}
		return ret1(st, baseStr(st.newBase("string")))
	case isByteSlice(to):
		if s, ok := an.strOf(st, v); ok {
			return ret1(st, an.bytesVal(st, s))
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok && isString(from) { // []rune(s)
		if s, ok := v.(StrV); ok {
			r := an.havoc(st, to, "runes").(SliceV)
			st.must(s.length().sub(r.Len))
			return ret1(st, r)
		}
	}
	if lo, hi, ok := intRange(to); ok {
		switch x := v.(type) {
		case IntV:
			return an.arith(st, x.L, to)
		case FloatV:
			if x.Exact != nil {
				var outs []Out
				in := st.add(x.Exact.sub(lbig(lo)))
				if in != nil {
					in = in.add(lbig(hi).sub(*x.Exact))
				}
				if in != nil {
					outs = append(outs, Out{st: in, ret: IntV{*x.Exact}})
				}
				for _, c := range []Lin{x.Exact.sub(lbig(hi)).addk(-1), lbig(lo).sub(*x.Exact).addk(-1)} {
					if s := st.add(c); s != nil {
						s = s.clone()
						outs = append(outs, Out{st: s, ret: an.havoc(s, to, "float conversion")})
					}
				}
				return outs
			}
			if x.F != nil {
				var outs []Out
				n := st.addEq(x.F.NaN)
				if n != nil {
					if in := n.add(x.F.Tr.sub(lbig(lo))); in != nil {
						if in = in.add(lbig(hi).sub(x.F.Tr)); in != nil {
							outs = append(outs, Out{st: in, ret: IntV{x.F.Tr}})
						}
					}
					for _, c := range []Lin{x.F.Tr.sub(lbig(hi)).addk(-1), lbig(lo).sub(x.F.Tr).addk(-1)} {
						if s := n.add(c); s != nil {
							s = s.clone()
							s.note("a number that does not fit %s is converted to it", to)
							outs = append(outs, Out{st: s, ret: an.havoc(s, to, "float conversion")})
						}
					}
				}
				if n := st.addEq(x.F.NaN.addk(-1)); n != nil {
					n = n.clone()
					outs = append(outs, Out{st: n, ret: an.havoc(n, to, "float conversion")})
				}
				return outs
			}
		}
		return ret1(st, an.havoc(st, to, "conversion"))
	}
	if isFloat(to) {
		switch x := v.(type) {
		case IntV:
			// exact below 2^53
			lim := new(big.Int).Lsh(big.NewInt(1), 53)
			if a, b := an.bounds(x.L); a != nil && a.CmpAbs(lim) <= 0 && b.CmpAbs(lim) <= 0 {
				l := x.L
				return ret1(st, FloatV{Exact: &l})
			}
			if x.L.isConst() {
				l := x.L
				return ret1(st, FloatV{Exact: &l})
			}
			if st.ge(lbig(lim).sub(x.L)) && st.ge(x.L.add(lbig(lim))) {
				l := x.L
				return ret1(st, FloatV{Exact: &l})
			}
			f, ok := an.havoc(st, to, "float").(FloatV)
			if ok && f.F != nil {
				st.opq[integralKey(f)] = true
			}
			return ret1(st, f)
		case FloatV:
			return ret1(st, x)
		}
	}
	return ret1(st, v)
}

// runeStr is string(r).
func (an *An) runeStr(st *State, l Lin) StrV {
	if k, ok := l.constInt(); ok {
		return lit(string(rune(k)))
	}
	if s, ok := l.singleSym(); ok {
		if w, ok := an.runeW[s]; ok {
			r := an.runeSym[s]
			return StrV{P: []Piece{{Base: r.Base, Lo: r.Idx, Hi: r.Idx.add(w)}}}
		}
		if r, ok := an.byteSym[s]; ok {
			if st.byteSet(r.Base, r.Idx).subset(byteRange(0, 127)) {
				return StrV{P: []Piece{{Base: r.Base, Lo: r.Idx, Hi: r.Idx.addk(1)}}}
			}
			st.event("byte-as-rune", "", nil, nil, an.w.pos(an.curPos))
		}
	}
	return st.ufStr("rune", []Val{IntV{l}}, func(b *Base) {
		st.must(b.Len.addk(-1))
		st.must(lc(4).sub(b.Len))
	})
}

func (an *An) typeAssert(st *State, x *ssa.TypeAssert, v Val) []Out {
	c := Cond{Kind: CType, V: v, Ty: x.AssertedType}
	if _, ok := v.(OpaqueV); ok {
		c = Cond{Kind: COpaque, Key: fmt.Sprintf("ta%d", an.nextID())}
	}
	get := func(s *State) Val {
		if isIface(x.AssertedType) {
			return v
		}
		switch y := v.(type) {
		case IfaceV:
			return y.V
		case SymV:
			if d, ok := s.dyn[y.ID]; ok {
				return d.V
			}
		}
		return an.havoc(s, x.AssertedType, "asserted")
	}
	var outs []Out
	if !x.CommaOk {
		for _, s := range an.check(st, c, "type assertion", x.Pos(), x.AssertedType.String()) {
			outs = append(outs, Out{st: s, ret: get(s)})
		}
		return outs
	}
	for _, s := range st.assume(c) {
		s = s.clone()
		outs = append(outs, Out{st: s, ret: TupleV{E: []Val{get(s), cb(true)}}})
	}
	for _, s := range st.assume(c.not()) {
		s = s.clone()
		outs = append(outs, Out{st: s, ret: TupleV{E: []Val{an.zero(s, x.AssertedType), cb(false)}}})
	}
	return outs
}

func (an *An) indexAddr(st *State, x *ssa.IndexAddr, v, i Val) []Out {
	iv, _ := i.(IntV)
	switch y := v.(type) {
	case SliceV:
		var outs []Out
		for _, s := range an.inRange(st, iv.L, y.Len, x.Pos(), "slice index") {
			idx := y.Off.add(iv.L)
			outs = append(outs, Out{st: s, ret: PtrV{Obj: y.Arr, Idx: &idx}})
		}
		return outs
	case PtrV:
		o := st.obj(y.Obj)
		if o != nil {
			o = an.materialise(st, y.Obj, o)
		}
		obj := y.Obj
		if y.Path != "" {
			if a, ok := an.load(st, y).(ArrV); ok {
				obj = a.Obj
			}
		}
		n := int64(-1)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = a.Len()
			}
		}
		var outs []Out
		for _, s := range an.inRange(st, iv.L, lc(n), x.Pos(), "array index") {
			idx := iv.L
			outs = append(outs, Out{st: s, ret: PtrV{Obj: obj, Idx: &idx}})
		}
		return outs
	case NilV:
		an.check(st, Cond{Kind: CConst}, "index out of range", x.Pos(), "nil slice")
		return nil
	}
	an.unresolved("index of %T at %s", v, an.w.pos(x.Pos()))
	id := st.newObj(&Obj{T: x.Type().Underlying().(*types.Pointer).Elem(), Sym: true, Name: "elem"})
	return ret1(st, PtrV{Obj: id})
}

// inRange checks 0 <= i < n.
func (an *An) inRange(st *State, i, n Lin, pos token.Pos, what string) []*State {
	var out []*State
	for _, s := range an.check(st, cge(i), "index out of range", pos, what+" below 0") {
		out = append(out, an.check(s, cge(n.sub(i).addk(-1)), "index out of range", pos, what+" beyond length")...)
	}
	return out
}

func (an *An) indexVal(st *State, v, i Val, t, xt types.Type, pos token.Pos) []Out {
	iv, ok := i.(IntV)
	if !ok {
		return ret1(st, an.havoc(st, t, "index"))
	}
	if s, ok := v.(StrV); ok {
		var outs []Out
		for _, n := range an.inRange(st, iv.L, s.length(), pos, "string index") {
			if an.onRead != nil {
				for _, n := range an.onRead(n, s, iv.L, iv.L.addk(1)) {
					outs = append(outs, Out{st: n, ret: an.byteAt(n, s, iv.L)})
				}
				continue
			}
			outs = append(outs, Out{st: n, ret: an.byteAt(n, s, iv.L)})
		}
		return outs
	}
	if a, ok := v.(ArrV); ok {
		var outs []Out
		n := int64(0)
		if at, ok := xt.Underlying().(*types.Array); ok {
			n = at.Len()
		}
		for _, s := range an.inRange(st, iv.L, lc(n), pos, "array index") {
			outs = append(outs, Out{st: s, ret: an.elem(s, a.Obj, iv.L)})
		}
		return outs
	}
	return ret1(st, an.havoc(st, t, "index"))
}

func (an *An) sliceOp(st *State, x *ssa.Slice, it *item) []Out {
	v := an.val(st, it.regs, x.X)
	lo, hi := lc(0), Lin{}
	if x.Low != nil {
		lo = an.val(st, it.regs, x.Low).(IntV).L
	}
	haveHi := x.High != nil
	if haveHi {
		hi = an.val(st, it.regs, x.High).(IntV).L
	}
	bound := func(st *State, n Lin) []*State {
		var out []*State
		for _, a := range an.check(st, cge(lo), "slice bounds", x.Pos(), "start below 0") {
			for _, b := range an.check(a, cge(hi.sub(lo)), "slice bounds", x.Pos(), "start beyond end") {
				if haveHi {
					out = append(out, an.check(b, cge(n.sub(hi)), "slice bounds", x.Pos(), "end beyond length")...)
				} else {
					out = append(out, b)
				}
			}
		}
		return out
	}
	switch y := v.(type) {
	case StrV:
		if !haveHi {
			hi = y.length()
		}
		var outs []Out
		for _, s := range bound(st, y.length()) {
			outs = append(outs, Out{st: s, ret: s.slice(y, lo, hi)})
		}
		return outs
	case SliceV:
		if !haveHi {
			hi = y.Len
		}
		var outs []Out
		for _, s := range bound(st, y.Len) {
			outs = append(outs, Out{st: s, ret: SliceV{Arr: y.Arr, Off: y.Off.add(lo), Len: hi.sub(lo)}})
		}
		return outs
	case PtrV:
		at, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ok {
			n := lc(at.Len())
			if !haveHi {
				hi = n
			}
			obj := y.Obj
			if y.Path != "" {
				if a, ok := an.load(st, y).(ArrV); ok {
					obj = a.Obj
				}
			} else if o := st.obj(obj); o != nil {
				an.materialise(st, obj, o)
			}
			var outs []Out
			for _, s := range bound(st, n) {
				outs = append(outs, Out{st: s, ret: SliceV{Arr: obj, Off: lo, Len: hi.sub(lo)}})
			}
			return outs
		}
	case NilV:
		if !haveHi {
			hi = lc(0)
		}
		var outs []Out
		for _, s := range bound(st, lc(0)) {
			outs = append(outs, Out{st: s, ret: NilV{}})
		}
		return outs
	}
	an.unresolved("slice of %T at %s", v, an.w.pos(x.Pos()))
	return ret1(st, an.havoc(st, x.Type(), "slice"))
}

func (an *An) lookup(st *State, x *ssa.Lookup, m, k Val) []Out {
	if s, ok := m.(StrV); ok {
		return an.indexVal(st, s, k, x.Type(), x.X.Type(), x.Pos())
	}
	mt, _ := x.X.Type().Underlying().(*types.Map)
	mk := func(s *State, v Val, ok bool) Out {
		if x.CommaOk {
			return Out{st: s, ret: TupleV{E: []Val{v, cb(ok)}}}
		}
		return Out{st: s, ret: v}
	}
	switch y := m.(type) {
	case NilV:
		return []Out{mk(st, an.zero(st, mt.Elem()), false)}
	case MapV:
		o := st.obj(y.Obj)
		var outs []Out
		cur := []*State{st}
		for i := range o.Map.Keys {
			var next []*State
			for _, s := range cur {
				c := an.eqCond(s, o.Map.Keys[i], k)
				for _, h := range s.assume(c) {
					h = h.clone()
					outs = append(outs, mk(h, o.Map.Vals[i], true))
				}
				for _, h := range s.assume(c.not()) {
					next = append(next, h)
				}
			}
			cur = next
		}
		for _, s := range cur {
			if o.Map.Open {
				n := s.clone()
				v := n.ufVal(fmt.Sprintf("map%d", y.Obj), []Val{k}, func() Val {
					r := an.havoc(n, mt.Elem(), "entry")
					if sv, ok := r.(SymV); ok && an.mapNonNil {
						n.mustEq(sv.NN.addk(-1))
					}
					return r
				})
				if c := (Cond{Kind: COpaque, Op: fmt.Sprintf("in%d", y.Obj), Key: fmt.Sprintf("in%d:%s", y.Obj, valKey(k)), Args: []Val{k}}); true {
					for _, h := range n.assume(c) {
						outs = append(outs, mk(h.clone(), v, true))
					}
					for _, h := range n.assume(c.not()) {
						outs = append(outs, mk(h.clone(), an.zero(h, mt.Elem()), false))
					}
				}
				continue
			}
			outs = append(outs, mk(s, an.zero(s, mt.Elem()), false))
		}
		return outs
	}
	// unknown map
	n := st.clone()
	return []Out{mk(st, an.havoc(st, mt.Elem(), "entry"), true), mk(n, an.zero(n, mt.Elem()), false)}
}

func (an *An) mapUpdate(st *State, m, k, v Val, pos token.Pos) {
	y, ok := m.(MapV)
	if !ok {
		if _, isNil := m.(NilV); isNil {
			an.check(st, Cond{Kind: CConst}, "nil map", pos, "assignment to entry in nil map")
		}
		return
	}
	if an.onMapStore != nil {
		an.onMapStore(st, y, k, v)
	}
	o := *st.obj(y.Obj)
	mo := *o.Map
	keys := append([]Val(nil), mo.Keys...)
	vals := append([]Val(nil), mo.Vals...)
	for i := range keys {
		if st.sameVal(keys[i], k) {
			vals[i] = v
			mo.Keys, mo.Vals = keys, vals
			o.Map = &mo
			st.put(y.Obj, &o)
			return
		}
	}
	for i := range keys {
		if len(st.assume(an.eqCond(st, keys[i], k))) > 0 {
			// may overwrite an entry: forget the contents
			mo.Keys, mo.Vals, mo.Open = nil, nil, true
			o.Map = &mo
			st.put(y.Obj, &o)
			return
		}
	}
	mo.Keys = append(keys, k)
	mo.Vals = append(vals, v)
	o.Map = &mo
	st.put(y.Obj, &o)
}

// next advances a range iterator.
func (an *An) next(st *State, x *ssa.Next, v Val) (ret []Out) {
	iter, ok := v.(IterV)
	if !ok {
		return ret1(st, an.havoc(st, x.Type(), "next"))
	}
	pos := PtrV{Obj: iter.ID, Path: ".0"}
	p := an.load(st, pos).(IntV).L
	tt := x.Type().(*types.Tuple)
	zero := func(s *State) Val {
		e := []Val{cb(false)}
		for i := 1; i < tt.Len(); i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				e = append(e, NilV{})
				continue
			}
			e = append(e, an.zero(s, tt.At(i).Type()))
		}
		return TupleV{E: e}
	}
	if iter.Kind == "string" {
		n := iter.Str.length()
		var outs []Out
		if an.onRead != nil {
			defer func() {
				var outs []Out
				for _, o := range ret {
					tv, ok := o.ret.(TupleV)
					if !ok || len(tv.E) < 3 {
						outs = append(outs, o)
						continue
					}
					if b, ok := tv.E[0].(BoolV); !ok || b.C.Kind != CConst || !b.C.B {
						outs = append(outs, o)
						continue
					}
					end, _ := an.load(o.st, pos).(IntV)
					for _, s := range an.onRead(o.st, iter.Str, p, end.L) {
						outs = append(outs, Out{st: s, ret: o.ret})
					}
				}
				ret = outs
			}()
		}
		for _, s := range st.assume(cge(p.sub(n))) {
			s = s.clone()
			outs = append(outs, Out{st: s, ret: zero(s)})
		}
		for _, s := range st.assume(cge(n.sub(p).addk(-1))) {
			s = s.clone()
			bv, _ := an.byteAt(s, iter.Str, p).(IntV)
			if k, ok := bv.L.constInt(); ok && k < 128 {
				an.store(s, pos, IntV{p.addk(1)})
				outs = append(outs, Out{st: s, ret: TupleV{E: []Val{cb(true), IntV{p}, bv}}})
				continue
			}
			sy, ok := bv.L.singleSym()
			if !ok {
				an.unresolved("range over string at %s", an.w.pos(x.Pos()))
				continue
			}
			ref := an.byteSym[sy]
			if a := s.addByte(ref.Base, ref.Idx, byteRange(0, 127)); a != nil {
				a = a.clone()
				an.store(a, pos, IntV{p.addk(1)})
				outs = append(outs, Out{st: a, ret: TupleV{E: []Val{cb(true), IntV{p}, bv}}})
			}
			if b := s.addByte(ref.Base, ref.Idx, byteRange(128, 255)); b != nil {
				b = b.clone()
				w := ls(b.newSym("runewidth"))
				ws, _ := w.singleSym()
				an.rng[ws] = [2]*big.Int{big.NewInt(1), big.NewInt(4)}
				b.must(w.addk(-1))
				b.must(lc(4).sub(w))
				b.must(n.sub(p).sub(w))
				r := b.newSym("rune")
				an.rng[r] = [2]*big.Int{big.NewInt(128), big.NewInt(0x10ffff)}
				b.must(ls(r).addk(-128))
				b.must(lc(0x10ffff).sub(ls(r)))
				an.runeSym[r] = ref
				an.runeW[r] = w
				an.store(b, pos, IntV{p.add(w)})
				outs = append(outs, Out{st: b, ret: TupleV{E: []Val{cb(true), IntV{p}, IntV{ls(r)}}}})
			}
		}
		return outs
	}
	// map
	m, _ := iter.Map.(MapV)
	var mo *MapObj
	if o := st.obj(m.Obj); o != nil {
		mo = o.Map
	}
	if _, isNil := iter.Map.(NilV); isNil {
		return ret1(st, zero(st))
	}
	mtKey, mtElem := tt.At(1).Type(), tt.At(2).Type()
	if mo != nil {
		mtKey, mtElem = mo.Key, mo.Elem
	}
	if mo != nil && !mo.Open {
		if k, ok := p.constInt(); ok {
			if int(k) >= len(mo.Keys) {
				return ret1(st, zero(st))
			}
			an.store(st, pos, IntV{lc(k + 1)})
			return ret1(st, TupleV{E: []Val{cb(true), mo.Keys[k], mo.Vals[k]}})
		}
	}
	s2 := st.clone()
	an.store(s2, pos, IntV{p.addk(1)})
	mk := func(s *State, t types.Type, n string) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return NilV{}
		}
		return an.havoc(s, t, n)
	}
	return []Out{{st: st, ret: zero(st)}, {st: s2, ret: TupleV{E: []Val{cb(true), mk(s2, mtKey, "key"), mk(s2, mtElem, "entry")}}}}
}

// ---- calls ---------------------------------------------------------------

func (an *An) callCommon(st *State, c *ssa.CallCommon, get func(ssa.Value) Val, pos token.Pos) []Out {
	var args []Val
	for _, a := range c.Args {
		args = append(args, get(a))
	}
	return an.callValue(st, c, get(c.Value), args, pos)
}

func (an *An) callValue(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Out {
	an.curPos = pos
	if c.IsInvoke() {
		return an.invoke(st, c, fv, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return an.builtin(st, b, args, c, pos)
	}
	return an.callFunc(st, fv, args, c.Signature(), pos)
}

func (an *An) callFunc(st *State, fv Val, args []Val, sig *types.Signature, pos token.Pos) []Out {
	an.curPos = pos
	switch f := fv.(type) {
	case FuncV:
		if f.Fn == nil {
			an.unresolved("call of %s", f.Ext)
			return an.results(st.clone(), sig.Results(), "call", f.Ext, args)
		}
		if _, ok := an.opt.Opaque[f.Fn]; ok {
			return an.havocCall(st, f.Fn, args, "opaque")
		}
		if an.w.inMod(f.Fn) || (f.Fn.Synthetic != "" && len(f.Fn.Blocks) > 0 && f.Fn.Pkg == nil && an.w.synthInMod(f.Fn)) {
			return an.call(st, f.Fn, args, f.Bind)
		}
		if len(f.Bind) > 0 && len(args) == 0 || strings.HasSuffix(f.Fn.Name(), "$bound") {
			args = append(append([]Val(nil), f.Bind...), args...)
		}
		return an.external(st, f.Fn, args, pos)
	case NilV:
		an.check(st, Cond{Kind: CConst}, "nil call", pos, "call of nil function")
		return nil
	case SymV:
		var outs []Out
		for _, s := range an.check(st, ceq(f.NN.addk(-1)), "nil call", pos, f.Note) {
			n := s.clone()
			an.havocReach(n, args)
			ev := append([]Val{f}, args...)
			outs = append(outs, withPre(s, an.results(n, sig.Results(), "dyncall", "func "+f.Note, ev))...)
		}
		return outs
	}
	an.unresolved("call of %T at %s", fv, an.w.pos(pos))
	return an.results(st.clone(), sig.Results(), "dyncall", "unknown", args)
}

func (w *World) synthInMod(f *ssa.Function) bool {
	if f.Object() != nil && f.Object().Pkg() != nil {
		return w.ssaPkg[f.Object().Pkg().Path()] != nil
	}
	return false
}

func (an *An) invoke(st *State, c *ssa.CallCommon, v Val, args []Val, pos token.Pos) []Out {
	m := c.Method
	switch x := v.(type) {
	case NilV:
		an.check(st, Cond{Kind: CConst}, "nil dereference", pos, "method "+m.Name()+" of nil interface")
		return nil
	case IfaceV:
		return an.invokeOn(st, x, m, args, c, pos)
	case SymV:
		var outs []Out
		for _, s := range an.check(st, ceq(x.NN.addk(-1)), "nil dereference", pos, "method "+m.Name()+" of "+x.Note) {
			if d, ok := s.dyn[x.ID]; ok {
				outs = append(outs, an.invokeOn(s, d, m, args, c, pos)...)
				continue
			}
			cands := an.implementers(x.T)
			if cands == nil {
				if o, ok := an.libInvoke(s, x, m, args, c, pos); ok {
					outs = append(outs, o...)
					continue
				}
				n := s.clone()
				an.havocReach(n, args)
				outs = append(outs, an.results(n, c.Signature().Results(), "invoke", m.Name(), append([]Val{x}, args...))...)
				continue
			}
			for _, t := range cands {
				for _, s2 := range s.assume(Cond{Kind: CType, V: x, Ty: t}) {
					outs = append(outs, an.invokeOn(s2, s2.dyn[x.ID], m, args, c, pos)...)
				}
			}
		}
		return outs
	}
	an.unresolved("method call on %T at %s", v, an.w.pos(pos))
	return an.results(st.clone(), c.Signature().Results(), "invoke", m.Name(), args)
}

func (an *An) invokeOn(st *State, x IfaceV, m *types.Func, args []Val, c *ssa.CallCommon, pos token.Pos) []Out {
	if x.T == an.w.extErr {
		if m.Name() == "Error" {
			if p, ok := x.V.(PtrV); ok {
				if o := st.obj(p.Obj); o != nil && o.Lib != nil {
					return ret1(st, o.Lib["msg"])
				}
			}
		}
		return ret1(st, an.havoc(st, c.Signature().Results(), m.Name()))
	}
	fn := an.w.prog.LookupMethod(x.T, m.Pkg(), m.Name())
	if fn == nil {
		an.unresolved("no method %s on %s", m.Name(), x.T)
		return an.results(st.clone(), c.Signature().Results(), "invoke", m.Name(), args)
	}
	return an.callFunc(st, FuncV{Fn: fn}, append([]Val{x.V}, args...), c.Signature(), pos)
}

func (an *An) builtin(st *State, b *ssa.Builtin, args []Val, c *ssa.CallCommon, pos token.Pos) []Out {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case StrV:
			return ret1(st, IntV{x.length()})
		case SliceV:
			return ret1(st, IntV{x.Len})
		case NilV:
			return ret1(st, IntV{lc(0)})
		case MapV:
			o := st.obj(x.Obj)
			if !o.Map.Open {
				return ret1(st, IntV{lc(int64(len(o.Map.Keys)))})
			}
			l := st.ufInt(fmt.Sprintf("maplen%d", x.Obj), nil, func(l Lin) { st.must(l.addk(-int64(len(o.Map.Keys)))) })
			return ret1(st, IntV{l})
		}
		s := st.lenSym("len")
		return ret1(st, IntV{s})
	case "append":
		return an.appendOp(st, args, c)
	case "copy":
		return an.copyOp(st, args)
	case "delete":
		if m, ok := args[0].(MapV); ok {
			o := *st.obj(m.Obj)
			o.Map = &MapObj{Open: true, Key: o.Map.Key, Elem: o.Map.Elem}
			st.put(m.Obj, &o)
		}
		return ret1(st, nil)
	case "min", "max":
		outs := []Out{{st: st, ret: args[0]}}
		for _, a := range args[1:] {
			var next []Out
			for _, o := range outs {
				x, ok1 := o.ret.(IntV)
				y, ok2 := a.(IntV)
				if !ok1 || !ok2 {
					next = append(next, Out{st: o.st, ret: an.havoc(o.st, c.Signature().Results().At(0).Type(), b.Name())})
					continue
				}
				d := y.L.sub(x.L) // >= 0: x <= y
				if b.Name() == "max" {
					d = d.neg()
				}
				for _, s := range o.st.assume(cge(d)) {
					next = append(next, Out{st: s.clone(), ret: x})
				}
				for _, s := range o.st.assume(cge(d).not()) {
					next = append(next, Out{st: s.clone(), ret: y})
				}
			}
			outs = next
		}
		return outs
	case "recover":
		return ret1(st, NilV{})
	case "print", "println":
		st.event("stderr", b.Name(), args, nil, an.w.pos(pos))
		return ret1(st, nil)
	case "ssa:wrapnilchk":
		return ret1(st, args[0])
	case "clear":
		an.havocReach(st, args)
		return ret1(st, nil)
	}
	an.unresolved("builtin %s at %s", b.Name(), an.w.pos(pos))
	if rt := c.Signature().Results(); rt.Len() == 1 {
		return ret1(st, an.havoc(st, rt.At(0).Type(), b.Name()))
	}
	return ret1(st, nil)
}

func (an *An) appendOp(st *State, args []Val, c *ssa.CallCommon) []Out {
	st0, _ := c.Signature().Results().At(0).Type().Underlying().(*types.Slice)
	elem := st0.Elem()
	if isByteSlice(st0) {
		a, ok1 := an.strOf(st, args[0])
		b, ok2 := an.strOf(st, args[1])
		if ok1 && ok2 {
			return ret1(st, an.bytesVal(st, concat(a, b)))
		}
	}
	from := -1
	off, n := lc(0), lc(0)
	if s, ok := args[0].(SliceV); ok && s.Arr >= 0 {
		from, off, n = s.Arr, s.Off, s.Len
	}
	more, known := an.constSlice(st, args[1])
	if known && len(more) == 0 {
		return ret1(st, args[0])
	}
	if known {
		if old, ok := an.constSlice(st, args[0]); ok {
			v := an.mkSlice(st, elem, append(append([]Val(nil), old...), more...), "append").(SliceV)
			st.heap[v.Arr].Arr.Log = an.appendLog(st, from, more)
			return ret1(st, v)
		}
	}
	a := &ArrObj{Elem: elem, Sym: true}
	a.Gen = func(s *State, i Lin) Val {
		if from >= 0 && s.lt(i, n) {
			return an.elem(s, from, off.add(i))
		}
		return nil
	}
	newLen := n
	if known {
		for i, v := range more {
			a.Els = append(a.Els, ArrEl{I: n.addk(int64(i)), V: v, W: true})
		}
		newLen = n.addk(int64(len(more)))
		a.Log = an.appendLog(st, from, more)
	} else {
		if s, ok := args[1].(SliceV); ok {
			newLen = n.add(s.Len)
			g := a.Gen
			a.Gen = func(s2 *State, i Lin) Val {
				if s2.ge(i.sub(n)) {
					return an.elem(s2, s.Arr, s.Off.add(i.sub(n)))
				}
				return g(s2, i)
			}
			a.Log = an.appendLog(st, from, []Val{s})
		}
	}
	id := st.newObj(&Obj{T: st0, Arr: a, Name: "append"})
	return ret1(st, SliceV{Arr: id, Off: lc(0), Len: newLen})
}

// appendLog extends the append history of array from.
func (an *An) appendLog(st *State, from int, vals []Val) []AppendRec {
	var log []AppendRec
	if o := st.obj(from); o != nil && o.Arr != nil {
		log = append(log, o.Arr.Log...)
	}
	return append(log, AppendRec{From: from, Vals: vals})
}

func (an *An) copyOp(st *State, args []Val) []Out {
	d, ok1 := args[0].(SliceV)
	if !ok1 {
		return ret1(st, IntV{lc(0)})
	}
	if s, ok := an.strOf(st, args[1]); ok {
		if o := st.obj(d.Arr); o != nil && o.Arr != nil && o.Arr.Bytes != nil {
			// exact when the whole destination is filled
			var outs []Out
			for _, a := range st.assume(cge(d.Len.sub(s.length()))) {
				a = a.clone()
				full := *o.Arr.Bytes
				ns := concat(concat(a.slice(full, lc(0), d.Off), s), a.slice(full, d.Off.add(s.length()), full.length()))
				n := *o
				na := *o.Arr
				na.Bytes = &ns
				n.Arr = &na
				a.put(d.Arr, &n)
				outs = append(outs, Out{st: a, ret: IntV{s.length()}})
			}
			for _, a := range st.assume(cge(d.Len.sub(s.length())).not()) {
				a = a.clone()
				full := *o.Arr.Bytes
				ns := concat(concat(a.slice(full, lc(0), d.Off), a.slice(s, lc(0), d.Len)), a.slice(full, d.Off.add(d.Len), full.length()))
				n := *o
				na := *o.Arr
				na.Bytes = &ns
				n.Arr = &na
				a.put(d.Arr, &n)
				outs = append(outs, Out{st: a, ret: IntV{d.Len}})
			}
			return outs
		}
	}
	if src, ok := args[1].(SliceV); ok {
		if vals, ok := an.constSlice(st, src); ok {
			if n, ok := st.constOf(d.Len); ok {
				for i := 0; i < len(vals) && int64(i) < n; i++ {
					idx := d.Off.addk(int64(i))
					an.store(st, PtrV{Obj: d.Arr, Idx: &idx}, vals[i])
				}
				return ret1(st, IntV{lc(min(n, int64(len(vals))))})
			}
		}
		// contents of the destination become elements of the source
		o := *st.obj(d.Arr)
		na := &ArrObj{Elem: o.Arr.Elem, Sym: true, Log: []AppendRec{{From: -1, Vals: []Val{src}}}}
		na.Gen = func(s *State, i Lin) Val {
			k := i.sub(d.Off)
			if s.ge(k) && s.lt(k, src.Len) {
				return an.elem(s, src.Arr, src.Off.add(k))
			}
			return nil
		}
		o.Arr = na
		st.put(d.Arr, &o)
		n := st.lenSym("copied")
		st.must(d.Len.sub(n))
		st.must(src.Len.sub(n))
		return ret1(st, IntV{n})
	}
	return ret1(st, IntV{lc(0)})
}

var iterType = types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "i", types.Typ[types.Int], false)}, nil)
