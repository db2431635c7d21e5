package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopNest struct {
	byHeader map[*ssa.BasicBlock]*Loop
	live     map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (w *World) nest(fn *ssa.Function) *loopNest {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n, ok := w.loops[fn]; ok {
		return n
	}
	n := &loopNest{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := n.byHeader[s]
				if L == nil {
					L = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					n.byHeader[s] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.blocks[x] {
						continue
					}
					L.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	n.live = liveness(fn)
	w.loops[fn] = n
	return n
}

func (w *World) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop { return w.nest(fn).byHeader[b] }

// liveness computes the values live after the phis of each block.
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	hasDefer := false
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for k, e := range p.Edges {
						if s.Preds[k] == b {
							live[e] = true
						}
					}
				}
			}
			var rands [16]*ssa.Value
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if _, ok := x.(*ssa.Phi); ok {
					break
				}
				if _, ok := x.(*ssa.Defer); ok {
					hasDefer = true
				}
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				for _, o := range x.Operands(rands[:0]) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			// phis defined here are live-in for this purpose (they are set)
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	_ = hasDefer
	return in
}

// ---- merging ---------------------------------------------------------------

// sameFacts: the states differ at most in one byte fact; returns its index.
func mergeable(a, b *State) (int, bool) {
	if a.ev != b.ev || len(a.poly.cons) != len(b.poly.cons) || len(a.bytes) != len(b.bytes) || len(a.ranges) != len(b.ranges) ||
		len(a.diseq) != len(b.diseq) || len(a.uf) != len(b.uf) || len(a.opq) != len(b.opq) || len(a.dyn) != len(b.dyn) ||
		len(a.bind) != len(b.bind) || len(a.strNe) != len(b.strNe) || len(a.ghost) != len(b.ghost) || len(a.symObj) != len(b.symObj) ||
		len(a.iters) != len(b.iters) || len(a.cnts) != len(b.cnts) || len(a.excl) != len(b.excl) {
		return -1, false
	}
	if a.poly != b.poly {
		for i := range a.poly.cons {
			if a.poly.cons[i].Eq != b.poly.cons[i].Eq || !a.poly.cons[i].L.eqSyn(b.poly.cons[i].L) {
				return -1, false
			}
		}
	}
	for i := range a.ranges {
		if a.ranges[i].Base != b.ranges[i].Base || a.ranges[i].Set != b.ranges[i].Set || !a.ranges[i].Lo.eqSyn(b.ranges[i].Lo) || !a.ranges[i].Hi.eqSyn(b.ranges[i].Hi) {
			return -1, false
		}
	}
	for i := range a.diseq {
		if !a.diseq[i].eqSyn(b.diseq[i]) {
			return -1, false
		}
	}
	for i := range a.uf {
		if a.uf[i].Fn != b.uf[i].Fn || !shallowSame(a.uf[i].Ret, b.uf[i].Ret) {
			return -1, false
		}
	}
	for i := range a.iters {
		if a.iters[i].F != b.iters[i].F || !a.iters[i].N.eqSyn(b.iters[i].N) || !a.iters[i].Cur.eqSyn(b.iters[i].Cur) || !a.iters[i].Start.eqSyn(b.iters[i].Start) {
			return -1, false
		}
	}
	for i := range a.cnts {
		if a.cnts[i].Set != b.cnts[i].Set || !a.cnts[i].N.eqSyn(b.cnts[i].N) || !a.cnts[i].Hi.eqSyn(b.cnts[i].Hi) || !a.cnts[i].Lo.eqSyn(b.cnts[i].Lo) {
			return -1, false
		}
	}
	for k, v := range a.opq {
		if w, ok := b.opq[k]; !ok || w != v {
			return -1, false
		}
	}
	for k, v := range a.dyn {
		if w, ok := b.dyn[k]; !ok || !shallowSame(v, w) {
			return -1, false
		}
	}
	for k, v := range a.excl {
		if len(b.excl[k]) != len(v) {
			return -1, false
		}
	}
	for k, v := range a.bind {
		if b.bind[k] != v {
			return -1, false
		}
	}
	for k, v := range a.ghost {
		if w, ok := b.ghost[k]; !ok || !v.eqSyn(w) {
			return -1, false
		}
	}
	for k, v := range a.symObj {
		if b.symObj[k] != v {
			return -1, false
		}
	}
	at := -1
	for i := range a.bytes {
		if a.bytes[i].Base != b.bytes[i].Base || !a.bytes[i].Idx.eqSyn(b.bytes[i].Idx) {
			return -1, false
		}
		if a.bytes[i].Set != b.bytes[i].Set {
			if at >= 0 {
				return -1, false
			}
			at = i
		}
	}
	for k, o := range a.heap {
		p, ok := b.heap[k]
		if !ok {
			continue // local to one of them: garbage after the call or materialised
		}
		if o != p && !sameObj(o, p) {
			return -1, false
		}
	}
	return at, true
}

func sameObj(o, p *Obj) bool {
	if (o.Arr == nil) != (p.Arr == nil) || (o.Map == nil) != (p.Map == nil) || len(o.Lib) != len(p.Lib) {
		return false
	}
	if o.Lib != nil {
		for k, v := range o.Lib {
			if !shallowSame(v, p.Lib[k]) {
				return false
			}
		}
	}
	if o.Arr != nil {
		if o.Arr == p.Arr {
			return true
		}
		if len(o.Arr.Els) != len(p.Arr.Els) || (o.Arr.Bytes == nil) != (p.Arr.Bytes == nil) || o.Arr.Ver != p.Arr.Ver || len(o.Arr.Log) != len(p.Arr.Log) || (o.Arr.Gen == nil) != (p.Arr.Gen == nil) {
			return false
		}
		if o.Arr.Gen != nil {
			return false
		}
		for i := range o.Arr.Els {
			if !o.Arr.Els[i].I.eqSyn(p.Arr.Els[i].I) || !shallowSame(o.Arr.Els[i].V, p.Arr.Els[i].V) {
				return false
			}
		}
		return o.Arr.Bytes == nil || o.Arr.Bytes.key() == p.Arr.Bytes.key()
	}
	if o.Map != nil {
		if o.Map == p.Map {
			return true
		}
		if len(o.Map.Keys) != len(p.Map.Keys) || o.Map.Open != p.Map.Open {
			return false
		}
		for i := range o.Map.Keys {
			if !shallowSame(o.Map.Keys[i], p.Map.Keys[i]) || !shallowSame(o.Map.Vals[i], p.Map.Vals[i]) {
				return false
			}
		}
		return true
	}
	if o.V == nil || p.V == nil {
		return o.V == nil && p.V == nil
	}
	return shallowSame(o.V, p.V)
}

// shallowSame is syntactic equality of values.
func shallowSame(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case IntV:
		y, ok := b.(IntV)
		return ok && x.L.eqSyn(y.L)
	case StrV:
		y, ok := b.(StrV)
		return ok && x.key() == y.key()
	case BuilderV:
		y, ok := b.(BuilderV)
		return ok && x.S.key() == y.S.key()
	case NilV:
		_, ok := b.(NilV)
		return ok
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.Obj == y.Obj && x.Path == y.Path && (x.Idx == nil) == (y.Idx == nil) && (x.Idx == nil || x.Idx.eqSyn(*y.Idx))
	case SymV:
		y, ok := b.(SymV)
		return ok && x.ID == y.ID
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.T, y.T) && shallowSame(x.V, y.V)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.Arr == y.Arr && x.Off.eqSyn(y.Off) && x.Len.eqSyn(y.Len)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !shallowSame(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !shallowSame(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x.Obj == y.Obj
	case ArrV:
		y, ok := b.(ArrV)
		return ok && x.Obj == y.Obj
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ok && x.ID == y.ID
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Ext != y.Ext || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !shallowSame(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			return false
		}
		if x.Exact != nil {
			return y.Exact != nil && x.Exact.eqSyn(*y.Exact)
		}
		if x.F != nil {
			return y.F != nil && x.F.ID == y.F.ID
		}
		return y.Const != nil && x.Const != nil && *x.Const == *y.Const
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x.C.Kind == y.C.Kind && x.C.Neg == y.C.Neg && x.C.B == y.C.B && x.C.L.eqSyn(y.C.L) && x.C.Base == y.C.Base && x.C.Set == y.C.Set &&
			x.C.Key == y.C.Key && x.C.Op == y.C.Op && (x.C.Kind == CConst || x.C.Kind == CGE || x.C.Kind == CEQ || x.C.Kind == CByte || x.C.Kind == COpaque && x.C.Key != "")
	case IterV:
		y, ok := b.(IterV)
		return ok && x.ID == y.ID
	}
	return false
}

// mergeTwo joins two states that differ in at most one byte fact.
func mergeTwo(a, b *State) *State {
	at, ok := mergeable(a, b)
	if !ok {
		return nil
	}
	n := a.clone()
	for k, o := range b.heap {
		if _, ok := n.heap[k]; !ok {
			n.heap[k] = o
		}
	}
	if at >= 0 {
		n.bytes = append([]ByteFact(nil), n.bytes...)
		n.bytes[at].Set = a.bytes[at].Set.or(b.bytes[at].Set)
	}
	return n
}

func (an *An) mergeOuts(outs []Out) []Out {
	if len(outs) < 2 || len(outs) > 60 {
		return outs
	}
	for again := true; again; {
		again = false
	scan:
		for i := 0; i < len(outs); i++ {
			for j := i + 1; j < len(outs); j++ {
				if outs[i].kind != outReturn || outs[j].kind != outReturn || !shallowSame(outs[i].ret, outs[j].ret) {
					continue
				}
				if m := mergeTwo(outs[i].st, outs[j].st); m != nil {
					o := outs[i]
					o.st = m
					outs = append(append(append([]Out(nil), outs[:i]...), outs[j+1:]...)[:0:0], append(append([]Out(nil), outs[:j]...), outs[j+1:]...)...)
					outs[i] = o
					again = true
					break scan
				}
			}
		}
	}
	return outs
}

func (an *An) mergeItems(items []item, fn *ssa.Function) []item {
	if len(items) < 2 || len(items) > 80 {
		return items
	}
	live := an.w.nest(fn).live
	for i := range items {
		if !items[i].phisSet && items[i].idx == 0 {
			an.doPhis(&items[i])
			items[i].phisSet = true
		}
	}
	for again := true; again; {
		again = false
	scan:
		for i := 0; i < len(items); i++ {
			for j := i + 1; j < len(items); j++ {
				if items[i].blk != items[j].blk || items[i].idx != items[j].idx || items[i].defers != items[j].defers || items[i].idx != 0 {
					continue
				}
				same := true
				for v := range live[items[i].blk] {
					x, y := items[i].regs[v], items[j].regs[v]
					if (x == nil) != (y == nil) || x != nil && !shallowSame(x, y) {
						same = false
						break
					}
				}
				if !same {
					continue
				}
				if m := mergeTwo(items[i].st, items[j].st); m != nil {
					n := items[i].fork(m)
					items = append(append([]item(nil), items[:j]...), items[j+1:]...)
					items[i] = n
					again = true
					break scan
				}
			}
		}
	}
	return items
}

// ---- loop cells ------------------------------------------------------------

// lcell is a quantity that changes in a loop.
type lcell struct {
	phi   *ssa.Phi
	obj   int
	path  string // "" whole value; "arr", "map" for containers
	ghost string
	mode  string // "win" or "fresh" for strings and slices
	typ   types.Type
	name  string
}

func (c *lcell) id() string {
	if c.phi != nil {
		return "phi " + c.phi.Name()
	}
	if c.ghost != "" {
		return "ghost " + c.ghost
	}
	return fmt.Sprintf("obj %d %s", c.obj, c.path)
}

func (an *An) cellGet(c *lcell, st *State, regs map[ssa.Value]Val) Val {
	switch {
	case c.phi != nil:
		return regs[c.phi]
	case c.ghost != "":
		return IntV{st.ghost[c.ghost]}
	}
	o := st.obj(c.obj)
	if o == nil {
		return nil
	}
	switch c.path {
	case "arr", "map":
		return nil
	case "bytes":
		if o.Arr != nil && o.Arr.Bytes != nil {
			return *o.Arr.Bytes
		}
		return nil
	}
	return an.getPath(o.V, splitPath(c.path))
}

func (an *An) cellSet(c *lcell, st *State, regs map[ssa.Value]Val, v Val) {
	switch {
	case c.phi != nil:
		regs[c.phi] = v
		return
	case c.ghost != "":
		st.ghost[c.ghost] = v.(IntV).L
		return
	}
	o := st.obj(c.obj)
	n := *o
	switch c.path {
	case "bytes":
		na := *o.Arr
		s := v.(StrV)
		na.Bytes = &s
		n.Arr = &na
	case "arr":
		an.nver++
		n.Arr = &ArrObj{Elem: o.Arr.Elem, Sym: true, Ver: an.nver}
	case "map":
		n.Map = &MapObj{Open: true, Key: o.Map.Key, Elem: o.Map.Elem}
	default:
		n.V = setPath(o.V, splitPath(c.path), v)
	}
	st.put(c.obj, &n)
}

// diffVal lists the paths at which two values of type t differ.
func (an *An) diffVal(st *State, a, b Val, t types.Type, path string, out *[]string) {
	if a == nil || b == nil {
		return
	}
	x, ok1 := a.(StructV)
	y, ok2 := b.(StructV)
	if ok1 && ok2 && len(x.F) == len(y.F) {
		var s *types.Struct
		if t != nil {
			s, _ = t.Underlying().(*types.Struct)
		}
		for i := range x.F {
			ft := t
			if s != nil && i < s.NumFields() {
				ft = s.Field(i).Type()
			}
			an.diffVal(st, x.F[i], y.F[i], ft, path+fmt.Sprintf(".%d", i), out)
		}
		return
	}
	if shallowSame(a, b) || st.sameVal(a, b) {
		return
	}
	*out = append(*out, path)
}

// varying lists the cells in which back differs from head.
func (an *An) varying(h *item, back *item, M *Loop, live map[ssa.Value]bool) []*lcell {
	var out []*lcell
	for _, in := range M.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := back.regs[p]
		if v == nil || !shallowSame(v, h.regs[p]) && !back.st.sameVal(v, h.regs[p]) {
			out = append(out, &lcell{phi: p, typ: p.Type(), name: phiName(p)})
		}
	}
	for g, v := range back.st.ghost {
		if w, ok := h.st.ghost[g]; !ok || !w.eqSyn(v) {
			out = append(out, &lcell{ghost: g, name: g})
		}
	}
	for g := range h.st.ghost {
		if _, ok := back.st.ghost[g]; !ok {
			out = append(out, &lcell{ghost: g, name: g})
		}
	}
	ids := make([]int, 0, len(back.st.heap))
	for id := range back.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := back.st.heap[id]
		ho := h.st.obj(id)
		if ho == nil || ho == o {
			continue
		}
		if ho.V == nil && ho.Arr == nil && ho.Map == nil && ho.Lib == nil {
			// lazily created contents are memoised and hence comparable
			tmp := h.st.clone()
			ho = an.materialise(tmp, id, ho)
		}
		switch {
		case o.Arr != nil && ho.Arr != nil:
			if o.Arr == ho.Arr {
				continue
			}
			if o.Arr.Bytes != nil && ho.Arr.Bytes != nil {
				if o.Arr.Bytes.key() != ho.Arr.Bytes.key() && !back.st.strEq(*o.Arr.Bytes, *ho.Arr.Bytes) {
					out = append(out, &lcell{obj: id, path: "bytes", typ: types.Typ[types.String], name: o.Name})
				}
				continue
			}
			if o.Arr.Ver != ho.Arr.Ver || len(o.Arr.Log) != len(ho.Arr.Log) {
				out = append(out, &lcell{obj: id, path: "arr", name: o.Name})
				continue
			}
			// written elements
			ch := false
			w := func(a *ArrObj) map[string]Val {
				m := map[string]Val{}
				for _, e := range a.Els {
					if e.W {
						m[e.I.key()] = e.V
					}
				}
				return m
			}
			ow, hw := w(o.Arr), w(ho.Arr)
			if len(ow) != len(hw) {
				ch = true
			}
			for k, v := range ow {
				if x, ok := hw[k]; !ok || !shallowSame(v, x) && !back.st.sameVal(v, x) {
					ch = true
				}
			}
			if ch {
				out = append(out, &lcell{obj: id, path: "arr", name: o.Name})
			}
		case o.Map != nil && ho.Map != nil:
			if o.Map == ho.Map {
				continue
			}
			ch := len(o.Map.Keys) != len(ho.Map.Keys) || o.Map.Open != ho.Map.Open
			if !ch {
				for i := range o.Map.Keys {
					if !back.st.sameVal(o.Map.Keys[i], ho.Map.Keys[i]) || !back.st.sameVal(o.Map.Vals[i], ho.Map.Vals[i]) {
						ch = true
					}
				}
			}
			if ch {
				out = append(out, &lcell{obj: id, path: "map", name: o.Name})
			}
		case o.V != nil && ho.V != nil:
			var ps []string
			an.diffVal(back.st, ho.V, o.V, o.T, "", &ps)
			for _, p := range ps {
				out = append(out, &lcell{obj: id, path: p, typ: an.cellType(o.T, splitPath(p)), name: o.Name + p})
			}
		}
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func singlePiece(st *State, v Val) (Piece, bool) {
	s, ok := v.(StrV)
	if !ok {
		return Piece{}, false
	}
	s = st.norm(s)
	if len(s.P) == 1 && s.P[0].Base != nil {
		return s.P[0], true
	}
	return Piece{}, false
}

// generalise replaces the varied cells of e by unknowns.
func (an *An) generalise(e item, cells []*lcell) (item, map[Sym]func(it *item) (Lin, bool)) {
	h := e.fork(e.st.clone())
	h.phisSet = true
	terms := map[Sym]func(it *item) (Lin, bool){}
	intTerm := func(s Sym, c *lcell, f func(v Val, st *State) (Lin, bool)) {
		terms[s] = func(it *item) (Lin, bool) {
			v := an.cellGet(c, it.st, it.regs)
			if v == nil {
				return Lin{}, false
			}
			return f(v, it.st)
		}
	}
	sym1 := func(l Lin) Sym { s, _ := l.singleSym(); return s }
	for _, c := range cells {
		c := c
		old := an.cellGet(c, h.st, h.regs)
		switch {
		case c.path == "arr" || c.path == "map":
			an.cellSet(c, h.st, h.regs, nil)
			continue
		case c.ghost != "":
			s := h.st.newSym("ghost " + c.ghost)
			l := ls(s)
			if c.ghost == "fail" || c.ghost == "quoted" || c.ghost == "escaped" {
				l = h.st.boolSym(c.ghost)
				s = sym1(l)
			}
			h.st.ghost[c.ghost] = l
			terms[s] = func(it *item) (Lin, bool) { v, ok := it.st.ghost[c.ghost]; return v, ok }
			continue
		}
		t := c.typ
		if t == nil {
			t = types.Typ[types.Int]
		}
		if _, _, ok := intRange(t); ok {
			l := an.intSym(h.st, t, c.name)
			an.cellSet(c, h.st, h.regs, IntV{l})
			intTerm(sym1(l), c, func(v Val, _ *State) (Lin, bool) { x, ok := v.(IntV); return x.L, ok })
			continue
		}
		if isBool(t) {
			l := h.st.boolSym(c.name)
			an.cellSet(c, h.st, h.regs, BoolV{ceq(l.addk(-1))})
			intTerm(sym1(l), c, func(v Val, st *State) (Lin, bool) {
				x, ok := v.(BoolV)
				if !ok {
					return Lin{}, false
				}
				if x.C.Kind == CEQ && !x.C.Neg && len(x.C.L.T) == 1 && x.C.L.T[0].C == 1 && x.C.L.k().IsInt64() && x.C.L.k().Int64() == -1 && an.isBoolSym(x.C.L.T[0].S) {
					return ls(x.C.L.T[0].S), true
				}
				if tv, ok := st.truth(x.C); ok {
					if tv {
						return lc(1), true
					}
					return lc(0), true
				}
				return Lin{}, false
			})
			continue
		}
		if isString(t) || c.path == "bytes" {
			if p, ok := singlePiece(h.st, old); ok && c.mode == "win" {
				lo, hi := ls(h.st.newSym(c.name+".lo")), ls(h.st.newSym(c.name+".hi"))
				h.st.must(lo)
				h.st.must(hi.sub(lo))
				h.st.must(p.Base.Len.sub(hi))
				an.cellSet(c, h.st, h.regs, StrV{P: []Piece{{Base: p.Base, Lo: lo, Hi: hi}}})
				base := p.Base
				get := func(v Val, st *State) (Piece, bool) {
					q, ok := singlePiece(st, v)
					if ok && q.Base == base {
						return q, true
					}
					if s, ok2 := v.(StrV); ok2 && len(st.norm(s).P) == 0 && len(s.P) > 0 && s.P[0].Base == base {
						return s.P[0], true
					}
					return Piece{}, false
				}
				intTerm(sym1(lo), c, func(v Val, st *State) (Lin, bool) { q, ok := get(v, st); return q.Lo, ok })
				intTerm(sym1(hi), c, func(v Val, st *State) (Lin, bool) { q, ok := get(v, st); return q.Hi, ok })
				continue
			}
			b := h.st.newBase(c.name)
			an.cellSet(c, h.st, h.regs, baseStr(b))
			intTerm(sym1(b.Len), c, func(v Val, _ *State) (Lin, bool) { x, ok := v.(StrV); return x.length(), ok })
			continue
		}
		if isBuilder(t) {
			b := h.st.newBase(c.name)
			an.cellSet(c, h.st, h.regs, BuilderV{S: baseStr(b)})
			intTerm(sym1(b.Len), c, func(v Val, _ *State) (Lin, bool) { x, ok := v.(BuilderV); return x.S.length(), ok })
			continue
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			if o, ok := old.(SliceV); ok && c.mode == "win" && o.Arr >= 0 {
				off, n := ls(h.st.newSym(c.name+".off")), h.st.lenSym("len("+c.name+")")
				h.st.must(off)
				an.cellSet(c, h.st, h.regs, SliceV{Arr: o.Arr, Off: off, Len: n})
				arr := o.Arr
				intTerm(sym1(off), c, func(v Val, _ *State) (Lin, bool) { x, ok := v.(SliceV); return x.Off, ok && x.Arr == arr })
				intTerm(sym1(n), c, func(v Val, _ *State) (Lin, bool) { x, ok := v.(SliceV); return x.Len, ok && x.Arr == arr })
				continue
			}
			v := an.havoc(h.st, t, c.name).(SliceV)
			_ = s
			an.cellSet(c, h.st, h.regs, v)
			if sy, ok := v.Len.singleSym(); ok {
				intTerm(sy, c, func(v Val, _ *State) (Lin, bool) {
					switch x := v.(type) {
					case SliceV:
						return x.Len, true
					case NilV:
						return lc(0), true
					}
					return Lin{}, false
				})
			}
			continue
		}
		v := an.havoc(h.st, t, c.name)
		an.cellSet(c, h.st, h.regs, v)
		if x, ok := v.(SymV); ok {
			intTerm(sym1(x.NN), c, func(v Val, _ *State) (Lin, bool) {
				switch y := v.(type) {
				case NilV:
					return lc(0), true
				case IfaceV, PtrV, FuncV, MapV:
					return lc(1), true
				case SymV:
					return y.NN, true
				}
				return Lin{}, false
			})
		}
	}
	h.limit = Sym(len(an.names))
	return h, terms
}

func (an *An) isBoolSym(s Sym) bool {
	r, ok := an.rng[s]
	return ok && r[0].Sign() == 0 && r[1].IsInt64() && r[1].Int64() == 1
}

// ---- invariants ------------------------------------------------------------

// IterFact: Cur is the N-fold application of step function F to Start.
type IterFact struct {
	F             string
	Base          *Base
	Start, N, Cur Lin
}

// CntFact: N bytes of Base[Lo:Hi] are in Set.
type CntFact struct {
	Base   *Base
	Set    ByteSet
	Lo, Hi Lin
	N      Lin
}

type cand struct {
	kind string // "lin", "range", "iter", "cnt", "uf"
	l    Lin
	eq   bool
	rf   RangeFact
	it   IterFact
	cf   CntFact
	uf   UFApp
	idx  Lin // uf: argument index expression
	val  Lin // uf: value
	note string
}

func subst(l Lin, m map[Sym]Lin) Lin {
	out := Lin{K: l.K}
	for _, t := range l.T {
		if v, ok := m[t.S]; ok {
			out = out.comb(v, t.C)
		} else {
			out = out.comb(ls(t.S), t.C)
		}
	}
	return out
}

func (c *cand) holds(an *An, st *State, m map[Sym]Lin) bool {
	switch c.kind {
	case "lin":
		l := subst(c.l, m)
		if c.eq {
			return st.eq(l, lc(0))
		}
		return st.ge(l)
	case "range":
		return st.allIn(c.rf.Base, subst(c.rf.Lo, m), subst(c.rf.Hi, m), c.rf.Set)
	case "iter":
		f := IterFact{c.it.F, c.it.Base, subst(c.it.Start, m), subst(c.it.N, m), subst(c.it.Cur, m)}
		return st.iterHolds(f)
	case "cnt":
		f := CntFact{c.cf.Base, c.cf.Set, subst(c.cf.Lo, m), subst(c.cf.Hi, m), subst(c.cf.N, m)}
		return st.cntHolds(f)
	case "uf":
		i, v := subst(c.idx, m), subst(c.val, m)
		args := append(append([]Val(nil), c.uf.Args[:len(c.uf.Args)-1]...), IntV{i})
		if r, ok := st.findUF(c.uf.Fn, args); ok {
			return st.eq(r.(IntV).L, v)
		}
		return false
	}
	return false
}

func (c *cand) assume(an *An, st *State) *State {
	switch c.kind {
	case "lin":
		if c.eq {
			return st.addEq(c.l)
		}
		return st.add(c.l)
	case "range":
		st.addRange(c.rf.Base, c.rf.Lo, c.rf.Hi, c.rf.Set)
		return st
	case "iter":
		st.iters = append(st.iters[:len(st.iters):len(st.iters)], c.it)
		return st
	case "cnt":
		st.addCnt(c.cf)
		return st
	case "uf":
		args := append(append([]Val(nil), c.uf.Args[:len(c.uf.Args)-1]...), IntV{c.idx})
		l := st.ufInt(c.uf.Fn, args, nil)
		return st.addEq(l.sub(c.val))
	}
	return st
}

func (c *cand) show(an *An) string {
	switch c.kind {
	case "lin":
		if c.eq {
			return an.show(c.l) + " = 0"
		}
		return an.show(c.l) + " >= 0"
	case "range":
		return fmt.Sprintf("%s[%s:%s] in %s", c.rf.Base.Name, an.show(c.rf.Lo), an.show(c.rf.Hi), c.rf.Set)
	case "iter":
		return fmt.Sprintf("%s = %s^(%s)(%s)", an.show(c.it.Cur), c.it.F, an.show(c.it.N), an.show(c.it.Start))
	case "cnt":
		return fmt.Sprintf("count(%s[%s:%s] in %s) = %s", c.cf.Base.Name, an.show(c.cf.Lo), an.show(c.cf.Hi), c.cf.Set, an.show(c.cf.N))
	}
	return fmt.Sprintf("%s = %s(%s)", an.show(c.val), c.uf.Fn, an.show(c.idx))
}

// addCnt records a count and what it implies about sizes.
func (st *State) addCnt(f CntFact) {
	st.cnts = append(st.cnts[:len(st.cnts):len(st.cnts)], f)
	st.must(f.N)
	if st.le(f.Lo, f.Hi) {
		st.must(f.Hi.sub(f.Lo).sub(f.N))
	}
}

var (
	nlSet     = func() ByteSet { var s ByteSet; s.put('\n'); return s }()
	letterSet = byteRange('a', 'z').or(byteRange('A', 'Z')).or(byteRange('0', '9'))
)

// isStep reports that q is one step of f from p.
func (st *State) isStep(f string, b *Base, p, q Lin) bool {
	return st.isStepDepth(f, b, p, q, 6)
}

func (st *State) isStepDepth(f string, b *Base, p, q Lin, depth int) bool {
	if st.isStep1(f, b, p, q) {
		return true
	}
	if depth == 0 {
		return false
	}
	// distinguish the kinds of a byte whose kind was forgotten in a merge
	set := nlSet
	if f == "word-end" || f == "word-start" {
		set = letterSet
	}
	for _, y := range st.bytes {
		if y.Base != b || y.Set.subset(set) || y.Set.disjoint(set) {
			continue
		}
		in, out := st.addByte(b, y.Idx, set), st.addByte(b, y.Idx, set.compl())
		return (in == nil || in.isStepDepth(f, b, p, q, depth-1)) && (out == nil || out.isStepDepth(f, b, p, q, depth-1))
	}
	return false
}

func (st *State) isStep1(f string, b *Base, p, q Lin) bool {
	atEnd := func(x Lin) bool { return st.le(b.Len, x) }
	switch f {
	case "next-line": // start of the next line, or the end
		if atEnd(q) && st.allIn(b, p, q, nlSet.compl()) {
			return true
		}
		return st.byteSet(b, q.addk(-1)).subset(nlSet) && st.le(p, q.addk(-1)) && st.allIn(b, p, q.addk(-1), nlSet.compl())
	case "line-next": // start of the next line, or no move on the last line
		if st.eq(p, q) && st.allIn(b, p, b.Len, nlSet.compl()) {
			return true
		}
		return st.byteSet(b, q.addk(-1)).subset(nlSet) && st.le(p, q.addk(-1)) && st.allIn(b, p, q.addk(-1), nlSet.compl())
	case "word-end":
		for _, m := range st.cutPoints(b, p, q) {
			if st.allIn(b, p, m, letterSet.compl()) && (atEnd(m) || st.byteSet(b, m).subset(letterSet)) &&
				st.allIn(b, m, q, letterSet) && (atEnd(q) || st.byteSet(b, q).disjoint(letterSet)) && st.le(p, m) && st.le(m, q) {
				return true
			}
		}
	case "word-start":
		for _, m := range st.cutPoints(b, p, q) {
			if st.allIn(b, m, p, letterSet.compl()) && (st.le(m, lc(0)) || st.byteSet(b, m.addk(-1)).subset(letterSet)) &&
				st.allIn(b, q, m, letterSet) && (st.le(q, lc(0)) || st.byteSet(b, q.addk(-1)).disjoint(letterSet)) && st.le(m, p) && st.le(q, m) {
				return true
			}
		}
	}
	return false
}

var stepFns = []string{"next-line", "line-next", "word-end", "word-start"}

func (st *State) cutPoints(b *Base, p, q Lin) []Lin {
	out := []Lin{p, q}
	add := func(l Lin) {
		for _, o := range out {
			if o.eqSyn(l) {
				return
			}
		}
		out = append(out, l)
	}
	for _, r := range st.ranges {
		if r.Base == b {
			add(r.Lo)
			add(r.Hi)
		}
	}
	return out
}

// absorbing: f stays at p forever.
func (st *State) absorbing(f string, b *Base, p Lin) bool {
	switch f {
	case "word-start":
		return st.le(p, lc(0))
	case "line-next":
		return st.allIn(b, p, b.Len, nlSet.compl())
	}
	return st.le(b.Len, p)
}

func (st *State) iterHolds(f IterFact) bool {
	if st.eq(f.N, lc(0)) && st.eq(f.Start, f.Cur) {
		return true
	}
	if st.eq(f.Start, f.Cur) && st.le(lc(0), f.N) && st.absorbing(f.F, f.Base, f.Cur) {
		return true
	}
	for i := len(st.iters) - 1; i >= 0; i-- {
		g := st.iters[i]
		if g.F != f.F || g.Base != f.Base || !st.eq(g.Start, f.Start) {
			continue
		}
		if st.eq(g.N, f.N) && st.eq(g.Cur, f.Cur) {
			return true
		}
		if st.eq(g.N.addk(1), f.N) && st.isStep(f.F, f.Base, g.Cur, f.Cur) {
			return true
		}
		if st.eq(g.Cur, f.Cur) && st.absorbing(f.F, f.Base, g.Cur) && st.le(g.N, f.N) {
			return true
		}
	}
	return st.eq(f.N, lc(1)) && st.isStep(f.F, f.Base, f.Start, f.Cur)
}

func (st *State) cntHolds(f CntFact) bool {
	if st.eq(f.Lo, f.Hi) {
		return st.eq(f.N, lc(0))
	}
	for i := len(st.cnts) - 1; i >= 0; i-- {
		g := st.cnts[i]
		if g.Base != f.Base || g.Set != f.Set {
			continue
		}
		lo, hi, n := g.Lo, g.Hi, g.N
		// extend downwards and upwards by one byte
		for k := 0; k < 3; k++ {
			if st.eq(lo, f.Lo) && st.eq(hi, f.Hi) {
				return st.eq(n, f.N)
			}
			var at, nlo, nhi Lin
			if st.eq(lo, f.Lo) && st.eq(hi.addk(1), f.Hi) {
				at, nlo, nhi = hi, lo, hi.addk(1)
			} else if st.eq(hi, f.Hi) && st.eq(lo.addk(-1), f.Lo) {
				at, nlo, nhi = lo.addk(-1), lo.addk(-1), hi
			} else {
				break
			}
			s := st.byteSet(f.Base, at)
			switch {
			case s.subset(f.Set):
				n = n.addk(1)
			case s.disjoint(f.Set):
			default:
				k = 3
			}
			lo, hi = nlo, nhi
		}
	}
	// two adjacent counts
	for _, g := range st.cnts {
		if g.Base == f.Base && g.Set == f.Set && st.eq(g.Lo, f.Lo) {
			for _, k := range st.cnts {
				if k.Base == f.Base && k.Set == f.Set && st.eq(k.Lo, g.Hi) && st.eq(k.Hi, f.Hi) && st.eq(g.N.add(k.N), f.N) {
					return true
				}
			}
		}
	}
	if st.allIn(f.Base, f.Lo, f.Hi, f.Set.compl()) {
		return st.eq(f.N, lc(0))
	}
	return st.eq(f.Hi, f.Lo.addk(1)) && (st.byteSet(f.Base, f.Lo).subset(f.Set) && st.eq(f.N, lc(1)))
}

// ---- loops -----------------------------------------------------------------

const (
	maxUnroll = 70
	maxWidth  = 16
)

// peek runs the header alone.
func (an *An) peek(M *Loop, it item, fr *frame) runResult {
	an.quiet++
	defer func() { an.quiet-- }()
	return an.explore([]item{it.fork(it.st.clone())}, &Loop{blocks: map[*ssa.BasicBlock]bool{}}, fr)
}

// farOff: the loop counts towards a bound too far away to unroll.
func (an *An) farOff(M *Loop, n item, fr *frame) bool {
	br := M.header.Instrs[len(M.header.Instrs)-1].(*ssa.If)
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || !isInt(cmp.X.Type()) {
		return false
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return false
	}
	pk := an.peek(M, n, fr)
	if len(pk.exits) != 1 {
		return false
	}
	e := pk.exits[0]
	x, okX := an.val(e.st, e.regs, cmp.X).(IntV)
	y, okY := an.val(e.st, e.regs, cmp.Y).(IntV)
	if !okX || !okY {
		return false
	}
	d := y.L.sub(x.L)
	return e.st.ge(d.addk(-maxUnroll)) || e.st.ge(d.neg().addk(-maxUnroll))
}

func (an *An) doLoop(M *Loop, n item, fr *frame) runResult {
	var res runResult
	_, cond := M.header.Instrs[len(M.header.Instrs)-1].(*ssa.If)
	if !n.phisSet {
		an.doPhis(&n)
		n.phisSet = true
	}
	if !cond || an.noPeel[M.header] {
		return an.abstractLoop(M, n, fr)
	}
	if an.farOff(M, n, fr) {
		return an.abstractLoop(M, n, fr)
	}
	cur := []item{n}
	for iter := 0; len(cur) > 0; iter++ {
		if iter > maxUnroll || len(cur) > maxWidth {
			return an.abstractLoop(M, n, fr)
		}
		var next []item
		for _, it := range cur {
			pk := an.peek(M, it, fr)
			dec := len(pk.outs) == 0
			for _, e := range pk.exits {
				if e.blk != pk.exits[0].blk {
					dec = false
				}
			}
			if !dec {
				if iter == 0 {
					return an.abstractLoop(M, n, fr)
				}
				if an.opt.Lean {
					if an.noPeel == nil {
						an.noPeel = map[*ssa.BasicBlock]bool{}
					}
					an.noPeel[M.header] = true
					return an.abstractLoop(M, n, fr)
				}
				lr := an.abstractLoop(M, it, fr)
				res.outs = append(res.outs, lr.outs...)
				res.exits = append(res.exits, lr.exits...)
				continue
			}
			lr := an.explore([]item{it.fork(it.st.clone())}, M, fr)
			res.outs = append(res.outs, lr.outs...)
			res.exits = append(res.exits, lr.exits...)
			for _, b := range lr.backs {
				an.doPhis(&b)
				b.phisSet = true
				next = append(next, b)
			}
		}
		cur = an.mergeItems(next, fr.fn)
		if iter > 3 && len(cur) > 4 {
			return an.abstractLoop(M, n, fr)
		}
	}
	an.reportLoop(M, fr, "unrolled", nil, true, "finite")
	res.exits = an.mergeItems(res.exits, fr.fn)
	return res
}

func (an *An) loopPos(M *Loop, fr *frame) string {
	for _, in := range M.header.Instrs {
		if in.Pos().IsValid() {
			return an.w.pos(in.Pos())
		}
	}
	for _, b := range fr.fn.Blocks {
		if M.blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return an.w.pos(in.Pos())
				}
			}
		}
	}
	return fnName(fr.fn)
}

func (an *An) reportLoop(M *Loop, fr *frame, mode string, inv []string, bounded bool, rank string) {
	if an.quiet > 0 {
		return
	}
	pos := an.loopPos(M, fr)
	key := fnName(fr.fn) + "|" + fmt.Sprint(M.header.Index)
	r := an.loopsRun[key]
	if r == nil {
		r = &LoopReport{Fn: fnName(fr.fn), Pos: pos, Bounded: true}
		an.loopsRun[key] = r
	}
	if mode == "fixpoint" || r.Mode == "" {
		r.Mode = mode
		r.Inv = inv
		r.Rank = rank
	}
	if !bounded {
		r.Bounded = false
		r.Fails++
	}
}

// sideEffectFree: the header can be evaluated twice.
func sideEffectFree(M *Loop) bool {
	for _, in := range M.header.Instrs {
		switch in.(type) {
		case *ssa.Next, *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.Defer, *ssa.Go, *ssa.Send:
			return false
		}
	}
	return true
}

func (an *An) abstractLoop(M *Loop, e item, fr *frame) runResult {
	var res runResult
	entries := []item{e}
	if _, ok := M.header.Instrs[len(M.header.Instrs)-1].(*ssa.If); ok && sideEffectFree(M) {
		// separate the case of no iteration at all
		pk := an.peek(M, e, fr)
		pure := len(pk.outs) == 0
		for _, x := range pk.exits {
			if x.st.ev != e.st.ev {
				pure = false
			}
		}
		if pure {
			entries = nil
			var stay []*State
			out := false
			for _, x := range pk.exits {
				if M.blocks[x.blk] {
					stay = append(stay, x.st)
				} else {
					out = true
				}
			}
			if out {
				r := an.explore([]item{e.fork(e.st.clone())}, &Loop{blocks: map[*ssa.BasicBlock]bool{}}, fr)
				for _, x := range r.exits {
					if !M.blocks[x.blk] {
						res.exits = append(res.exits, x)
					}
				}
			}
			if len(stay) > 4 {
				entries = []item{e}
			} else {
				for _, s := range stay {
					n := e.fork(s)
					n.phisSet = true
					entries = append(entries, n)
				}
			}
		}
	}
	for _, n := range entries {
		r := an.fixpoint(M, n, fr)
		res.outs = append(res.outs, r.outs...)
		res.exits = append(res.exits, r.exits...)
	}
	res.exits = an.mergeItems(res.exits, fr.fn)
	return res
}

// splitBools makes the boolean cells of a back state definite.
func (an *An) splitBools(items []item, cells []*lcell) []item {
	for _, c := range cells {
		if c.typ == nil || !isBool(c.typ) || c.path == "arr" || c.path == "map" {
			continue
		}
		var next []item
		for _, it := range items {
			v, ok := an.cellGet(c, it.st, it.regs).(BoolV)
			if !ok {
				next = append(next, it)
				continue
			}
			if _, ok := it.st.truth(v.C); ok {
				next = append(next, it)
				continue
			}
			for _, tv := range []bool{true, false} {
				q := v.C
				if !tv {
					q = q.not()
				}
				for _, s := range it.st.assume(q) {
					n := it.fork(s.clone())
					an.cellSet(c, n.st, n.regs, cb(tv))
					next = append(next, n)
				}
			}
		}
		items = next
	}
	return items
}

type bodyRun struct {
	backs []item
	maps  []map[Sym]Lin
	exits []item
	outs  []Out
}

func (an *An) runBody(M *Loop, h item, fr *frame, cells []*lcell, terms map[Sym]func(*item) (Lin, bool)) bodyRun {
	r := an.explore([]item{h.fork(h.st.clone())}, M, fr)
	for i := range r.backs {
		an.doPhis(&r.backs[i])
		r.backs[i].phisSet = true
	}
	backs := an.mergeItems(r.backs, fr.fn)
	backs = an.splitBools(backs, cells)
	br := bodyRun{backs: backs, exits: r.exits, outs: r.outs}
	for i := range backs {
		br.maps = append(br.maps, an.termMap(&backs[i], terms))
	}
	return br
}

func (an *An) termMap(it *item, terms map[Sym]func(*item) (Lin, bool)) map[Sym]Lin {
	m := map[Sym]Lin{}
	for s, f := range terms {
		if l, ok := f(it); ok {
			m[s] = l
		} else {
			// unknown: an unconstrained symbol
			m[s] = ls(an.newSym("?"))
		}
	}
	return m
}

func (an *An) fixpoint(M *Loop, e item, fr *frame) runResult {
	live := an.w.nest(fr.fn).live[M.header]
	known := map[string]*lcell{}
	var cells []*lcell
	an.quiet++
	var h item
	var terms map[Sym]func(*item) (Lin, bool)
	var br bodyRun
	for round := 0; ; round++ {
		h, terms = an.generalise(e, cells)
		br = an.runBody(M, h, fr, cells, terms)
		grew := false
		for i := range br.backs {
			for _, c := range an.varying(&h, &br.backs[i], M, live) {
				if k, ok := known[c.id()]; ok {
					// a window that left its base
					if k.mode == "win" && !an.sameWindow(k, &e, &br.backs[i]) {
						k.mode = "fresh"
						grew = true
					}
					continue
				}
				if an.subsumed(c, known) {
					continue
				}
				c.mode = "fresh"
				if an.sameWindow(c, &e, &br.backs[i]) {
					c.mode = "win"
				}
				known[c.id()] = c
				cells = append(cells, c)
				grew = true
			}
		}
		if !grew {
			break
		}
		if round > 12 {
			an.quiet--
			an.unresolved("loop at %s does not stabilise", an.loopPos(M, fr))
			an.quiet++
			break
		}
	}
	var entryMap map[Sym]Lin
	entryMap = an.termMap(&e, terms)
	var cands []*cand
	for phase := 0; phase < 2; phase++ {
		fresh := an.candidates(h, e, entryMap, terms, br)
		have := map[string]bool{}
		for _, c := range cands {
			have[c.show(an)] = true
		}
		added := 0
		for _, c := range fresh {
			k := c.show(an)
			if have[k] {
				continue
			}
			have[k] = true
			if c.holds(an, e.st, entryMap) {
				cands = append(cands, c)
				added++
			}
		}
		if added == 0 {
			break
		}
		// Houdini
		for round := 0; round < 40; round++ {
			hi := h.fork(h.st.clone())
			ok := true
			for _, c := range cands {
				s := c.assume(an, hi.st)
				if s == nil {
					ok = false
					break
				}
				hi.st = s
			}
			if !ok {
				break
			}
			br = an.runBody(M, hi, fr, cells, terms)
			var keep []*cand
			for _, c := range cands {
				good := true
				for i := range br.backs {
					if !c.holds(an, br.backs[i].st, br.maps[i]) {
						good = false
						break
					}
				}
				if good {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(cands) {
				break
			}
			cands = keep
		}
	}
	an.quiet--
	info := &LoopInfo{Pos: an.loopPos(M, fr)}
	hf := h.fork(h.st.clone())
	var inv []string
	for _, c := range cands {
		if s := c.assume(an, hf.st); s != nil {
			hf.st = s
		}
		inv = append(inv, c.show(an))
	}
	info.Head = hf.st.clone()
	info.Entry = e.st
	ev := hf.st.event("loop", fnName(fr.fn), nil, nil, info.Pos)
	ev.Loop = info
	br = an.runBody(M, hf, fr, cells, terms)
	info.EntryMap, info.BackMaps = entryMap, br.maps
	for _, b := range br.backs {
		info.Backs = append(info.Backs, b.st)
	}
	for _, c := range cells {
		ci := CellInfo{Name: c.name, Entry: an.cellGet(c, e.st, e.regs), Head: an.cellGet(c, hf.st, hf.regs)}
		for _, b := range br.backs {
			ci.Backs = append(ci.Backs, an.cellGet(c, b.st, b.regs))
		}
		info.Cells = append(info.Cells, ci)
	}
	if an.quiet == 0 {
		rank, ok := an.ranking(M, hf, e, entryMap, br)
		an.reportLoop(M, fr, "fixpoint", inv, ok, rank)
	}
	for i := range br.exits {
		an.doPhis(&br.exits[i])
		br.exits[i].phisSet = true
	}
	return runResult{outs: br.outs, exits: br.exits}
}

// subsumed: an enclosing cell is already unknown.
func (an *An) subsumed(c *lcell, known map[string]*lcell) bool {
	if c.phi != nil || c.ghost != "" || c.path == "arr" || c.path == "map" || c.path == "bytes" {
		return false
	}
	for _, k := range known {
		if k.phi == nil && k.ghost == "" && k.obj == c.obj && strings.HasPrefix(c.path, k.path+".") && k.path != "arr" && k.path != "map" {
			return true
		}
	}
	return false
}

// sameWindow: entry and back values are parts of the same base or array.
func (an *An) sameWindow(c *lcell, e, b *item) bool {
	x, y := an.cellGet(c, e.st, e.regs), an.cellGet(c, b.st, b.regs)
	if sx, ok := x.(SliceV); ok {
		sy, ok := y.(SliceV)
		return ok && sx.Arr == sy.Arr && sx.Arr >= 0
	}
	p, ok1 := singlePiece(e.st, x)
	if !ok1 {
		return false
	}
	q, ok2 := singlePiece(b.st, y)
	if !ok2 {
		if s, ok := y.(StrV); ok && len(s.P) == 1 && s.P[0].Base == p.Base {
			return true
		}
		return false
	}
	return p.Base == q.Base
}

// candidates proposes invariants.
func (an *An) candidates(h, e item, entry map[Sym]Lin, terms map[Sym]func(*item) (Lin, bool), br bodyRun) []*cand {
	var out []*cand
	lin := func(l Lin) {
		if !l.isConst() {
			out = append(out, &cand{kind: "lin", l: l})
		}
	}
	var syms []Sym
	for s := range terms {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	isTerm := map[Sym]bool{}
	for _, s := range syms {
		isTerm[s] = true
	}
	for _, s := range syms {
		d := ls(s).sub(entry[s])
		lin(d)
		lin(d.neg())
		lin(ls(s))
	}
	if len(syms) <= 10 {
		for i, s := range syms {
			for _, t := range syms[i+1:] {
				ds, dt := ls(s).sub(entry[s]), ls(t).sub(entry[t])
				for _, l := range []Lin{ds.sub(dt), dt.sub(ds), ds.add(dt), ds.add(dt).neg()} {
					lin(l)
				}
				lin(ls(s).sub(ls(t)))
				lin(ls(t).sub(ls(s)))
			}
		}
	}
	base := len(h.st.poly.cons)
	seen := map[string]bool{}
	atom := func(l Lin) {
		use := false
		for _, t := range l.T {
			if t.S > h.limit {
				return
			}
			if isTerm[t.S] {
				use = true
			}
		}
		if !use || seen[l.key()] || len(seen) > 120 {
			return
		}
		seen[l.key()] = true
		if an.opt.Lean {
			if l.k().BitLen() < 40 {
				lin(l)
				if len(l.T) == 2 {
					lin(l.addk(1))
				}
			}
			return
		}
		lin(l)
		lin(l.addk(1))
		lin(l.addk(2))
	}
	collect := func(st *State) {
		cons := st.poly.cons
		if len(cons) < base {
			return
		}
		for _, c := range cons[base:] {
			atom(c.L)
			if c.Eq {
				atom(c.L.neg())
			} else {
				atom(c.L.neg().addk(-1))
			}
		}
		for _, d := range st.diseq {
			atom(d)
			atom(d.neg())
		}
	}
	for _, b := range br.backs {
		collect(b.st)
	}
	for _, x := range br.exits {
		collect(x.st)
	}
	for _, o := range br.outs {
		collect(o.st)
	}
	// lengths of known bases bound every term
	lens := map[Sym]bool{}
	for _, c := range h.st.poly.cons {
		for _, t := range c.L.T {
			if an.lenSyms[t.S] && !isTerm[t.S] {
				lens[t.S] = true
			}
		}
	}
	if len(lens) <= 6 && len(syms) <= 10 {
		for _, n := range sortedSyms(lens) {
			for _, s := range syms {
				lin(ls(n).sub(ls(s)))
			}
		}
	}
	if len(br.backs) == 0 {
		return out
	}
	// steps of each term
	delta := func(s Sym, i int) (int64, bool) { return br.backs[i].st.constOf(br.maps[i][s].sub(ls(s))) }
	if an.opt.Lean {
		for _, l := range kernel(syms, len(br.backs), delta, entry) {
			lin(l)
			lin(l.neg())
		}
	}
	// byte facts at term+c
	type site struct {
		b *Base
		s Sym
		c int64
	}
	sites := map[site]bool{}
	offs := []site{}
	for i := range br.backs {
		for _, f := range br.backs[i].st.bytes {
			for _, s := range syms {
				if k, ok := f.Idx.sub(ls(s)).constInt(); ok && k >= -2 && k <= 2 {
					x := site{f.Base, s, k}
					if !sites[x] {
						sites[x] = true
						offs = append(offs, x)
					}
				}
			}
		}
	}
	for _, x := range offs {
		var set ByteSet
		fwd, bwd := true, true
		moved := false
		for i := range br.backs {
			d, ok := delta(x.s, i)
			if !ok {
				fwd, bwd = false, false
				break
			}
			if d == 0 {
				continue
			}
			moved = true
			fwd = fwd && d == 1
			bwd = bwd && d == -1
			set = set.or(br.backs[i].st.byteSet(x.b, ls(x.s).addk(x.c)))
		}
		if !moved {
			continue
		}
		en := entry[x.s]
		if set != allBytes {
			if fwd {
				out = append(out, &cand{kind: "range", rf: RangeFact{x.b, en.addk(x.c), ls(x.s).addk(x.c), set}})
			}
			if bwd {
				out = append(out, &cand{kind: "range", rf: RangeFact{x.b, ls(x.s).addk(x.c + 1), en.addk(x.c + 1), set}})
			}
		}
		// counters
		for _, t := range syms {
			if t == x.s {
				continue
			}
			var s1 ByteSet
			okc := true
			for i := range br.backs {
				d, ok := delta(t, i)
				if !ok || d < 0 || d > 1 {
					okc = false
					break
				}
				if d == 1 {
					s1 = s1.or(br.backs[i].st.byteSet(x.b, ls(x.s).addk(x.c)))
				}
			}
			if !okc || s1.empty() || s1 == allBytes {
				continue
			}
			n := ls(t).sub(entry[t])
			if fwd {
				out = append(out, &cand{kind: "cnt", cf: CntFact{x.b, s1, en.addk(x.c), ls(x.s).addk(x.c), n}})
			}
			if bwd {
				out = append(out, &cand{kind: "cnt", cf: CntFact{x.b, s1, ls(x.s).addk(x.c + 1), en.addk(x.c + 1), n}})
			}
		}
	}
	// iterated steps
	bases := map[*Base]bool{}
	var blist []*Base
	for i := range br.backs {
		for _, f := range br.backs[i].st.bytes {
			if !bases[f.Base] {
				bases[f.Base] = true
				blist = append(blist, f.Base)
			}
		}
		for _, f := range br.backs[i].st.ranges {
			if !bases[f.Base] {
				bases[f.Base] = true
				blist = append(blist, f.Base)
			}
		}
	}
	if len(blist) <= 3 && len(syms) <= 8 {
		for _, c := range syms {
			var sg int64
			okc := true
			for i := range br.backs {
				d, ok := delta(c, i)
				if !ok || d != 1 && d != -1 || sg != 0 && d != sg {
					okc = false
					break
				}
				sg = d
			}
			if !okc {
				continue
			}
			for _, t := range syms {
				if t == c {
					continue
				}
				for _, b := range blist {
					for _, f := range stepFns {
						n := ls(c).sub(entry[c]).mulk(sg)
						all := true
						for i := range br.backs {
							if !br.backs[i].st.isStep(f, b, ls(t), br.maps[i][t]) {
								all = false
								break
							}
						}
						// the step may need invariants: only a cheap filter
						if all {
							out = append(out, &cand{kind: "iter", it: IterFact{f, b, entry[t], n, ls(t)}})
						}
					}
				}
			}
		}
	}
	// uninterpreted sequences indexed by a term
	for i := range br.backs {
		for _, u := range br.backs[i].st.uf {
			if u.Fn != "splitAt" {
				continue
			}
			for _, c := range syms {
				if d, ok := delta(c, i); !ok || d != 1 {
					continue
				}
				for _, t := range syms {
					if t == c {
						continue
					}
					for _, off := range []int64{0, 1} {
						idx := ls(c).addk(off)
						out = append(out, &cand{kind: "uf", uf: u, idx: idx, val: ls(t).sub(entry[t])})
						out = append(out, &cand{kind: "uf", uf: u, idx: idx.sub(entry[c]), val: ls(t).sub(entry[t])})
					}
				}
			}
			break
		}
	}
	return out
}

// ranking looks for a quantity that decreases on every iteration, is never
// negative and is bounded by the sizes of the texts involved at entry.
func (an *An) ranking(M *Loop, h, e item, entry map[Sym]Lin, br bodyRun) (string, bool) {
	if len(br.backs) == 0 {
		return "at most one iteration", true
	}
	for _, in := range M.header.Instrs {
		if x, ok := in.(*ssa.Next); ok && !x.IsString {
			return "iteration over a map", true
		}
	}
	isTerm := map[Sym]bool{}
	for s := range entry {
		isTerm[s] = true
	}
	seen := map[string]bool{}
	var ranks []Lin
	for _, b := range br.backs {
		for _, c := range b.st.poly.cons {
			l := c.L
			ok := false
			for _, t := range l.T {
				if isTerm[t.S] {
					ok = true
				}
				if t.S > h.limit && !isTerm[t.S] {
					ok = false
					break
				}
			}
			if ok && !seen[l.key()] {
				seen[l.key()] = true
				ranks = append(ranks, l)
			}
		}
	}
	// scanner state (external iterators) is a ghost measure
	total := lc(8)
	lens := map[Sym]bool{}
	for _, c := range e.st.poly.cons {
		for _, t := range c.L.T {
			if an.lenSyms[t.S] {
				lens[t.S] = true
			}
		}
	}
	for _, s := range sortedSyms(lens) {
		total = total.add(ls(s))
	}
	try := func(l Lin) bool {
		for i := range br.backs {
			st := br.backs[i].st
			if !st.ge(l) {
				return false
			}
			if !st.ge(l.sub(subst(l, br.maps[i])).addk(-1)) {
				return false
			}
		}
		return e.st.ge(total.sub(subst(l, entry)))
	}
	for _, l := range ranks {
		if try(l) {
			return an.show(l), true
		}
	}
	for i := range ranks {
		for j := range ranks {
			if i < j && len(ranks) < 24 {
				if l := ranks[i].add(ranks[j]); try(l) {
					return an.show(l), true
				}
			}
		}
	}
	return "", false
}

// kernel gives the linear combinations of three or more terms that no kind of
// iteration changes.
func kernel(syms []Sym, n int, delta func(s Sym, i int) (int64, bool), entry map[Sym]Lin) []Lin {
	var cols []Sym
	var mat [][]*big.Rat // one row per kind of iteration
	for i := 0; i < n; i++ {
		mat = append(mat, nil)
	}
	for _, s := range syms {
		ok := true
		row := make([]int64, n)
		for i := 0; i < n && ok; i++ {
			row[i], ok = delta(s, i)
		}
		if !ok {
			continue
		}
		cols = append(cols, s)
		for i := range row {
			mat[i] = append(mat[i], big.NewRat(row[i], 1))
		}
	}
	if len(cols) < 3 || len(cols) > 12 {
		return nil
	}
	pivot := map[int]int{} // column -> row
	r := 0
	for c := 0; c < len(cols) && r < n; c++ {
		p := -1
		for i := r; i < n; i++ {
			if mat[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		mat[r], mat[p] = mat[p], mat[r]
		inv := new(big.Rat).Inv(mat[r][c])
		for j := range mat[r] {
			mat[r][j] = new(big.Rat).Mul(mat[r][j], inv)
		}
		for i := range mat {
			if i == r || mat[i][c].Sign() == 0 {
				continue
			}
			f := mat[i][c]
			for j := range mat[i] {
				mat[i][j] = new(big.Rat).Sub(mat[i][j], new(big.Rat).Mul(f, mat[r][j]))
			}
		}
		pivot[c] = r
		r++
	}
	var out []Lin
	for c := range cols {
		if _, ok := pivot[c]; ok {
			continue
		}
		l := ls(cols[c]).sub(entry[cols[c]])
		terms, whole := 1, true
		for pc, pr := range pivot {
			q := mat[pr][c]
			if q.Sign() == 0 {
				continue
			}
			if !q.IsInt() || !q.Num().IsInt64() {
				whole = false
				break
			}
			terms++
			l = l.sub(ls(cols[pc]).sub(entry[cols[pc]]).mulk(q.Num().Int64()))
		}
		if whole && terms >= 3 {
			out = append(out, l)
		}
	}
	return out
}
