package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Obj is an abstract heap object. Objects are immutable once stored in a
// state; writers replace them (State.put).
type Obj struct {
	T    types.Type // type of the contents
	V    Val        // contents; nil fields of a symbolic object are created on demand
	Sym  bool       // contents unknown initially
	Arr  *ArrObj
	Map  *MapObj
	Name string
	Lib  map[string]Val // library object attributes (regexps, scanners, ...)
}

// ArrObj is the contents of an array.
type ArrObj struct {
	Elem  types.Type
	Els   []ArrEl
	Sym   bool // elements not listed are unknown (memoised when read)
	Gen   func(st *State, idx Lin) Val
	Log   []AppendRec
	Bytes *StrV // contents of a byte array
	Ver   int   // distinguishes successive unknown contents
}

// AppendRec records how a slice value was built by append.
type AppendRec struct {
	From int // array object appended to, -1 for none
	Vals []Val
}

// ArrEl is one known element.
type ArrEl struct {
	I Lin
	V Val
	W bool // written, not merely read
}

// MapObj is the contents of a map.
type MapObj struct {
	Keys []Val
	Vals []Val
	Open bool // may contain further unknown entries
	Elem types.Type
	Key  types.Type
}

// ByteFact: Base[Idx] is in Set.
type ByteFact struct {
	Base *Base
	Idx  Lin
	Set  ByteSet
}

// RangeFact: every byte of Base[Lo:Hi] is in Set.
type RangeFact struct {
	Base   *Base
	Lo, Hi Lin
	Set    ByteSet
}

// UFApp is an application of an uninterpreted function.
type UFApp struct {
	Fn   string
	Args []Val
	Ret  Val
}

// State is one abstract state (a conjunction); partitions are sets of states.
type State struct {
	an     *An
	poly   *Poly
	heap   map[int]*Obj
	bytes  []ByteFact
	ranges []RangeFact
	diseq  []Lin
	dyn    map[int]IfaceV
	excl   map[int][]types.Type
	symObj map[int]int
	bind   map[int]string // base -> literal
	strNe  map[string]bool
	opq    map[string]bool
	uf     []UFApp
	iters  []IterFact
	cnts   []CntFact
	ev     *Event
	ghost  map[string]Lin
	approx []string // over-approximations made on the way
	dead   bool
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[int]*Obj, len(st.heap)+2)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.bytes = st.bytes[:len(st.bytes):len(st.bytes)]
	n.ranges = st.ranges[:len(st.ranges):len(st.ranges)]
	n.diseq = st.diseq[:len(st.diseq):len(st.diseq)]
	n.uf = st.uf[:len(st.uf):len(st.uf)]
	n.approx = st.approx[:len(st.approx):len(st.approx)]
	n.dyn = make(map[int]IfaceV, len(st.dyn)+1)
	for k, v := range st.dyn {
		n.dyn[k] = v
	}
	n.excl = make(map[int][]types.Type, len(st.excl)+1)
	for k, v := range st.excl {
		n.excl[k] = v
	}
	n.symObj = make(map[int]int, len(st.symObj)+1)
	for k, v := range st.symObj {
		n.symObj[k] = v
	}
	n.bind = make(map[int]string, len(st.bind)+1)
	for k, v := range st.bind {
		n.bind[k] = v
	}
	n.strNe = make(map[string]bool, len(st.strNe)+1)
	for k, v := range st.strNe {
		n.strNe[k] = v
	}
	n.opq = make(map[string]bool, len(st.opq)+1)
	for k, v := range st.opq {
		n.opq[k] = v
	}
	n.ghost = make(map[string]Lin, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (st *State) note(f string, a ...interface{}) {
	st.approx = append(st.approx[:len(st.approx):len(st.approx)], fmt.Sprintf(f, a...))
}

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if st.an.w != nil && st.an.w.base != nil {
		return st.an.w.base[id]
	}
	return nil
}

func (st *State) put(id int, o *Obj) { st.heap[id] = o }

func (st *State) newObj(o *Obj) int {
	st.an.nobj++
	id := st.an.nobj
	st.heap[id] = o
	return id
}

func (st *State) event(kind, name string, args, ret []Val, pos string) *Event {
	e := &Event{Prev: st.ev, Kind: kind, Name: name, Args: args, Ret: ret, Pos: pos, N: st.an.nextEv()}
	st.ev = e
	return e
}

// ---- symbols -------------------------------------------------------------

var (
	minInt64 = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	maxInt64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	maxLen   = int64(1) << 48
)

func (st *State) newSym(name string) Sym { return st.an.newSym(name) }

// lenSym makes a symbol for a length.
func (st *State) lenSym(name string) Lin {
	s := st.newSym(name)
	st.an.rng[s] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
	st.an.lenSyms[s] = true
	st.must(ls(s))
	st.must(lc(maxLen).sub(ls(s)))
	return ls(s)
}

// must adds a fact that is known to be consistent.
func (st *State) must(l Lin) {
	if p := st.poly.with(l, false); p != nil {
		st.poly = p
	} else {
		st.dead = true
	}
}

func (st *State) mustEq(l Lin) {
	if p := st.poly.with(l, true); p != nil {
		st.poly = p
	} else {
		st.dead = true
	}
}

func (st *State) boolSym(name string) Lin {
	s := st.newSym(name)
	st.an.rng[s] = [2]*big.Int{big.NewInt(0), big.NewInt(1)}
	st.must(ls(s))
	st.must(lc(1).sub(ls(s)))
	return ls(s)
}

func (st *State) newBase(name string) *Base {
	st.an.nbase++
	b := &Base{ID: st.an.nbase, Name: name}
	b.Len = st.lenSym("len(" + name + ")")
	return b
}

// ---- feasibility ---------------------------------------------------------

// feasible reports whether the state together with extra constraints may
// have a concretisation. False is definite.
func (st *State) feasible(extra ...Con) bool {
	st.an.queries++
	sx := st.poly.sx
	if len(extra) > 0 {
		// the solution at hand may do
		sat := true
		for _, c := range extra {
			v := sx.eval(c.L)
			if v.sign() < 0 || c.Eq && !v.isZero() {
				sat = false
				break
			}
		}
		if sat && !st.conflictAt(sx) {
			return true
		}
		sx = sx.clone()
		for _, c := range extra {
			if !sx.add(c.L, c.Eq) {
				return false
			}
		}
		if !sx.check() {
			return false
		}
	}
	return !st.conflict(sx)
}

// prover decides entailments by one system, remembering solutions of it that
// refuted earlier ones. exact: entailment; otherwise: truth in the solution at
// hand.
type prover struct {
	sx     *Simplex
	exact  bool
	models []*Simplex
}

// refuted: a known solution violates l>=0 / l==0.
func (p *prover) refuted(l Lin, eq bool) bool {
	for _, m := range p.models {
		if v := m.eval(l); v.sign() < 0 || eq && !v.isZero() {
			return true
		}
	}
	return false
}

// forced: the system entails l>=0 / l==0.
func (p *prover) forced(l Lin, eq bool) bool {
	if p.refuted(l, eq) {
		return false
	}
	if !p.exact {
		return true
	}
	try := func(l Lin) bool {
		t := p.sx.clone()
		if t.add(l, false) && t.check() {
			if len(p.models) < 8 {
				p.models = append(p.models, t)
			}
			return true
		}
		return false
	}
	return !(eq && try(l.addk(-1))) && !try(l.neg().addk(-1))
}

// all: the system entails every l>=0.
func (p *prover) all(ls ...Lin) bool {
	for _, l := range ls {
		if p.refuted(l, false) {
			return false
		}
	}
	if p.exact {
		for _, l := range ls {
			if !p.forced(l, false) {
				return false
			}
		}
	}
	return true
}

// forced: sx entails l>=0 / l==0.
func forced(sx *Simplex, l Lin, eq bool) bool {
	return (&prover{sx: sx, exact: true, models: []*Simplex{sx}}).forced(l, eq)
}

// conflict looks for a contradiction between the linear part and the other
// facts.
func (st *State) conflict(sx *Simplex) bool {
	return st.conflictBy(&prover{sx: sx, exact: true, models: []*Simplex{sx}})
}

// conflictAt looks for one in sx's solution only.
func (st *State) conflictAt(sx *Simplex) bool {
	return st.conflictBy(&prover{sx: sx, models: []*Simplex{sx}})
}

func (st *State) conflictBy(p *prover) bool {
	for _, d := range st.diseq {
		if p.forced(d, true) {
			return true
		}
	}
	for i := range st.bytes {
		f := &st.bytes[i]
		for j := i + 1; j < len(st.bytes); j++ {
			g := &st.bytes[j]
			if f.Base == g.Base && f.Set.disjoint(g.Set) && p.forced(f.Idx.sub(g.Idx), true) {
				return true
			}
		}
		for j := range st.ranges {
			r := &st.ranges[j]
			if r.Base == f.Base && r.Set.disjoint(f.Set) && p.all(f.Idx.sub(r.Lo), r.Hi.sub(f.Idx).addk(-1)) {
				return true
			}
		}
	}
	for i := range st.ranges {
		f := &st.ranges[i]
		for j := i + 1; j < len(st.ranges); j++ {
			g := &st.ranges[j]
			if f.Base != g.Base || !f.Set.disjoint(g.Set) {
				continue
			}
			// nonempty overlap
			lt := func(a, b Lin) Lin { return b.sub(a).addk(-1) }
			if p.all(lt(f.Lo, f.Hi), lt(g.Lo, g.Hi), lt(f.Lo, g.Hi), lt(g.Lo, f.Hi)) {
				return true
			}
		}
	}
	return false
}

// ge reports whether l >= 0 is entailed.
func (st *State) ge(l Lin) bool {
	if l.isConst() {
		return l.k().Sign() >= 0
	}
	return !st.feasible(Con{L: l.neg().addk(-1)})
}

func (st *State) eq(a, b Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.k().Sign() == 0
	}
	if len(st.diseq) == 0 && len(st.bytes) == 0 && len(st.ranges) == 0 {
		if !st.poly.sx.eval(d).isZero() {
			return false
		}
	}
	return st.ge(d) && st.ge(d.neg())
}

// eqLin is like eq but consults the linear part only.
func (st *State) eqLin(a, b Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.k().Sign() == 0
	}
	return forced(st.poly.sx, d, true)
}

func (st *State) le(a, b Lin) bool { return st.ge(b.sub(a)) }
func (st *State) lt(a, b Lin) bool { return st.ge(b.sub(a).addk(-1)) }

// add asserts l >= 0, returning nil if that is infeasible.
func (st *State) add(l Lin) *State {
	p := st.poly.with(l, false)
	if p == nil {
		return nil
	}
	if p == st.poly {
		return st
	}
	n := st.clone()
	n.poly = p
	if n.conflict(p.sx) {
		return nil
	}
	return n
}

func (st *State) addEq(l Lin) *State {
	p := st.poly.with(l, true)
	if p == nil {
		return nil
	}
	if p == st.poly {
		return st
	}
	n := st.clone()
	n.poly = p
	if n.conflict(p.sx) {
		return nil
	}
	return n
}

func (st *State) addNe(l Lin) *State {
	if l.isConst() {
		if l.k().Sign() == 0 {
			return nil
		}
		return st
	}
	if st.ge(l) {
		return st.add(l.addk(-1))
	}
	if st.ge(l.neg()) {
		return st.add(l.neg().addk(-1))
	}
	for _, d := range st.diseq {
		if d.eqSyn(l) || d.eqSyn(l.neg()) {
			return st
		}
	}
	n := st.clone()
	n.diseq = append(n.diseq, l)
	return n
}

// ---- bytes ---------------------------------------------------------------

// byteSet returns what is known about base[idx].
func (st *State) byteSet(b *Base, idx Lin) ByteSet {
	s := allBytes
	if v, ok := st.bind[b.ID]; ok {
		if i, ok := idx.constInt(); ok && i >= 0 && i < int64(len(v)) {
			var o ByteSet
			o.put(v[i])
			return o
		}
	}
	for _, f := range st.bytes {
		if f.Base == b && !f.Set.or(s.compl()).and(s).subset(ByteSet{}) && st.eqLin(f.Idx, idx) {
			s = s.and(f.Set)
		}
	}
	pr := &prover{sx: st.poly.sx, exact: true, models: []*Simplex{st.poly.sx}}
	for _, r := range st.ranges {
		if r.Base == b && !s.subset(r.Set) && pr.all(idx.sub(r.Lo), r.Hi.sub(idx).addk(-1)) {
			s = s.and(r.Set)
		}
	}
	return s
}

func (st *State) addByte(b *Base, idx Lin, set ByteSet) *State {
	k := st.byteSet(b, idx)
	n := k.and(set)
	if n.empty() {
		return nil
	}
	if n == k {
		return st
	}
	s := st.clone()
	for i, f := range s.bytes {
		if f.Base == b && f.Idx.eqSyn(idx) {
			s.bytes = append([]ByteFact(nil), s.bytes...)
			s.bytes[i].Set = n
			if s.conflict(s.poly.sx) {
				return nil
			}
			return s
		}
	}
	s.bytes = append(s.bytes, ByteFact{b, idx, n})
	if s.conflict(s.poly.sx) {
		return nil
	}
	return s
}

// allIn reports whether every byte of base[lo:hi] is known to be in set.
func (st *State) allIn(b *Base, lo, hi Lin, set ByteSet) bool {
	return st.covered(b, lo, hi, set, 6)
}

func (st *State) covered(b *Base, lo, hi Lin, set ByteSet, depth int) bool {
	for step := 0; step < 8; step++ {
		if st.le(hi, lo) {
			return true
		}
		moved := false
		for _, r := range st.ranges {
			if r.Base != b || !r.Set.subset(set) {
				continue
			}
			from, to := st.le(r.Lo, lo), st.le(hi, r.Hi)
			if from && to {
				return true
			}
			if from && st.lt(lo, r.Hi) {
				lo, moved = r.Hi, true
			} else if to && st.lt(r.Lo, hi) {
				hi, moved = r.Lo, true
			}
		}
		if moved {
			continue
		}
		// strip single bytes at either end
		if st.byteSet(b, hi.addk(-1)).subset(set) && st.lt(lo, hi) {
			hi = hi.addk(-1)
			continue
		}
		if st.byteSet(b, lo).subset(set) && st.lt(lo, hi) {
			// prefer a range that starts here, if it is not empty
			if depth > 0 {
				for _, r := range st.ranges {
					if r.Base == b && r.Set.subset(set) && st.le(r.Lo, lo) && !st.le(r.Hi, lo) {
						return st.coverSplit(b, lo, hi, set, depth, lo.addk(1).sub(r.Hi))
					}
				}
			}
			lo = lo.addk(1)
			continue
		}
		if depth > 0 {
			for _, r := range st.ranges {
				if r.Base != b || !r.Set.subset(set) {
					continue
				}
				if st.le(r.Lo, lo) && !st.le(r.Hi, lo) {
					return st.coverSplit(b, lo, hi, set, depth, lo.addk(1).sub(r.Hi))
				}
				if st.le(hi, r.Hi) && !st.le(hi, r.Lo) {
					return st.coverSplit(b, lo, hi, set, depth, r.Lo.addk(1).sub(hi))
				}
			}
		}
		return st.boundSplit(b, lo, hi, set, depth)
	}
	return false
}

// coverSplit distinguishes d <= 0 from d > 0.
func (st *State) coverSplit(b *Base, lo, hi Lin, set ByteSet, depth int, d Lin) bool {
	x, y := st.add(d.neg()), st.add(d.addk(-1))
	return (x == nil || x.covered(b, lo, hi, set, depth-1)) && (y == nil || y.covered(b, lo, hi, set, depth-1))
}

// boundSplit distinguishes the empty range when emptiness is undecided.
func (st *State) boundSplit(b *Base, lo, hi Lin, set ByteSet, depth int) bool {
	if depth == 0 || st.lt(lo, hi) {
		return false
	}
	y := st.add(hi.sub(lo).addk(-1))
	return y == nil || y.covered(b, lo, hi, set, depth-1)
}

func (st *State) addRange(b *Base, lo, hi Lin, set ByteSet) {
	st.ranges = append(st.ranges[:len(st.ranges):len(st.ranges)], RangeFact{b, lo, hi, set})
}

// ---- strings -------------------------------------------------------------

// norm substitutes bound strings and merges pieces.
func (st *State) norm(s StrV) StrV {
	out := StrV{}
	for _, p := range s.P {
		if p.Base != nil {
			if v, ok := st.bind[p.Base.ID]; ok {
				lo, ok1 := p.Lo.constInt()
				hi, ok2 := p.Hi.constInt()
				if p.Hi.eqSyn(p.Base.Len) {
					hi, ok2 = int64(len(v)), true
				}
				if !ok1 {
					lo, ok1 = st.constOf(p.Lo)
				}
				if !ok2 {
					hi, ok2 = st.constOf(p.Hi)
				}
				if ok1 && ok2 && lo >= 0 && lo <= hi && hi <= int64(len(v)) {
					out = concat(out, lit(v[lo:hi]))
					continue
				}
			}
			if p.Lo.eqSyn(p.Hi) || st.eqLin(p.Lo, p.Hi) {
				continue
			}
			if n := len(out.P); n > 0 && out.P[n-1].Base == p.Base && st.eqLin(out.P[n-1].Hi, p.Lo) {
				out.P = append([]Piece(nil), out.P...)
				out.P[n-1].Hi = p.Hi
				continue
			}
		}
		out = concat(out, StrV{P: []Piece{p}})
	}
	return out
}

// constOf returns the constant l is known to equal.
func (st *State) constOf(l Lin) (int64, bool) {
	if c, ok := l.constInt(); ok {
		return c, true
	}
	v := st.poly.sx.eval(l)
	if v.r != nil || v.d != 1 {
		return 0, false
	}
	if forced(st.poly.sx, l.addk(-v.n), true) {
		return v.n, true
	}
	return 0, false
}

// strEq reports whether a and b are provably equal.
func (st *State) strEq(a, b StrV) bool {
	a, b = st.norm(a), st.norm(b)
	if len(a.P) != len(b.P) {
		return false
	}
	for i := range a.P {
		p, q := a.P[i], b.P[i]
		if p.Base == nil || q.Base == nil {
			if p.Base != nil || q.Base != nil || p.Lit != q.Lit {
				return false
			}
			continue
		}
		if !st.sameBase(p.Base, q.Base) || !st.eq(p.Lo, q.Lo) || !st.eq(p.Hi, q.Hi) {
			return false
		}
	}
	return true
}

func (st *State) sameBase(a, b *Base) bool {
	if a == b {
		return true
	}
	if a.Fn == "" || a.Fn != b.Fn || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if !st.sameVal(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// sameVal reports whether two values are provably equal.
func (st *State) sameVal(a, b Val) bool {
	if x, ok := a.(SymV); ok {
		if _, ok := b.(IfaceV); ok {
			if d, ok := st.dyn[x.ID]; ok {
				a = d
			}
		}
	} else if y, ok := b.(SymV); ok {
		if _, ok := a.(IfaceV); ok {
			if d, ok := st.dyn[y.ID]; ok {
				b = d
			}
		}
	}
	switch x := a.(type) {
	case IntV:
		y, ok := b.(IntV)
		return ok && st.eq(x.L, y.L)
	case StrV:
		y, ok := b.(StrV)
		return ok && st.strEq(x, y)
	case NilV:
		_, ok := b.(NilV)
		return ok
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.Obj != y.Obj || x.Path != y.Path || (x.Idx == nil) != (y.Idx == nil) {
			return false
		}
		return x.Idx == nil || st.eq(*x.Idx, *y.Idx)
	case SymV:
		y, ok := b.(SymV)
		return ok && x.ID == y.ID
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.T, y.T) && st.sameVal(x.V, y.V)
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			return false
		}
		if x.Exact != nil && y.Exact != nil {
			return st.eq(*x.Exact, *y.Exact)
		}
		if x.F != nil && y.F != nil {
			return x.F.ID == y.F.ID
		}
		return x.Const != nil && y.Const != nil && *x.Const == *y.Const
	case SliceV:
		y, ok := b.(SliceV)
		return ok && (x.Arr == y.Arr || (st.eq(x.Len, lc(0)) && st.eq(y.Len, lc(0)))) && st.eq(x.Off, y.Off) && st.eq(x.Len, y.Len)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if x.F[i] == nil || y.F[i] == nil || !st.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x.Obj == y.Obj
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.Fn == y.Fn && len(x.Bind) == 0 && len(y.Bind) == 0 && x.Ext == y.Ext
	case BoolV:
		y, ok := b.(BoolV)
		if !ok {
			return false
		}
		tx, okx := st.truth(x.C)
		ty, oky := st.truth(y.C)
		return okx && oky && tx == ty || x.C.Kind == CGE && y.C.Kind == CGE && x.C.Neg == y.C.Neg && x.C.L.eqSyn(y.C.L)
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ok && x.ID == y.ID
	case BuilderV:
		y, ok := b.(BuilderV)
		return ok && st.strEq(x.S, y.S)
	case nil:
		return b == nil
	}
	return false
}

// truth reports the value of c if decided.
func (st *State) truth(c Cond) (bool, bool) {
	if c.Kind == CConst {
		return c.B != c.Neg, true
	}
	if len(st.assume(c)) == 0 {
		return false, true
	}
	if len(st.assume(c.not())) == 0 {
		return true, true
	}
	return false, false
}

// slice computes s[lo:hi] assuming 0 <= lo <= hi <= len(s).
func (st *State) slice(s StrV, lo, hi Lin) StrV {
	s = st.norm(s)
	if lo.eqSyn(hi) || st.eqLin(lo, hi) {
		return StrV{}
	}
	out := StrV{}
	off := lc(0)
	for _, p := range s.P {
		end := off.add(p.length())
		// piece covers [off,end)
		if st.le(end, lo) || st.le(hi, off) {
			off = end
			continue
		}
		a, b := off, end
		if st.le(off, lo) {
			if !st.le(lo, end) {
				return st.opaqueSlice(s, lo, hi)
			}
			a = lo
		} else if !st.le(lo, off) {
			return st.opaqueSlice(s, lo, hi)
		}
		if st.le(hi, end) {
			b = hi
		} else if !st.le(end, hi) {
			return st.opaqueSlice(s, lo, hi)
		}
		if p.Base == nil {
			x, ok1 := st.constOf(a.sub(off))
			y, ok2 := st.constOf(b.sub(off))
			if !ok1 || !ok2 || x < 0 || y < x || y > int64(len(p.Lit)) {
				return st.opaqueSlice(s, lo, hi)
			}
			out = concat(out, lit(p.Lit[x:y]))
		} else {
			out = concat(out, StrV{P: []Piece{{Base: p.Base, Lo: p.Lo.add(a.sub(off)), Hi: p.Lo.add(b.sub(off))}}})
		}
		off = end
	}
	return out
}

func (st *State) opaqueSlice(s StrV, lo, hi Lin) StrV {
	// a string that cannot be cut symbolically gets a base of its own
	v := st.ufStr("substr", []Val{s, IntV{lo}, IntV{hi}}, func(b *Base) {
		st.mustEq(b.Len.sub(hi.sub(lo)))
	})
	return v
}

// asBase views s as a single base slice, introducing a base if needed.
func (st *State) asBase(s StrV) Piece {
	s = st.norm(s)
	if len(s.P) == 1 && s.P[0].Base != nil {
		return s.P[0]
	}
	if len(s.P) == 1 {
		return st.literalBase(s.P[0].Lit)
	}
	if len(s.P) == 0 {
		return st.literalBase("")
	}
	v := st.ufStr("str", []Val{s}, func(b *Base) { st.mustEq(b.Len.sub(s.length())) })
	return v.P[0]
}

func (st *State) literalBase(s string) Piece {
	v := st.ufStr("lit:"+strconv.Quote(s), nil, func(b *Base) {
		st.bind[b.ID] = s
		st.mustEq(b.Len.addk(-int64(len(s))))
	})
	if len(v.P) == 0 {
		return Piece{}
	}
	return v.P[0]
}

// ---- uninterpreted functions --------------------------------------------

func (st *State) findUF(fn string, args []Val) (Val, bool) {
outer:
	for _, u := range st.uf {
		if u.Fn != fn || len(u.Args) != len(args) {
			continue
		}
		for i := range args {
			if !st.sameVal(u.Args[i], args[i]) {
				continue outer
			}
		}
		return u.Ret, true
	}
	return nil, false
}

func (st *State) ufInt(fn string, args []Val, init func(l Lin)) Lin {
	if v, ok := st.findUF(fn, args); ok {
		return v.(IntV).L
	}
	s := st.newSym(fn)
	l := ls(s)
	st.uf = append(st.uf[:len(st.uf):len(st.uf)], UFApp{fn, args, IntV{l}})
	if init != nil {
		init(l)
	}
	return l
}

func (st *State) ufStr(fn string, args []Val, init func(b *Base)) StrV {
	if v, ok := st.findUF(fn, args); ok {
		return v.(StrV)
	}
	b := st.newBase(fn)
	b.Fn, b.Args = fn, args
	v := baseStr(b)
	st.uf = append(st.uf[:len(st.uf):len(st.uf)], UFApp{fn, args, v})
	if init != nil {
		init(b)
	}
	return v
}

func (st *State) ufVal(fn string, args []Val, mk func() Val) Val {
	if v, ok := st.findUF(fn, args); ok {
		return v
	}
	v := mk()
	st.uf = append(st.uf[:len(st.uf):len(st.uf)], UFApp{fn, args, v})
	return v
}

// ---- conditions ----------------------------------------------------------

func one(s *State) []*State {
	if s == nil || s.dead {
		return nil
	}
	return []*State{s}
}

// assume refines the state by c.
func (st *State) assume(c Cond) []*State {
	if st.dead {
		return nil
	}
	switch c.Kind {
	case CConst:
		if c.B != c.Neg {
			return []*State{st}
		}
		return nil
	case CGE:
		if c.Neg {
			return one(st.add(c.L.neg().addk(-1)))
		}
		return one(st.add(c.L))
	case CEQ:
		if c.Neg {
			return one(st.addNe(c.L))
		}
		return one(st.addEq(c.L))
	case CByte:
		set := c.Set
		if c.Neg {
			set = set.compl()
		}
		return one(st.addByte(c.Base, c.L, set))
	case CStrEq:
		return st.assumeStrEq(c)
	case CType:
		return st.assumeType(c)
	case CFloat:
		return st.assumeFloat(c)
	case COpaque:
		if c.Op == "str<" {
			return st.assumeLess(c)
		}
		return st.assumeOpaque(c)
	}
	return []*State{st}
}

// assumeLess: the order of strings is irreflexive, asymmetric and total.
func (st *State) assumeLess(c Cond) []*State {
	x, y := c.Args[0].(StrV), c.Args[1].(StrV)
	if eq, known := st.truth(Cond{Kind: CStrEq, S: x, T: y}); known && eq {
		if c.Neg {
			return []*State{st}
		}
		return nil
	}
	var outs []*State
	for _, s := range st.assumeOpaque(c) {
		r := strLess(y, x)
		if !c.Neg {
			for _, s := range s.assumeOpaque(r.not()) {
				outs = append(outs, s.assumeStrEq(Cond{Kind: CStrEq, S: x, T: y, Neg: true})...)
			}
			continue
		}
		if len(s.assumeOpaque(r)) == 0 {
			outs = append(outs, s.assumeStrEq(Cond{Kind: CStrEq, S: x, T: y})...)
			continue
		}
		outs = append(outs, s)
	}
	return outs
}

func (st *State) assumeOpaque(c Cond) []*State {
	key := c.Key
	if b, ok := st.opq[key]; ok {
		if b != c.Neg {
			return []*State{st}
		}
		return nil
	}
	if len(c.Args) > 0 {
		// congruence with predicates already decided
		if v, ok := st.findUF("pred:"+c.Op, c.Args); ok {
			k2 := v.(OpaqueV).ID
			if b, ok := st.opq[fmt.Sprintf("p%d", k2)]; ok {
				if b != c.Neg {
					return []*State{st}
				}
				return nil
			}
			n := st.clone()
			n.opq[fmt.Sprintf("p%d", k2)] = !c.Neg
			return []*State{n}
		}
		n := st.clone()
		id := n.an.nextID()
		n.uf = append(n.uf, UFApp{"pred:" + c.Op, c.Args, OpaqueV{ID: id}})
		n.opq[fmt.Sprintf("p%d", id)] = !c.Neg
		n.opq[key] = !c.Neg
		return []*State{n}
	}
	n := st.clone()
	n.opq[key] = !c.Neg
	return []*State{n}
}

func (st *State) assumeStrEq(c Cond) []*State {
	a, b := st.norm(c.S), st.norm(c.T)
	ca, oka := a.constant()
	cbv, okb := b.constant()
	if oka && okb {
		if (ca == cbv) != c.Neg {
			return []*State{st}
		}
		return nil
	}
	if (oka && ca == "") || (okb && cbv == "") {
		l := a.length()
		if oka {
			l = b.length()
		}
		q := ceq(l)
		q.Neg = c.Neg
		return st.assume(q)
	}
	if st.strEq(a, b) {
		if c.Neg {
			return nil
		}
		return []*State{st}
	}
	if oka {
		a, b = b, a
		ca, cbv, oka, okb = cbv, ca, okb, oka
	}
	_ = ca
	whole := len(a.P) == 1 && a.P[0].Base != nil && a.P[0].Lo.isZero() && a.P[0].Hi.eqSyn(a.P[0].Base.Len)
	var key string
	if okb && whole {
		key = fmt.Sprintf("b%d=%q", a.P[0].Base.ID, cbv)
	} else {
		x, y := a.key(), b.key()
		if x > y {
			x, y = y, x
		}
		key = x + "==" + y
	}
	if v, ok := st.opq[key]; ok {
		if v != c.Neg {
			return []*State{st}
		}
		return nil
	}
	if c.Neg {
		n := st.clone()
		n.opq[key] = false
		return []*State{n}
	}
	n := st.addEq(a.length().sub(b.length()))
	if n == nil {
		return nil
	}
	n = n.clone()
	n.opq[key] = true
	if okb && whole {
		n.bind[a.P[0].Base.ID] = cbv
		// consistency with byte facts
		for _, f := range n.bytes {
			if f.Base == a.P[0].Base {
				if i, ok := n.constOf(f.Idx); ok && i >= 0 && i < int64(len(cbv)) && !f.Set.has(cbv[i]) {
					return nil
				}
			}
		}
	}
	return []*State{n}
}

func (st *State) assumeFloat(c Cond) []*State {
	f, g, op := c.F, c.G, c.Op
	// normalise the constant to the right
	isSym := func(v FloatV) bool { return v.F != nil }
	if isSym(g) && !isSym(f) {
		f, g = g, f
		switch op {
		case "<":
			op = ">"
		case "<=":
			op = ">="
		case ">":
			op = "<"
		case ">=":
			op = "<="
		}
	}
	if !isSym(f) {
		// both exact integers
		if f.Exact != nil && g.Exact != nil {
			d := f.Exact.sub(*g.Exact)
			var q Cond
			switch op {
			case "<":
				q = cge(d.neg().addk(-1))
			case "<=":
				q = cge(d.neg())
			case ">":
				q = cge(d.addk(-1))
			case ">=":
				q = cge(d)
			case "==":
				q = ceq(d)
			case "!=":
				q = ceq(d).not()
			}
			if c.Neg {
				q = q.not()
			}
			return st.assume(q)
		}
		return []*State{st}
	}
	if isSym(g) {
		if f.F.ID == g.F.ID {
			// f op f depends on NaN only
			var q Cond
			switch op {
			case "==", "<=", ">=":
				q = ceq(f.F.NaN)
			case "!=":
				q = ceq(f.F.NaN).not()
			default:
				q = Cond{Kind: CConst}
			}
			if c.Neg {
				q = q.not()
			}
			return st.assume(q)
		}
		q := Cond{Kind: COpaque, Key: fmt.Sprintf("float%s#%d,%d", op, f.F.ID, g.F.ID), Neg: c.Neg}
		switch {
		case op == "==" || op == "!=":
			if f.F.ID > g.F.ID {
				f, g = g, f
			}
			q.Key = fmt.Sprintf("float==#%d,%d", f.F.ID, g.F.ID)
			q.Neg = (op == "!=") != c.Neg
		case op == ">" || op == ">=":
			q.Key = fmt.Sprintf("float<%s#%d,%d", op[1:], g.F.ID, f.F.ID)
		}
		outs := st.assumeOpaque(q)
		if (op == "==" || op == "!=") && !q.Neg && (st.integral(f) || st.integral(g)) {
			for i := range outs {
				outs[i] = outs[i].clone()
				outs[i].opq[integralKey(f)], outs[i].opq[integralKey(g)] = true, true
			}
		}
		return outs
	}
	if g.Exact == nil {
		return []*State{st}
	}
	k := *g.Exact
	tr := f.F.Tr
	var out []*State
	want := !c.Neg
	// NaN: every comparison false except !=
	nanRes := op == "!="
	if nanRes == want {
		out = append(out, one(st.addEq(f.F.NaN.addk(-1)))...)
	}
	n := st.addEq(f.F.NaN)
	if n == nil {
		return out
	}
	if !want {
		switch op {
		case "<":
			op = ">="
		case "<=":
			op = ">"
		case ">":
			op = "<="
		case ">=":
			op = "<"
		case "==":
			op = "!="
		case "!=":
			op = "=="
		}
	}
	pos := k.isConst() && k.k().Sign() > 0
	neg := k.isConst() && k.k().Sign() < 0
	switch op {
	case ">=": // k>0: tr>=k exactly; otherwise tr>=k
		out = append(out, one(n.add(tr.sub(k)))...)
	case ">": // k<0: tr>k exactly; otherwise tr>=k
		if neg {
			out = append(out, one(n.add(tr.sub(k).addk(-1)))...)
		} else {
			out = append(out, one(n.add(tr.sub(k)))...)
		}
	case "<=":
		out = append(out, one(n.add(k.sub(tr)))...)
	case "<":
		if pos {
			out = append(out, one(n.add(k.sub(tr).addk(-1)))...)
		} else {
			out = append(out, one(n.add(k.sub(tr)))...)
		}
	case "==":
		if n := n.addEq(tr.sub(k)); n != nil {
			n = n.clone()
			n.opq[integralKey(f)] = true
			out = append(out, n)
		}
	default: // != : nothing is known about the truncation
		out = append(out, n)
	}
	return out
}

func integralKey(f FloatV) string { return fmt.Sprintf("integral#%d", f.F.ID) }

// integral reports that f is known to be an integer.
func (st *State) integral(f FloatV) bool {
	if f.F == nil {
		return f.Exact != nil
	}
	return st.opq[integralKey(f)]
}

func (st *State) assumeType(c Cond) []*State {
	switch v := c.V.(type) {
	case NilV:
		if c.Neg {
			return []*State{st}
		}
		return nil
	case IfaceV:
		if st.an.typeMatches(v.T, c.Ty) != c.Neg {
			return []*State{st}
		}
		return nil
	case SymV:
		if d, ok := st.dyn[v.ID]; ok {
			if st.an.typeMatches(d.T, c.Ty) != c.Neg {
				return []*State{st}
			}
			return nil
		}
		if _, isIface := c.Ty.Underlying().(*types.Interface); isIface {
			// non-nil values of an interface type that already implies it
			if types.Implements(v.T, c.Ty.Underlying().(*types.Interface)) {
				q := ceq(v.NN.addk(-1))
				q.Neg = c.Neg
				return st.assume(q)
			}
			q := Cond{Kind: COpaque, Key: fmt.Sprintf("impl%d:%s", v.ID, c.Ty), Neg: c.Neg}
			out := st.assume(q)
			if !c.Neg {
				var o2 []*State
				for _, s := range out {
					o2 = append(o2, one(s.addEq(v.NN.addk(-1)))...)
				}
				return o2
			}
			return out
		}
		for _, e := range st.excl[v.ID] {
			if types.Identical(e, c.Ty) {
				if c.Neg {
					return []*State{st}
				}
				return nil
			}
		}
		if c.Neg {
			n := st.clone()
			n.excl[v.ID] = append(n.excl[v.ID][:len(n.excl[v.ID]):len(n.excl[v.ID])], c.Ty)
			if cands := st.an.implementers(v.T); cands != nil {
				left := 0
				for _, t := range cands {
					ex := false
					for _, e := range n.excl[v.ID] {
						if types.Identical(e, t) {
							ex = true
						}
					}
					if !ex {
						left++
					}
				}
				if left == 0 {
					return one(n.addEq(v.NN))
				}
			}
			return []*State{n}
		}
		if cands := st.an.implementers(v.T); cands != nil {
			ok := false
			for _, t := range cands {
				if types.Identical(t, c.Ty) {
					ok = true
				}
			}
			if !ok {
				return nil
			}
		}
		n := st.addEq(v.NN.addk(-1))
		if n == nil {
			return nil
		}
		n = n.clone()
		n.dyn[v.ID] = IfaceV{T: c.Ty, V: n.an.payload(n, c.Ty, v.Note)}
		return []*State{n}
	}
	return []*State{st}
}

// isNil gives the condition that v is nil.
func (st *State) isNil(v Val) Cond {
	switch x := v.(type) {
	case NilV:
		return Cond{Kind: CConst, B: true}
	case SymV:
		return ceq(x.NN)
	case SliceV:
		if x.Arr < 0 {
			return Cond{Kind: CConst, B: true}
		}
		if st.le(lc(1), x.Len) {
			return Cond{Kind: CConst, B: false}
		}
		return Cond{Kind: COpaque, Key: fmt.Sprintf("nilslice%d", x.Arr)}
	case OpaqueV:
		return Cond{Kind: COpaque, Key: fmt.Sprintf("nil%d", x.ID)}
	}
	return Cond{Kind: CConst, B: false}
}

// describe renders the constraints of a state for reports.
func (st *State) describe() string {
	var b strings.Builder
	n := 0
	for _, c := range st.poly.cons {
		s := st.an.show(c.L)
		if len(c.L.T) == 1 && (strings.HasPrefix(s, "len(") || c.L.k().BitLen() > 40) {
			continue
		}
		if n > 0 {
			b.WriteString(", ")
		}
		n++
		if n > 14 {
			b.WriteString("...")
			break
		}
		if c.Eq {
			b.WriteString(s + " = 0")
		} else {
			b.WriteString(s + " >= 0")
		}
	}
	for i, f := range st.bytes {
		if i < 6 {
			fmt.Fprintf(&b, ", %s[%s] in %s", f.Base.Name, st.an.show(f.Idx), f.Set)
		}
	}
	for i, f := range st.ranges {
		if i < 6 {
			fmt.Fprintf(&b, ", %s[%s:%s] in %s", f.Base.Name, st.an.show(f.Lo), st.an.show(f.Hi), f.Set)
		}
	}
	return b.String()
}

func (an *An) show(l Lin) string {
	var b strings.Builder
	for i, t := range l.T {
		switch {
		case t.C == 1 && i > 0:
			b.WriteString(" + ")
		case t.C == 1:
		case t.C == -1 && i > 0:
			b.WriteString(" - ")
		case t.C == -1:
			b.WriteString("-")
		default:
			fmt.Fprintf(&b, " %+d*", t.C)
		}
		b.WriteString(an.symName(t.S))
	}
	if k := l.k(); k.Sign() != 0 || len(l.T) == 0 {
		if len(l.T) > 0 && k.Sign() > 0 {
			b.WriteString(" + ")
		} else if k.Sign() < 0 && len(l.T) > 0 {
			b.WriteString(" - ")
			k = new(big.Int).Abs(k)
		}
		b.WriteString(k.String())
	}
	return b.String()
}

func (st *State) showStr(s StrV) string {
	s = st.norm(s)
	if len(s.P) == 0 {
		return `""`
	}
	var parts []string
	for _, p := range s.P {
		if p.Base == nil {
			parts = append(parts, strconv.Quote(p.Lit))
		} else if p.Lo.isZero() && p.Hi.eqSyn(p.Base.Len) {
			parts = append(parts, p.Base.Name)
		} else {
			parts = append(parts, fmt.Sprintf("%s[%s:%s]", p.Base.Name, st.an.show(p.Lo), st.an.show(p.Hi)))
		}
	}
	return strings.Join(parts, " + ")
}
