package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- types ---------------------------------------------------------------

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// isBuilder: library types modelled as accumulated text.
func isBuilder(t types.Type) bool {
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer")
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	w := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		w = 8
	case types.Int16, types.Uint16:
		w = 16
	case types.Int32, types.Uint32:
		w = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), w-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func exactF(n int64) FloatV { l := lc(n); return FloatV{Exact: &l} }

// zero is the zero value of t.
func (an *An) zero(st *State, t types.Type) Val {
	if isBuilder(t) {
		return BuilderV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{lc(0)}
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Info()&types.IsBoolean != 0:
			return cb(false)
		case u.Info()&types.IsFloat != 0:
			return exactF(0)
		}
		return NilV{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = an.zero(st, u.Field(i).Type())
		}
		return StructV{F: f}
	case *types.Array:
		return ArrV{Obj: st.newObj(&Obj{T: t, Arr: &ArrObj{Elem: u.Elem()}})}
	}
	return NilV{}
}

// ArrV is an array value held in a struct field or variable; its contents
// live in an object of their own (arrays are only used through pointers).
type ArrV struct{ Obj int }

// havoc makes an unknown value of type t.
func (an *An) havoc(st *State, t types.Type, name string) Val {
	if isBuilder(t) {
		return BuilderV{S: baseStr(st.newBase(name))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{an.intSym(st, t, name)}
		case u.Info()&types.IsString != 0:
			return baseStr(st.newBase(name))
		case u.Info()&types.IsBoolean != 0:
			return BoolV{ceq(st.boolSym(name).addk(-1))}
		case u.Info()&types.IsFloat != 0:
			return FloatV{F: &FloatSym{ID: an.nextID(), Tr: ls(st.newSym("trunc " + name)), NaN: st.boolSym("NaN " + name)}}
		}
		return OpaqueV{T: t, ID: an.nextID()}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = an.havoc(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{F: f}
	case *types.Slice:
		id := st.newObj(&Obj{T: t, Arr: an.symArr(st, u.Elem(), name), Name: name})
		return SliceV{Arr: id, Off: lc(0), Len: an.sliceLen(st, "len("+name+")", st.obj(id).Arr)}
	case *types.Array:
		return ArrV{Obj: st.newObj(&Obj{T: t, Arr: &ArrObj{Elem: u.Elem(), Sym: true}, Name: name})}
	case *types.Map:
		id := st.newObj(&Obj{T: t, Map: &MapObj{Open: true, Key: u.Key(), Elem: u.Elem()}, Name: name})
		return MapV{Obj: id}
	case *types.Tuple:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = an.havoc(st, u.At(i).Type(), name+"."+strconv.Itoa(i))
		}
		return TupleV{E: e}
	}
	return SymV{ID: an.nextID(), T: t, NN: st.boolSym("nonnil " + name), Note: name}
}

func (an *An) symArr(st *State, elem types.Type, name string) *ArrObj {
	a := &ArrObj{Elem: elem, Sym: true}
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		s := baseStr(st.newBase(name))
		a.Bytes = &s
	}
	return a
}

func (an *An) sliceLen(st *State, name string, a *ArrObj) Lin {
	if a.Bytes != nil {
		return a.Bytes.length()
	}
	return st.lenSym(name)
}

func (an *An) intSym(st *State, t types.Type, name string) Lin {
	s := st.newSym(name)
	lo, hi, _ := intRange(t)
	an.rng[s] = [2]*big.Int{lo, hi}
	st.must(ls(s).sub(lbig(lo)))
	st.must(lbig(hi).sub(ls(s)))
	return ls(s)
}

// reassert adds the range facts of the symbols in v to st.
func (an *An) reassert(st *State, v Val) {
	lin := func(l Lin) {
		for _, t := range l.T {
			if r, ok := an.rng[t.S]; ok {
				st.must(ls(t.S).sub(lbig(r[0])))
				st.must(lbig(r[1]).sub(ls(t.S)))
			}
		}
	}
	str := func(s StrV) {
		for _, p := range s.P {
			if p.Base != nil {
				lin(p.Base.Len)
				lin(p.Lo)
				lin(p.Hi)
			}
		}
	}
	switch x := v.(type) {
	case IntV:
		lin(x.L)
	case BoolV:
		lin(x.C.L)
	case StrV:
		str(x)
	case BuilderV:
		str(x.S)
	case SliceV:
		lin(x.Len)
		lin(x.Off)
		if o := st.obj(x.Arr); o != nil && o.Arr != nil && o.Arr.Bytes != nil {
			str(*o.Arr.Bytes)
		}
	case SymV:
		lin(x.NN)
	case FloatV:
		if x.F != nil {
			lin(x.F.NaN)
		}
	case StructV:
		for _, f := range x.F {
			an.reassert(st, f)
		}
	}
}

// fresh memoises the initial contents of a cell of a symbolic object.
func (an *An) fresh(st *State, key string, t types.Type, name string) Val {
	if v, ok := an.lazy[key]; ok {
		an.reassert(st, v)
		an.ensure(st, v, t, name)
		return v
	}
	v := an.havoc(st, t, name)
	an.lazy[key] = v
	return v
}

// ensure makes the objects of a memoised value exist in st.
func (an *An) ensure(st *State, v Val, t types.Type, name string) {
	switch x := v.(type) {
	case SliceV:
		if st.obj(x.Arr) == nil {
			if o, ok := an.lazy[fmt.Sprintf("arr%d", x.Arr)]; ok {
				st.put(x.Arr, o.(*Obj))
			} else if u, ok := t.Underlying().(*types.Slice); ok {
				st.put(x.Arr, &Obj{T: t, Arr: &ArrObj{Elem: u.Elem(), Sym: true}, Name: name})
			}
		}
	case MapV:
		if st.obj(x.Obj) == nil {
			u := t.Underlying().(*types.Map)
			st.put(x.Obj, &Obj{T: t, Map: &MapObj{Open: true, Key: u.Key(), Elem: u.Elem()}, Name: name})
		}
	case ArrV:
		if st.obj(x.Obj) == nil {
			u := t.Underlying().(*types.Array)
			st.put(x.Obj, &Obj{T: t, Arr: &ArrObj{Elem: u.Elem(), Sym: true}, Name: name})
		}
	case StructV:
		u := t.Underlying().(*types.Struct)
		for i, f := range x.F {
			an.ensure(st, f, u.Field(i).Type(), name)
		}
	}
}

// ---- paths ---------------------------------------------------------------

func splitPath(p string) []int {
	var out []int
	for _, s := range strings.Split(strings.TrimPrefix(p, "."), ".") {
		if s == "" {
			continue
		}
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}

func (an *An) cellType(t types.Type, path []int) types.Type {
	for _, i := range path {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
	}
	return t
}

// getPath reads path from v (a value of type t).
func (an *An) getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(StructV)
		if !ok || i >= len(s.F) {
			return nil
		}
		v = s.F[i]
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	s, ok := v.(StructV)
	if !ok {
		return v
	}
	f := append([]Val(nil), s.F...)
	f[path[0]] = setPath(f[path[0]], path[1:], n)
	return StructV{F: f}
}

// materialise gives a symbolic object its lazily created contents.
func (an *An) materialise(st *State, id int, o *Obj) *Obj {
	if o.V != nil || o.Arr != nil || o.Map != nil {
		return o
	}
	n := *o
	if !o.Sym {
		n.V = an.zero(st, o.T)
	} else if a, ok := o.T.Underlying().(*types.Array); ok {
		n.Arr = &ArrObj{Elem: a.Elem(), Sym: true}
	} else {
		n.V = an.fresh(st, fmt.Sprintf("o%d", id), o.T, o.Name)
	}
	st.put(id, &n)
	return &n
}

// load reads through p.
func (an *An) load(st *State, p PtrV) Val {
	o := st.obj(p.Obj)
	if o == nil {
		st.note("load of unknown object %d", p.Obj)
		return OpaqueV{ID: an.nextID()}
	}
	o = an.materialise(st, p.Obj, o)
	var v Val
	if p.Idx != nil {
		v = an.elem(st, p.Obj, *p.Idx)
	} else if o.Arr != nil {
		return ArrV{Obj: p.Obj}
	} else {
		v = o.V
	}
	v = an.getPath(v, splitPath(p.Path))
	if v == nil {
		t := an.cellType(o.T, splitPath(p.Path))
		if t == nil {
			return OpaqueV{ID: an.nextID()}
		}
		return an.havoc(st, t, o.Name+p.Path)
	}
	return v
}

// elem reads element i of array object id.
func (an *An) elem(st *State, id int, i Lin) Val {
	o := st.obj(id)
	a := o.Arr
	if a == nil {
		return OpaqueV{ID: an.nextID()}
	}
	if a.Bytes != nil {
		return an.byteAt(st, *a.Bytes, i)
	}
	for k := len(a.Els) - 1; k >= 0; k-- {
		if a.Els[k].I.eqSyn(i) {
			return a.Els[k].V
		}
	}
	for k := len(a.Els) - 1; k >= 0; k-- {
		if st.eq(a.Els[k].I, i) {
			return a.Els[k].V
		}
	}
	// may it be one of the listed ones?
	for k := range a.Els {
		if a.Els[k].W && st.feasible(Con{L: a.Els[k].I.sub(i), Eq: true}) {
			st.note("read of %s at an index that may have been written", o.Name)
			return an.havoc(st, a.Elem, o.Name+"[?]")
		}
	}
	var v Val
	if a.Gen != nil {
		v = a.Gen(st, i)
	}
	if v == nil {
		if !a.Sym {
			return an.zero(st, a.Elem)
		}
		v = an.fresh(st, fmt.Sprintf("e%d.%d:%s", id, a.Ver, i.key()), a.Elem, o.Name+"["+an.show(i)+"]")
		if y, ok := v.(SymV); ok && an.nonNil != nil && types.Identical(a.Elem, an.nonNil) {
			y.NN = lc(1)
			v = y
		}
	}
	o = st.obj(id)
	n := *o
	na := *o.Arr
	na.Els = append(na.Els[:len(na.Els):len(na.Els)], ArrEl{I: i, V: v})
	n.Arr = &na
	st.put(id, &n)
	return v
}

// store writes v through p.
func (an *An) store(st *State, p PtrV, v Val) {
	o := st.obj(p.Obj)
	if o == nil {
		return
	}
	if an.onStore != nil {
		an.onStore(st, p, v)
	}
	o = an.materialise(st, p.Obj, o)
	n := *o
	path := splitPath(p.Path)
	if p.Idx != nil {
		if o.Arr == nil {
			return
		}
		na := *o.Arr
		if na.Bytes != nil {
			c := "?"
			if iv, ok := v.(IntV); ok {
				if k, ok := iv.L.constInt(); ok && k >= 0 && k < 128 {
					c = string(rune(k))
				}
			}
			s := *na.Bytes
			lo := st.slice(s, lc(0), *p.Idx)
			hi := st.slice(s, p.Idx.addk(1), s.length())
			var mid StrV
			if c != "?" {
				mid = lit(c)
			} else {
				b := st.newBase("byte")
				st.mustEq(b.Len.addk(-1))
				mid = baseStr(b)
			}
			ns := concat(concat(lo, mid), hi)
			na.Bytes = &ns
			n.Arr = &na
			st.put(p.Obj, &n)
			return
		}
		if len(path) > 0 {
			v = setPath(an.elem(st, p.Obj, *p.Idx), path, v)
			o = st.obj(p.Obj)
			n = *o
			na = *o.Arr
		}
		var els []ArrEl
		for _, e := range na.Els {
			if e.I.eqSyn(*p.Idx) || st.eq(e.I, *p.Idx) {
				continue
			}
			if st.feasible(Con{L: e.I.sub(*p.Idx), Eq: true}) {
				e = ArrEl{I: e.I, V: an.havoc(st, na.Elem, o.Name+"[?]"), W: true}
			}
			els = append(els, e)
		}
		na.Els = append(els, ArrEl{I: *p.Idx, V: v, W: true})
		n.Arr = &na
		st.put(p.Obj, &n)
		return
	}
	if av, ok := v.(ArrV); ok && len(path) == 0 {
		if src := st.obj(av.Obj); src != nil && src.Arr != nil {
			na := *src.Arr
			n.Arr = &na
			st.put(p.Obj, &n)
		}
		return
	}
	n.V = setPath(o.V, path, v)
	st.put(p.Obj, &n)
}

// byteAt is the byte s[i] as a value.
func (an *An) byteAt(st *State, s StrV, i Lin) Val {
	s = st.norm(s)
	if c, ok := s.constant(); ok {
		if k, ok := st.constOf(i); ok && k >= 0 && k < int64(len(c)) {
			return IntV{lc(int64(c[k]))}
		}
	}
	// find the piece
	off := lc(0)
	for _, p := range s.P {
		end := off.add(p.length())
		if st.le(off, i) && st.lt(i, end) {
			if p.Base == nil {
				if k, ok := st.constOf(i.sub(off)); ok {
					return IntV{lc(int64(p.Lit[k]))}
				}
				q := st.literalBase(p.Lit)
				return an.byteOf(st, q.Base, i.sub(off))
			}
			return an.byteOf(st, p.Base, p.Lo.add(i.sub(off)))
		}
		if !st.le(end, i) {
			break
		}
		off = end
	}
	q := st.asBase(s)
	if q.Base == nil {
		return IntV{an.intSym(st, types.Typ[types.Uint8], "byte")}
	}
	return an.byteOf(st, q.Base, q.Lo.add(i))
}

func (an *An) byteOf(st *State, b *Base, idx Lin) Val {
	if set := st.byteSet(b, idx); set.count() == 1 {
		for c := 0; c < 256; c++ {
			if set.has(byte(c)) {
				return IntV{lc(int64(c))}
			}
		}
	}
	key := fmt.Sprintf("%d:%s", b.ID, idx.key())
	s, ok := an.byteKey[key]
	if !ok {
		s = an.newSym(fmt.Sprintf("%s[%s]", b.Name, an.show(idx)))
		an.byteKey[key] = s
		an.rng[s] = [2]*big.Int{big.NewInt(0), big.NewInt(255)}
		an.byteSym[s] = ByteRef{b, idx}
	}
	st.must(ls(s))
	st.must(lc(255).sub(ls(s)))
	return IntV{ls(s)}
}

// constVal converts an SSA constant.
func (an *An) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return an.zero(st, c.Type())
	}
	t := c.Type()
	if isIface(t) {
		return OpaqueV{T: t, ID: an.nextID()}
	}
	switch {
	case isString(t):
		return lit(constant.StringVal(c.Value))
	case isBool(t):
		return cb(constant.BoolVal(c.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(c.Value)
		return floatConst(f)
	default:
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if i, ok := constant.Int64Val(v); ok {
				return IntV{lc(i)}
			}
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return IntV{lbig(b)}
		}
	}
	return OpaqueV{T: t, ID: an.nextID()}
}

func floatConst(f float64) FloatV {
	if f == math.Trunc(f) && !math.IsInf(f, 0) {
		b, _ := new(big.Float).SetFloat64(f).Int(nil)
		l := lbig(b)
		return FloatV{Exact: &l}
	}
	return FloatV{Const: &f}
}

// strOf views v (string or byte slice) as text.
func (an *An) strOf(st *State, v Val) (StrV, bool) {
	switch x := v.(type) {
	case StrV:
		return x, true
	case BuilderV:
		return x.S, true
	case NilV:
		return StrV{}, true
	case SliceV:
		o := st.obj(x.Arr)
		if x.Arr < 0 {
			return StrV{}, true
		}
		if o != nil && o.Arr != nil && o.Arr.Bytes != nil {
			s := *o.Arr.Bytes
			if x.Off.isZero() && st.eq(x.Len, s.length()) {
				return s, true
			}
			return st.slice(s, x.Off, x.Off.add(x.Len)), true
		}
		if o != nil && o.Arr != nil {
			// constant bytes
			if n, ok := st.constOf(x.Len); ok && n < 64 {
				out := StrV{}
				for i := int64(0); i < n; i++ {
					e, ok := an.elem(st, x.Arr, x.Off.addk(i)).(IntV)
					if !ok {
						return StrV{}, false
					}
					out = concat(out, an.byteStr(st, e.L))
				}
				return out, true
			}
		}
	}
	return StrV{}, false
}

// byteStr is the one-byte string of byte value l.
func (an *An) byteStr(st *State, l Lin) StrV {
	if k, ok := l.constInt(); ok && k >= 0 && k < 256 {
		return lit(string([]byte{byte(k)}))
	}
	if s, ok := l.singleSym(); ok {
		if r, ok := an.byteSym[s]; ok {
			return StrV{P: []Piece{{Base: r.Base, Lo: r.Idx, Hi: r.Idx.addk(1)}}}
		}
	}
	b := st.newBase("byte")
	st.mustEq(b.Len.addk(-1))
	return baseStr(b)
}

func (an *An) bytesVal(st *State, s StrV) Val {
	id := st.newObj(&Obj{Arr: &ArrObj{Elem: types.Typ[types.Uint8], Bytes: &s}, Name: "bytes"})
	return SliceV{Arr: id, Off: lc(0), Len: s.length()}
}

// constSlice returns the elements of a slice of known length.
func (an *An) constSlice(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, true
	case SliceV:
		if x.Arr < 0 {
			return nil, true
		}
		n, ok := st.constOf(x.Len)
		if !ok || n > 300 {
			return nil, false
		}
		var out []Val
		for i := int64(0); i < n; i++ {
			out = append(out, an.elem(st, x.Arr, x.Off.addk(i)))
		}
		return out, true
	}
	return nil, false
}

func (an *An) mkSlice(st *State, elem types.Type, vals []Val, name string) Val {
	a := &ArrObj{Elem: elem}
	for i, v := range vals {
		a.Els = append(a.Els, ArrEl{I: lc(int64(i)), V: v, W: true})
	}
	id := st.newObj(&Obj{T: types.NewSlice(elem), Arr: a, Name: name})
	return SliceV{Arr: id, Off: lc(0), Len: lc(int64(len(vals)))}
}
