package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

type (
	// IntV is an integer (any width, also bytes and runes).
	IntV struct{ L Lin }
	// BoolV is a boolean given by a condition.
	BoolV struct{ C Cond }
	// FloatV is a float64: a constant, an exact integer, or a symbol.
	FloatV struct {
		Exact *Lin     // value is exactly this integer
		Const *float64 // non-integer constant
		F     *FloatSym
	}
	// StrV is a concatenation of pieces.
	StrV struct{ P []Piece }
	// PtrV points into heap object Obj at Path.
	PtrV struct {
		Obj  int
		Path string // ".1.2" field path, "" for the whole object
		Idx  *Lin   // element of an array object (Path then applies to the element)
	}
	// NilV is a nil pointer, slice, map, func or interface.
	NilV struct{}
	// IfaceV is an interface value of known dynamic type.
	IfaceV struct {
		T types.Type
		V Val
	}
	// SymV is an unknown value of reference type (pointer, interface, map,
	// func, chan); NN is 1 iff it is not nil.
	SymV struct {
		ID   int
		T    types.Type
		NN   Lin
		Note string
		From *Event // call event which produced it, if any
	}
	// SliceV is a window of array object Arr.
	SliceV struct {
		Arr int // -1: no backing array
		Off Lin
		Len Lin
	}
	// FuncV is a function value.
	FuncV struct {
		Fn   *ssa.Function
		Bind []Val
		Ext  string // builtin or external method value
	}
	// MapV is a map object.
	MapV struct{ Obj int }
	// StructV is a struct value.
	StructV struct{ F []Val }
	// TupleV is a multi-value result.
	TupleV struct{ E []Val }
	// BuilderV is the content of a strings.Builder or bytes.Buffer.
	BuilderV struct{ S StrV }
	// IterV is a range iterator.
	IterV struct {
		Kind string // "map", "string"
		Str  StrV
		Map  Val
		Pos  int // concrete iteration position, -1 when symbolic
		ID   int
	}
	// OpaqueV is a value the analysis knows nothing about.
	OpaqueV struct {
		T  types.Type
		ID int
	}
)

// FloatSym is a symbolic float64. Tr is its truncation toward zero (an
// unbounded integer; infinities are beyond every bound), NaN is 1 iff NaN.
type FloatSym struct {
	ID  int
	Tr  Lin
	NaN Lin
}

// Piece is base[Lo:Hi] or a literal.
type Piece struct {
	Base *Base
	Lo   Lin
	Hi   Lin
	Lit  string
}

// Base is a symbolic string.
type Base struct {
	ID   int
	Name string
	Len  Lin
	Fn   string // uninterpreted function that produced it
	Args []Val
	From *Event
}

func lit(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{P: []Piece{{Lit: s}}}
}

func (p Piece) length() Lin {
	if p.Base == nil {
		return lc(int64(len(p.Lit)))
	}
	return p.Hi.sub(p.Lo)
}

func (s StrV) length() Lin {
	l := lc(0)
	for _, p := range s.P {
		l = l.add(p.length())
	}
	return l
}

func baseStr(b *Base) StrV {
	return StrV{P: []Piece{{Base: b, Lo: lc(0), Hi: b.Len}}}
}

func (s StrV) constant() (string, bool) {
	var b strings.Builder
	for _, p := range s.P {
		if p.Base != nil {
			return "", false
		}
		b.WriteString(p.Lit)
	}
	return b.String(), true
}

func concat(a, b StrV) StrV {
	out := append([]Piece(nil), a.P...)
	for _, p := range b.P {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.Base == nil && p.Base == nil {
				out[n-1] = Piece{Lit: q.Lit + p.Lit}
				continue
			}
			if q.Base != nil && q.Base == p.Base && q.Hi.eqSyn(p.Lo) {
				out[n-1] = Piece{Base: q.Base, Lo: q.Lo, Hi: p.Hi}
				continue
			}
		}
		out = append(out, p)
	}
	return StrV{P: out}
}

func (s StrV) key() string {
	var b strings.Builder
	for i, p := range s.P {
		if i > 0 {
			b.WriteByte('+')
		}
		if p.Base == nil {
			fmt.Fprintf(&b, "%q", p.Lit)
		} else {
			fmt.Fprintf(&b, "b%d[%s:%s]", p.Base.ID, p.Lo.key(), p.Hi.key())
		}
	}
	return b.String()
}

// Cond is a condition.
type Cond struct {
	Kind CondKind
	Neg  bool
	B    bool  // CConst
	L    Lin   // CGE: L >= 0; CEQ: L == 0
	Base *Base // CByte
	Set  ByteSet
	S, T StrV // CStrEq
	V    Val  // CType: value has dynamic type Ty
	Ty   types.Type
	F    FloatV // CFloat: F Op C
	G    FloatV
	Op   string
	Key  string // COpaque: uninterpreted predicate
	Args []Val
}

// CondKind says how a Cond is to be read.
type CondKind int

// Condition kinds.
const (
	CConst CondKind = iota
	CGE
	CEQ
	CByte
	CStrEq
	CType
	CFloat
	COpaque
)

func cb(b bool) BoolV { return BoolV{Cond{Kind: CConst, B: b}} }
func cge(l Lin) Cond  { return Cond{Kind: CGE, L: l} }
func ceq(l Lin) Cond  { return Cond{Kind: CEQ, L: l} }
func (c Cond) not() Cond {
	if c.Kind == CConst {
		c.B = !c.B
		return c
	}
	c.Neg = !c.Neg
	return c
}

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func (s ByteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s *ByteSet) put(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s ByteSet) and(t ByteSet) ByteSet {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s ByteSet) or(t ByteSet) ByteSet {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s ByteSet) compl() ByteSet {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s ByteSet) empty() bool             { return s == ByteSet{} }
func (s ByteSet) subset(t ByteSet) bool   { return s.and(t.compl()).empty() }
func (s ByteSet) disjoint(t ByteSet) bool { return s.and(t).empty() }
func byteRange(lo, hi int) ByteSet {
	var s ByteSet
	for i := lo; i <= hi; i++ {
		if i >= 0 && i < 256 {
			s.put(byte(i))
		}
	}
	return s
}

var allBytes = ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (s ByteSet) String() string {
	if s.compl().count() < s.count() {
		return "not " + s.compl().String()
	}
	var b strings.Builder
	b.WriteByte('{')
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			j := i
			for j+1 < 256 && s.has(byte(j+1)) {
				j++
			}
			if j > i+1 {
				fmt.Fprintf(&b, "%q-%q ", rune(i), rune(j))
				i = j
			} else {
				fmt.Fprintf(&b, "%q ", rune(i))
			}
		}
	}
	return strings.TrimSpace(b.String()) + "}"
}

func (s ByteSet) count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			n++
		}
	}
	return n
}

// Event is an effect recorded on a path.
type Event struct {
	Prev *Event
	Kind string
	Name string
	Args []Val
	Ret  []Val
	Pos  string
	Loop *LoopInfo // Kind "loop"
	N    int
	Fn   *ssa.Function // function making the call
	At   token.Pos
	Pre  *State // state before the call ("dyncall", "recurse", "opaque")
	Post *State // state after it ("opaque")
}

// LoopInfo describes the completed iterations of an abstracted loop.
type LoopInfo struct {
	Pos   string
	Backs []*State // states at the end of each kind of iteration
	Head  *State   // generalised state before an iteration
	Entry *State   // state on entry
	// values of the head's symbols on entry and after each kind of iteration
	EntryMap map[Sym]Lin
	BackMaps []map[Sym]Lin
	Cells    []CellInfo
}

// CellInfo is a quantity changing in a loop.
type CellInfo struct {
	Name  string
	Entry Val
	Head  Val
	Backs []Val
}

// iteration gives the events of the iteration ending in back state b.
func (l *LoopInfo) iteration(b *State) []*Event {
	var out []*Event
	for e := b.ev; e != nil && e.Loop != l; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func events(e *Event) []*Event {
	var out []*Event
	for ; e != nil; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
