package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C30: bytes of text are not characters ---------------------------------------

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

const (
	tByteNum = 1 // the number of a byte of text, which may be 128 or more
	tCharNum = 2 // the number of a character of text, which may be 128 or more
)

// charSinks are library functions that take the number of a character.
var charSinks = map[string]bool{
	"(*strings.Builder).WriteRune": true, "(*bytes.Buffer).WriteRune": true, "(*bufio.Writer).WriteRune": true,
	"unicode/utf8.AppendRune": true, "unicode/utf8.EncodeRune": true, "unicode/utf16.EncodeRune": true, "unicode/utf16.AppendRune": true,
	"strconv.QuoteRune": true, "strconv.QuoteRuneToASCII": true, "strconv.AppendQuoteRune": true,
	"strings.IndexRune": true, "strings.ContainsRune": true, "bytes.IndexRune": true, "bytes.ContainsRune": true,
}

func isCharSink(name string) bool {
	return charSinks[name] || strings.HasPrefix(name, "unicode.")
}

// charSources are library functions that give the number of a character.
var charSources = map[string]int{
	"unicode/utf8.DecodeRuneInString": 0, "unicode/utf8.DecodeRune": 0, "unicode/utf8.DecodeLastRuneInString": 0, "unicode/utf8.DecodeLastRune": 0,
	"(*strings.Reader).ReadRune": 0, "(*bufio.Reader).ReadRune": 0, "(*bytes.Buffer).ReadRune": 0, "(*bytes.Reader).ReadRune": 0,
}

type runeCk struct {
	c     *ctx
	r     *Report
	g     *Graph
	fl    *Flow
	sites int
}

func checkC30(c *ctx, r *Report) {
	k := &runeCk{c: c, r: r, g: newGraph(c.w)}
	k.fl = newFlow(k.g)
	k.fl.deref = func(t types.Type) bool { return true }
	k.fl.extra = k.arith
	for _, f := range k.g.fns {
		r.unit("functions", 1)
		eachInstr(f, k.source)
	}
	k.fl.run()
	for _, f := range k.g.fns {
		con := fnName(f)
		before := k.sites
		eachInstr(f, k.sink)
		if k.sites == before {
			r.ok("bytes are not characters", con)
		}
	}
	r.unit("places where characters are made or tested", k.sites)
	k.pieces()
}

// source marks numbers of bytes and of characters.
func (k *runeCk) source(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Convert:
		if basicKind(x.X.Type()) == types.Uint8 && isInt(x.Type()) && basicKind(x.Type()) != types.Uint8 {
			if _, isConst := x.X.(*ssa.Const); !isConst && !small(x.X) && !asciiAt(x.X, x.Block()) {
				k.fl.mark(x, tByteNum, "the byte at "+k.c.w.pos(x.Pos()))
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 2 {
			k.fl.mark(x, tCharNum, "the character at "+k.c.w.pos(n.Pos()))
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if i, ok := charSources[libName(c.Common())]; ok && x.Index == i {
				k.fl.mark(x, tCharNum, "the character at "+k.c.w.pos(c.Pos()))
			}
		}
	case *ssa.UnOp:
		// an element of []rune
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && isRunes(ia.X.Type()) {
			k.fl.mark(x, tCharNum, "the character at "+k.c.w.pos(x.Pos()))
		}
	}
}

func isRunes(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return basicKind(u.Elem()) == types.Int32
	case *types.Array:
		return basicKind(u.Elem()) == types.Int32
	}
	return false
}

func libName(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.String()
	}
	return ""
}

// arith follows numbers through conversions and arithmetic.
func (k *runeCk) arith(v ssa.Value, bits int, why string, r ssa.Instruction) {
	switch x := r.(type) {
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(v.Type()) {
			if basicKind(x.Type()) == types.Uint8 {
				bits &^= tByteNum
			}
			if bits != 0 {
				k.fl.mark(x, bits, why)
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.OR, token.XOR, token.AND_NOT:
			k.fl.mark(x, bits, why)
		case token.AND:
			if !small(x) {
				k.fl.mark(x, bits, why)
			}
		}
	}
}

// small: v is below 128 by the way it is computed.
func small(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if c, ok := o.(*ssa.Const); ok && c.Value != nil {
			n, exact := constant.Int64Val(constant.ToInt(c.Value))
			if exact && (b.Op == token.AND && n >= 0 && n < 128 || b.Op == token.REM && o == b.Y && n > 0 && n <= 128) {
				return true
			}
		}
	}
	return false
}

func (k *runeCk) site(in ssa.Instruction, v ssa.Value, what string) {
	k.sites++
	con := fnName(in.Parent()) + ", " + k.c.w.pos(in.Pos())
	bad := k.fl.val[v]&tByteNum != 0
	why := k.fl.why[v]
	if basicKind(v.Type()) == types.Uint8 {
		if _, isConst := v.(*ssa.Const); !isConst {
			bad, why = !small(v), "a byte"
		}
	}
	if bad && asciiAt(v, in.Block()) {
		bad = false
	}
	k.r.check(!bad, "bytes are not characters", con, "%s is %s", why, what)
}

func (k *runeCk) sink(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Convert:
		if isInt(x.X.Type()) && basicKind(x.Type()) == types.String {
			k.site(in, x.X, "converted to text as a character")
		}
		if basicKind(x.Type()) == types.Uint8 && isInt(x.X.Type()) && k.fl.val[x.X]&tCharNum != 0 {
			k.sites++
			used := textUse(x)
			k.r.check(!used || asciiAt(x.X, x.Block()) || asciiUses(x), "characters are not cut to bytes", fnName(x.Parent())+", "+k.c.w.pos(x.Pos()), "%s is cut to one byte", k.fl.why[x.X])
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isRunes(ia.X.Type()) {
			k.site(in, x.Val, "stored as a character")
		}
	case ssa.CallInstruction:
		cc := x.Common()
		name := libName(cc)
		if isCharSink(name) {
			for _, a := range cc.Args {
				if isInt(a.Type()) {
					k.site(in, a, "used as a character by "+name)
				}
			}
		}
		if cc.IsInvoke() && cc.Method.Name() == "WriteRune" && len(cc.Args) == 1 {
			k.site(in, cc.Args[0], "written as a character")
		}
		if strings.HasPrefix(name, "fmt.") {
			k.formatted(x, cc)
		}
	}
}

// formatted looks at numbers formatted as characters.
func (k *runeCk) formatted(in ssa.CallInstruction, cc *ssa.CallCommon) {
	if !cc.Signature().Variadic() || len(cc.Args) < 2 {
		return
	}
	f, ok := cc.Args[len(cc.Args)-2].(*ssa.Const)
	if !ok || f.Value == nil || f.Value.Kind() != constant.String {
		return
	}
	verbs := verbsOf(constant.StringVal(f.Value))
	sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i := int(c.Int64())
		if i >= len(verbs) || !strings.ContainsRune("cqU", verbs[i]) {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				if m, ok := st.Val.(*ssa.MakeInterface); ok && isInt(m.X.Type()) {
					k.site(in, m.X, "formatted as a character")
				}
			}
		}
	}
}

// verbsOf gives the verb of each operand of a format.
func verbsOf(f string) []rune {
	var out []rune
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] == '*' {
			out = append(out, '*')
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, rune(f[i]))
		}
	}
	return out
}

// textUse: the byte becomes part of a text.
func textUse(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				continue
			}
			return true
		case *ssa.DebugRef, *ssa.If:
			continue
		default:
			return true
		}
	}
	return false
}

// asciiUses: every use of v as text is guarded.
func asciiUses(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			switch b.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				continue
			}
		}
		if !asciiAt(v, r.Block()) {
			return false
		}
	}
	return true
}

// ---- guards ----------------------------------------------------------------------

// strip removes conversions that keep a small number.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if !isInt(x.X.Type()) || !isInt(x.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// sameRead: a and b are the same value, or the same element of a text.
func sameRead(a, b ssa.Value) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Index:
		y, ok := b.(*ssa.Index)
		return ok && sameRead(x.X, y.X) && sameRead(x.Index, y.Index)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && !x.CommaOk && !y.CommaOk && sameRead(x.X, y.X) && sameRead(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if x.Op == token.MUL {
			switch p := x.X.(type) {
			case *ssa.IndexAddr:
				q, ok := y.X.(*ssa.IndexAddr)
				return ok && sameRead(p.X, q.X) && sameRead(p.Index, q.Index)
			case *ssa.FieldAddr:
				q, ok := y.X.(*ssa.FieldAddr)
				return ok && p.Field == q.Field && sameRead(p.X, q.X)
			}
		}
		return false
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameRead(x.X, y.X) && sameRead(x.Y, y.Y)
	}
	return false
}

// defBlocks are the blocks in which what v is made of is defined.
func defBlocks(v ssa.Value, out *[]*ssa.BasicBlock) {
	v = strip(v)
	switch x := v.(type) {
	case *ssa.Index:
		defBlocks(x.X, out)
		defBlocks(x.Index, out)
	case *ssa.Lookup:
		defBlocks(x.X, out)
		defBlocks(x.Index, out)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch p := x.X.(type) {
			case *ssa.IndexAddr:
				defBlocks(p.X, out)
				defBlocks(p.Index, out)
				return
			case *ssa.FieldAddr:
				defBlocks(p.X, out)
				return
			}
		}
		*out = append(*out, x.Block())
	case *ssa.BinOp:
		defBlocks(x.X, out)
		defBlocks(x.Y, out)
	default:
		if in, ok := v.(ssa.Instruction); ok {
			*out = append(*out, in.Block())
		}
	}
}

// asciiEdge: taking the branch i of block b implies that v is below 128.
func asciiEdge(b *ssa.BasicBlock, i int, v ssa.Value) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	return asciiCond(cond.Cond, i == 0, v)
}

func asciiCond(c ssa.Value, truth bool, v ssa.Value) bool {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return asciiCond(u.X, !truth, v)
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isConst := x.(*ssa.Const); isConst {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int || !sameRead(x, v) {
		return false
	}
	n := k.Int64()
	if !truth {
		switch op {
		case token.NEQ:
			op = token.EQL
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		default:
			return false
		}
	}
	switch op {
	case token.EQL:
		return n >= 0 && n < 128
	case token.LSS:
		return n <= 128
	case token.LEQ:
		return n < 128
	}
	return false
}

// asciiAt: whenever block at is reached, v is known to be below 128.
func asciiAt(v ssa.Value, at *ssa.BasicBlock) bool {
	if p, ok := strip(v).(*ssa.Phi); ok {
		// below 128 on every way in
		all := true
		for i, e := range p.Edges {
			if c, isConst := e.(*ssa.Const); isConst && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() >= 0 && c.Int64() < 128 {
				continue
			}
			if _, isPhi := strip(e).(*ssa.Phi); isPhi || !asciiAt(e, p.Block().Preds[i]) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	var defs []*ssa.BasicBlock
	defBlocks(v, &defs)
	start := at.Parent().Blocks[0]
	for _, d := range defs {
		if d != nil && start.Dominates(d) {
			start = d
		}
	}
	if start == at {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{start: true}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for i, s := range b.Succs {
			if asciiEdge(b, i, v) || seen[s] {
				continue
			}
			if s == at {
				return false
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return true
}

// ---- pieces ------------------------------------------------------------------------

// pieces: texts whose characters are mapped are cut between characters.
func (k *runeCk) pieces() {
	r := k.r
	n := 0
	for _, b := range k.c.runsFor(r, k.c.lab.names, okCounts) {
		con := k.c.lab.construct(b.Name)
		for i := range b.Outs {
			o := &b.Outs[i]
			if o.out.kind != outReturn {
				continue
			}
			st := o.out.st
			for _, u := range st.uf {
				switch u.Fn {
				case "strings.ToUpper", "strings.ToLower", "strings.ToTitle", "strings.Title", "strings.Map", "strings.ToValidUTF8":
				default:
					continue
				}
				for _, a := range u.Args {
					s, ok := a.(StrV)
					if !ok {
						continue
					}
					for _, p := range st.norm(s).P {
						if p.Base == nil {
							continue
						}
						n++
						for _, x := range []Lin{p.Lo, p.Hi} {
							r.check(st.boundary(p.Base, x), "texts are cut between characters", con, "%s is applied to %s, cut inside a character", u.Fn, st.showStr(s))
						}
					}
				}
			}
		}
	}
	r.unit("mapped texts", n)
}

// boundary: position x of b is between two characters.
func (st *State) boundary(b *Base, x Lin) bool {
	if st.eq(x, lc(0)) || st.eq(x, b.Len) || st.le(b.Len, x) {
		return true
	}
	ascii := byteRange(0, 127)
	if st.byteSet(b, x).subset(ascii) || st.byteSet(b, x.addk(-1)).subset(ascii) {
		return true
	}
	for _, u := range st.uf {
		if u.Fn != "runesize" || len(u.Args) != 1 {
			continue
		}
		s, ok := u.Args[0].(StrV)
		n, ok2 := u.Ret.(IntV)
		if !ok || !ok2 {
			continue
		}
		if p := st.norm(s).P; len(p) > 0 && p[0].Base == b && st.eq(x, p[0].Lo.add(n.L)) && (st.eq(p[0].Lo, lc(0)) || st.byteSet(b, p[0].Lo.addk(-1)).subset(ascii)) {
			return true
		}
	}
	return false
}
