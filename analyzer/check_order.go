package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: nothing depends on the iteration order of maps, on addresses, on time
// or on the scheduling of goroutines.

type orderCk struct {
	c    *ctx
	r    *Report
	g    *Graph
	pure map[*ssa.Function]string
	busy map[string]bool
	n    int
}

const orderRule = "results do not depend on map order"

func checkC23(c *ctx, r *Report) {
	k := &orderCk{c: c, r: r, g: newGraph(c.w), pure: map[*ssa.Function]string{}, busy: map[string]bool{}}
	r.check(len(k.g.fns) >= 150, "analysed", "functions of the module", "only %d", len(k.g.fns))
	for _, f := range k.g.fns {
		r.fns[fnName(f)] = true
		k.function(f)
	}
	k.registryKeys()
	r.unit("functions", len(k.g.fns))
	r.unit("map iterations", k.n)
	r.check(k.n >= 1, "analysed", "iterations over maps", "only %d", k.n)
}

func (k *orderCk) at(f *ssa.Function, what string, p token.Pos) string {
	return fmt.Sprintf("%s in %s, %s", what, fnName(f), k.g.w.pos(p))
}

// ---- sources of disorder -------------------------------------------------------

var randomPkgs = []string{"math/rand", "math/rand/v2", "crypto/rand", "hash/maphash"}

func (k *orderCk) function(f *ssa.Function) {
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				k.n++
				k.mapLoop(f, x)
			}
		case *ssa.Go:
			k.r.fail("results do not depend on scheduling", k.at(f, "go statement", x.Pos()), "starts a goroutine")
		case *ssa.Select:
			if len(x.States) > 1 {
				k.r.fail("results do not depend on scheduling", k.at(f, "select", x.Pos()), "takes whichever case is ready")
			}
		case *ssa.Convert:
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					k.r.fail("results do not depend on addresses", k.at(f, "conversion to uintptr", x.Pos()), "uses an address as a number")
				}
			}
		}
		for _, op := range in.Operands(nil) {
			h, ok := (*op).(*ssa.Function)
			if !ok || k.g.w.inMod(h) {
				continue
			}
			p := fnPkg(h)
			n := originName(h)
			switch {
			case clockFuncs[n]:
				k.r.fail("results do not depend on time", k.at(f, n, in.Pos()), "reads the clock")
			case pkgIn(p, randomPkgs):
				k.r.fail("results do not depend on time", k.at(f, n, in.Pos()), "uses random numbers")
			case n == "maps.Keys" || n == "maps.Values" || n == "maps.All":
				k.n++
				k.iterator(f, in, n)
			case p == "reflect" && (h.Name() == "MapKeys" || h.Name() == "MapRange" || h.Name() == "Pointer" || h.Name() == "UnsafePointer" || h.Name() == "UnsafeAddr"):
				k.r.fail(orderRule, k.at(f, fnName(h), in.Pos()), "inspects maps or addresses by reflection")
			case p == "sync" && h.Name() == "Range":
				k.r.fail(orderRule, k.at(f, fnName(h), in.Pos()), "visits a map in no particular order")
			}
		}
		if c, ok := in.(*ssa.Call); ok {
			k.addresses(f, c)
		}
	})
}

func pkgIn(p string, list []string) bool {
	for _, q := range list {
		if p == q {
			return true
		}
	}
	return false
}

// iterator: maps.Keys and the like may be collected into a slice that is sorted.
func (k *orderCk) iterator(f *ssa.Function, in ssa.Instruction, name string) {
	con := k.at(f, name, in.Pos())
	call, ok := in.(*ssa.Call)
	if !ok || name == "maps.All" {
		k.r.fail(orderRule, con, "is used in a way that is not understood")
		return
	}
	for _, u := range *call.Referrers() {
		c, ok := u.(*ssa.Call)
		callee := (*ssa.Function)(nil)
		if ok {
			callee = c.Common().StaticCallee()
		}
		n := ""
		if callee != nil {
			n = originName(callee)
		}
		switch n {
		case "slices.Sorted":
			k.r.ok(orderRule, con)
		case "slices.SortedFunc", "slices.SortedStableFunc":
			why := k.total(c)
			k.r.check(why == "", orderRule, con, "%s", why)
		case "slices.Collect":
			k.uses(f, []ssa.Value{c}, nil, con, 0)
		default:
			if _, dbg := u.(*ssa.DebugRef); !dbg {
				k.r.fail(orderRule, con, "is used in a way that is not understood")
			}
		}
	}
}

// ---- iterations -----------------------------------------------------------------

type mapLoop struct {
	k      *orderCk
	f      *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	con    string
	key    ssa.Value
	taint  map[ssa.Value]bool
	fails  []string
	lists  []ssa.Value // slices filled in map order
	cells  []ssa.Value // variables holding such slices
	acc    map[ssa.Value]bool
}

func (k *orderCk) mapLoop(f *ssa.Function, rng *ssa.Range) {
	l := &mapLoop{k: k, f: f, rng: rng, blocks: map[*ssa.BasicBlock]bool{}, taint: map[ssa.Value]bool{}, acc: map[ssa.Value]bool{}}
	name := rng.X.Name()
	if u, ok := rng.X.(*ssa.UnOp); ok {
		name = u.X.Name()
	}
	if g, ok := rng.X.(*ssa.UnOp); ok {
		if gl, ok := g.X.(*ssa.Global); ok {
			name = gl.Name()
		}
	}
	l.con = k.at(f, "iteration over map "+name, rng.Pos())
	for _, u := range *rng.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if l.next != nil {
				k.r.fail(orderRule, l.con, "iterates in a way that is not understood")
				return
			}
			l.next = n
		}
	}
	if l.next == nil {
		return
	}
	l.head = l.next.Block()
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if l.blocks[b] {
			return
		}
		l.blocks[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	l.blocks[l.head] = true
	for _, p := range l.head.Preds {
		if l.head.Dominates(p) {
			back(p)
		}
	}
	for _, u := range *l.next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			l.key = e
		}
	}
	l.spread()
	l.body()
	l.exits()
	for _, w := range l.fails {
		k.r.fail(orderRule, l.con, "%s", w)
	}
	if len(l.fails) > 0 {
		return
	}
	k.r.ok(orderRule, l.con)
	if len(l.lists)+len(l.cells) > 0 {
		k.uses(f, append(l.lists, l.cells...), l.blocks, l.con, 0)
	}
}

func (l *mapLoop) fail(p token.Pos, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if p.IsValid() {
		s += " at " + l.k.g.w.pos(p)
	}
	l.fails = append(l.fails, s)
}

func (l *mapLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() != nil && l.blocks[i.Block()]
}

// spread marks what is computed from the element of an iteration.
func (l *mapLoop) spread() {
	l.taint[l.next] = true
	for changed := true; changed; {
		changed = false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || l.taint[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && l.taint[*op] {
						l.taint[v] = true
						changed = true
						break
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && !l.taint[v] {
					// a variable of the iteration
					if a := rootAlloc(u.X); a != nil && l.in(a) {
						l.taint[v] = true
						changed = true
					}
				}
			}
		}
	}
}

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeSlice, *ssa.MakeMap:
			return x
		default:
			return nil
		}
	}
}

// leaves are the values an expression may take, through the joins of the body.
func (l *mapLoop) leaves(v ssa.Value, seen map[ssa.Value]bool, from *ssa.BasicBlock, out *[]leaf) {
	if p, ok := v.(*ssa.Phi); ok && p.Block() != l.head && l.blocks[p.Block()] {
		if seen[v] {
			return
		}
		seen[v] = true
		for i, e := range p.Edges {
			l.leaves(e, seen, p.Block().Preds[i], out)
		}
		return
	}
	*out = append(*out, leaf{v, from})
}

type leaf struct {
	v    ssa.Value
	from *ssa.BasicBlock
}

// carried classifies how a variable changes from one iteration to the next.
func (l *mapLoop) carried(name string, isSelf func(v ssa.Value) bool, next []leaf, p token.Pos, list func()) {
	var consts []*ssa.Const
	adds, ors, app := 0, 0, 0
	dep := func(v ssa.Value) bool {
		d := false
		var look func(v ssa.Value, n int)
		seen := map[ssa.Value]bool{}
		look = func(v ssa.Value, n int) {
			if v == nil || seen[v] || d {
				return
			}
			seen[v] = true
			if isSelf(v) {
				d = true
				return
			}
			if in, ok := v.(ssa.Instruction); ok && l.in(v) {
				for _, o := range in.Operands(nil) {
					look(*o, n+1)
				}
			}
		}
		look(v, 0)
		return d
	}
	for _, lf := range next {
		v := lf.v
		if isSelf(v) {
			continue
		}
		switch x := v.(type) {
		case *ssa.Const:
			consts = append(consts, x)
			continue
		case *ssa.BinOp:
			a, b := x.X, x.Y
			if isSelf(b) {
				a, b = b, a
			}
			bt, _ := x.Type().Underlying().(*types.Basic)
			if isSelf(a) && !dep(b) && bt != nil {
				switch {
				case x.Op == token.ADD && bt.Info()&types.IsInteger != 0, x.Op == token.SUB && isSelf(x.X) && bt.Info()&types.IsInteger != 0, x.Op == token.MUL && bt.Info()&types.IsInteger != 0:
					adds++
					continue
				case x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR:
					ors++
					continue
				}
			}
		case *ssa.Call:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
				args := x.Common().Args
				switch bi.Name() {
				case "append":
					if isSelf(args[0]) && !dep(args[1]) {
						app++
						continue
					}
				case "max", "min":
					self := 0
					for _, a := range args {
						if isSelf(a) {
							self++
						} else if dep(a) {
							self = 99
						}
					}
					if self == 1 {
						ors++
						continue
					}
				}
			}
		}
		if !l.taint[v] && !l.in(v) {
			consts = append(consts, nil)
			if len(consts) > 1 {
				l.fail(p, "%s takes one of several values", name)
				return
			}
			continue
		}
		if l.extremum(v, lf.from, isSelf) {
			ors++
			continue
		}
		l.fail(p, "%s depends on which element comes last", name)
		return
	}
	for i := 1; i < len(consts); i++ {
		if !sameConst(consts[0], consts[i]) {
			l.fail(p, "%s takes one of several values", name)
			return
		}
	}
	kinds := 0
	for _, n := range []int{len(consts), adds, ors, app} {
		if n > 0 {
			kinds++
		}
	}
	if kinds > 1 {
		l.fail(p, "%s changes in ways that do not commute", name)
		return
	}
	if app > 0 {
		list()
	}
}

func sameConst(a, b *ssa.Const) bool {
	if a == nil || b == nil {
		return false
	}
	if a.Value == nil || b.Value == nil {
		return a.Value == nil && b.Value == nil
	}
	return constant.Compare(a.Value, token.EQL, b.Value)
}

// extremum: v replaces the variable only when it is greater (or less).
func (l *mapLoop) extremum(v ssa.Value, from *ssa.BasicBlock, isSelf func(ssa.Value) bool) bool {
	for b := from; b != nil && l.blocks[b]; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			continue
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if isSelf(c.X) && sameExpr(c.Y, v, 0) || isSelf(c.Y) && sameExpr(c.X, v, 0) {
				return true
			}
		}
	}
	return false
}

func sameExpr(a, b ssa.Value, n int) bool {
	if a == b {
		return true
	}
	if n > 4 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		bx, ok2 := x.Common().Value.(*ssa.Builtin)
		if !ok || !ok2 {
			return false
		}
		by, ok := y.Common().Value.(*ssa.Builtin)
		return ok && bx.Name() == by.Name() && bx.Name() == "len" && sameExpr(x.Common().Args[0], y.Common().Args[0], n+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, n+1)
	}
	return false
}

func (l *mapLoop) body() {
	// values carried by the loop
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		var next []leaf
		for i, e := range p.Edges {
			if l.blocks[l.head.Preds[i]] {
				l.leaves(e, map[ssa.Value]bool{}, l.head.Preds[i], &next)
			}
		}
		l.acc[p] = true
		name := p.Comment
		if name == "" {
			name = "a variable"
		}
		l.carried(name, func(v ssa.Value) bool { return v == p }, next, p.Pos(), func() { l.lists = append(l.lists, p) })
	}
	stores := map[ssa.Value][]leaf{}
	var order []ssa.Value
	for _, b := range l.f.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a := rootAlloc(x.Addr); a != nil && l.in(a) {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					if stores[a] == nil {
						order = append(order, a)
					}
					ls := stores[a]
					l.leaves(x.Val, map[ssa.Value]bool{}, b, &ls)
					stores[a] = ls
				case *ssa.IndexAddr:
					if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
						if u, ok := a.X.(*ssa.UnOp); ok && u.Op == token.MUL && cellOf(u.X) != nil {
							l.cells = append(l.cells, cellOf(u.X))
						} else {
							l.lists = append(l.lists, a.X)
						}
						continue
					}
					l.fail(x.Pos(), "stores into an array in map order")
				default:
					if !l.taint[x.Val] {
						continue
					}
					l.fail(x.Pos(), "the stored value depends on which element comes last")
				}
			case *ssa.MapUpdate:
				if l.in(x.Map) {
					continue
				}
				if x.Key == l.key || !l.taint[x.Value] {
					continue
				}
				l.fail(x.Pos(), "the entry depends on which element comes last")
			case *ssa.Send:
				l.fail(x.Pos(), "sends elements in map order")
			case *ssa.Defer:
				l.fail(x.Pos(), "defers calls in map order")
			case *ssa.Go:
				l.fail(x.Pos(), "starts goroutines in map order")
			case *ssa.Call:
				l.call(x)
			}
		}
	}
	for _, a := range order {
		a := a
		l.carried(a.Name(), func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && u.X == a
		}, stores[a], a.Pos(), func() { l.cells = append(l.cells, a) })
	}
}

// call: the body may only call functions without effect.
func (l *mapLoop) call(c *ssa.Call) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			l.fail(c.Pos(), "prints in map order")
		case "copy":
			if a := rootAlloc(cc.Args[0]); a == nil || !l.in(a) {
				l.fail(c.Pos(), "copies in map order")
			}
		}
		return
	}
	ts := l.k.g.targets(c)
	if len(ts) > 0 {
		for _, t := range ts {
			if why := l.k.effect(t); why != "" {
				l.fail(c.Pos(), "calls %s, which %s, in map order", fnName(t), why)
				return
			}
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		if cc.IsInvoke() && (cc.Method.Name() == "Error" || cc.Method.Name() == "String") {
			return
		}
		l.fail(c.Pos(), "calls an unknown function in map order")
		return
	}
	if why := libEffect(f); why != "" {
		// local objects of the iteration
		if len(cc.Args) > 0 {
			if a := rootAlloc(cc.Args[0]); a != nil && l.in(a) {
				return
			}
		}
		l.fail(c.Pos(), "calls %s, which %s, in map order", fnName(f), why)
	}
}

var pureLibs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "path": true,
	"errors": true, "cmp": true, "path/filepath": true, "regexp": true, "bytes": true, "sync": true, "html": true, "maps": true, "slices": true, "sort": true}

// libEffect says what effect a library function has, "" for none.
func libEffect(f *ssa.Function) string {
	p := fnPkg(f)
	n := f.Name()
	switch {
	case p == "fmt" && (strings.HasPrefix(n, "Sprint") || n == "Errorf"):
		return ""
	case !pureLibs[p]:
		return "is not known to be without effect"
	case mutatorFuncs[originName(f)]:
		return "changes its argument"
	}
	if r := f.Signature.Recv(); r != nil && p != "sync" {
		t := types.TypeString(r.Type(), nil)
		switch t {
		case "*strings.Builder", "*bytes.Buffer":
			switch n {
			case "Len", "String", "Cap", "Bytes":
				return ""
			}
			return "writes to a " + t
		case "*strings.Reader", "*bytes.Reader":
			return "reads from a " + t
		}
	}
	return ""
}

// effect says what effect a module function has besides its results.
func (k *orderCk) effect(f *ssa.Function) string {
	if s, ok := k.pure[f]; ok {
		return s
	}
	k.pure[f] = ""
	res := ""
	eachInstr(f, func(in ssa.Instruction) {
		if res != "" {
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			if a := rootAlloc(x.Addr); a == nil {
				res = "writes memory at " + k.g.w.pos(x.Pos())
			}
		case *ssa.MapUpdate:
			if rootAlloc(x.Map) == nil {
				res = "writes a map at " + k.g.w.pos(x.Pos())
			}
		case *ssa.Send, *ssa.Go:
			res = "communicates at " + k.g.w.pos(in.Pos())
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "print" || b.Name() == "println" || b.Name() == "copy" && rootAlloc(cc.Args[0]) == nil {
					res = b.Name()
				}
				return
			}
			ts := k.g.targets(x)
			for _, t := range ts {
				if s := k.effect(t); s != "" {
					res = s
					return
				}
			}
			if len(ts) > 0 {
				return
			}
			if h := cc.StaticCallee(); h != nil {
				if s := libEffect(h); s != "" {
					if len(cc.Args) > 0 && rootAlloc(cc.Args[0]) != nil {
						return
					}
					res = "calls " + fnName(h) + ", which " + s
				}
				return
			}
			if cc.IsInvoke() && (cc.Method.Name() == "Error" || cc.Method.Name() == "String") {
				return
			}
			res = "calls an unknown function at " + k.g.w.pos(in.Pos())
		}
	})
	k.pure[f] = res
	return res
}

// exits: leaving the iteration early must not depend on the order.
func (l *mapLoop) exits() {
	type exit struct {
		from, to *ssa.BasicBlock
	}
	var early []exit
	for _, b := range l.f.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] && b != l.head {
				early = append(early, exit{b, s})
			}
		}
		if len(b.Succs) == 0 {
			l.fail(b.Instrs[len(b.Instrs)-1].Pos(), "leaves the function during the iteration")
		}
	}
	var outcomes []string
	for _, e := range early {
		if l.unique(e.from) {
			continue
		}
		// what is used after leaving here
		reach := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if reach[b] || l.blocks[b] {
				return
			}
			reach[b] = true
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(e.to)
		bad := ""
		for b := range reach {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					for i, v := range p.Edges {
						if l.blocks[b.Preds[i]] && b.Preds[i] != l.head && l.in(v) {
							bad = "a value of the element that happens to come first is used after leaving the iteration early"
						}
					}
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && l.in(*o) {
						bad = "a value of the element that happens to come first is used after leaving the iteration early"
					}
				}
			}
		}
		if len(l.lists)+len(l.cells) > 0 {
			bad = "the elements collected before leaving the iteration early depend on the order"
		}
		if bad != "" {
			l.fail(e.from.Instrs[len(e.from.Instrs)-1].Pos(), "%s", bad)
		}
		out := fmt.Sprintf("%d", e.to.Index)
		for _, in := range e.to.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, q := range e.to.Preds {
					if q == e.from {
						out += " " + p.Edges[i].String()
					}
				}
			}
		}
		outcomes = append(outcomes, out)
	}
	for i := 1; i < len(outcomes); i++ {
		if outcomes[i] != outcomes[0] {
			l.fail(token.NoPos, "the iteration is left early in different ways, whichever element comes first")
			break
		}
	}
}

// unique: b is only reached for one particular key.
func (l *mapLoop) unique(b *ssa.BasicBlock) bool {
	for ; b != nil && l.blocks[b]; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 || len(d.Instrs) == 0 {
			continue
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		eq := c.Op == token.EQL && d.Succs[0] == b || c.Op == token.NEQ && d.Succs[1] == b
		if eq && (c.X == l.key && !l.in(c.Y) || c.Y == l.key && !l.in(c.X)) {
			return true
		}
	}
	return false
}

// ---- slices in map order -----------------------------------------------------------

// uses: every use of slices filled in map order comes after sorting them.
func (k *orderCk) uses(f *ssa.Function, vals []ssa.Value, loop map[*ssa.BasicBlock]bool, con string, depth int) {
	if depth > 6 {
		k.r.fail(orderRule, con, "the use of the elements is not understood")
		return
	}
	key := fmt.Sprint(fnName(f), con)
	for _, v := range vals {
		key += " " + v.Name()
	}
	if k.busy[key] {
		return
	}
	k.busy[key] = true
	alias := map[ssa.Value]bool{}
	cells := map[ssa.Value]bool{}
	isCell := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			_, sl := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
			return sl
		case *ssa.Global, *ssa.FreeVar:
			p, ok := x.Type().Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			_, sl := p.Elem().Underlying().(*types.Slice)
			return sl
		}
		return false
	}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if isCell(v) {
			if cells[v] {
				return
			}
			cells[v] = true
		} else if alias[v] {
			return
		} else {
			alias[v] = true
		}
		refs := v.Referrers()
		if refs == nil {
			k.r.fail(orderRule, con, "the elements are stored in the variable %s in map order", v.Name())
			return
		}
		for _, u := range *refs {
			switch x := u.(type) {
			case *ssa.UnOp:
				if cells[v] && x.Op == token.MUL {
					add(x)
				}
			case *ssa.Phi:
				if alias[v] {
					add(x)
				}
			case *ssa.Slice:
				if alias[v] {
					add(x)
				}
			case *ssa.ChangeType, *ssa.MakeInterface:
				if alias[v] {
					add(x.(ssa.Value))
				}
			case *ssa.Store:
				if alias[v] && x.Val == v && isCell(x.Addr) {
					add(x.Addr)
				}
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && alias[v] && x.Common().Args[0] == v {
					add(x)
				}
			}
		}
	}
	for _, v := range vals {
		add(v)
	}
	// where they are sorted
	var sorts []ssa.Instruction
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || loop[in.Block()] {
			return
		}
		for i, a := range c.Common().Args {
			if !alias[a] {
				continue
			}
			if is, why := k.sorts(c, i, depth); is {
				if why != "" {
					k.r.fail(orderRule, con, "%s", why)
				}
				sorts = append(sorts, in)
			}
		}
	})
	reached := k.unsorted(f, sorts, alias)
	sorted := func(u ssa.Instruction) bool { return !reached[u] }
	bad := func(u ssa.Instruction, what string) {
		p := u.Pos()
		k.r.fail(orderRule, con, "%s in map order at %s", what, k.g.w.pos(p))
	}
	visit := func(v ssa.Value, u ssa.Instruction) {
		if loop[u.Block()] || u.Parent() != f && !cells[v] || u.Block() == f.Recover {
			return
		}
		if sorted(u) {
			return
		}
		switch x := u.(type) {
		case *ssa.DebugRef, *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
			return
		case *ssa.MakeInterface:
			return // its uses are visited
		case *ssa.UnOp, *ssa.MakeClosure:
			if cells[v] {
				if m, ok := x.(*ssa.MakeClosure); ok && !k.sortArg(m) {
					bad(u, "the elements are used by a function")
				}
				return
			}
		case *ssa.Store:
			if isCell(x.Addr) && x.Val == v || cells[v] && x.Addr == v {
				return
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				return
			}
		case *ssa.Return:
			for i, o := range x.Results {
				if o == v {
					k.returned(f, i, con, depth)
				}
			}
			return
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					return
				case "append":
					if x.Common().Args[0] == v {
						return
					}
				}
			}
			ts := k.g.targets(x)
			if h := x.Common().StaticCallee(); h != nil && len(ts) == 1 {
				for i, a := range x.Common().Args {
					if a == v {
						k.uses(h, []ssa.Value{h.Params[i]}, nil, con, depth+1)
					}
				}
				return
			}
		}
		bad(u, "the elements are used")
	}
	for v := range alias {
		if refs := v.Referrers(); refs != nil {
			for _, u := range *refs {
				visit(v, u)
			}
		}
	}
	for v := range cells {
		if refs := v.Referrers(); refs != nil {
			for _, u := range *refs {
				visit(v, u)
			}
		}
	}
}

// unsorted lists the instructions that f may reach without sorting, unless
// there is at most one element.
func (k *orderCk) unsorted(f *ssa.Function, sorts []ssa.Instruction, alias map[ssa.Value]bool) map[ssa.Instruction]bool {
	stop := map[ssa.Instruction]bool{}
	for _, s := range sorts {
		stop[s] = true
	}
	out := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if stop[in] {
				return
			}
			out[in] = true
			if i, ok := in.(*ssa.If); ok {
				yes, no := fewWhen(i.Cond, alias)
				if !yes {
					walk(b.Succs[0])
				}
				if !no {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, n := range b.Succs {
			walk(n)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
	}
	return out
}

// fewWhen: the condition being true (false) implies that the list has at most
// one element.
func fewWhen(c ssa.Value, alias map[ssa.Value]bool) (yes, no bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return
	}
	length := func(v ssa.Value) bool {
		x, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := x.Common().Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && alias[x.Common().Args[0]]
	}
	x, y, op := b.X, b.Y, b.Op
	if alias[y] || length(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, ok := y.(*ssa.Const)
	if !ok {
		return
	}
	if alias[x] && n.Value == nil {
		return op == token.EQL, op == token.NEQ
	}
	if !length(x) || n.Value == nil {
		return
	}
	v := n.Int64()
	switch op {
	case token.EQL:
		return v <= 1, false
	case token.NEQ:
		return false, v <= 1
	case token.LSS:
		return v <= 2, false
	case token.LEQ:
		return v <= 1, false
	case token.GTR:
		return false, v <= 1
	case token.GEQ:
		return false, v <= 2
	}
	return
}

// returned: f returns elements in map order; its callers have to sort them.
func (k *orderCk) returned(f *ssa.Function, i int, con string, depth int) {
	cs := k.g.callers[f]
	if len(cs) == 0 || k.g.taken[f] {
		k.r.fail(orderRule, con, "%s returns the elements in map order", fnName(f))
		return
	}
	for _, c := range cs {
		v, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		if f.Signature.Results().Len() == 1 {
			k.uses(c.Parent(), []ssa.Value{v}, nil, con, depth+1)
			continue
		}
		for _, u := range *v.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == i {
				k.uses(c.Parent(), []ssa.Value{e}, nil, con, depth+1)
			}
		}
	}
}

// sortArg: the closure is only handed to a sorting function.
func (k *orderCk) sortArg(m *ssa.MakeClosure) bool {
	for _, u := range *m.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		if f == nil || !sortFuncs[originName(f)] {
			return false
		}
	}
	return true
}

var sortFuncs = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// sorts: the call sorts its i-th argument; why says why the result may still
// depend on the order before.
func (k *orderCk) sorts(c *ssa.Call, i, depth int) (bool, string) {
	f := c.Common().StaticCallee()
	if f == nil {
		return false, ""
	}
	if sortFuncs[originName(f)] {
		return i == 0, k.total(c)
	}
	if !k.g.w.inMod(f) || f.Blocks == nil || depth > 4 || i >= len(f.Params) {
		return false, ""
	}
	// a function that sorts its parameter before anything else
	alias := map[ssa.Value]bool{f.Params[i]: true}
	for changed := true; changed; {
		changed = false
		eachInstr(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if ok && alias[v] {
				return
			}
			switch x := in.(type) {
			case *ssa.MakeInterface:
				if alias[x.X] {
					alias[v], changed = true, true
				}
			case *ssa.ChangeType:
				if alias[x.X] {
					alias[v], changed = true, true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && alias[x.X] {
					alias[v], changed = true, true
				}
			case *ssa.Store:
				if alias[x.Val] && !alias[x.Addr] {
					if _, ok := x.Addr.(*ssa.Alloc); ok {
						alias[x.Addr], changed = true, true
					}
				}
			}
		})
	}
	for _, b := range f.Blocks {
		if b != f.Blocks[0] {
			continue
		}
		for _, in := range b.Instrs {
			if c2, ok := in.(*ssa.Call); ok {
				for j, a := range c2.Common().Args {
					if alias[a] {
						if is, why := k.sorts(c2, j, depth+1); is {
							return true, why
						}
					}
				}
			}
		}
	}
	return false, ""
}

// total: elements that the comparison does not order are the same.
func (k *orderCk) total(c *ssa.Call) string {
	f := c.Common().StaticCallee()
	args := c.Common().Args
	n := originName(f)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return ""
	}
	an := newAn(k.c.w)
	st := an.newState()
	var elem types.Type
	var less func(st *State, i, j int64) []Out
	var vals []Val
	mk := func(s types.Type) Val {
		elem = s.Underlying().(*types.Slice).Elem()
		vals = []Val{an.havoc(st, elem, "a"), an.havoc(st, elem, "b")}
		return an.mkSlice(st, elem, vals, "elements")
	}
	sliceType := func(v ssa.Value) types.Type {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			return v.Type()
		}
		return nil
	}
	switch n {
	case "sort.Slice", "sort.SliceStable":
		t := sliceType(args[0])
		fv, why := k.comparator(args[1])
		if t == nil || why != "" {
			return "sorts with a comparison that is not understood"
		}
		list := mk(t)
		var bind []Val
		if m, ok := args[1].(*ssa.MakeClosure); ok {
			for _, b := range m.Bindings {
				bt := b.Type()
				if types.Identical(bt, t) {
					bind = append(bind, list)
				} else if p, ok := bt.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
					id := st.newObj(&Obj{T: t, V: list, Name: "list"})
					bind = append(bind, PtrV{Obj: id})
				} else {
					bind = append(bind, an.havoc(st, bt, "captured"))
				}
			}
		}
		less = func(s *State, i, j int64) []Out {
			return an.callFunc(s, FuncV{Fn: fv, Bind: bind}, []Val{IntV{L: lc(i)}, IntV{L: lc(j)}}, fv.Signature, c.Pos())
		}
	case "slices.SortFunc", "slices.SortStableFunc", "slices.SortedFunc", "slices.SortedStableFunc":
		fv, why := k.comparator(args[1])
		if why != "" {
			return "sorts with a comparison that is not understood"
		}
		elem = fv.Signature.Params().At(0).Type()
		vals = []Val{an.havoc(st, elem, "a"), an.havoc(st, elem, "b")}
		var bind []Val
		if m, ok := args[1].(*ssa.MakeClosure); ok {
			for _, b := range m.Bindings {
				bind = append(bind, an.havoc(st, b.Type(), "captured"))
			}
		}
		less = func(s *State, i, j int64) []Out {
			return an.callFunc(s, FuncV{Fn: fv, Bind: bind}, []Val{vals[i], vals[j]}, fv.Signature, c.Pos())
		}
	case "sort.Sort", "sort.Stable":
		m, ok := args[0].(*ssa.MakeInterface)
		if !ok {
			return "sorts with a comparison that is not understood"
		}
		t := m.X.Type()
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return "sorts with a comparison that is not understood"
		}
		sel := k.g.w.prog.MethodSets.MethodSet(t).Lookup(nil, "Less")
		if sel == nil {
			return "sorts with a comparison that is not understood"
		}
		fv := k.g.w.prog.MethodValue(sel)
		if t.String() == "sort.StringSlice" || t.String() == "sort.IntSlice" {
			return ""
		}
		list := mk(t)
		less = func(s *State, i, j int64) []Out {
			return an.call(s, fv, []Val{list, IntV{L: lc(i)}, IntV{L: lc(j)}}, nil)
		}
	default:
		return "sorts with " + n
	}
	// the states in which neither element comes before the other
	tie := func(s *State, v Val) []*State {
		switch x := v.(type) {
		case BoolV:
			return s.assume(x.C.not())
		case IntV:
			return s.assume(ceq(x.L))
		}
		return []*State{s}
	}
	why := ""
	if w := an.guard(func() {
		for _, o := range less(st, 0, 1) {
			if o.kind != outReturn {
				continue
			}
			for _, s := range tie(o.st, o.ret) {
				for _, o2 := range less(s, 1, 0) {
					if o2.kind != outReturn {
						continue
					}
					for _, s2 := range tie(o2.st, o2.ret) {
						if !k.sameElem(s2, elem, vals[0], vals[1]) && why == "" {
							why = "sorts with a comparison that leaves different elements in map order, at " + k.g.w.pos(c.Pos())
						}
					}
				}
			}
		}
	}); w != "" {
		return w
	}
	k.r.ok("comparisons order different elements", k.at(c.Parent(), n, c.Pos()))
	return why
}

func (k *orderCk) comparator(v ssa.Value) (*ssa.Function, string) {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), ""
	case *ssa.Function:
		return x, ""
	case *ssa.ChangeType:
		return k.comparator(x.X)
	}
	return nil, "unknown"
}

// sameElem: the two elements are equal; documentation is identified by name.
func (k *orderCk) sameElem(st *State, t types.Type, a, b Val) bool {
	same := func(a, b Val) bool {
		if x, ok := a.(StrV); ok {
			if y, ok := b.(StrV); ok {
				if eq, known := st.truth(Cond{Kind: CStrEq, S: x, T: y}); known {
					return eq
				}
			}
		}
		return st.sameVal(a, b)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		an := st.an
		a, b = an.load(st, a.(PtrV)), an.load(st, b.(PtrV))
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		x, ok1 := a.(StructV)
		y, ok2 := b.(StructV)
		if !ok1 || !ok2 {
			return false
		}
		doc := k.c.w.typ("edlisp", "FunctionDoc")
		for i := 0; i < s.NumFields(); i++ {
			if doc != nil && types.Identical(t, doc) && s.Field(i).Name() != "Name" {
				continue
			}
			if !same(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

// registryKeys: maps of documentation are keyed by its name.
func (k *orderCk) registryKeys() {
	doc := k.c.w.typ("edlisp", "FunctionDoc")
	if !k.r.check(doc != nil, "resolved", "edlisp.FunctionDoc", "not found") {
		return
	}
	st, _ := doc.Underlying().(*types.Struct)
	for _, f := range k.g.fns {
		eachInstr(f, func(in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			mt := m.Map.Type().Underlying().(*types.Map)
			t := mt.Elem()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if !types.Identical(t, doc) {
				return
			}
			con := k.at(f, "entry of a map of documentation", m.Pos())
			k.r.check(k.nameOf(m.Key, m.Value, st), "documentation is identified by its name", con, "the key is not the Name of the entry")
		})
	}
}

// nameOf: key is the Name field of val.
func (k *orderCk) nameOf(key, val ssa.Value, st *types.Struct) bool {
	isName := func(i int) bool { return st.Field(i).Name() == "Name" }
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		x, ok1 := a.(*ssa.UnOp)
		y, ok2 := b.(*ssa.UnOp)
		return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
	}
	switch x := key.(type) {
	case *ssa.Field:
		return isName(x.Field) && same(x.X, val)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || !isName(fa.Field) {
			return false
		}
		if fa.X == val {
			return true
		}
		u, ok := val.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == fa.X
	}
	return false
}

// ---- addresses ------------------------------------------------------------------

var fmtArgs = map[string]int{"Printf": 0, "Sprintf": 0, "Errorf": 0, "Fprintf": 1, "Appendf": 1, "Print": -1, "Println": -1, "Sprint": -1, "Sprintln": -1, "Fprint": -1, "Fprintln": -1, "Append": -1, "Appendln": -1}

// addresses: nothing formatted by package fmt shows an address.
func (k *orderCk) addresses(f *ssa.Function, c *ssa.Call) {
	h := c.Common().StaticCallee()
	if h == nil || fnPkg(h) != "fmt" {
		return
	}
	fi, ok := fmtArgs[h.Name()]
	if !ok {
		return
	}
	args := c.Common().Args
	con := k.at(f, "fmt."+h.Name(), c.Pos())
	var verbs []byte
	if fi >= 0 {
		cst, ok := args[fi].(*ssa.Const)
		if ok && cst.Value != nil && cst.Value.Kind() == constant.String {
			verbs = fmtVerbs(constant.StringVal(cst.Value))
		}
	}
	vals := variadic(args[len(args)-1])
	for i, v := range vals {
		verb := byte('v')
		if verbs != nil {
			if i >= len(verbs) {
				break
			}
			verb = verbs[i]
		}
		t := v.Type()
		for {
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
				t = v.Type()
				continue
			}
			if m, ok := v.(*ssa.ChangeInterface); ok {
				v = m.X
				t = v.Type()
				continue
			}
			break
		}
		why := ""
		switch verb {
		case 'T':
		case 'p':
			why = "prints an address"
		default:
			if w := k.showsAddress(t, 0, true, map[types.Type]bool{}); w != "" {
				why = "prints " + w
			}
		}
		k.r.check(why == "", "results do not depend on addresses", con, "argument %d: %s", i+1, why)
	}
}

// variadic lists the values passed as a variadic argument.
func variadic(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		idx, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		n := int(idx.Int64())
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				for len(out) <= n {
					out = append(out, nil)
				}
				out[n] = st.Val
			}
		}
	}
	for i, o := range out {
		if o == nil {
			return out[:i]
		}
	}
	return out
}

// fmtVerbs lists the verbs of a format, one per argument consumed.
func fmtVerbs(s string) []byte {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[i]) >= 0 {
			if s[i] == '*' {
				out = append(out, 'd')
			}
			i++
		}
		if i < len(s) && s[i] != '%' {
			out = append(out, s[i])
		}
	}
	return out
}

// showsAddress: formatting a value of type t may print an address.
func (k *orderCk) showsAddress(t types.Type, depth int, methods bool, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if methods {
		ms := k.g.w.prog.MethodSets.MethodSet(t)
		for _, n := range []string{"Error", "String", "Format"} {
			if s := ms.Lookup(nil, n); s != nil {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Map, *types.Array:
			if depth == 0 {
				return k.showsAddress(u.Elem(), 1, methods, seen)
			}
		}
		return "the address held by a " + shortType(t)
	case *types.Chan, *types.Signature:
		return "the address of a " + shortType(t)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "an address"
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := k.showsAddress(u.Field(i).Type(), depth+1, methods && u.Field(i).Exported(), seen); w != "" {
				return w
			}
		}
	case *types.Slice:
		return k.showsAddress(u.Elem(), depth+1, methods, seen)
	case *types.Array:
		return k.showsAddress(u.Elem(), depth+1, methods, seen)
	case *types.Map:
		if w := k.showsAddress(u.Key(), depth+1, methods, seen); w != "" {
			return w
		}
		return k.showsAddress(u.Elem(), depth+1, methods, seen)
	case *types.Interface:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			an := newAn(k.g.w)
			for _, x := range an.implementers(t) {
				if w := k.showsAddress(x, depth, methods, seen); w != "" {
					return w
				}
			}
		}
	}
	return ""
}
