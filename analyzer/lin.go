package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
)

// Sym is an integer-valued symbol of the abstract state.
type Sym int32

// Term is coefficient*symbol.
type Term struct {
	S Sym
	C int64
}

// Lin is a linear expression over symbols. The zero value is the constant 0.
// Lin values are immutable.
type Lin struct {
	T []Term   // sorted by symbol, no zero coefficients
	K *big.Int // nil means 0
}

var bigZero = new(big.Int)

func (l Lin) k() *big.Int {
	if l.K == nil {
		return bigZero
	}
	return l.K
}

func lc(n int64) Lin { return Lin{K: big.NewInt(n)} }
func lbig(b *big.Int) Lin {
	return Lin{K: b}
}
func ls(s Sym) Lin { return Lin{T: []Term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.T) == 0 }

// constInt returns the constant value if l is a constant that fits int64.
func (l Lin) constInt() (int64, bool) {
	if len(l.T) != 0 || !l.k().IsInt64() {
		return 0, false
	}
	return l.k().Int64(), true
}

func (l Lin) isZero() bool { return len(l.T) == 0 && l.k().Sign() == 0 }

func (l Lin) comb(m Lin, c int64) Lin { // l + c*m
	if c == 0 {
		return l
	}
	out := make([]Term, 0, len(l.T)+len(m.T))
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].S < m.T[j].S):
			out = append(out, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].S < l.T[i].S:
			out = append(out, Term{m.T[j].S, c * m.T[j].C})
			j++
		default:
			if s := l.T[i].C + c*m.T[j].C; s != 0 {
				out = append(out, Term{l.T[i].S, s})
			}
			i++
			j++
		}
	}
	k := new(big.Int).Mul(m.k(), big.NewInt(c))
	k.Add(k, l.k())
	return Lin{T: out, K: k}
}

func (l Lin) add(m Lin) Lin    { return l.comb(m, 1) }
func (l Lin) sub(m Lin) Lin    { return l.comb(m, -1) }
func (l Lin) addk(n int64) Lin { return Lin{T: l.T, K: new(big.Int).Add(l.k(), big.NewInt(n))} }
func (l Lin) neg() Lin         { return Lin{}.comb(l, -1) }
func (l Lin) mulk(c int64) Lin { return Lin{}.comb(l, c) }

// singleSym reports whether l is exactly one symbol with coefficient 1.
func (l Lin) singleSym() (Sym, bool) {
	if len(l.T) == 1 && l.T[0].C == 1 && l.k().Sign() == 0 {
		return l.T[0].S, true
	}
	return 0, false
}

// key is a canonical text of l.
func (l Lin) key() string {
	var b strings.Builder
	for _, t := range l.T {
		fmt.Fprintf(&b, "%+d*%d", t.C, t.S)
	}
	b.WriteString("|")
	b.WriteString(l.k().String())
	return b.String()
}

func (l Lin) eqSyn(m Lin) bool {
	if len(l.T) != len(m.T) || l.k().Cmp(m.k()) != 0 {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

// Simplex decides feasibility of conjunctions of linear constraints over the
// rationals (general simplex with bounds, Bland's rule). Constraints are
// tightened for integer variables where this is immediate.
type Simplex struct {
	vars []svar
	rows []srow
	dead bool
	// names are appended to, never changed, and shared by clones
	names []sname
	own   []bool // rows not shared with a clone
}

type svar struct {
	lo, hi, val  Q
	hasLo, hasHi bool
	row          int32 // row index, or -1 if nonbasic
}

// sname is what a variable stands for: a symbol, or a sum.
type sname struct {
	sym   Sym
	slack string
}

// srow is a row; coefficients beyond len(cf) are zero.
type srow struct {
	basic int
	cf    []Q // over vars; zero for basic vars
}

func (r *srow) at(v int) Q {
	if v < len(r.cf) {
		return r.cf[v]
	}
	return qi(0)
}

// mut makes row i writable, with n columns at least.
func (s *Simplex) mut(i, n int) []Q {
	for len(s.own) <= i {
		s.own = append(s.own, false)
	}
	cf := s.rows[i].cf
	if !s.own[i] || len(cf) < n {
		m := max(n, len(cf))
		nc := make([]Q, m, m+4)
		k := copy(nc, cf)
		for ; k < m; k++ {
			nc[k] = qi(0)
		}
		s.own[i] = true
		s.rows[i].cf = nc
		return nc
	}
	return cf
}

// freeze gives up ownership, so that clones may share the rows.
func (s *Simplex) freeze() {
	if s.own != nil {
		s.own = nil
	}
}

func newSimplex() *Simplex { return &Simplex{} }

func (s *Simplex) clone() *Simplex {
	s.freeze()
	n := &Simplex{dead: s.dead, names: s.names[:len(s.names):len(s.names)]}
	n.vars = make([]svar, len(s.vars), len(s.vars)+2)
	copy(n.vars, s.vars)
	n.rows = make([]srow, len(s.rows), len(s.rows)+1)
	copy(n.rows, s.rows)
	return n
}

func (s *Simplex) newVar(n sname) int {
	v := len(s.vars)
	s.vars = append(s.vars, svar{lo: qi(0), hi: qi(0), val: qi(0), row: -1})
	s.names = append(s.names, n)
	return v
}

// symVar is the variable of a symbol, if it has one.
func (s *Simplex) symVar(y Sym) (int, bool) {
	for i := range s.names {
		if n := &s.names[i]; n.sym == y && n.slack == "" {
			return i, true
		}
	}
	return 0, false
}

func (s *Simplex) slackVar(key string) (int, bool) {
	for i := range s.names {
		if s.names[i].slack == key {
			return i, true
		}
	}
	return 0, false
}

func (s *Simplex) varOf(y Sym) int {
	if v, ok := s.symVar(y); ok {
		return v
	}
	return s.newVar(sname{sym: y})
}

func floorDiv(a *big.Int, b int64) *big.Int { // b > 0
	q, m := new(big.Int).DivMod(a, big.NewInt(b), new(big.Int))
	_ = m
	return q
}

// add asserts l >= 0 (or l == 0 when eq). It returns false on an immediate
// contradiction.
func (s *Simplex) add(l Lin, eq bool) bool {
	if s.dead {
		return false
	}
	if l.isConst() {
		sg := l.k().Sign()
		if (eq && sg != 0) || (!eq && sg < 0) {
			s.dead = true
			return false
		}
		return true
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd64(g, t.C)
	}
	if eq && g > 1 {
		if new(big.Int).Mod(l.k(), big.NewInt(g)).Sign() != 0 {
			s.dead = true
			return false
		}
	}
	// sum(c/g x) >= ceil(-k/g) = -floor(k/g)
	bound := floorDiv(l.k(), g)
	bound.Neg(bound)
	// normalise the sign so that slack variables are shared
	sign := int64(1)
	if l.T[0].C < 0 {
		sign = -1
	}
	var v int
	if len(l.T) == 1 {
		v = s.varOf(l.T[0].S)
	} else {
		var kb strings.Builder
		for _, t := range l.T {
			kb.WriteString(strconv.FormatInt(sign*t.C/g, 10))
			kb.WriteByte('*')
			kb.WriteString(strconv.FormatInt(int64(t.S), 10))
			kb.WriteByte(' ')
		}
		if w, ok := s.slackVar(kb.String()); ok {
			v = w
		} else {
			cols := make([]int, len(l.T))
			for i, t := range l.T {
				cols[i] = s.varOf(t.S)
			}
			v = s.newVar(sname{slack: kb.String()})
			cf := make([]Q, len(s.vars))
			for i := range cf {
				cf[i] = qi(0)
			}
			val := qi(0)
			for i, t := range l.T {
				c := qi(sign * t.C / g)
				x := cols[i]
				val = val.add(c.mul(s.vars[x].val))
				if r := s.vars[x].row; r >= 0 {
					for j, q := range s.rows[r].cf {
						if !q.isZero() {
							cf[j] = cf[j].add(c.mul(q))
						}
					}
				} else {
					cf[x] = cf[x].add(c)
				}
			}
			s.vars[v].val = val
			s.vars[v].row = int32(len(s.rows))
			s.rows = append(s.rows, srow{basic: v, cf: cf})
		}
	}
	b := qint(bound)
	if eq {
		if sign < 0 {
			b = b.neg()
		}
		return s.setLo(v, b) && s.setHi(v, b)
	}
	if sign > 0 {
		return s.setLo(v, b)
	}
	return s.setHi(v, b.neg())
}

func (s *Simplex) setLo(v int, b Q) bool {
	if s.vars[v].hasLo && s.vars[v].lo.cmp(b) >= 0 {
		return true
	}
	s.vars[v].hasLo, s.vars[v].lo = true, b
	if s.vars[v].hasHi && s.vars[v].hi.cmp(b) < 0 {
		s.dead = true
		return false
	}
	if s.vars[v].row < 0 && s.vars[v].val.cmp(b) < 0 {
		s.update(v, b)
	}
	return true
}

func (s *Simplex) setHi(v int, b Q) bool {
	if s.vars[v].hasHi && s.vars[v].hi.cmp(b) <= 0 {
		return true
	}
	s.vars[v].hasHi, s.vars[v].hi = true, b
	if s.vars[v].hasLo && s.vars[v].lo.cmp(b) > 0 {
		s.dead = true
		return false
	}
	if s.vars[v].row < 0 && s.vars[v].val.cmp(b) > 0 {
		s.update(v, b)
	}
	return true
}

func (s *Simplex) update(v int, b Q) {
	d := b.sub(s.vars[v].val)
	for i := range s.rows {
		if c := s.rows[i].at(v); !c.isZero() {
			x := s.rows[i].basic
			s.vars[x].val = s.vars[x].val.add(c.mul(d))
		}
	}
	s.vars[v].val = b
}

func (s *Simplex) pivot(r, v int) { // make v basic in row r
	row := &s.rows[r]
	x := row.basic
	a := row.at(v).inv()
	// v = (1/a)(x - sum others)
	n := max(len(row.cf), x+1, v+1)
	nc := make([]Q, n)
	for j := 0; j < n; j++ {
		if c := row.at(j); j == v || c.isZero() {
			nc[j] = qi(0)
		} else {
			nc[j] = c.mul(a).neg()
		}
	}
	nc[x] = a
	row.cf = nc
	for len(s.own) <= r {
		s.own = append(s.own, false)
	}
	s.own[r] = true
	row.basic = v
	s.vars[v].row = int32(r)
	s.vars[x].row = -1
	for i := range s.rows {
		if i == r {
			continue
		}
		c := s.rows[i].at(v)
		if c.isZero() {
			continue
		}
		cf := s.mut(i, n)
		cf[v] = qi(0)
		for j := 0; j < n; j++ {
			if !nc[j].isZero() {
				cf[j] = cf[j].add(c.mul(nc[j]))
			}
		}
	}
}

// check decides feasibility; on success val is a model.
func (s *Simplex) check() bool {
	if s.dead {
		return false
	}
	for {
		// smallest violated basic variable
		best := -1
		low := false
		for _, r := range s.rows {
			x := r.basic
			if best >= 0 && x > best {
				continue
			}
			if s.vars[x].hasLo && s.vars[x].val.cmp(s.vars[x].lo) < 0 {
				best, low = x, true
			} else if s.vars[x].hasHi && s.vars[x].val.cmp(s.vars[x].hi) > 0 {
				best, low = x, false
			}
		}
		if best < 0 {
			return true
		}
		r := int(s.vars[best].row)
		row := s.rows[r]
		pick := -1
		for j, c := range row.cf {
			if c.isZero() || s.vars[j].row >= 0 {
				continue
			}
			sg := c.sign()
			if !low {
				sg = -sg
			}
			// need to increase (low) basic: increase j if coefficient positive
			if sg > 0 {
				if !s.vars[j].hasHi || s.vars[j].val.cmp(s.vars[j].hi) < 0 {
					pick = j
					break
				}
			} else {
				if !s.vars[j].hasLo || s.vars[j].val.cmp(s.vars[j].lo) > 0 {
					pick = j
					break
				}
			}
		}
		if pick < 0 {
			s.dead = true
			return false
		}
		target := s.vars[best].lo
		if !low {
			target = s.vars[best].hi
		}
		theta := target.sub(s.vars[best].val).mul(row.at(pick).inv())
		s.vars[best].val = target
		s.vars[pick].val = s.vars[pick].val.add(theta)
		for i := range s.rows {
			if i == r {
				continue
			}
			if c := s.rows[i].at(pick); !c.isZero() {
				x := s.rows[i].basic
				s.vars[x].val = s.vars[x].val.add(c.mul(theta))
			}
		}
		s.pivot(r, pick)
	}
}

// eval evaluates l in the current model.
func (s *Simplex) eval(l Lin) Q {
	v := qint(l.k())
	for _, t := range l.T {
		if x, ok := s.symVar(t.S); ok {
			v = v.add(qi(t.C).mul(s.vars[x].val))
		}
	}
	return v
}

// Poly is a persistent conjunction of linear constraints.
type Poly struct {
	cons []Con
	sx   *Simplex // solved
	used *atomic.Int64
}

// Con is L >= 0, or L == 0 when Eq.
type Con struct {
	L  Lin
	Eq bool
}

func newPoly() *Poly {
	return &Poly{sx: newSimplex()}
}

// with returns p and the new constraint, or nil if infeasible.
func (p *Poly) with(l Lin, eq bool) *Poly {
	if l.isConst() {
		sg := l.k().Sign()
		if (eq && sg != 0) || (!eq && sg < 0) {
			return nil
		}
		return p
	}
	for i := len(p.cons) - 1; i >= 0; i-- {
		if c := p.cons[i]; c.Eq == eq && c.L.eqSyn(l) {
			return p
		}
	}
	n := &Poly{}
	n.sx = p.sx.clone()
	if !n.sx.add(l, eq) || !n.sx.check() {
		return nil
	}
	n.sx.freeze()
	k := len(p.cons)
	if p.used != nil && k < cap(p.cons) && p.used.CompareAndSwap(int64(k), int64(k+1)) {
		// the first to go on from p continues in p's array
		n.cons, n.used = p.cons[:k+1], p.used
		n.cons[k] = Con{l, eq}
		return n
	}
	n.cons = append(make([]Con, 0, k+k/2+8), p.cons...)
	n.cons = append(n.cons, Con{l, eq})
	n.used = new(atomic.Int64)
	n.used.Store(int64(k + 1))
	return n
}

func sortedSyms(m map[Sym]bool) []Sym {
	out := make([]Sym, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
