package main

import (
	"math"
	"math/big"
	"math/bits"
)

// Q is an exact rational: n/d with d>0 when r is nil, otherwise *r.
type Q struct {
	n, d int64
	r    *big.Rat
}

func qi(n int64) Q { return Q{n: n, d: 1} }

func (a Q) big() *big.Rat {
	if a.r != nil {
		return a.r
	}
	return big.NewRat(a.n, a.d)
}

func qbig(r *big.Rat) Q {
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		return Q{n: r.Num().Int64(), d: r.Denom().Int64()}
	}
	return Q{r: r}
}

func qint(b *big.Int) Q {
	if b.IsInt64() {
		return qi(b.Int64())
	}
	return Q{r: new(big.Rat).SetInt(b)}
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func add64(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func norm(n, d int64) Q {
	if d == 1 {
		return Q{n: n, d: 1}
	}
	if n == 0 {
		return Q{n: 0, d: 1}
	}
	if n == math.MinInt64 {
		return qbig(new(big.Rat).SetFrac64(n, d))
	}
	g := gcd64(n, d)
	return Q{n: n / g, d: d / g}
}

func (a Q) add(b Q) Q {
	if a.r == nil && b.r == nil {
		if a.d == 1 && b.d == 1 {
			if s, ok := add64(a.n, b.n); ok {
				return Q{n: s, d: 1}
			}
		} else if x, ok := mul64(a.n, b.d); ok {
			if y, ok := mul64(b.n, a.d); ok {
				if z, ok := mul64(a.d, b.d); ok {
					if s, ok := add64(x, y); ok {
						return norm(s, z)
					}
				}
			}
		}
	}
	return qbig(new(big.Rat).Add(a.big(), b.big()))
}

func (a Q) neg() Q {
	if a.r == nil && a.n != math.MinInt64 {
		return Q{n: -a.n, d: a.d}
	}
	return qbig(new(big.Rat).Neg(a.big()))
}

func (a Q) sub(b Q) Q { return a.add(b.neg()) }

func (a Q) mul(b Q) Q {
	if a.r == nil && b.r == nil {
		if x, ok := mul64(a.n, b.n); ok {
			if y, ok := mul64(a.d, b.d); ok {
				return norm(x, y)
			}
		}
	}
	return qbig(new(big.Rat).Mul(a.big(), b.big()))
}

func (a Q) inv() Q {
	if a.r == nil && a.n != math.MinInt64 {
		if a.n < 0 {
			return Q{n: -a.d, d: -a.n}
		}
		return Q{n: a.d, d: a.n}
	}
	return qbig(new(big.Rat).Inv(a.big()))
}

func (a Q) sign() int {
	if a.r != nil {
		return a.r.Sign()
	}
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}

func (a Q) cmp(b Q) int {
	if a.r == nil && b.r == nil {
		if a.d == b.d {
			switch {
			case a.n < b.n:
				return -1
			case a.n > b.n:
				return 1
			}
			return 0
		}
		if x, ok := mul64(a.n, b.d); ok {
			if y, ok := mul64(b.n, a.d); ok {
				switch {
				case x < y:
					return -1
				case x > y:
					return 1
				}
				return 0
			}
		}
	}
	return a.big().Cmp(b.big())
}

func (a Q) isZero() bool { return a.r == nil && a.n == 0 }
