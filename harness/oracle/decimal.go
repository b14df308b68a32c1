package oracle

import (
	"math/big"
	"strings"
)

// Dec is a positive decimal: the digits D (no leading or trailing zero) times
// 10^E.
type Dec struct {
	D string
	E int
}

func mkDec(d *big.Int, e int) Dec {
	s := d.String()
	t := strings.TrimRight(s, "0")
	return Dec{t, e + len(s) - len(t)}
}

// Exact is the exact decimal of the magnitude of a finite non-zero n.
func Exact(n Num) Dec {
	if n.E >= 0 {
		return mkDec(new(big.Int).Lsh(n.M, uint(n.E)), 0)
	}
	// m * 2^-k = m * 5^k * 10^-k
	p := new(big.Int).Exp(big.NewInt(5), big.NewInt(-n.E), nil)
	return mkDec(p.Mul(p, n.M), int(n.E))
}

// Value is the exact rational of the decimal.
func (d Dec) Value() *big.Rat {
	m, ok := new(big.Int).SetString(d.D, 10)
	if !ok {
		panic("oracle: decimal digits")
	}
	r := new(big.Rat).SetInt(m)
	e := d.E
	if e < 0 {
		e = -e
	}
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil))
	if d.E < 0 {
		return r.Quo(r, p)
	}
	return r.Mul(r, p)
}

func rat(n Num) *big.Rat {
	r := new(big.Rat).SetInt(n.M)
	e := n.E
	if e < 0 {
		e = -e
	}
	p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(e)))
	if n.E < 0 {
		return r.Quo(r, p)
	}
	return r.Mul(r, p)
}

// Interval gives the bounds of the numbers that round to the magnitude of the
// finite non-zero n in f, and whether the bounds belong to it.
func (f Fmt) Interval(n Num) (lo, hi *big.Rat, incl bool) {
	ulp := n.Top() - int64(f.P-1)
	if m := f.Emin - int64(f.P-1); ulp < m {
		ulp = m
	}
	q := new(big.Int).Lsh(n.M, uint(n.E-ulp)) // n = q * 2^ulp
	two := func(k int64, e int64) *big.Rat {
		x := new(big.Int).Lsh(q, uint(k))
		return rat(Num{M: x, E: e})
	}
	half := rat(MkU(false, 1, ulp-1))
	hi = new(big.Rat).Add(two(0, ulp), half)
	down := half
	if q.BitLen() == f.P && q.TrailingZeroBits() == uint(f.P-1) && n.Top() > f.Emin {
		down = rat(MkU(false, 1, ulp-2))
	}
	lo = new(big.Rat).Sub(two(0, ulp), down)
	return lo, hi, q.Bit(0) == 0
}

// Shortest lists the decimals with the fewest significant digits that round to
// the magnitude of n in f and are closest to it (two on an exact tie).
func (f Fmt) Shortest(n Num) []Dec {
	lo, hi, incl := f.Interval(n)
	v := rat(n)
	in := func(r *big.Rat) bool {
		a, b := r.Cmp(lo), r.Cmp(hi)
		return (a > 0 || incl && a == 0) && (b < 0 || incl && b == 0)
	}
	ex := Exact(n)
	top := ex.E + len(ex.D) // value < 10^top
	for k := 1; ; k++ {
		e := top - k
		var cand []Dec
		q := new(big.Int)
		p := new(big.Rat).Quo(v, Dec{"1", e}.Value())
		q.Quo(p.Num(), p.Denom())
		var best *big.Rat
		for i := int64(0); i < 2; i++ {
			c := new(big.Int).Add(q, big.NewInt(i))
			if c.Sign() == 0 {
				continue
			}
			d := mkDec(c, e)
			r := d.Value()
			if !in(r) {
				continue
			}
			dist := new(big.Rat).Sub(r, v)
			dist.Abs(dist)
			switch {
			case best == nil || dist.Cmp(best) < 0:
				best, cand = dist, []Dec{d}
			case dist.Cmp(best) == 0:
				cand = append(cand, d)
			}
		}
		if len(cand) > 0 {
			return cand
		}
	}
}
