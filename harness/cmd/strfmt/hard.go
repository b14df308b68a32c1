package main

import (
	"math"
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// Numbers whose decimal digits are hard to decide: m * 2^e * scale is close to
// (but is not) an integer or half an integer multiple of a power of ten. They
// are found with the Euclid-like search for the first x with a*x mod M in a
// range, so they can be made as close as the format allows.

const hardBits = 256

var hardM = new(big.Int).Lsh(big.NewInt(1), hardBits)

// firstIn returns the smallest x >= 0 with l <= a*x mod m <= r (0 <= l <= r < m),
// or nil.
func firstIn(a, m, l, r *big.Int) *big.Int {
	if l.Sign() == 0 {
		return new(big.Int)
	}
	if a.Sign() == 0 {
		return nil
	}
	if new(big.Int).Lsh(a, 1).Cmp(m) > 0 {
		a, l, r = new(big.Int).Sub(m, a), new(big.Int).Sub(m, r), new(big.Int).Sub(m, l)
	}
	t := ceilDiv(l, a)
	if new(big.Int).Mul(t, a).Cmp(r) <= 0 {
		return t
	}
	// a*x - m*y in [l, r]: -m*y mod a in [l mod a, r mod a].
	na := new(big.Int).Mod(new(big.Int).Neg(m), a)
	y := firstIn(na, a, new(big.Int).Mod(l, a), new(big.Int).Mod(r, a))
	if y == nil {
		return nil
	}
	return ceilDiv(y.Mul(y, m).Add(y, l), a)
}

func ceilDiv(x, y *big.Int) *big.Int {
	q, r := new(big.Int).DivMod(x, y, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

// scaled returns the fraction bits of 2^e / 10^k.
func scaled(e, k int64) *big.Int {
	a := new(big.Int)
	if k < 0 {
		a.Exp(big.NewInt(10), big.NewInt(-k), nil)
	} else {
		a.SetInt64(1)
	}
	s := e + hardBits
	d := big.NewInt(1)
	if k > 0 {
		d.Exp(big.NewInt(10), big.NewInt(k), nil)
	}
	if s >= 0 {
		a.Lsh(a, uint(s))
	} else {
		d.Lsh(d, uint(-s))
	}
	a.Div(a, d)
	return a.Mod(a, hardM)
}

// genHard draws a float of the size and a number of digits at which its decimal
// (or the decimal of one of its rounding boundaries) is hard to decide.
func genHard(t *rapid.T, size int) (x float64, digits int, k int64, near bool) {
	mb, emin, emax := int64(53), int64(-1074), int64(971)
	if size == 32 {
		mb, emin, emax = 24, -149, 104
	}
	e := gen.Uniform(t, emin, emax)
	switch gen.Pick(t, "exp", 6, 1, 1, 2) {
	case 1:
		e = emin
	case 2:
		e = emin + gen.Uniform(t, 0, 3)
	case 3:
		e = gen.Uniform(t, -70, 20)
	}
	nb := mb
	if e == emin && gen.Bool(t, "subnormal") {
		nb = gen.Uniform(t, 5, mb-1)
	}
	lo := int64(1) << uint(nb-1)
	m0 := lo + gen.Uniform(t, 0, lo-1)
	digits = int(gen.Uniform(t, 1, 18))
	if gen.Bool(t, "full") {
		digits = int(float64(nb)*0.30103) + int(gen.Uniform(t, 0, 3))
	}
	// The decimal place of the last digit.
	k = int64(math.Floor((float64(e)+math.Log2(float64(m0)))*math.Log10(2))) - int64(digits) + 1
	// m*2^e, or a boundary (2m+1)*2^(e-1), against an integer or a half.
	side := int64(gen.Pick(t, "side", 2, 1, 1)) // 0: itself, 1: above, 2: below
	a := scaled(e, k)
	target := new(big.Int)
	if gen.Bool(t, "half") {
		target.Rsh(hardM, 1)
	}
	if side != 0 {
		h := scaled(e-1, k)
		if side == 1 {
			target.Sub(target, h)
		} else {
			target.Add(target, h)
		}
	}
	target.Sub(target, new(big.Int).Mul(a, big.NewInt(m0)))
	target.Mod(target, hardM)
	for w := rapid.IntRange(0, 40).Draw(t, "far"); ; w++ {
		// From 2^-(nb+8) up.
		s := int64(hardBits) - nb - 8 + int64(w)
		if s > hardBits-2 {
			break
		}
		h := new(big.Int).Lsh(big.NewInt(1), uint(s))
		l := new(big.Int).Sub(target, h)
		r := new(big.Int).Add(target, h)
		// One side of the target, so that both are seen.
		if gen.Bool(t, "below") {
			r.Set(target)
		} else {
			l.Set(target)
		}
		l.Mod(l, hardM)
		r.Mod(r, hardM)
		y := new(big.Int)
		if l.Cmp(r) <= 0 {
			if y = firstIn(a, hardM, l, r); y == nil {
				continue
			}
		}
		if !y.IsInt64() || y.Int64() >= 2*lo-m0 {
			continue
		}
		m := m0 + y.Int64()
		return math.Ldexp(float64(m), int(e)), digits, k, true
	}
	return math.Ldexp(float64(m0), int(e)), digits, k, false
}

func genHardCase(t *rapid.T) FloatCase {
	c := FloatCase{Size: 64}
	if gen.Pick(t, "size", 2, 1) == 1 {
		c.Size = 32
	}
	x, n, k, _ := genHard(t, c.Size)
	c.Bits = math.Float64bits(x) | sign(t)
	switch gen.Pick(t, "how", 4, 4, 1, 1) {
	case 0:
		c.Fmt, c.Prec = "e", -1
	case 1:
		c.Fmt, c.Prec = "e", n-1
	case 2:
		c.Fmt, c.Prec = "g", n
	case 3:
		c.Fmt, c.Prec = "f", int(-k)
		if k > 0 {
			c.Prec = 0
		}
	}
	return c
}

func runHard(c FloatCase) engine.Outcome {
	o := runStd(c)
	// How close: the distance of the value to the nearest half of the last
	// printed place, or of the shortest text's place, in bits.
	n := oracle.Dec64(c.Bits &^ (1 << 63))
	if n.IsZero() || n.Kind != oracle.Finite {
		o.Nontrivial = false
	}
	return o
}

// Multi-precision decimals are multiplied by 2^(step*j) and then by 2^r, and a
// table says from which decimal prefix on, 5^r, the latter adds one more digit.
// cutoffCase enumerates the float64s m * 2^(step*j+r) around those where the
// first product starts like 5^r, for the steps of 64- and 32-bit platforms.
func cutoffCase(i uint64) FloatCase {
	how := i % 3
	i /= 3
	off := int64(i%8) - 3
	i /= 8
	step, r, j := 60, 0, 0
	if i < cutoffs60 {
		r, j = int(i%60)+1, int(i/60)
	} else {
		i -= cutoffs60
		step = 28
		r, j = int(i%28)+1, int(i/28)
	}
	five := new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(r)), nil)
	m := new(big.Float).SetPrec(300).SetInt(five)
	m.SetMantExp(m, -step*j)
	ten := new(big.Float).SetPrec(300).SetInt64(10)
	lo, hi := new(big.Float).SetMantExp(big.NewFloat(1), 52), new(big.Float).SetMantExp(big.NewFloat(1), 53)
	for m.Cmp(lo) < 0 {
		m.Mul(m, ten)
	}
	for m.Cmp(hi) >= 0 {
		m.Quo(m, ten)
	}
	n, _ := m.Uint64()
	x := math.Ldexp(float64(n+uint64(off)), step*j+r)
	if math.IsInf(x, 0) {
		x = math.MaxFloat64
	}
	c := FloatCase{Size: 64, Bits: math.Float64bits(x), Fmt: "e", Prec: 17}
	switch how {
	case 1:
		c.Fmt, c.Prec = "f", 0
	case 2:
		c.Prec = 20
	}
	return c
}

const (
	cutoffs60 = 60 * 17
	cutoffs   = (cutoffs60 + 28*35) * 8 * 3
)
