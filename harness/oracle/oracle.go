// Package oracle is the reference model: exact binary numbers as an integer
// significand and an integer exponent, IEEE-754 rounding to nearest even done
// on the integers, and the bit layouts of the formats. It uses no big.Float
// arithmetic and no rounding of the library under test; big.Float is only taken
// apart (MantExp, Int) and put together (SetInt, SetMantExp), exactly.
package oracle

import (
	"fmt"
	"math/big"
)

type Kind uint8

const (
	Finite Kind = iota
	Inf
	NaN
)

// Num is NaN, an infinity, or (-1)^Neg * M * 2^E with M >= 0; M is odd, or zero
// with E zero.
type Num struct {
	Kind Kind
	Neg  bool
	M    *big.Int
	E    int64
}

func (n Num) String() string {
	s := "+"
	if n.Neg {
		s = "-"
	}
	switch n.Kind {
	case Inf:
		return s + "Inf"
	case NaN:
		return s + "NaN"
	}
	if n.M.Sign() == 0 {
		return s + "0"
	}
	return fmt.Sprintf("%s0x%sp%d", s, n.M.Text(16), n.E)
}

// Mk returns the finite number (-1)^neg * m * 2^e.
func Mk(neg bool, m *big.Int, e int64) Num {
	if m.Sign() < 0 {
		panic("oracle: negative significand")
	}
	if m.Sign() == 0 {
		return Num{Neg: neg, M: new(big.Int)}
	}
	if tz := m.TrailingZeroBits(); tz > 0 {
		m = new(big.Int).Rsh(m, tz)
		e += int64(tz)
	}
	return Num{Neg: neg, M: m, E: e}
}

func MkU(neg bool, m uint64, e int64) Num { return Mk(neg, new(big.Int).SetUint64(m), e) }
func MkInf(neg bool) Num                  { return Num{Kind: Inf, Neg: neg, M: new(big.Int)} }
func MkNaN(neg bool) Num                  { return Num{Kind: NaN, Neg: neg, M: new(big.Int)} }
func MkZero(neg bool) Num                 { return Num{Neg: neg, M: new(big.Int)} }

func (n Num) IsZero() bool { return n.Kind == Finite && n.M.Sign() == 0 }

// Top is the exponent of the leading bit of a non-zero finite number.
func (n Num) Top() int64 { return n.E + int64(n.M.BitLen()) - 1 }

func (n Num) Negate() Num { n.Neg = !n.Neg; return n }

// Same reports whether a and b are the same datum: same kind, same sign (of
// zeros, infinities and NaNs too) and same magnitude.
func Same(a, b Num) bool {
	if a.Kind != b.Kind || a.Neg != b.Neg {
		return false
	}
	return a.Kind != Finite || a.E == b.E && a.M.Cmp(b.M) == 0
}

func cmpMag(a, b Num) int {
	if a.Kind == Inf || b.Kind == Inf {
		switch {
		case a.Kind == b.Kind:
			return 0
		case a.Kind == Inf:
			return 1
		}
		return -1
	}
	switch {
	case a.IsZero() && b.IsZero():
		return 0
	case a.IsZero():
		return -1
	case b.IsZero():
		return 1
	}
	if at, bt := a.Top(), b.Top(); at != bt {
		if at < bt {
			return -1
		}
		return 1
	}
	am, bm := a.M, b.M
	if a.E > b.E {
		am = new(big.Int).Lsh(am, uint(a.E-b.E))
	} else if b.E > a.E {
		bm = new(big.Int).Lsh(bm, uint(b.E-a.E))
	}
	return am.Cmp(bm)
}

// Cmp orders numbers (not NaN); the two zeros are equal.
func Cmp(a, b Num) int {
	if a.IsZero() && b.IsZero() {
		return 0
	}
	if a.Neg != b.Neg {
		if a.Neg {
			return -1
		}
		return 1
	}
	c := cmpMag(a, b)
	if a.Neg {
		return -c
	}
	return c
}

// Add is the exact sum of two finite numbers; an exact zero sum is +0 unless
// both are -0.
func Add(a, b Num) Num {
	if a.IsZero() && b.IsZero() {
		return MkZero(a.Neg && b.Neg)
	}
	if a.IsZero() {
		return b
	}
	if b.IsZero() {
		return a
	}
	e := a.E
	if b.E < e {
		e = b.E
	}
	x := new(big.Int).Lsh(a.M, uint(a.E-e))
	y := new(big.Int).Lsh(b.M, uint(b.E-e))
	if a.Neg {
		x.Neg(x)
	}
	if b.Neg {
		y.Neg(y)
	}
	x.Add(x, y)
	neg := x.Sign() < 0
	return Mk(neg, x.Abs(x), e)
}

func Sub(a, b Num) Num { return Add(a, b.Negate()) }

// Fmt is a binary floating-point format: P significand bits, leading-bit
// exponents Emin..Emax for normal numbers.
type Fmt struct {
	Name       string
	P          int
	Emin, Emax int64
}

var (
	F16  = Fmt{"binary16", 11, -14, 15}
	BF16 = Fmt{"bfloat", 8, -126, 127}
	F32  = Fmt{"float32", 24, -126, 127}
	F64  = Fmt{"float64", 53, -1022, 1023}
	F80  = Fmt{"float80x86", 64, -16382, 16383}
	F128 = Fmt{"binary128", 113, -16382, 16383}
)

// Round rounds n to the nearest value of the format, ties to even, once. acc is
// the sign of result - n.
func (f Fmt) Round(n Num) (r Num, acc int) {
	if n.Kind != Finite || n.IsZero() {
		return n, 0
	}
	ulp := n.Top() - int64(f.P-1)
	if m := f.Emin - int64(f.P-1); ulp < m {
		ulp = m
	}
	r, mag := n, 0 // mag: sign of |r| - |n|
	if n.E < ulp {
		shift := ulp - n.E
		if shift > int64(n.M.BitLen())+1 {
			r, mag = MkZero(n.Neg), -1
		} else {
			q := new(big.Int).Rsh(n.M, uint(shift))
			rem := new(big.Int).Sub(n.M, new(big.Int).Lsh(q, uint(shift)))
			half := new(big.Int).Lsh(big.NewInt(1), uint(shift-1))
			c := rem.Cmp(half)
			switch {
			case rem.Sign() == 0:
			case c > 0 || c == 0 && q.Bit(0) == 1:
				q.Add(q, big.NewInt(1))
				mag = 1
			default:
				mag = -1
			}
			r = Mk(n.Neg, q, ulp)
		}
	}
	if !r.IsZero() && r.Top() > f.Emax {
		r, mag = MkInf(n.Neg), 1
	}
	if n.Neg {
		mag = -mag
	}
	return r, mag
}

// Holds reports whether the format has the value n.
func (f Fmt) Holds(n Num) bool {
	r, _ := f.Round(n)
	return Same(r, n)
}

// Class names the region of the format n falls in, for coverage accounting.
func (f Fmt) Class(n Num) string {
	switch {
	case n.Kind == NaN:
		return "nan"
	case n.Kind == Inf:
		return "inf"
	case n.IsZero():
		return "zero"
	}
	r, acc := f.Round(n)
	s := ""
	switch {
	case r.Kind == Inf:
		return "overflow"
	case r.IsZero():
		return "underflow"
	case n.Top() < f.Emin && r.Top() >= f.Emin:
		s = "subnormal-to-normal"
	case r.Top() < f.Emin:
		s = "subnormal"
	case r.Top() != n.Top():
		s = "carry"
	default:
		s = "normal"
	}
	if acc == 0 {
		return s + "-exact"
	}
	if f.tie(n) {
		return s + "-tie"
	}
	return s + "-rounded"
}

func (f Fmt) tie(n Num) bool {
	ulp := n.Top() - int64(f.P-1)
	if m := f.Emin - int64(f.P-1); ulp < m {
		ulp = m
	}
	return n.E == ulp-1
}

// Decode reads IEEE interchange bits with a hidden lead bit (not F80).
func (f Fmt) Decode(bits *big.Int) Num {
	fb := uint(f.P - 1)
	eb := uint(new(big.Int).SetInt64(f.Emax).BitLen() + 1)
	frac := new(big.Int).And(bits, mask(fb))
	exp := new(big.Int).And(new(big.Int).Rsh(bits, fb), mask(eb)).Int64()
	neg := bits.Bit(int(fb+eb)) == 1
	switch exp {
	case 1<<eb - 1:
		if frac.Sign() != 0 {
			return MkNaN(neg)
		}
		return MkInf(neg)
	case 0:
		return Mk(neg, frac, f.Emin-int64(fb))
	}
	frac.SetBit(frac, int(fb), 1)
	return Mk(neg, frac, exp-f.Emax-int64(fb))
}

// Encode is the inverse of Decode for numbers the format holds.
func (f Fmt) Encode(n Num) *big.Int {
	fb := uint(f.P - 1)
	eb := uint(new(big.Int).SetInt64(f.Emax).BitLen() + 1)
	b := new(big.Int)
	switch {
	case n.Kind == Inf:
		b.Lsh(mask(eb), fb)
	case n.Kind == NaN:
		panic("oracle: Encode(NaN)")
	case n.IsZero():
	case n.Top() < f.Emin:
		b.Lsh(n.M, uint(n.E-(f.Emin-int64(fb))))
	default:
		b.Lsh(n.M, uint(n.E-(n.Top()-int64(fb))))
		b.SetBit(b, int(fb), 0)
		b.Or(b, new(big.Int).Lsh(big.NewInt(n.Top()+f.Emax), fb))
	}
	if n.Neg {
		b.SetBit(b, int(fb+eb), 1)
	}
	return b
}

func mask(n uint) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), n)
	return m.Sub(m, big.NewInt(1))
}

// DecodeF80 reads an x87 encoding; every encoding has a meaning here: unnormals
// and pseudo-denormals take the value of their explicit significand.
func DecodeF80(se uint16, m uint64) Num {
	neg := se>>15 == 1
	exp := int64(se & 0x7FFF)
	if exp == 0x7FFF {
		if m == 1<<63 {
			return MkInf(neg)
		}
		return MkNaN(neg)
	}
	if exp == 0 {
		exp = 1
	}
	return MkU(neg, m, exp-16383-63)
}

// CanonicalF80: the lead bit is set exactly when the exponent is non-zero.
func CanonicalF80(se uint16, m uint64) bool {
	return (se&0x7FFF != 0) == (m>>63 == 1)
}

func EncodeF80(n Num) (se uint16, m uint64) {
	switch {
	case n.Kind == Inf:
		se, m = 0x7FFF, 1<<63
	case n.Kind == NaN:
		panic("oracle: EncodeF80(NaN)")
	case n.IsZero():
	case n.Top() < F80.Emin:
		m = new(big.Int).Lsh(n.M, uint(n.E-(F80.Emin-63))).Uint64()
	default:
		m = new(big.Int).Lsh(n.M, uint(n.E-(n.Top()-63))).Uint64()
		se = uint16(n.Top() + 16383)
	}
	if n.Neg {
		se |= 0x8000
	}
	return se, m
}

func Words128(b *big.Int) (hi, lo uint64) {
	lo = new(big.Int).And(b, mask(64)).Uint64()
	return new(big.Int).Rsh(b, 64).Uint64(), lo
}

func Join128(hi, lo uint64) *big.Int {
	b := new(big.Int).SetUint64(hi)
	return b.Or(b.Lsh(b, 64), new(big.Int).SetUint64(lo))
}

func Dec64(bits uint64) Num { return F64.Decode(new(big.Int).SetUint64(bits)) }
func Dec32(bits uint32) Num { return F32.Decode(new(big.Int).SetUint64(uint64(bits))) }
func Dec16(bits uint16) Num { return F16.Decode(new(big.Int).SetUint64(uint64(bits))) }
func Enc64(n Num) uint64    { return F64.Encode(n).Uint64() }
func Enc32(n Num) uint32    { return uint32(F32.Encode(n).Uint64()) }
func Enc16(n Num) uint16    { return uint16(F16.Encode(n).Uint64()) }

// DecPPC is the meaning of a double-double pair: the exact sum. The sign of a
// NaN is that of high when high is a NaN; signKnown reports that.
func DecPPC(h, l uint64) (n Num, signKnown bool) {
	a, b := Dec64(h), Dec64(l)
	switch {
	case a.Kind == NaN:
		return a, true
	case b.Kind == NaN:
		return b, false
	case a.Kind == Inf && b.Kind == Inf && a.Neg != b.Neg:
		return MkNaN(false), false
	case a.Kind == Inf:
		return a, true
	case b.Kind == Inf:
		return b, true
	}
	s := Add(a, b)
	if s.IsZero() {
		// Only a -0 high part is specified: the sum is then -0.
		s.Neg = a.IsZero() && a.Neg
		return s, a.IsZero()
	}
	return s, true
}

// CanonicalPPC: high is the double nearest the sum; low is not -0 and is zero
// when high is infinite.
func CanonicalPPC(h, l uint64) bool {
	a, b := Dec64(h), Dec64(l)
	if a.Kind == NaN || b.Kind == NaN || b.Kind == Inf {
		return false
	}
	if b.IsZero() {
		return !b.Neg
	}
	if a.Kind == Inf {
		return false
	}
	r, _ := F64.Round(Add(a, b))
	return Same(r, a)
}

// EncPPC is the specified double-double encoding of x, and the sign of the
// error.
func EncPPC(x Num) (h, l uint64, acc int) {
	hi, acc := F64.Round(x)
	h = Enc64(hi)
	if x.Kind != Finite || hi.Kind == Inf || x.IsZero() {
		return h, 0, acc
	}
	lo, acc := F64.Round(Sub(x, hi))
	return h, Enc64(lo), acc
}

// FromBig takes a big.Float apart, exactly.
func FromBig(x *big.Float) Num {
	if x.IsInf() {
		return MkInf(x.Signbit())
	}
	if x.Sign() == 0 {
		return MkZero(x.Signbit())
	}
	mant := new(big.Float)
	e := x.MantExp(mant)
	mp := int(mant.MinPrec())
	mant.SetMantExp(mant, mp)
	m, acc := mant.Int(nil)
	if acc != big.Exact {
		panic("oracle: FromBig")
	}
	return Mk(x.Signbit(), m.Abs(m), int64(e)-int64(mp))
}

// ToBig builds a big.Float of the given precision and mode that holds n exactly.
func ToBig(n Num, prec uint, mode big.RoundingMode) *big.Float {
	z := new(big.Float).SetPrec(prec).SetMode(mode)
	switch {
	case n.Kind == Inf:
		return z.SetInf(n.Neg)
	case n.Kind == NaN:
		panic("oracle: ToBig(NaN)")
	case n.IsZero():
	default:
		if uint(n.M.BitLen()) > prec {
			panic("oracle: ToBig: precision too small")
		}
		z.SetInt(n.M)
		z.SetMantExp(z, int(n.E))
		if z.IsInf() || z.Sign() == 0 {
			panic("oracle: ToBig: exponent out of range")
		}
	}
	if n.Neg {
		z.Neg(z)
	}
	z.SetMode(mode)
	return z
}
