// Package gen draws structured cases with rapid: significand patterns, values
// at and around the rounding boundaries of a format, encodings.
package gen

import (
	"encoding/json"
	"math/big"
	"os"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/oracle"
)

// BigSpec describes one big.Float: the value, and how it is held.
type BigSpec struct {
	Form string `json:"form"` // "fin", "zero", "inf", "unset" (the zero value of big.Float)
	Neg  bool   `json:"neg,omitempty"`
	M    string `json:"m,omitempty"` // hexadecimal integer significand
	E    int64  `json:"e,omitempty"` // value = M * 2^E
	Prec uint   `json:"prec,omitempty"`
	Mode uint8  `json:"mode,omitempty"`
	// Acc: 0 exact; otherwise the float was produced by a rounding operation,
	// so it carries that accuracy.
	Acc int8 `json:"acc,omitempty"`
}

func (b BigSpec) Num() oracle.Num {
	switch b.Form {
	case "zero":
		return oracle.MkZero(b.Neg)
	case "unset":
		return oracle.MkZero(false)
	case "inf":
		return oracle.MkInf(b.Neg)
	}
	m, ok := new(big.Int).SetString(b.M, 16)
	if !ok {
		panic("harness: bad significand")
	}
	return oracle.Mk(b.Neg, m, b.E)
}

// Big builds the float.
func (b BigSpec) Big() *big.Float {
	if b.Form == "unset" {
		return new(big.Float)
	}
	n := b.Num()
	x := oracle.ToBig(n, b.Prec, big.RoundingMode(b.Mode))
	if b.Acc != 0 && b.Form == "fin" && b.Prec < 10000 {
		// Produce the same value by rounding away a tiny tail, so that the
		// accuracy field is not Exact.
		k := uint(b.Prec) + 4 - uint(n.M.BitLen())
		m := new(big.Int).Lsh(n.M, k)
		m.Add(m, big.NewInt(1))
		y := oracle.ToBig(oracle.Mk(n.Neg, m, n.E-int64(k)), b.Prec+4, big.ToZero)
		y.SetPrec(b.Prec)
		if y.Cmp(x) == 0 && y.Mode() == x.Mode() {
			return y
		}
	}
	return x
}

func (b BigSpec) Key() uint64 {
	h := uint64(0xcbf29ce484222325)
	add := func(x uint64) { h = engine.Mix(h ^ x) }
	for i := 0; i < len(b.M); i++ {
		h = (h ^ uint64(b.M[i])) * 0x100000001b3
	}
	add(uint64(b.E))
	add(uint64(len(b.Form))<<32 | uint64(b.Prec))
	add(uint64(b.Mode)<<8 | uint64(uint8(b.Acc)))
	if b.Neg {
		add(1)
	}
	return h
}

// dict is the constants of the sources under test (see cmd/dict): inputs are
// also drawn on and next to them.
var dict, dictSmall = load()

func load() (all, small []uint64) {
	f := os.Getenv("PBT_DICT")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := json.Unmarshal(b, &all); err != nil {
		panic("harness: " + err.Error())
	}
	for _, w := range all {
		if w <= 70000 {
			small = append(small, w)
		}
	}
	return
}

// Word draws a dictionary word, possibly nudged.
func Word(t *rapid.T) uint64 {
	if len(dict) == 0 {
		return rapid.Uint64().Draw(t, "word")
	}
	w := dict[one(t, len(dict), "dict")]
	return w + uint64(Pick(t, "dict-off", 1, 4, 1)) - 1
}

// SmallWord draws a dictionary word below 70000, or one next to it.
func SmallWord(t *rapid.T) int64 {
	if len(dictSmall) == 0 {
		return rapid.Int64Range(0, 2000).Draw(t, "small")
	}
	w := int64(dictSmall[one(t, len(dictSmall), "dict")])
	return w + int64(Pick(t, "dict-off", 1, 3, 1)) - 1
}

// Spec wraps a number.
func Spec(n oracle.Num, prec uint, mode uint8) BigSpec {
	s := BigSpec{Neg: n.Neg, Prec: prec, Mode: mode}
	switch {
	case n.Kind == oracle.Inf:
		s.Form = "inf"
	case n.IsZero():
		s.Form = "zero"
	default:
		s.Form, s.M, s.E = "fin", n.M.Text(16), n.E
	}
	return s
}

func one(t *rapid.T, n int, label string) int { return rapid.IntRange(0, n-1).Draw(t, label) }

// Pick chooses an index with the given weights.
func Pick(t *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	r := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return 0
}

func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// Uniform draws from a range without rapid's bias to small numbers.
func Uniform(t *rapid.T, lo, hi int64) int64 {
	w := engine.Mix(rapid.Uint64().Draw(t, "u")) ^ engine.Mix(rapid.Uint64().Draw(t, "u2")+77)
	return lo + int64(w%uint64(hi-lo+1))
}

// Wide draws an n-bit integer (top bit not forced).
func wide(t *rapid.T, n int) *big.Int {
	s := rapid.Uint64().Draw(t, "word")
	r := rapid.Uint64().Draw(t, "word2")
	b := new(big.Int)
	if n <= 0 {
		return b
	}
	if one(t, 4, "raw") == 0 {
		// The drawn word itself (biased to few bits, shrinks well).
		b.SetUint64(s)
	} else {
		for i := 0; i < (n+63)/64; i++ {
			s = engine.Mix(s ^ engine.Mix(r+uint64(i)))
			b.Lsh(b, 64)
			b.Or(b, new(big.Int).SetUint64(s))
		}
	}
	return b.And(b, mask(n))
}

func mask(n int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return m.Sub(m, big.NewInt(1))
}

// Frac draws an n-bit field: uniform, empty, full, one bit, runs, sparse.
func Frac(t *rapid.T, n int) *big.Int {
	if n <= 0 {
		return new(big.Int)
	}
	switch Pick(t, "frac-kind", 12, 2, 4, 4, 4, 4, 4, 4, 2) {
	case 8: // a constant of the sources, at the low or the high end
		b := new(big.Int).SetUint64(Word(t))
		if k := n - b.BitLen(); k > 0 && Bool(t, "high") {
			b.Lsh(b, uint(k))
		}
		return b.And(b, mask(n))
	case 1:
		return new(big.Int)
	case 2:
		return mask(n)
	case 3: // one bit
		return new(big.Int).Lsh(big.NewInt(1), uint(one(t, n, "bit")))
	case 4: // low run of ones
		return mask(one(t, n+1, "run"))
	case 5: // high run of ones
		k := one(t, n+1, "run")
		return new(big.Int).Lsh(mask(k), uint(n-k))
	case 6: // random head, then zeros or ones
		k := one(t, n, "cut")
		b := wide(t, n)
		if Bool(t, "ones") {
			return b.Or(b, mask(k))
		}
		return b.AndNot(b, mask(k))
	case 7: // all ones with one bit cleared
		b := mask(n)
		return b.SetBit(b, one(t, n, "bit"), 0)
	}
	return wide(t, n)
}

// tail draws the bits below the last kept one: nothing, exactly half, around
// half, just above nothing, just below one.
func tail(t *rapid.T) (bits *big.Int, n int) {
	n = rapid.IntRange(1, 80).Draw(t, "tail-len")
	switch Pick(t, "tail-long", 36, 9, 3, 1) {
	case 1: // beyond the precision of every format
		n = rapid.IntRange(80, 300).Draw(t, "tail-len")
	case 2: // beyond what sums of doubles or a hundred digits hold
		n = rapid.IntRange(300, 2300).Draw(t, "tail-len")
	case 3: // a length the sources know, or very long
		if n = int(SmallWord(t) % 70000); n < 2 || Bool(t, "very") {
			n = rapid.IntRange(2300, 20000).Draw(t, "tail-len")
		}
	}
	one_ := big.NewInt(1)
	half := new(big.Int).Lsh(one_, uint(n-1))
	switch Pick(t, "tail-kind", 3, 5, 4, 4, 2, 2, 4) {
	case 0:
		return new(big.Int), 1
	case 1:
		return big.NewInt(1), 1
	case 2:
		return half.Add(half, one_).And(half, mask(n)), n
	case 3:
		if n == 1 {
			return new(big.Int), 1
		}
		return half.Sub(half, one_), n
	case 4:
		return one_, n
	case 5:
		return mask(n), n
	}
	return Frac(t, n), n
}

// Top draws the exponent of the leading bit, near the interesting exponents of
// f and of the float32 and float64 formats.
func Top(t *rapid.T, f oracle.Fmt) int64 {
	near := func(c, d int64) int64 { return c + rapid.Int64Range(-d, d).Draw(t, "exp-off") }
	min := f.Emin - int64(f.P-1)
	switch Pick(t, "exp-kind", 12, 10, 10, 12, 8, 4, 6, 2, 3, 2) {
	case 9: // an exponent of the format but for a higher bit
		e := int64(1) << rapid.IntRange(7, 30).Draw(t, "exp-bit")
		if Bool(t, "exp-sign") {
			e = -e
		}
		switch Pick(t, "exp-plus", 4, 1, 1, 1) {
		case 1:
			return near(e+f.Emin, 3)
		case 2:
			return near(e+f.Emax, 2)
		case 3:
			return e + Uniform(t, f.Emin, f.Emax)
		}
		return near(e, 20)
	case 8:
		e := SmallWord(t)
		switch Pick(t, "exp-as", 2, 2, 1, 1) {
		case 1:
			return -e
		case 2:
			return e - f.Emax // a biased exponent
		case 3:
			return f.Emin - int64(f.P-1) + e
		}
		return e
	case 0:
		return near(0, 4)
	case 1:
		return near(f.Emin, 3)
	case 2:
		return near(min, 4)
	case 3:
		return rapid.Int64Range(min-2, f.Emin).Draw(t, "exp")
	case 4:
		return near(f.Emax, 2)
	case 5:
		return near(0, 130)
	case 6:
		return Uniform(t, f.Emin, f.Emax)
	}
	// Far outside the format.
	e := rapid.Int64Range(0, 1<<31-20000).Draw(t, "exp-far")
	if Bool(t, "exp-sign") {
		return f.Emax + e%(1<<31-20000-f.Emax)
	}
	return min - e%(1<<31-40000)
}

// Near draws a finite non-zero number on or next to the grid of f, with any
// exponent (also outside the range of f).
func Near(t *rapid.T, f oracle.Fmt) oracle.Num {
	neg := Bool(t, "neg")
	top := Top(t, f)
	keep := f.P
	if top < f.Emin {
		keep = f.P - int(min64(f.Emin-top, int64(f.P)))
	}
	m := new(big.Int)
	e := top
	if keep > 0 {
		m = Frac(t, keep-1)
		m.SetBit(m, keep-1, 1)
		e = top - int64(keep-1)
		tb, n := tail(t)
		m.Lsh(m, uint(n))
		m.Or(m, tb)
		e -= int64(n)
	} else {
		n := rapid.IntRange(0, 60).Draw(t, "tail-len")
		m = Frac(t, n)
		m.SetBit(m, n, 1)
		e = top - int64(n)
	}
	return oracle.Mk(neg, m, e)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// Prec draws a precision that holds n.
func Prec(t *rapid.T, n oracle.Num) uint {
	bl := uint(1)
	if n.Kind == oracle.Finite && n.M.BitLen() > 0 {
		bl = uint(n.M.BitLen())
	}
	switch Pick(t, "prec-kind", 6, 8, 2, 1) {
	case 3:
		if p := uint(SmallWord(t)) % 5000; p > bl {
			return p
		}
		return bl
	case 0:
		return bl
	case 1:
		c := []uint{8, 11, 24, 53, 64, 106, 107, 113, 200, 256, 512, 1000, 2100, 4096, 1 << 16, 1 << 31, 1<<32 - 1, uint(1<<32-1) - uint(one(t, 200, "below-max"))}[one(t, 18, "prec")]
		if c > bl {
			return c
		}
		return bl
	}
	return bl + uint(one(t, 300, "prec-extra"))
}

// anyPrec draws the precision of a zero or an infinity.
func anyPrec(t *rapid.T) uint {
	return []uint{53, 0, 1, 11, 24, 64, 106, 113, 4096, 1<<32 - 1}[one(t, 10, "prec")]
}

// BigFor draws a big float aimed at format f.
func BigFor(t *rapid.T, f oracle.Fmt) BigSpec {
	mode := uint8(0)
	if one(t, 3, "mode?") == 0 {
		mode = uint8(one(t, 6, "mode"))
	}
	switch Pick(t, "form", 60, 1, 1) {
	case 1:
		if one(t, 4, "unset") == 0 {
			return BigSpec{Form: "unset"}
		}
		return BigSpec{Form: "zero", Neg: Bool(t, "neg"), Prec: anyPrec(t), Mode: mode}
	case 2:
		return BigSpec{Form: "inf", Neg: Bool(t, "neg"), Prec: anyPrec(t), Mode: mode}
	}
	n := Near(t, f)
	return Spec(n, Prec(t, n), mode)
}

// Bits draws an encoding of an IEEE format with a hidden lead bit.
func Bits(t *rapid.T, f oracle.Fmt) *big.Int {
	fb := f.P - 1
	eb := new(big.Int).SetInt64(f.Emax).BitLen() + 1
	max := int64(1)<<uint(eb) - 1
	var exp int64
	switch Pick(t, "field-kind", 6, 6, 6, 6, 14, 8, 2) {
	case 6:
		exp = SmallWord(t)
		if Bool(t, "unbiased") {
			exp += f.Emax
			if Bool(t, "below") {
				exp = 2*f.Emax - exp
			}
		}
		if exp < 0 {
			exp = -exp
		}
		exp %= max + 1
	case 0:
		exp = 0
	case 1:
		exp = rapid.Int64Range(1, 3).Draw(t, "field")
	case 2:
		exp = max
	case 3:
		exp = max - rapid.Int64Range(1, 3).Draw(t, "field")
	case 4:
		exp = Uniform(t, 0, max)
	case 5:
		exp = f.Emax + rapid.Int64Range(-5, 5).Draw(t, "field")
	}
	b := Frac(t, fb)
	b.Or(b, new(big.Int).Lsh(big.NewInt(exp), uint(fb)))
	if Bool(t, "neg") {
		b.SetBit(b, fb+eb, 1)
	}
	return b
}

// Near64Bits etc.: an encoding of f whose value is next to the grid of g.
func NearBits(t *rapid.T, f, g oracle.Fmt) oracle.Num {
	n := Near(t, g)
	r, _ := f.Round(n)
	return r
}

// F64Bits draws a float64 pattern: raw, or next to the grid of g.
func F64Bits(t *rapid.T, g oracle.Fmt) uint64 {
	if one(t, 2, "aimed") == 0 {
		return oracle.Enc64(NearBits(t, oracle.F64, g))
	}
	return Bits(t, oracle.F64).Uint64()
}

// F32Bits draws a float32 pattern: raw, or next to the grid of g.
func F32Bits(t *rapid.T, g oracle.Fmt) uint32 {
	if one(t, 2, "aimed") == 0 {
		return oracle.Enc32(NearBits(t, oracle.F32, g))
	}
	return uint32(Bits(t, oracle.F32).Uint64())
}
