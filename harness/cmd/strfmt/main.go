// Command strfmt checks the number formatting of internal/strconv.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"

	own "github.com/mewmew/float/internal/strconv"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// FloatCase is one FormatFloat call.
type FloatCase struct {
	Bits uint64 `json:"float64bits"`
	Fmt  string `json:"fmt"`
	Prec int    `json:"prec"`
	Size int    `json:"size"`
}

func (c FloatCase) Key() uint64 {
	return engine.Mix(c.Bits ^ uint64(c.Fmt[0])<<8 ^ uint64(c.Size)<<50 ^ uint64(c.Prec+5)<<20)
}

func (c FloatCase) String() string {
	return fmt.Sprintf("FormatFloat(%v = %#016x, %s, %d, %d)", math.Float64frombits(c.Bits), c.Bits, c.Fmt, c.Prec, c.Size)
}

const floatFmts = "eEfgGb"

func genFmt(t *rapid.T) string {
	i := gen.Pick(t, "fmt", 6, 1, 5, 5, 1, 1)
	return floatFmts[i : i+1]
}

// genFloat draws a float64 whose decimal is interesting at size bits.
func genFloat(t *rapid.T, size int) uint64 {
	f := oracle.F64
	switch size {
	case 32:
		f = oracle.F32
	case 16:
		f = oracle.F16
	}
	put := func(n oracle.Num) uint64 {
		r, _ := f.Round(n)
		return oracle.Enc64(r)
	}
	switch gen.Pick(t, "value", 12, 8, 8, 8, 6, 2, 2, 2, 3) {
	case 8: // a bound of the rounding interval is a short decimal
		return genBound(t, size, f, put)
	case 7: // a constant of the sources
		w := gen.Word(t)
		if gen.Bool(t, "as-bits") && math.Float64frombits(w) == math.Float64frombits(w) {
			return put(oracle.Dec64(w)) | sign(t)
		}
		n := oracle.MkU(gen.Bool(t, "neg"), w, 0)
		if gen.Bool(t, "scale") {
			n.E += rapid.Int64Range(-64, 64).Draw(t, "e")
			n = oracle.Mk(n.Neg, n.M, n.E)
		}
		return put(n)
	case 1: // next to a power of ten or a short decimal
		d := gen.Uniform(t, 1, 99999)
		switch gen.Pick(t, "dec", 1, 1, 1) {
		case 0:
			d = 1
		case 1:
			d = gen.Uniform(t, 1, 999999999999999999)
		}
		e := rapid.IntRange(-25, 25).Draw(t, "ten")
		if size == 16 {
			e = rapid.IntRange(-12, 5).Draw(t, "ten16")
		} else if gen.Pick(t, "far", 2, 1) == 1 {
			e = int(gen.Uniform(t, -330, 310))
		}
		x, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", d, e), 64)
		if size != 16 && gen.Pick(t, "times", 3, 1) == 1 {
			// The slow path multiplies by 2^60 at a time: close to a power of
			// ten on the way.
			if y := math.Ldexp(x, int(gen.Uniform(t, -600, 600))); y != 0 && !math.IsInf(y, 0) {
				x = y
			}
		}
		b := math.Float64bits(x)
		if size == 64 {
			b += uint64(gen.Pick(t, "ulp", 1, 1, 1)) - 1
		} else if size == 32 {
			b = math.Float64bits(float64(math.Float32frombits(math.Float32bits(float32(x)) + uint32(gen.Pick(t, "ulp", 1, 1, 1)) - 1)))
		}
		return b | sign(t)
	case 2: // few bits: decimals with few digits, ties at a digit
		m := gen.Frac(t, rapid.IntRange(1, 30).Draw(t, "bits"))
		return put(oracle.Mk(gen.Bool(t, "neg"), m, rapid.Int64Range(-40, 20).Draw(t, "e")))
	case 3: // integers
		m := gen.Frac(t, rapid.IntRange(1, 64).Draw(t, "bits"))
		if gen.Bool(t, "round") {
			m.Mul(m, big.NewInt(10))
			m.Add(m, big.NewInt(5))
		}
		return put(oracle.Mk(gen.Bool(t, "neg"), m, 0))
	case 4: // any exponent the size has, structured fraction
		n := oracle.Num{}
		b := gen.Bits(t, f)
		n = f.Decode(b)
		if n.Kind == oracle.NaN {
			return 0x7FF8<<48 | sign(t)
		}
		return oracle.Enc64(n)
	case 5: // a float64 the size has to round
		return gen.F64Bits(t, f)
	case 6: // powers of two and neighbours, over the size's range
		e := gen.Uniform(t, f.Emin-int64(f.P)+1, f.Emax)
		n := oracle.MkU(gen.Bool(t, "neg"), 1, e)
		switch gen.Pick(t, "nb", 1, 1, 1) {
		case 1:
			n = oracle.Add(n, oracle.MkU(n.Neg, 1, e-int64(f.P-1)))
		case 2:
			n = oracle.Sub(n, oracle.MkU(n.Neg, 1, e-int64(f.P)))
		}
		return put(n)
	}
	// uniform in the size's own patterns
	switch size {
	case 32:
		return math.Float64bits(float64(math.Float32frombits(uint32(gen.Uniform(t, 0, 1<<32-1)))))
	case 16:
		n := oracle.Dec16(uint16(gen.Uniform(t, 0, 1<<16-1)))
		if n.Kind == oracle.NaN {
			return 0x7FF8 << 48
		}
		return oracle.Enc64(n)
	}
	return engine.Mix(rapid.Uint64().Draw(t, "pattern"))
}

// genBound draws a value with a bound of its rounding interval (the midpoint to
// a neighbour) equal to a multiple of 10^j, and j such that the interval is
// about as wide as 10^j: the digits end where the choice between rounding up
// and down is made.
func genBound(t *rapid.T, size int, f oracle.Fmt, put func(oracle.Num) uint64) uint64 {
	p := int64(f.P)
	five, j := big.NewInt(1), int64(0)
	most := (p + 1) * 100 / 233
	for want := gen.Uniform(t, 0, most); j < want; j++ {
		five.Mul(five, big.NewInt(5))
	}
	// The midpoint is w * 2^e with w odd, of p+1 bits, and a multiple of 5^j.
	lo := new(big.Int).Lsh(big.NewInt(1), uint(p))
	n := new(big.Int).Div(lo, five)
	if n.IsInt64() && n.Int64() > 0 {
		n.Add(n, big.NewInt(gen.Uniform(t, 0, n.Int64())))
	}
	n.SetBit(n, 0, 1)
	w := n.Mul(n, five)
	e := j*332193/100000 + int64(rapid.IntRange(-2, 2).Draw(t, "scale"))
	if gen.Pick(t, "subnormal or deep", 7, 1) == 1 {
		e = gen.Uniform(t, f.Emin-p, 40)
	}
	neg := gen.Bool(t, "neg")
	side := int64(1 - 2*gen.Pick(t, "side", 2, 1)) // the midpoint lies above or below
	m := new(big.Int).Sub(w, big.NewInt(side))
	return put(oracle.Mk(neg, m, e))
}

func sign(t *rapid.T) uint64 {
	if gen.Bool(t, "neg") {
		return 1 << 63
	}
	return 0
}

// genPrec draws a precision; exact digit counts of the value are favoured.
func genPrec(t *rapid.T, f string, bits uint64) int {
	switch gen.Pick(t, "prec", 24, 12, 16, 16, 4, 2, 1, 1) {
	case 7:
		return rapid.SampledFrom([]int{-2, -3, -10, -60, math.MinInt32}).Draw(t, "negative")
	case 6:
		if gen.Pick(t, "huge", 30, 1) == 1 {
			return rapid.IntRange(3000, 70000).Draw(t, "p")
		}
		return rapid.IntRange(900, 3000).Draw(t, "p")
	case 5:
		w := gen.SmallWord(t)
		if w > 1200 && (w > 70000 || gen.Pick(t, "large", 30, 1) == 0) {
			w %= 1200
		}
		return int(w)
	case 1:
		return rapid.IntRange(0, 5).Draw(t, "p")
	case 2:
		return rapid.IntRange(6, 18).Draw(t, "p")
	case 3:
		n := oracle.Dec64(bits)
		if n.Kind == oracle.Finite && !n.IsZero() {
			d := oracle.Exact(n)
			p := len(d.D)
			switch f {
			case "e", "E":
				p--
			case "f":
				p = -d.E
			}
			p += rapid.IntRange(-3, 1).Draw(t, "off")
			if p < 0 {
				p = 0
			}
			return p
		}
		return 2
	case 4:
		return rapid.IntRange(19, 900).Draw(t, "p")
	}
	return -1
}

// varyFloat is a call that resembles c, for sequences.
func varyFloat(t *rapid.T, c FloatCase) FloatCase {
	switch gen.Pick(t, "vary", 4, 4, 4, 4, 2, 2, 1, 1) {
	case 6: // far precisions whose low bits agree
		if c.Prec < 800 && c.Prec >= -1 {
			c.Prec += 128 << uint(gen.Pick(t, "more", 1, 2, 1, 1))
		}
	case 7: // two bits a half or a quarter of a word apart
		d := 16 << uint(gen.Pick(t, "apart", 1, 1))
		c.Bits ^= (1 | 1<<uint(d)) << uint(rapid.IntRange(0, 63-d).Draw(t, "bit"))
	case 0:
		c.Size = 96 - c.Size
	case 1:
		c.Fmt = genFmt(t)
	case 2:
		c.Prec = genPrec(t, c.Fmt, c.Bits)
	case 3:
		c.Bits ^= 1 << 63
	case 4:
		c.Bits++
	case 5:
		c.Bits ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
	}
	return c
}

func varyFloat16(t *rapid.T, c FloatCase) FloatCase {
	c = varyFloat(t, c)
	c.Size = 16
	return c
}

func varyInt(t *rapid.T, c IntCase) IntCase {
	switch gen.Pick(t, "vary", 2, 2, 2, 2, 1) {
	case 4: // two bits a half or a quarter of a word apart
		d := 16 << uint(gen.Pick(t, "apart", 1, 1))
		c.V ^= (1 | 1<<uint(d)) << uint(rapid.IntRange(0, 63-d).Draw(t, "bit"))
	case 0:
		c.V = -c.V
	case 1:
		c.V += uint64(rapid.IntRange(-2, 2).Draw(t, "off"))
	case 2:
		c.V ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
	case 3:
		c.Call = []string{"int", "uint"}[gen.Pick(t, "call", 1, 1)]
		c.Base = rapid.IntRange(2, 36).Draw(t, "base")
	}
	return c
}

func genFloatCase(t *rapid.T, sizes ...int) FloatCase {
	c := FloatCase{Size: sizes[0], Fmt: genFmt(t)}
	if len(sizes) > 1 && gen.Bool(t, "size") {
		c.Size = sizes[1]
	}
	c.Bits = genFloat(t, c.Size)
	c.Prec = genPrec(t, c.Fmt, c.Bits)
	return c
}

func floatClass(c FloatCase) (string, bool) {
	p := "shortest"
	switch {
	case c.Fmt == "b":
		p = "binary"
	case c.Prec >= 19:
		p = "long"
	case c.Prec >= 0:
		p = "fixed"
	}
	x := math.Float64frombits(c.Bits)
	v := "finite"
	switch {
	case x != x || math.IsInf(x, 0):
		v = "special"
	case x == 0:
		v = "zero"
	case math.Abs(x) < 2.2250738585072014e-308 || c.Size == 32 && math.Abs(x) < 1.1754943508222875e-38:
		v = "subnormal"
	}
	return fmt.Sprintf("%d-%s-%s", c.Size, p, v), v == "finite" || v == "subnormal"
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func runBadSize(c FloatCase) engine.Outcome {
	o := engine.Outcome{Class: "other bit size", Nontrivial: true}
	x := math.Float64frombits(c.Bits)
	s := ""
	if !panics(func() { s = own.FormatFloat(x, c.Fmt[0], c.Prec, c.Size) }) {
		o.Err = fmt.Sprintf("%v = %q, want a panic", c, s)
	} else if !panics(func() { s = string(own.AppendFloat(nil, x, c.Fmt[0], c.Prec, c.Size)) }) {
		o.Err = fmt.Sprintf("Append%v = %q, want a panic", strings.TrimPrefix(c.String(), "Format"), s)
	}
	return o
}

func runStd(c FloatCase) engine.Outcome {
	x := math.Float64frombits(c.Bits)
	cl, nt := floatClass(c)
	o := engine.Outcome{Class: cl, Nontrivial: nt}
	got := own.FormatFloat(x, c.Fmt[0], c.Prec, c.Size)
	want := strconv.FormatFloat(x, c.Fmt[0], c.Prec, c.Size)
	if got != want {
		o.Err = fmt.Sprintf("%v = %q, want %q", c, got, want)
		return o
	}
	engine.KeepText(got, want)
	return o
}

// genAnyPrec draws a call whose text does not grow with its precision, and any
// precision; or another letter than the formats'.
func genAnyPrec(t *rapid.T, size int) FloatCase {
	c := FloatCase{Size: size, Bits: genFloat(t, size)}
	switch gen.Pick(t, "call", 4, 2, 1, 1) {
	case 0:
		c.Fmt = []string{"g", "G"}[gen.Pick(t, "g", 2, 1)]
	case 1:
		for c.Fmt == "" || strings.Contains(floatFmts, c.Fmt) {
			c.Fmt = string(rune(rapid.IntRange(0, 127).Draw(t, "letter")))
		}
	case 2:
		c.Fmt = "b"
	case 3: // the special values, or a negative precision, in any format
		c.Fmt = genFmt(t)
		if gen.Bool(t, "special") {
			c.Bits = []uint64{0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001, 0xFFF8000000000000, 0x7FF0000000000001}[gen.Pick(t, "which", 1, 1, 1, 1, 1)]
		} else {
			c.Prec = -1 - int(gen.SmallWord(t)&math.MaxInt)
			return c
		}
	}
	if gen.Bool(t, "usual") {
		c.Prec = genPrec(t, c.Fmt, c.Bits)
		return c
	}
	switch gen.Pick(t, "huge", 2, 2, 1) {
	case 0:
		c.Prec = int(gen.Word(t) & math.MaxInt)
	case 1:
		c.Prec = 1<<uint(rapid.IntRange(0, bits.UintSize-2).Draw(t, "power")) + rapid.IntRange(-5, 20).Draw(t, "off")
	case 2:
		c.Prec = math.MaxInt - rapid.IntRange(0, 100).Draw(t, "below")
	}
	if gen.Pick(t, "negative", 3, 1) == 1 {
		c.Prec = -c.Prec - 1
	}
	return c
}

func runAnyPrec(c FloatCase) engine.Outcome {
	x := math.Float64frombits(c.Bits)
	cl, nt := floatClass(c)
	o := engine.Outcome{Class: cl, Nontrivial: nt}
	got := string(own.AppendFloat([]byte{'<'}, x, c.Fmt[0], c.Prec, c.Size))
	var want []string
	switch {
	case strings.Contains(floatFmts, c.Fmt) && c.Size == 16:
		want = want16(c)
	case strings.Contains(floatFmts, c.Fmt):
		want = []string{string(strconv.AppendFloat(nil, x, c.Fmt[0], c.Prec, c.Size))}
	default:
		// The standard library has x and X today; this one does not.
		o.Class = "other letter"
		c := c
		c.Fmt, c.Prec = "e", -1
		if c.Size == 16 {
			want = want16(c)
		} else {
			want = []string{strconv.FormatFloat(x, 'e', -1, c.Size)}
		}
		if w := want[0]; w != "NaN" && w[1:] != "Inf" {
			want = nil
		}
	}
	if want == nil {
		want = []string{"%" + c.Fmt}
	}
	for _, w := range want {
		if got == "<"+w {
			engine.KeepText(got[1:], w)
			return o
		}
	}
	o.Err = fmt.Sprintf("Append%v = %q after <, want %q", strings.TrimPrefix(c.String(), "Format"), got, want)
	return o
}

var c21 = &engine.Prop{
	ID:   "C21",
	Rule: "float64s and float32s: uniform patterns, structured fields, subnormals, powers of two and of ten with neighbours, short decimals with neighbours, few-bit numbers and integers ending in 5; each format; precision shortest, 0 to 18, at and around the value's own number of digits (ties), and up to 900; for g and b, AppendFloat with any precision up to the largest int, and other letters. Reference: the standard library of the installed Go. Non-trivial: finite and not zero.",
	Subs: []engine.Runner{
		&engine.Sub[FloatCase]{
			Name: "vs-standard-library", Quick: 1000000, Thor: 40000000,
			Gen: func(t *rapid.T) FloatCase { return genFloatCase(t, 64, 32) },
			Run: runStd,
		},
		&engine.Sub[FloatCase]{
			Name: "shortest", Quick: 1000000, Thor: 40000000,
			Gen: func(t *rapid.T) FloatCase {
				c := FloatCase{Size: 64, Fmt: "e", Prec: -1}
				if gen.Bool(t, "size") {
					c.Size = 32
				}
				if gen.Pick(t, "form", 3, 1) == 1 {
					c.Fmt = []string{"f", "g"}[gen.Pick(t, "fg", 1, 1)]
				}
				c.Bits = genFloat(t, c.Size)
				return c
			},
			Run: runStd,
		},
		&engine.Sub[FloatCase]{Name: "hard-decimals", Quick: 60000, Thor: 12000000, Gen: genHardCase, Run: runHard},
		&engine.Sub[FloatCase]{
			Name: "other-size", Quick: 20000, Thor: 200000,
			Gen: func(t *rapid.T) FloatCase {
				c := genFloatCase(t, 64)
				c.Size = rapid.SampledFrom([]int{0, 1, -1, 8, 15, 17, 31, 33, 63, 65, 80, 128, -16, -32, -64, 1<<8 + 16, 1<<16 + 32, 1<<30 + 64, math.MinInt}).Draw(t, "other size")
				return c
			},
			Run: runBadSize,
		},
		&engine.Sub[FloatCase]{
			Name: "any-precision", Quick: 100000, Thor: 4000000,
			Gen: func(t *rapid.T) FloatCase { return genAnyPrec(t, 32<<uint(gen.Pick(t, "size", 1, 2))) },
			Run: runAnyPrec,
		},
		&engine.Sub[FloatCase]{Name: "shift-cutoffs", EnumN: cutoffs, EnumAt: cutoffCase, Run: runStd},
		&engine.Sub[FloatCase]{
			Name: "every-exponent", EnumN: 2 * 2048 * 3 * 8,
			EnumAt: func(i uint64) FloatCase {
				c := FloatCase{Size: 64, Fmt: []string{"e", "f", "g", "e", "e", "g", "b", "e"}[i&7], Prec: []int{-1, -1, -1, 14, 16, 5, -1, 30}[i&7]}
				i >>= 3
				f := []uint64{0, 1, 1<<52 - 1}[i%3]
				i /= 3
				c.Bits = i<<52 | f
				return c
			},
			Run: runStd,
		},
		&engine.Sub[FloatCase]{
			Name: "every-exponent-32", EnumN: 2 * 256 * 3 * 8,
			EnumAt: func(i uint64) FloatCase {
				c := FloatCase{Size: 32, Fmt: []string{"e", "f", "g", "e", "e", "g", "b", "e"}[i&7], Prec: []int{-1, -1, -1, 8, 6, 5, -1, 30}[i&7]}
				i >>= 3
				f := []uint32{0, 1, 1<<23 - 1}[i%3]
				i /= 3
				c.Bits = math.Float64bits(float64(math.Float32frombits(uint32(i)<<23 | f)))
				return c
			},
			Run: runStd,
		},
	},
}

var shortest16 struct {
	sync.Mutex
	m map[uint16][]oracle.Dec
}

func shortestOf(h uint16) []oracle.Dec {
	shortest16.Lock()
	defer shortest16.Unlock()
	if d, ok := shortest16.m[h]; ok {
		return d
	}
	if shortest16.m == nil {
		shortest16.m = map[uint16][]oracle.Dec{}
	}
	d := oracle.F16.Shortest(oracle.Dec16(h))
	shortest16.m[h] = d
	return d
}

// want16 lists the acceptable texts.
func want16(c FloatCase) []string {
	n := oracle.Dec64(c.Bits)
	if n.Kind == oracle.NaN {
		return []string{"NaN"}
	}
	r, _ := oracle.F16.Round(n)
	f := c.Fmt[0]
	if r.Kind == oracle.Inf {
		if r.Neg {
			return []string{"-Inf"}
		}
		return []string{"+Inf"}
	}
	h := oracle.Enc16(r)
	if f == 'b' {
		e, m := int(h>>10&31), int(h&0x3FF)
		if e == 0 {
			e = 1
		} else {
			m |= 0x400
		}
		s := ""
		if r.Neg {
			s = "-"
		}
		return []string{fmt.Sprintf("%s%dp%+d", s, m, e-25)}
	}
	x := math.Float64frombits(oracle.Enc64(r))
	if c.Prec >= 0 || r.IsZero() {
		return []string{string(strconv.AppendFloat(nil, x, f, c.Prec, 64))}
	}
	var out []string
	for _, d := range shortestOf(h & 0x7FFF) {
		y, err := strconv.ParseFloat(fmt.Sprintf("%se%d", d.D, d.E), 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if r.Neg {
			y = -y
		}
		// At most five digits: the shortest text of y is those digits.
		out = append(out, strconv.FormatFloat(y, f, -1, 64))
	}
	return out
}

func run16(c FloatCase) engine.Outcome {
	x := math.Float64frombits(c.Bits)
	cl, nt := floatClass(c)
	o := engine.Outcome{Class: cl, Nontrivial: nt}
	got := own.FormatFloat(x, c.Fmt[0], c.Prec, 16)
	want := want16(c)
	for _, w := range want {
		if w == got {
			engine.KeepText(got, w)
			return o
		}
	}
	o.Err = fmt.Sprintf("%v = %q, want %q", c, got, want)
	return o
}

var all16 = []struct {
	f string
	p int
}{{"e", -1}, {"f", -1}, {"g", -1}, {"b", -1}, {"G", -1}, {"e", 2}, {"f", 3}, {"g", 3}, {"e", 4}, {"f", 0}, {"E", 0}, {"f", 24}, {"e", 12}, {"g", 1}, {"f", 10}, {"G", 30}}

var c22 = &engine.Prop{
	ID:   "C22",
	Rule: "all 65536 half-precision values in the shortest forms, the b form and a few fixed precisions, enumerated; and drawn float64s on, between and next to half-precision values, with any format and precision. The shortest digits are computed with exact rationals, fixed precisions by the standard library on the exact value. Non-trivial: finite and not zero.",
	Subs: []engine.Runner{
		&engine.Sub[FloatCase]{
			Name: "every-half", EnumN: 1 << 16 * 16, Again: true,
			EnumAt: func(i uint64) FloatCase {
				k := all16[i&15]
				n := oracle.Dec16(uint16(i >> 4))
				b := uint64(0x7FF8) << 48
				if n.Kind != oracle.NaN {
					b = oracle.Enc64(n)
				} else if n.Neg {
					b |= 1 << 63
				}
				return FloatCase{b, k.f, k.p, 16}
			},
			Run: run16,
		},
		&engine.Sub[FloatCase]{
			Name: "any-precision", Quick: 60000, Thor: 2000000,
			Gen: func(t *rapid.T) FloatCase { return genAnyPrec(t, 16) },
			Run: runAnyPrec,
		},
		&engine.Sub[FloatCase]{
			Name: "half", Quick: 600000, Thor: 15000000,
			Gen: func(t *rapid.T) FloatCase { return genFloatCase(t, 16) },
			Run: run16,
		},
	},
}

// IntCase is one integer formatting call.
type IntCase struct {
	V    uint64 `json:"v"`
	Base int    `json:"base"`
	Call string `json:"call"` // "int", "uint", "itoa"
}

func (c IntCase) Key() uint64 { return engine.Mix(c.V^uint64(c.Base)<<50) ^ uint64(c.Call[0]) }

func genInt(t *rapid.T) uint64 {
	var v uint64
	switch gen.Pick(t, "int", 8, 4, 4, 4, 2, 1) {
	case 5:
		v = gen.Word(t)
	case 0:
		v = gen.Frac(t, rapid.IntRange(1, 64).Draw(t, "bits")).Uint64()
	case 1: // around a power of a base
		b := uint64(rapid.IntRange(2, 36).Draw(t, "b"))
		v = 1
		for i := rapid.IntRange(0, 63).Draw(t, "pow"); i > 0 && v <= math.MaxUint64/b; i-- {
			v *= b
		}
		v += uint64(rapid.IntRange(-2, 2).Draw(t, "off"))
	case 2:
		v = uint64(rapid.IntRange(0, 1200).Draw(t, "small"))
	case 3: // around the words of 32-bit digit loops
		v = uint64(gen.Uniform(t, 1, 18446744073))*1000000000 + uint64(rapid.IntRange(-3, 3).Draw(t, "off"))
		if gen.Bool(t, "pow32") {
			v = 1<<32*uint64(rapid.IntRange(0, 300).Draw(t, "hi")) + uint64(rapid.IntRange(-3, 3).Draw(t, "off"))
		}
	case 4:
		v = engine.Mix(rapid.Uint64().Draw(t, "u"))
	}
	if gen.Pick(t, "negate", 3, 1) == 1 {
		v = -v
	}
	return v
}

func runInt(c IntCase) engine.Outcome {
	o := engine.Outcome{Class: c.Call, Nontrivial: c.V > 9}
	var got, want string
	switch c.Call {
	case "int":
		got, want = own.FormatInt(int64(c.V), c.Base), strconv.FormatInt(int64(c.V), c.Base)
		if back, err := strconv.ParseInt(got, c.Base, 64); err != nil || back != int64(c.V) {
			o.Err = fmt.Sprintf("FormatInt(%d, %d) = %q parses to %d, %v", int64(c.V), c.Base, got, back, err)
		}
	case "uint":
		got, want = own.FormatUint(c.V, c.Base), strconv.FormatUint(c.V, c.Base)
	default:
		got, want = own.Itoa(int(c.V)), strconv.Itoa(int(c.V))
	}
	if got != want {
		o.Err = fmt.Sprintf("%s %d base %d: %q, want %q", c.Call, int64(c.V), c.Base, got, want)
	} else if o.Err == "" {
		engine.KeepText(got, want)
	}
	return o
}

func runBadBase(c IntCase) engine.Outcome {
	o := engine.Outcome{Class: c.Call + " other base", Nontrivial: true}
	s := ""
	call := func() { s = own.FormatUint(c.V, c.Base) }
	switch c.Call {
	case "int":
		call = func() { s = own.FormatInt(int64(c.V), c.Base) }
	case "append-int":
		call = func() { s = string(own.AppendInt(nil, int64(c.V), c.Base)) }
	case "append-uint":
		call = func() { s = string(own.AppendUint(nil, c.V, c.Base)) }
	}
	if !panics(call) {
		o.Err = fmt.Sprintf("%s %d in base %d gives %q, want a panic", c.Call, int64(c.V), c.Base, s)
	}
	return o
}

var c23 = &engine.Prop{
	ID:   "C23",
	Rule: "64-bit integers of every bit length with structured bits, next to powers of every base, small ones (enumerated with every base), around multiples of 10^9 and 2^32, of both signs, in every base. Non-trivial: more than one digit in base ten.",
	Subs: []engine.Runner{
		&engine.Sub[IntCase]{
			Name: "small", EnumN: 2100 * 35 * 2, Again: true,
			EnumAt: func(i uint64) IntCase {
				c := IntCase{Call: []string{"int", "uint"}[i&1]}
				i >>= 1
				c.Base = int(i%35) + 2
				c.V = i/35 - 1050
				return c
			},
			Run: runInt,
		},
		&engine.Sub[IntCase]{
			Name: "other-base", Quick: 20000, Thor: 200000,
			Gen: func(t *rapid.T) IntCase {
				c := IntCase{V: genInt(t), Call: []string{"int", "uint", "append-int", "append-uint"}[gen.Pick(t, "call", 1, 1, 1, 1)]}
				switch gen.Pick(t, "other base", 2, 1, 1) {
				case 0:
					c.Base = rapid.SampledFrom([]int{1, 0, -1, 37, 62, 64}).Draw(t, "base")
				case 1:
					c.Base = rapid.IntRange(-1000, 1).Draw(t, "base")
				default:
					c.Base = rapid.IntRange(37, 5000).Draw(t, "base")
				}
				return c
			},
			Run: runBadBase,
		},
		&engine.Sub[IntCase]{
			Name: "integers", Quick: 1500000, Thor: 50000000,
			Gen: func(t *rapid.T) IntCase {
				c := IntCase{V: genInt(t), Base: 10, Call: []string{"int", "uint", "itoa"}[gen.Pick(t, "call", 4, 4, 1)]}
				if c.Call != "itoa" && gen.Pick(t, "base?", 1, 3) == 1 {
					c.Base = rapid.IntRange(2, 36).Draw(t, "base")
				}
				return c
			},
			Run: runInt,
		},
	},
}

// Op is one append.
type Op struct {
	Float *FloatCase `json:"float,omitempty"`
	Int   *IntCase   `json:"int,omitempty"`
	// Grow gives the destination that much spare capacity before the append;
	// -1 leaves it as the previous append returned it.
	Grow int `json:"grow"`
	// Buf is the buffer appended to: 0 starts with the prefix, the others nil.
	Buf int `json:"buf,omitempty"`
}

// AppendCase is a sequence of appends to a few buffers.
type AppendCase struct {
	Prefix string `json:"prefix"`
	Ops    []Op   `json:"ops"`
}

func (c AppendCase) Key() uint64 {
	h := uint64(len(c.Prefix))
	for _, o := range c.Ops {
		h = engine.Mix(h ^ uint64(o.Grow))
		if o.Float != nil {
			h ^= o.Float.Key()
		} else {
			h ^= o.Int.Key()
		}
	}
	return h
}

func (o Op) format() string {
	if c := o.Float; c != nil {
		return own.FormatFloat(math.Float64frombits(c.Bits), c.Fmt[0], c.Prec, c.Size)
	}
	if o.Int.Call == "int" {
		return own.FormatInt(int64(o.Int.V), o.Int.Base)
	}
	return own.FormatUint(o.Int.V, o.Int.Base)
}

func (o Op) append(dst []byte) []byte {
	if c := o.Float; c != nil {
		return own.AppendFloat(dst, math.Float64frombits(c.Bits), c.Fmt[0], c.Prec, c.Size)
	}
	if o.Int.Call == "int" {
		return own.AppendInt(dst, int64(o.Int.V), o.Int.Base)
	}
	return own.AppendUint(dst, o.Int.V, o.Int.Base)
}

func genOp(t *rapid.T) Op {
	o := Op{Grow: -1}
	if gen.Bool(t, "grow?") {
		o.Grow = rapid.IntRange(0, 40).Draw(t, "grow")
		switch gen.Pick(t, "lots", 5, 1, 1) {
		case 1:
			o.Grow = 1000
		case 2:
			o.Grow = rapid.IntRange(41, 140).Draw(t, "grow more")
		}
	}
	if gen.Bool(t, "kind") {
		c := genFloatCase(t, []int{64, 32, 16}[gen.Pick(t, "size", 2, 1, 1)])
		o.Float = &c
	} else {
		c := IntCase{V: genInt(t), Base: 10, Call: []string{"int", "uint"}[gen.Pick(t, "call", 1, 1)]}
		if gen.Bool(t, "base?") {
			c.Base = rapid.IntRange(2, 36).Draw(t, "base")
		}
		o.Int = &c
	}
	return o
}

func runAppend(c AppendCase) engine.Outcome {
	o := engine.Outcome{Class: fmt.Sprintf("appends-%d", len(c.Ops)), Nontrivial: len(c.Ops) > 1 || c.Prefix != ""}
	bufs := [3][]byte{[]byte(c.Prefix)}
	want := [3]string{c.Prefix}
	for i, op := range c.Ops {
		buf := bufs[op.Buf]
		if op.Grow >= 0 {
			nb := make([]byte, len(buf), len(buf)+op.Grow)
			copy(nb, buf)
			for j := range nb[len(nb):cap(nb)] {
				nb[:cap(nb)][len(nb)+j] = '#'
			}
			buf = nb
		}
		dst := buf
		txt := op.format()
		full := dst[:cap(dst)]
		rest := ""
		if n := len(dst) + len(txt); n < len(full) {
			rest = string(full[n:])
		}
		buf = op.append(dst)
		if rest != "" && string(full[len(dst)+len(txt):]) != rest {
			o.Err = fmt.Sprintf("append %d (%q) wrote beyond its text: %q -> %q", i, txt, rest, full[len(dst)+len(txt):])
			return o
		}
		if string(dst) != want[op.Buf] {
			o.Err = fmt.Sprintf("append %d changed the destination's bytes: %q -> %q", i, want[op.Buf], dst)
			return o
		}
		bufs[op.Buf] = buf
		want[op.Buf] += txt
		if string(buf) != want[op.Buf] {
			o.Err = fmt.Sprintf("append %d: got %q, want %q", i, buf, want[op.Buf])
			return o
		}
		for j, b := range bufs {
			if string(b) != want[j] {
				o.Err = fmt.Sprintf("append %d, to buffer %d, changed buffer %d: %q -> %q", i, op.Buf, j, want[j], b)
				return o
			}
		}
		engine.KeepText(txt, strings.Clone(txt))
	}
	// What the buffers have in spare is the caller's own.
	for i, b := range bufs {
		for j := len(b); j < cap(b); j++ {
			b[:cap(b)][j] = '!'
		}
		for j, b := range bufs {
			if string(b) != want[j] {
				o.Err = fmt.Sprintf("the spare capacity of buffer %d, written to, changes buffer %d: %q -> %q", i, j, want[j], b)
				return o
			}
		}
	}
	return o
}

var c24 = &engine.Prop{
	ID:   "C24",
	Rule: "sequences of one to eight appends of drawn floats (sizes 64, 32, 16) and integers to one of three buffers (one with a drawn prefix, two nil) with, before each append, a drawn spare capacity (also none and one byte too few, or what the append before left). Reference: the module's own Format functions. The bytes before and, within the capacity, after the appended text must stay, and so must the other buffers, also when the spare capacity is overwritten at the end. Non-trivial: two appends, or a prefix.",
	Subs: []engine.Runner{&engine.Sub[AppendCase]{
		Name: "append-sequences", Quick: 250000, Thor: 8000000,
		Gen: func(t *rapid.T) AppendCase {
			c := AppendCase{Prefix: strings.Repeat("x<", rapid.IntRange(0, 20).Draw(t, "prefix"))}
			if gen.Bool(t, "odd prefix") {
				n := rapid.IntRange(1, 12).Draw(t, "length")
				b := make([]byte, n)
				for i := range b {
					b[i] = "-+.0e91 NI5\x00\x7f"[rapid.IntRange(0, 12).Draw(t, "byte")]
				}
				c.Prefix = string(b)
			}
			for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
				op := genOp(t)
				if gen.Pick(t, "tight", 4, 1) == 1 {
					op.Grow = len(op.format()) - 1 + gen.Pick(t, "fit", 1, 1, 1)
				}
				op.Buf = gen.Pick(t, "buffer", 4, 1, 1)
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Run: runAppend,
	}},
}

// C25: nothing panics, whatever the format letter and precision.
var c25 = &engine.Prop{
	ID: "C25",
	Subs: []engine.Runner{
		&engine.Sub[AppendCase]{
			Name: "formatting", Quick: 400000, Thor: 8000000,
			Gen: func(t *rapid.T) AppendCase {
				op := genOp(t)
				if c := op.Float; c != nil {
					switch gen.Pick(t, "odd", 6, 2, 2) {
					case 1:
						c.Fmt = rapid.SampledFrom([]string{"x", "X", "v", "p", "%", "a", "F", "\x00", " "}).Draw(t, "letter")
					case 2:
						c.Prec = rapid.SampledFrom([]int{-2, -7, math.MinInt, 0, 0, 1, 900, 1200, 5000}).Draw(t, "odd prec")
					}
				}
				return AppendCase{Prefix: strings.Repeat("x", rapid.IntRange(0, 2).Draw(t, "prefix")), Ops: []Op{op}}
			},
			Run: func(c AppendCase) engine.Outcome {
				o := engine.Outcome{Class: "integer", Nontrivial: true}
				if f := c.Ops[0].Float; f != nil {
					o.Class, o.Nontrivial = floatClass(*f)
				}
				dst := make([]byte, len(c.Prefix), len(c.Prefix)+max(c.Ops[0].Grow, 0))
				c.Ops[0].append(dst)
				c.Ops[0].format()
				return o
			},
		},
	},
}

// One formatting call, answered here and in the 32-bit build.
func answer(a Ask) string {
	if a.Tasks != nil {
		return tasksAlone(a.Tasks)
	}
	return a.Op.format()
}

// Ask is a question to the peer process: the text of one call, or of every call
// of tasks.
type Ask struct {
	Op    Op     `json:"op"`
	Tasks [][]Op `json:"tasks,omitempty"`
}

func tasksAlone(tasks [][]Op) string {
	var out [][]string
	for _, ops := range tasks {
		var res []string
		for _, op := range ops {
			res = append(res, op.format())
		}
		out = append(out, res)
	}
	b, _ := json.Marshal(out)
	return string(b)
}

var c26 = &engine.Prop{
	ID: "C26",
	Subs: []engine.Runner{&engine.Sub[Op]{
		Name: "format-amd64-vs-386", Quick: 300000, Thor: 6000000, No32: true,
		Gen: genOp,
		Run: func(op Op) engine.Outcome {
			o := engine.Outcome{Class: "format", Nontrivial: true}
			here, there := engine.Twice(Ask{Op: op}, answer)
			if here != there {
				o.Err = fmt.Sprintf("amd64 gives %s, 386 gives %s", here, there)
			}
			return o
		},
	}},
}

// ParCase is formatting by several goroutines.
type ParCase struct {
	Tasks [][]Op `json:"tasks"`
}

func genTasks(t *rapid.T, calls int) ParCase {
	var c ParCase
	pool := []Op{genOp(t), genOp(t), genOp(t)}
	for i := rapid.IntRange(2, 4).Draw(t, "tasks"); i > 0; i-- {
		var ops []Op
		for j := rapid.IntRange(1, calls).Draw(t, "ops"); j > 0; j-- {
			ops = append(ops, pool[rapid.IntRange(0, 2).Draw(t, "op")])
		}
		c.Tasks = append(c.Tasks, ops)
	}
	return c
}

// runPar runs the tasks at once, each the given number of times.
func runPar(c ParCase, times int) engine.Outcome {
	o := engine.Outcome{Class: fmt.Sprintf("goroutines-%d", len(c.Tasks)), Nontrivial: true}
	res := make([][]string, len(c.Tasks))
	panics := make([]any, len(c.Tasks))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, ops := range c.Tasks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			for n := 0; n < times; n++ {
				for _, op := range ops {
					res[i] = append(res[i], string(op.append(nil)), op.format())
					if times == 1 {
						runtime.Gosched()
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, p := range panics {
		if p != nil {
			o.Err = fmt.Sprintf("goroutine %d: panic: %v", i, p)
			return o
		}
	}
	// Alone: in a process that has run no two calls at once.
	there := engine.There(Ask{Tasks: c.Tasks})
	var alone, after [][]string
	if err := json.Unmarshal([]byte(there), &alone); err != nil || len(alone) != len(c.Tasks) {
		o.Err = fmt.Sprintf("run alone: %s", there)
		return o
	}
	json.Unmarshal([]byte(tasksAlone(c.Tasks)), &after)
	for i, ops := range c.Tasks {
		for j := range ops {
			want := alone[i][j]
			for n := 0; n < times; n++ {
				if k := 2 * (n*len(ops) + j); res[i][k] != want || res[i][k+1] != want {
					o.Err = fmt.Sprintf("goroutine %d call %d gave %q and %q; alone it gives %q", i, j, res[i][k], res[i][k+1], want)
					return o
				}
			}
			if after[i][j] != want {
				o.Err = fmt.Sprintf("goroutine %d call %d made again gave %q; in a process without calls made at once it gives %q", i, j, after[i][j], want)
				return o
			}
		}
	}
	return o
}

var c27 = &engine.Prop{
	ID: "C27",
	Subs: []engine.Runner{
		&engine.Sub[ParCase]{
			Name: "shared-formatting", RaceOnly: true, Quick: 16000, Thor: 400000,
			Gen: func(t *rapid.T) ParCase { return genTasks(t, 6) },
			Run: func(c ParCase) engine.Outcome { return runPar(c, 1) },
		},
		&engine.Sub[ParCase]{
			Name: "contended-formatting", PlainOnly: true, Quick: 6000, Thor: 200000,
			Gen: func(t *rapid.T) ParCase { return genTasks(t, 2) },
			Run: func(c ParCase) engine.Outcome { return runPar(c, 50) },
		},
	},
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "serve" {
		engine.Serve(answer)
		return
	}
	for _, p := range []*engine.Prop{c21, c22, c23} {
		for _, s := range p.Subs {
			switch s := s.(type) {
			case *engine.Sub[FloatCase]:
				if s.Gen != nil && s.Name != "hard-decimals" && s.Name != "other-size" && s.Name != "any-precision" {
					vary := varyFloat
					if p.ID == "C22" {
						vary = varyFloat16
					}
					p.Subs = append(p.Subs, engine.InSequence(s, vary, s.Quick/12, s.Thor/12))
				}
			case *engine.Sub[IntCase]:
				if s.Name == "integers" {
					p.Subs = append(p.Subs, engine.InSequence(s, varyInt, s.Quick/12, s.Thor/12))
				}
			}
		}
	}
	engine.Main([]*engine.Prop{c21, c22, c23, c24, c25, c26, c27})
}
