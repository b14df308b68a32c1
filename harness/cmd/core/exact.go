package main

import (
	"math"
	"math/big"
	"strconv"

	"pgregory.net/rapid"

	"github.com/mewmew/float"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// ExactCase is one IsExactN question.
type ExactCase struct {
	N int         `json:"n"`
	X gen.BigSpec `json:"x"`
}

func (c ExactCase) Key() uint64 { return c.X.Key() ^ uint64(c.N)<<50 }

func nativeFmt(n int) oracle.Fmt {
	switch n {
	case 16:
		return oracle.F16
	case 32:
		return oracle.F32
	}
	return oracle.F64
}

func isExact(n int, x *big.Float) bool {
	switch n {
	case 16:
		return float.IsExact16(x)
	case 32:
		return float.IsExact32(x)
	}
	return float.IsExact64(x)
}

func genExactN(t *rapid.T) int { return []int{16, 32, 64}[gen.Pick(t, "n", 3, 2, 2)] }

// decimalish draws a short decimal that is a binary fraction, near the range of f.
func decimalish(t *rapid.T, f oracle.Fmt) oracle.Num {
	d := gen.Uniform(t, 1, 99999)
	if gen.Bool(t, "short") {
		d = gen.Uniform(t, 1, 700)
	}
	m := big.NewInt(d)
	e := int64(0)
	if gen.Bool(t, "int") {
		m.Mul(m, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.IntRange(0, 12).Draw(t, "ten"))), nil))
	} else {
		e = -rapid.Int64Range(0, 26).Draw(t, "two")
	}
	return oracle.Mk(gen.Bool(t, "neg"), m, e)
}

var c19 = &engine.Prop{
	ID:   "C19",
	Rule: bigRule + "Also integers with few decimal digits and binary fractions of them (values whose text is short). Non-trivial: the format cannot hold the value.",
	Subs: []engine.Runner{
		&engine.Sub[ExactCase]{
			Name: "exact-soundness", Quick: 600000, Thor: 12000000,
			Gen: func(t *rapid.T) ExactCase {
				n := genExactN(t)
				f := nativeFmt(n)
				if gen.Pick(t, "kind", 3, 2) == 1 {
					d := decimalish(t, f)
					return ExactCase{n, gen.Spec(d, gen.Prec(t, d), 0)}
				}
				s := genBig(t, f)
				capExp(&s)
				return ExactCase{n, s}
			},
			Run: runSound,
		},
		&engine.Sub[ExactCase]{
			Name: "exact16-integers", EnumN: 2 * 70000,
			EnumAt: func(i uint64) ExactCase {
				n := oracle.MkU(i&1 == 1, i>>1, 0)
				return ExactCase{16, exactSpec(n, 1)}
			},
			Run: runSound,
		},
		&engine.Sub[ExactCase]{
			Name: "exact-boundaries", EnumN: exactWalks(),
			EnumAt: func(i uint64) ExactCase {
				n := []int{16, 32, 64}[i%3]
				b := exactWalk[i%3]
				s := exactSpec(b.at(i/3%b.n()), i)
				capExp(&s)
				return ExactCase{n, s}
			},
			Run: runSound,
		},
	},
}

var exactWalk = [3]*boundary{newBoundary(oracle.F16, true), newBoundary(oracle.F32, false), newBoundary(oracle.F64, false)}

func exactWalks() uint64 {
	m := uint64(0)
	for _, b := range exactWalk {
		if b.n() > m {
			m = b.n()
		}
	}
	return 3 * m
}

// capExp keeps the exponent where formatting the number as decimal text (what
// IsExact does on the way) takes reasonable time.
func capExp(s *gen.BigSpec) {
	if s.Form != "fin" || s.E >= -3000 && s.E <= 3000 {
		return
	}
	if s.E%16 == 5 {
		// A few where 16 bits of the exponent look like a small one.
		k := int64(1 << 16)
		if s.E < 0 {
			k = -k
		}
		s.E = k + s.E/16%60 - 4*int64(len(s.M))
		return
	}
	if s.E > 3000 {
		s.E = 3000 + s.E%1000
	}
	if s.E < -3000 {
		s.E = -3000 + s.E%1000
	}
}

func runSound(c ExactCase) engine.Outcome {
	f := nativeFmt(c.N)
	n := c.X.Num()
	h := f.Holds(n)
	o := engine.Outcome{Class: f.Name + "-" + f.Class(n), Nontrivial: !h}
	if isExact(c.N, c.X.Big()) && !h {
		o.Err = errf("IsExact%d(%v) is true, but %s has no such value", c.N, n, f.Name)
	}
	return o
}

const longDecimal = "exact-needs-short-decimal"

// shortDecimal reports whether the shortest decimal that identifies n in the
// format is n itself.
func shortDecimal(n int, v oracle.Num) bool {
	if v.Kind != oracle.Finite || v.IsZero() {
		return true
	}
	f := nativeFmt(n)
	ex := oracle.Exact(v)
	if n == 16 {
		for _, d := range f.Shortest(v) {
			if d == ex {
				return true
			}
		}
		return false
	}
	x := math.Float64frombits(oracle.Enc64(v))
	s := strconv.FormatFloat(math.Abs(x), 'e', -1, n)
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("harness: shortest text")
	}
	return r.Cmp(ex.Value()) == 0
}

func runComplete(c ExactCase) engine.Outcome {
	f := nativeFmt(c.N)
	n := c.X.Num()
	o := engine.Outcome{Class: f.Name + "-" + f.Class(n)}
	if !f.Holds(n) {
		return o
	}
	short := shortDecimal(c.N, n)
	o.Nontrivial = n.Kind == oracle.Finite && n.M.BitLen() > 1
	if !short {
		o.Class += "-long-decimal"
	}
	if !isExact(c.N, c.X.Big()) {
		o.Err = errf("IsExact%d(%v) is false, but %s has that value", c.N, n, f.Name)
		if !short {
			o.Known = longDecimal
		}
	}
	return o
}

// genHeld draws a value the format holds, many with a short decimal.
func genHeld(t *rapid.T, n int) gen.BigSpec {
	f := nativeFmt(n)
	var v oracle.Num
	switch gen.Pick(t, "held", 3, 4, 3, 1) {
	case 0:
		v = f.Decode(gen.Bits(t, f))
		if v.Kind == oracle.NaN {
			v = oracle.MkInf(v.Neg)
		}
	case 1: // few bits, exponent near zero: the decimal is short
		m := gen.Frac(t, 1+gen.Pick(t, "bits", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1))
		v = oracle.Mk(gen.Bool(t, "neg"), m, rapid.Int64Range(-20, 25).Draw(t, "e"))
		v, _ = f.Round(v)
	case 2:
		v = decimalish(t, f)
		v, _ = f.Round(v)
	case 3:
		v = oracle.MkZero(gen.Bool(t, "neg"))
		if gen.Bool(t, "inf") {
			v = oracle.MkInf(v.Neg)
		}
	}
	s := gen.Spec(v, gen.Prec(t, v), uint8(gen.Pick(t, "mode", 8, 1, 1, 1, 1, 1)))
	if s.Form == "fin" && gen.Pick(t, "acc", 9, 1) == 1 {
		s.Acc = 1
	}
	if s.Form == "zero" && !s.Neg && gen.Bool(t, "unset") {
		s = gen.BigSpec{Form: "unset"}
	}
	return s
}

var c20 = &engine.Prop{
	ID:   "C20",
	Rule: "all binary16 values; float32 and float64 values drawn by encoding fields, as few-bit numbers with small exponents, and as short decimals, held at random sufficient precisions, modes and accuracies. Non-trivial: finite and not zero or a power of two.",
	Assumptions: []string{
		"known finding " + longDecimal + ": IsExactN rejects values whose shortest N-bit decimal is not their exact decimal; those rejections are counted, not reported as violations",
	},
	Subs: []engine.Runner{
		&engine.Sub[ExactCase]{
			Name: "exact16-all", EnumN: 0x7C01 * 2, Again: true,
			EnumAt: func(i uint64) ExactCase {
				n := oracle.Dec16(uint16(i>>1) | uint16(i&1)<<15)
				return ExactCase{16, exactSpec(n, i)}
			},
			Run: runComplete,
		},
		&engine.Sub[ExactCase]{
			Name: "exact-completeness", Quick: 500000, Thor: 10000000,
			Gen: func(t *rapid.T) ExactCase { n := genExactN(t); return ExactCase{n, genHeld(t, n)} },
			Run: runComplete,
		},
	},
}
