package main

import (
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// numClass names the region of a datum of f for the distribution.
func numClass(f oracle.Fmt, n oracle.Num) string {
	switch {
	case n.Kind == oracle.NaN:
		return "nan"
	case n.Kind == oracle.Inf:
		return "inf"
	case n.IsZero():
		return "zero"
	case n.Top() < f.Emin:
		return "subnormal"
	}
	return "normal"
}

// checkDecoded compares a Big() result with the number it should be.
func checkDecoded(want oracle.Num, signKnown bool, x *big.Float, nan bool, prec uint, minPrec bool) string {
	engine.KeepBig(x)
	if nan != (want.Kind == oracle.NaN) {
		return errf("Big() reports nan=%v (x=%v), want %v", nan, x, want)
	}
	if nan {
		if x.Sign() != 0 || x.IsInf() {
			return errf("Big() of a NaN returns %v, want a signed zero", x)
		}
		if signKnown && x.Signbit() != want.Neg {
			return errf("Big() of a NaN has signbit %v, want %v", x.Signbit(), want.Neg)
		}
	} else {
		got := oracle.FromBig(x)
		if !signKnown && want.IsZero() {
			got.Neg = want.Neg
		}
		if !oracle.Same(got, want) {
			return errf("Big() = %v, want %v", got, want)
		}
	}
	if x.Mode() != big.ToNearestEven {
		return errf("Big() has rounding mode %v", x.Mode())
	}
	if x.Prec() != prec && !(minPrec && x.Prec() > prec) {
		return errf("Big() has precision %d, want %d", x.Prec(), prec)
	}
	return ""
}

func nontrivialEnc(f oracle.Fmt, n oracle.Num) bool {
	return n.Kind == oracle.Finite && !n.IsZero() && n.M.BitLen() > 1 || n.Kind == oracle.NaN
}

var c01 = &engine.Prop{
	ID:   "C01",
	Rule: "every 16-bit pattern, enumerated. Non-trivial: a NaN, or a finite number that is neither zero nor a power of two.",
	Subs: []engine.Runner{&engine.Sub[BitsCase]{
		Name: "binary16-decode", EnumN: 1 << 16, Again: true,
		EnumAt: func(i uint64) BitsCase { return BitsCase{"binary16", W{i}} },
		Run: func(c BitsCase) engine.Outcome {
			n := oracle.Dec16(uint16(c.W[0]))
			x, nan := binary16.NewFromBits(uint16(c.W[0])).Big()
			return engine.Outcome{Class: numClass(oracle.F16, n), Nontrivial: nontrivialEnc(oracle.F16, n),
				Err: checkDecoded(n, true, x, nan, 11, false)}
		},
	}},
}

var c02 = &engine.Prop{
	ID:   "C02",
	Rule: "every 16-bit pattern, enumerated; the reference is the float32 with the pattern as its upper half. Non-trivial: a NaN, or a finite number that is neither zero nor a power of two.",
	Subs: []engine.Runner{&engine.Sub[BitsCase]{
		Name: "bfloat-decode", EnumN: 1 << 16, Again: true,
		EnumAt: func(i uint64) BitsCase { return BitsCase{"bfloat", W{i}} },
		Run: func(c BitsCase) engine.Outcome {
			n := oracle.Dec32(uint32(c.W[0]) << 16)
			x, nan := bfloat.NewFromBits(uint16(c.W[0])).Big()
			return engine.Outcome{Class: numClass(oracle.BF16, n), Nontrivial: nontrivialEnc(oracle.BF16, n),
				Err: checkDecoded(n, true, x, nan, 8, false)}
		},
	}},
}

// fieldWalk enumerates one-hot and run patterns over every field and sign.
func fieldWalk(exps []uint64, fracBits int) []([2]*big.Int) {
	var out [][2]*big.Int
	one := big.NewInt(1)
	var fr []*big.Int
	fr = append(fr, new(big.Int))
	for i := 0; i < fracBits; i++ {
		b := new(big.Int).Lsh(one, uint(i))
		fr = append(fr, b)
		m := new(big.Int).Sub(b, one)
		fr = append(fr, m)
		all := new(big.Int).Sub(new(big.Int).Lsh(one, uint(fracBits)), one)
		fr = append(fr, new(big.Int).Xor(all, m), new(big.Int).Xor(all, b), all)
	}
	for _, e := range exps {
		for _, f := range fr {
			out = append(out, [2]*big.Int{new(big.Int).SetUint64(e), f})
		}
	}
	return out
}

var edgeExps = []uint64{0, 1, 2, 0x3FFE, 0x3FFF, 0x4000, 0x5555, 0x2AAA, 0x7FFD, 0x7FFE, 0x7FFF}

var walk128 = fieldWalk(edgeExps, 112)
var walk80 = fieldWalk(edgeExps, 64)

// enumExp enumerates every 15-bit exponent with both signs and a few fractions.
const enumExpN = 1 << 16 * 4

func enumExp(i uint64, fracBits int) (se uint64, frac *big.Int) {
	se = i & 0xFFFF
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(fracBits)), big.NewInt(1))
	switch i >> 16 {
	case 0:
		frac = new(big.Int)
	case 1:
		frac = big.NewInt(1)
	case 2:
		frac = all
	default:
		r := new(big.Int).SetUint64(engine.Mix(i))
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(engine.Mix(i+99)))
		frac = r.And(r, all)
	}
	return
}

var c03 = &engine.Prop{
	ID:   "C03",
	Rule: "encodings drawn field by field (uniform, edge and central exponents; uniform, one-hot, run and sparse fractions), values next to narrower grids, every exponent with four fractions, and one-hot/run walks over all 112 fraction bits. Non-trivial: a NaN, or a finite number that is neither zero nor a power of two.",
	Subs: []engine.Runner{
		&engine.Sub[BitsCase]{
			Name: "binary128-exponents", EnumN: enumExpN,
			EnumAt: func(i uint64) BitsCase {
				se, f := enumExp(i, 112)
				hi, lo := oracle.Words128(f)
				return BitsCase{"binary128", W{hi | se<<48, lo}}
			},
			Run: runDecode128,
		},
		&engine.Sub[BitsCase]{
			Name: "binary128-walk", EnumN: uint64(2 * len(walk128)),
			EnumAt: func(i uint64) BitsCase {
				p := walk128[i>>1]
				hi, lo := oracle.Words128(p[1])
				return BitsCase{"binary128", W{hi | p[0].Uint64()<<48 | i&1<<63, lo}}
			},
			Run: runDecode128,
		},
		&engine.Sub[BitsCase]{
			Name: "binary128-decode", Quick: 400000, Thor: 12000000,
			Gen: func(t *rapid.T) BitsCase { return BitsCase{"binary128", encs["binary128"].genW(t)} },
			Run: runDecode128,
		},
	},
}

func runDecode128(c BitsCase) engine.Outcome {
	n := encs["binary128"].dec(c.W)
	x, nan := binary128.NewFromBits(c.W[0], c.W[1]).Big()
	return engine.Outcome{Class: numClass(oracle.F128, n), Nontrivial: nontrivialEnc(oracle.F128, n),
		Err: checkDecoded(n, true, x, nan, 113, false)}
}

func class80(c W, n oracle.Num) string {
	cl := numClass(oracle.F80, n)
	if n.Kind == oracle.Finite && !oracle.CanonicalF80(uint16(c[0]), c[1]) {
		if c[0]&0x7FFF == 0 {
			return "pseudo-denormal"
		}
		return "unnormal"
	}
	return cl
}

var c04 = &engine.Prop{
	ID:   "C04",
	Rule: "encodings drawn field by field (with and without the lead bit: normals, subnormals, pseudo-denormals, unnormals, pseudo-infinities), values next to narrower grids, every exponent with four significands, and one-hot/run walks over all 64 significand bits. Non-trivial: a NaN, or a finite number that is neither zero nor a power of two.",
	Subs: []engine.Runner{
		&engine.Sub[BitsCase]{
			Name: "float80x86-exponents", EnumN: enumExpN,
			EnumAt: func(i uint64) BitsCase {
				se, f := enumExp(i, 64)
				if i>>16 == 0 {
					f.SetBit(f, 63, 1)
				}
				return BitsCase{"float80x86", W{se, f.Uint64()}}
			},
			Run: runDecode80,
		},
		&engine.Sub[BitsCase]{
			Name: "float80x86-walk", EnumN: uint64(4 * len(walk80)),
			EnumAt: func(i uint64) BitsCase {
				p := walk80[i>>2]
				m := p[1].Uint64()
				if i&2 != 0 {
					m |= 1 << 63
				}
				return BitsCase{"float80x86", W{p[0].Uint64() | i&1<<15, m}}
			},
			Run: runDecode80,
		},
		&engine.Sub[BitsCase]{
			Name: "float80x86-decode", Quick: 500000, Thor: 16000000,
			Gen: func(t *rapid.T) BitsCase { return BitsCase{"float80x86", genF80(t)} },
			Run: runDecode80,
		},
	},
}

func runDecode80(c BitsCase) engine.Outcome {
	n := oracle.DecodeF80(uint16(c.W[0]), c.W[1])
	x, nan := float80x86.NewFromBits(uint16(c.W[0]), c.W[1]).Big()
	return engine.Outcome{Class: class80(c.W, n), Nontrivial: nontrivialEnc(oracle.F80, n),
		Err: checkDecoded(n, true, x, nan, 64, false)}
}

func classPPC(w W) string {
	n, _ := oracle.DecPPC(w[0], w[1])
	a, b := oracle.Dec64(w[0]), oracle.Dec64(w[1])
	switch {
	case n.Kind == oracle.NaN && a.Kind == oracle.Inf && b.Kind == oracle.Inf:
		return "inf-minus-inf"
	case n.Kind == oracle.NaN && a.Kind != oracle.NaN:
		return "nan-low"
	case n.Kind == oracle.NaN:
		return "nan"
	case n.Kind == oracle.Inf:
		return "inf"
	case n.IsZero() && !a.IsZero():
		return "cancelled"
	case n.IsZero():
		return "zero"
	case oracle.CanonicalPPC(w[0], w[1]):
		if b.IsZero() {
			return "canonical-low-zero"
		}
		if n.M.BitLen() > 106 {
			return "canonical-wide"
		}
		return "canonical"
	case n.M.BitLen() > 106:
		return "non-canonical-wide"
	}
	return "non-canonical"
}

var c05 = &engine.Prop{
	ID:   "C05",
	Rule: "pairs of doubles: encodings of wide numbers, any two doubles, low at a chosen distance below high, cancelling pairs, all pairs of special values, zeros of both signs. Non-trivial: a NaN, or a pair with two non-zero parts.",
	Subs: []engine.Runner{&engine.Sub[BitsCase]{
		Name: "float128ppc-decode", Quick: 400000, Thor: 12000000,
		Gen: func(t *rapid.T) BitsCase {
			if gen.Pick(t, "nan", 9, 1) == 1 {
				return BitsCase{"float128ppc", encs["float128ppc"].genNaN(t)}
			}
			return BitsCase{"float128ppc", genPPC(t)}
		},
		Run: func(c BitsCase) engine.Outcome {
			n, known := oracle.DecPPC(c.W[0], c.W[1])
			f := float128ppc.NewFromBits(c.W[0], c.W[1])
			x, nan := f.Big()
			a, b := oracle.Dec64(c.W[0]), oracle.Dec64(c.W[1])
			err := checkDecoded(n, known, x, nan, 106, true)
			if err == "" && f.IsNaN() != nan {
				err = errf("IsNaN() = %v but Big() reports nan=%v", f.IsNaN(), nan)
			}
			return engine.Outcome{Class: classPPC(c.W), Nontrivial: n.Kind == oracle.NaN || !a.IsZero() && !b.IsZero(), Err: err}
		},
	}},
}

var c06 = &engine.Prop{
	ID:   "C06",
	Rule: "every 16-bit pattern of binary16 and bfloat, and drawn encodings of the wide formats with every NaN payload class. Non-trivial: some fraction bit and some exponent bit is set.",
	Subs: []engine.Runner{
		&engine.Sub[BitsCase]{
			Name: "fields-16", EnumN: 1 << 17, Again: true,
			EnumAt: func(i uint64) BitsCase {
				return BitsCase{[]string{"binary16", "bfloat"}[i>>16], W{i & 0xFFFF}}
			},
			Run: runFields,
		},
		&engine.Sub[BitsCase]{
			Name: "fields", Quick: 800000, Thor: 20000000,
			Gen: func(t *rapid.T) BitsCase {
				p := []string{"binary128", "float80x86", "float128ppc"}[gen.Pick(t, "pkg", 2, 2, 1)]
				switch gen.Pick(t, "kind", 6, 1, 3) {
				case 1:
					return BitsCase{p, encs[p].genNaN(t)}
				case 2:
					w := W{rapid.Uint64().Draw(t, "a"), rapid.Uint64().Draw(t, "b")}
					if p == "float80x86" {
						w[0] &= 0xFFFF
					}
					return BitsCase{p, w}
				}
				return BitsCase{p, encs[p].genW(t)}
			},
			Run: runFields,
		},
	},
}

func runFields(c BitsCase) engine.Outcome {
	o := engine.Outcome{Class: c.Pkg}
	w := c.W
	var got W
	var sign bool
	var exp, lead int
	var frac W
	hasFields := true
	var same bool
	var wantSign bool
	var wantExp, wantLead int
	var wantFrac W
	switch c.Pkg {
	case "binary16":
		f := binary16.NewFromBits(uint16(w[0]))
		same = any(f) == any(binary16.NewFromBits(uint16(w[0])))
		got = W{uint64(f.Bits())}
		sign, exp, frac = f.Signbit(), f.Exp(), W{uint64(f.Frac())}
		wantSign, wantExp, wantFrac = w[0]>>15 == 1, int(w[0]>>10&31), W{w[0] & 1023}
	case "bfloat":
		f := bfloat.NewFromBits(uint16(w[0]))
		same = any(f) == any(bfloat.NewFromBits(uint16(w[0])))
		got = w
		sign, exp, frac = f.Signbit(), f.Exp(), W{uint64(f.Frac())}
		wantSign, wantExp, wantFrac = w[0]>>15 == 1, int(w[0]>>7&255), W{w[0] & 127}
	case "binary128":
		f := binary128.NewFromBits(w[0], w[1])
		same = any(f) == any(binary128.NewFromBits(w[0], w[1]))
		a, b := f.Bits()
		got = W{a, b}
		fa, fb := f.Frac()
		sign, exp, frac = f.Signbit(), f.Exp(), W{fa, fb}
		wantSign, wantExp, wantFrac = w[0]>>63 == 1, int(w[0]>>48&0x7FFF), W{w[0] & (1<<48 - 1), w[1]}
	case "float80x86":
		f := float80x86.NewFromBits(uint16(w[0]), w[1])
		same = any(f) == any(float80x86.NewFromBits(uint16(w[0]), w[1]))
		a, b := f.Bits()
		got = W{uint64(a), b}
		sign, exp, lead, frac = f.Signbit(), f.Exp(), f.Lead(), W{f.Frac()}
		wantSign, wantExp, wantLead, wantFrac = w[0]>>15 == 1, int(w[0]&0x7FFF), int(w[1]>>63), W{w[1] & (1<<63 - 1)}
	case "float128ppc":
		f := float128ppc.NewFromBits(w[0], w[1])
		same = any(f) == any(float128ppc.NewFromBits(w[0], w[1])) || f.IsNaN()
		a, b := f.Bits()
		got = W{a, b}
		hasFields = false
	}
	o.Nontrivial = !hasFields && w[0] != 0 && w[1] != 0 || wantExp != 0 && wantFrac != W{}
	if got != w {
		o.Err = errf("Bits() = %s, want %s", words(got), words(w))
		return o
	}
	if !same {
		o.Err = errf("two floats made from %s are not ==", words(w))
		return o
	}
	if hasFields && (sign != wantSign || exp != wantExp || lead != wantLead || frac != wantFrac) {
		o.Err = errf("Signbit,Exp,Lead,Frac = %v,%#x,%d,%s want %v,%#x,%d,%s", sign, exp, lead, words(frac), wantSign, wantExp, wantLead, words(wantFrac))
	}
	return o
}
