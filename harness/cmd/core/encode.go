package main

import (
	"math"
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

const bigRule = "big floats aimed at the format's grid: exponents around its normal, subnormal, overflow and underflow edges (and far outside), significands with structured bit runs, tails exactly at, one bit around and near half a unit in the last place, held at random sufficient precisions, rounding modes and accuracies. Non-trivial: finite, non-zero and not exactly representable, or subnormal. "

func genBig(t *rapid.T, f oracle.Fmt) gen.BigSpec {
	s := gen.BigFor(t, f)
	if s.Form == "fin" && gen.Pick(t, "acc", 9, 1) == 1 {
		s.Acc = 1
	}
	return s
}

// boundaryAt enumerates numbers at fixed places of the grid of f: for every
// exponent from below the smallest subnormal to above the overflow threshold
// (step), a few significands, with tails around 0, half and one unit.
type boundary struct {
	f        oracle.Fmt
	exps     []int64
	sigs     int
	tails    int
	perValue uint64
}

func newBoundary(f oracle.Fmt, all bool) *boundary {
	b := &boundary{f: f, sigs: 8, tails: 10}
	min := f.Emin - int64(f.P-1)
	add := func(lo, hi int64) {
		for e := lo; e <= hi; e++ {
			b.exps = append(b.exps, e)
		}
	}
	if all {
		add(min-6, f.Emax+6)
	} else {
		add(min-6, f.Emin+6)
		add(-3, 3)
		add(f.Emax-4, f.Emax+6)
	}
	b.exps = append(b.exps, min-1000, min-64, min-100000, f.Emax+64, f.Emax+1000, f.Emax+20000, f.Emax+32768, f.Emax+65536, f.Emax+1<<20)
	return b
}

func (b *boundary) n() uint64 { return uint64(len(b.exps) * b.sigs * b.tails * 2) }

func (b *boundary) at(i uint64) oracle.Num {
	neg := i&1 == 1
	i >>= 1
	tail := int(i) % b.tails
	i /= uint64(b.tails)
	sig := int(i) % b.sigs
	i /= uint64(b.sigs)
	top := b.exps[i]
	f := b.f
	keep := f.P
	if top < f.Emin {
		keep = f.P - int(f.Emin-top)
		if f.Emin-top > int64(f.P) {
			keep = 0
		}
	}
	m := new(big.Int)
	if keep > 0 {
		one := big.NewInt(1)
		full := new(big.Int).Sub(new(big.Int).Lsh(one, uint(keep)), one)
		lead := new(big.Int).Lsh(one, uint(keep-1))
		switch sig {
		case 0:
			m.Set(lead)
		case 1:
			m.Or(lead, one)
		case 2:
			m.Set(full)
		case 3:
			m.AndNot(full, one)
		case 4:
			m.Or(lead, big.NewInt(2))
		case 5:
			m.Or(lead, new(big.Int).Rsh(lead, 1))
		case 6:
			m.Or(lead, new(big.Int).Rsh(full, uint(keep/2)))
		default:
			r := new(big.Int).SetUint64(engine.Mix(uint64(top) * 77))
			r.Lsh(r, 64)
			r.Or(r, new(big.Int).SetUint64(engine.Mix(uint64(top)*77+1)))
			m.And(r, full)
			m.Or(m, lead)
		}
		if keep == 1 {
			m.Set(one)
		}
	} else {
		// A number below the smallest subnormal: 1.sig at that exponent.
		m.SetInt64(int64(1<<7 | sig*16))
		e := top - 7
		return oracle.Mk(neg, m, e)
	}
	// tail of 70 bits
	const tl = 70
	half := new(big.Int).Lsh(big.NewInt(1), tl-1)
	t := new(big.Int)
	switch tail {
	case 0:
	case 1:
		t.Set(half)
	case 2:
		t.Add(half, big.NewInt(1))
	case 3:
		t.Sub(half, big.NewInt(1))
	case 4:
		t.SetInt64(1)
	case 5:
		t.Sub(new(big.Int).Lsh(half, 1), big.NewInt(1))
	case 6:
		t.Rsh(half, 1)
	case 7:
		t.Add(half, new(big.Int).Rsh(half, 1))
	case 8:
		t.Add(half, new(big.Int).Rsh(half, 20))
	case 9:
		t.Sub(half, new(big.Int).Rsh(half, 20))
	}
	m.Lsh(m, tl)
	m.Or(m, t)
	return oracle.Mk(neg, m, top-int64(keep-1)-tl)
}

// exactSpec holds n at exactly its own number of bits or a fixed precision.
func exactSpec(n oracle.Num, i uint64) gen.BigSpec {
	p := uint(n.M.BitLen())
	if p == 0 {
		p = 1
	}
	if i%3 == 1 && p < 200 {
		p = 200
	}
	return gen.Spec(n, p, uint8(i/3%6))
}

func isNT(f oracle.Fmt, n oracle.Num) bool {
	if n.Kind != oracle.Finite || n.IsZero() {
		return false
	}
	_, acc := f.Round(n)
	return acc != 0 || n.Top() < f.Emin
}

// runBig checks the value part of NewFromBig.
func runBig(c BigCase) engine.Outcome {
	e := encs[c.Pkg]
	n := c.X.Num()
	want, _ := e.encode(n)
	v, _ := e.fromBig(c.X.Big())
	got := v.Words()
	o := engine.Outcome{Class: e.aim.Class(n), Nontrivial: isNT(e.aim, n)}
	if c.Pkg == "float128ppc" {
		o.Class = classEncPPC(n)
		// The sign of a zero low part is not specified.
		got, want = lowZero(got), lowZero(want)
	}
	if got != want {
		o.Err = errf("%s.NewFromBig(%v) = %s, want %s", c.Pkg, n, words(got), words(want))
	}
	return o
}

// lowZero forgets the sign of a zero low part.
func lowZero(w W) W {
	if w[1] == 1<<63 {
		w[1] = 0
	}
	return w
}

// classEncPPC names where a number falls for the double-double encoder.
func classEncPPC(n oracle.Num) string {
	if n.Kind == oracle.Finite && !n.IsZero() {
		hi, _ := oracle.F64.Round(n)
		switch {
		case hi.Kind == oracle.Inf:
			return "overflow"
		case hi.IsZero():
			return "underflow"
		}
		d := oracle.Sub(n, hi)
		if d.IsZero() {
			return "one-double"
		}
		if n.M.BitLen() <= 106 {
			return "pair-low-" + oracle.F64.Class(d)
		}
		return "wide-low-" + oracle.F64.Class(d)
	}
	return oracle.F64.Class(n)
}

func fromBigProp(id, pkg string, all bool, quick, thor int) *engine.Prop {
	f := encs[pkg].aim
	b := newBoundary(f, all)
	return &engine.Prop{
		ID:   id,
		Rule: bigRule + "Also a fixed walk over boundary exponents, significands and tails.",
		Subs: []engine.Runner{
			&engine.Sub[BigCase]{
				Name: pkg + "-boundaries", EnumN: b.n(),
				EnumAt: func(i uint64) BigCase { return BigCase{pkg, exactSpec(b.at(i), i)} },
				Run:    runBig,
			},
			&engine.Sub[BigCase]{
				Name: pkg + "-frombig", Quick: quick, Thor: thor,
				Gen: func(t *rapid.T) BigCase { return BigCase{pkg, genBig(t, f)} },
				Run: runBig,
			},
		},
	}
}

// halves16 enumerates every half-precision value and midpoint with neighbours:
// the positive line of multiples of 2^-25 is walked at every grid point of
// binary16 by index i of (pattern, offset).
const halves16N = 0x7C00 * 2 * 8

func halves16(i uint64) oracle.Num {
	neg := i&1 == 1
	i >>= 1
	off := i & 7
	pat := uint16(i >> 3)
	a := oracle.Dec16(pat)
	var up oracle.Num
	if pat == 0x7BFF {
		up = oracle.MkU(false, 1, 16)
	} else {
		up = oracle.Dec16(pat + 1)
	}
	gap := oracle.Sub(up, a) // a power of two
	g := gap.Top()
	sh := func(m uint64, k int64) oracle.Num { return oracle.Add(a, oracle.MkU(false, m, g-k)) }
	var n oracle.Num
	switch off {
	case 0:
		n = a
	case 1:
		n = sh(1, 1)
	case 2:
		n = sh(1<<29+1, 30)
	case 3:
		n = sh(1<<29-1, 30)
	case 4:
		n = sh(1, 30)
	case 5:
		n = sh(1<<30-1, 30)
	case 6:
		n = oracle.Add(sh(1, 1), oracle.MkU(false, 1, g-90))
	default:
		n = sh(1<<11-1, 12) // just below half of a float32 step pattern
	}
	n.Neg = neg
	return n
}

var c07, c08, c09, c10 *engine.Prop

func init() {
	c07 = fromBigProp("C07", "binary16", true, 500000, 16000000)
	c07.Subs = append(c07.Subs, &engine.Sub[BigCase]{
		Name: "binary16-every-midpoint", EnumN: halves16N, Again: true,
		EnumAt: func(i uint64) BigCase { return BigCase{"binary16", exactSpec(halves16(i), i)} },
		Run:    runBig,
	})
	c08 = fromBigProp("C08", "binary128", false, 500000, 14000000)
	c09 = fromBigProp("C09", "float80x86", false, 500000, 16000000)
	c10 = &engine.Prop{
		ID:   "C10",
		Rule: "big floats aimed at the 106-bit grid and at the float64 grid of each part: ties and near-ties in the high part and in the low part, more than 106 bits, far-apart parts, subnormal low parts, overflow threshold, random precisions and modes. Non-trivial: the low part is not zero, or a part overflows or underflows.",
		Subs: []engine.Runner{&engine.Sub[BigCase]{
			Name: "float128ppc-frombig", Quick: 500000, Thor: 16000000,
			Gen: func(t *rapid.T) BigCase { return BigCase{"float128ppc", genBigPPC(t)} },
			Run: func(c BigCase) engine.Outcome {
				o := runBig(c)
				n := c.X.Num()
				hi, acc := oracle.F64.Round(n)
				o.Nontrivial = acc != 0 || hi.Kind == oracle.Finite && hi.IsZero() && !n.IsZero()
				return o
			},
		}},
	}
}

// genBigPPC draws a number next to the grid of the high part, of the low part,
// or of the 106-bit significand.
func genBigPPC(t *rapid.T) gen.BigSpec {
	switch gen.Pick(t, "ppc-big", 3, 3, 5) {
	case 0:
		return genBig(t, oracle.F64)
	case 1:
		return genBig(t, fppc)
	}
	// high + something near the float64 grid at or below half an ulp of high.
	hi := oracle.Dec64(gen.Bits(t, oracle.F64).Uint64())
	if hi.Kind != oracle.Finite || hi.IsZero() {
		hi = oracle.MkU(false, 1, 0)
	}
	ulp := hi.Top() - 52
	if ulp < -1074 {
		ulp = -1074
	}
	lo := gen.Near(t, oracle.Fmt{P: 53, Emin: -1022, Emax: 1023})
	d := gen.Pick(t, "gap", 4, 4, 2)
	top := ulp - 1
	switch d {
	case 1:
		top -= int64(rapid.IntRange(0, 12).Draw(t, "gap-small"))
	case 2:
		top -= gen.Uniform(t, 0, 600)
	}
	shift := top - lo.Top()
	lo = oracle.Mk(lo.Neg, lo.M, lo.E+shift)
	// keep the low part's own grid above -1074 most of the time
	n := oracle.Add(hi, lo)
	if n.IsZero() {
		n = hi
	}
	s := gen.Spec(n, gen.Prec(t, n), uint8(gen.Pick(t, "mode", 8, 1, 1, 1, 1, 1)))
	return s
}

func genBigPkg(t *rapid.T, pkg string) gen.BigSpec {
	if pkg == "float128ppc" {
		return genBigPPC(t)
	}
	return genBig(t, encs[pkg].aim)
}

// gridFor is the narrower grid native floats are put next to for pkg.
func gridFor(pkg string) oracle.Fmt {
	if pkg == "binary16" {
		return oracle.F16
	}
	return oracle.F64
}

func genF64(t *rapid.T, pkg string) uint64 { return gen.F64Bits(t, gridFor(pkg)) }
func genF32(t *rapid.T, pkg string) uint32 {
	if pkg == "binary16" {
		return gen.F32Bits(t, oracle.F16)
	}
	return gen.F32Bits(t, oracle.F32)
}

// valueSign is the sign of (value of w) - n.
func valueSign(e *enc, w W, n oracle.Num) int {
	return oracle.Cmp(e.dec(w), n)
}

// accErr compares the reported accuracy with the sign of the error of the
// result actually returned.
func accErr(e *enc, call string, v val, acc big.Accuracy, n oracle.Num) string {
	d := e.dec(v.Words())
	if n.Kind == oracle.NaN {
		if acc != big.Exact {
			return errf("%s of a NaN reports %v, want Exact", call, acc)
		}
		return ""
	}
	if d.Kind == oracle.NaN {
		return errf("%s(%v) is a NaN (%s)", call, n, words(v.Words()))
	}
	if s := oracle.Cmp(d, n); s != int(acc) {
		return errf("%s(%v) = %s = %v reports %v, want %v", call, n, words(v.Words()), d, acc, big.Accuracy(s))
	}
	return ""
}

var c11 = &engine.Prop{
	ID:   "C11",
	Rule: bigRule + "The same for float64 and float32 patterns placed next to the grid of the narrower format.",
	Subs: []engine.Runner{
		&engine.Sub[BigCase]{
			Name: "accuracy-big", Quick: 700000, Thor: 20000000,
			Gen: func(t *rapid.T) BigCase { p := genPkg(t); return BigCase{p, genBigPkg(t, p)} },
			Run: func(c BigCase) engine.Outcome {
				e := encs[c.Pkg]
				n := c.X.Num()
				v, acc := e.fromBig(c.X.Big())
				_, want := e.encode(n)
				return engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n), Nontrivial: want != 0,
					Err: accErr(e, c.Pkg+".NewFromBig", v, acc, n)}
			},
		},
		&engine.Sub[F64Case]{
			Name: "accuracy-float64", Quick: 300000, Thor: 8000000,
			Gen: func(t *rapid.T) F64Case { p := genPkg(t); return F64Case{p, genF64(t, p)} },
			Run: func(c F64Case) engine.Outcome {
				e := encs[c.Pkg]
				n := oracle.Dec64(c.B)
				v, acc := e.from64(math.Float64frombits(c.B))
				return engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n), Nontrivial: isNT(oracle.F16, n) || isNT(oracle.F64, n),
					Err: accErr(e, c.Pkg+".NewFromFloat64", v, acc, n)}
			},
		},
		&engine.Sub[F32Case]{
			Name: "accuracy-float32", Quick: 300000, Thor: 8000000,
			Gen: func(t *rapid.T) F32Case { p := genPkg(t); return F32Case{p, genF32(t, p)} },
			Run: func(c F32Case) engine.Outcome {
				e := encs[c.Pkg]
				n := oracle.Dec32(c.B)
				v, acc := e.from32(math.Float32frombits(c.B))
				return engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n), Nontrivial: isNT(oracle.F16, n) || isNT(oracle.F32, n),
					Err: accErr(e, c.Pkg+".NewFromFloat32", v, acc, n)}
			},
		},
		&engine.Sub[BigCase]{
			Name: "accuracy-binary16-every-midpoint", EnumN: halves16N, Again: true,
			EnumAt: func(i uint64) BigCase { return BigCase{"binary16", exactSpec(halves16(i), i)} },
			Run: func(c BigCase) engine.Outcome {
				e := encs[c.Pkg]
				n := c.X.Num()
				v, acc := e.fromBig(c.X.Big())
				return engine.Outcome{Class: e.aim.Class(n), Nontrivial: isNT(oracle.F16, n),
					Err: accErr(e, c.Pkg+".NewFromBig", v, acc, n)}
			},
		},
	},
}

// nativeErr checks one NewFromFloat64/NewFromFloat32 result.
func nativeErr(e *enc, call string, n oracle.Num, v val, acc big.Accuracy) string {
	d := e.dec(v.Words())
	if n.Kind == oracle.NaN {
		if d.Kind != oracle.NaN || d.Neg != n.Neg || acc != big.Exact {
			return errf("%s(%v) = %s (%v, %v), want a NaN of the same sign, Exact", call, n, words(v.Words()), d, acc)
		}
		return ""
	}
	want, _ := e.encode(n)
	got := v.Words()
	if e.name == "float128ppc" {
		got, want = lowZero(got), lowZero(want)
	}
	if got != want {
		return errf("%s(%v) = %s, want %s", call, n, words(got), words(want))
	}
	return ""
}

var c12 = &engine.Prop{
	ID:   "C12",
	Rule: "float64 and float32 patterns: uniform over fields with edge exponents and structured fractions, and patterns placed on, at the midpoint of, and one bit around neighbouring values of the narrower format (binary16); every binary16 midpoint with its float64 and float32 neighbours is enumerated. Thorough also runs every float32 pattern with exponent -30 to 17 or all ones (and every 61st of the others) through binary16. Non-trivial: a NaN, a subnormal, or a value binary16 has to round.",
	Subs: []engine.Runner{
		&engine.Sub[F64Case]{
			Name: "float64-every-half-midpoint", EnumN: halves16N, Again: true,
			EnumAt: func(i uint64) F64Case {
				r, _ := oracle.F64.Round(halves16(i))
				return F64Case{"binary16", oracle.Enc64(r)}
			},
			Run: run64,
		},
		&engine.Sub[F32Case]{
			Name: "float32-every-half-midpoint", EnumN: halves16N, Again: true,
			EnumAt: func(i uint64) F32Case {
				r, _ := oracle.F32.Round(halves16(i))
				return F32Case{"binary16", oracle.Enc32(r)}
			},
			Run: run32,
		},
		&engine.Sub[F64Case]{
			Name: "float64", Quick: 500000, Thor: 12000000,
			Gen: func(t *rapid.T) F64Case { p := genPkg(t); return F64Case{p, genF64(t, p)} },
			Run: run64,
		},
		&engine.Sub[F32Case]{
			Name: "float32", Quick: 400000, Thor: 12000000,
			Gen: func(t *rapid.T) F32Case { p := genPkg(t); return F32Case{p, genF32(t, p)} },
			Run: run32,
		},
		&engine.Sub[BlockCase]{
			Name: "float32-to-binary16-every-pattern", EnumN: 1 << 16, ThoroughOnly: true,
			EnumAt: func(i uint64) BlockCase { return BlockCase{uint32(i)} },
			Run:    runBlock,
		},
	},
}

// BlockCase is the 65536 float32 patterns with one upper half.
type BlockCase struct {
	Hi uint32 `json:"upper_half"`
}

func runBlock(c BlockCase) engine.Outcome {
	o := engine.Outcome{Class: "block-of-65536", Nontrivial: true}
	for lo := uint32(0); lo < 1<<16; lo++ {
		// Below the smallest magnitude of interest every pattern is alike: a
		// tenth of them stands for all.
		b := c.Hi<<16 | lo
		exp := int(b >> 23 & 255)
		if exp < 127-30 && lo%61 != 0 || exp > 127+17 && exp != 255 && lo%61 != 0 {
			continue
		}
		v, acc := encs["binary16"].from32(math.Float32frombits(b))
		w := v.Words()[0]
		want, wacc := half(b)
		if uint64(want) != w || wacc != int(acc) {
			if b&0x7FFFFFFF > 0x7F800000 && w&0x7FFF > 0x7C00 && w>>15 == uint64(b>>31) && acc == big.Exact {
				continue
			}
			o.Err = errf("binary16.NewFromFloat32(%#08x) = %#04x %v, want %#04x %v", b, w, acc, want, big.Accuracy(wacc))
			return o
		}
	}
	return o
}

// half rounds a float32 pattern to binary16 with machine integers.
func half(b uint32) (h uint16, acc int) {
	s := uint16(b >> 16 & 0x8000)
	sg := 1
	if s != 0 {
		sg = -1
	}
	e := int(b>>23&255) - 127
	m := uint64(b & 0x7FFFFF)
	switch {
	case e == 128 && m != 0:
		return s | 0x7E00, 0
	case e == 128:
		return s | 0x7C00, 0
	case b<<1 == 0:
		return s, 0
	case e == -127:
		return s, -sg // far below 2^-25
	}
	m |= 1 << 23 // value = m * 2^(e-23)
	ulp := e - 10
	if ulp < -24 {
		ulp = -24
	}
	shift := uint(ulp - (e - 23))
	if shift > 25 {
		return s, -sg
	}
	q, r, hf := m>>shift, m&(1<<shift-1), uint64(1)<<(shift-1)
	switch {
	case r == 0:
	case r > hf || r == hf && q&1 == 1:
		q++
		acc = sg
	default:
		acc = -sg
	}
	// q * 2^ulp
	if ulp == -24 && q < 1<<11 && e <= -14 {
		// subnormal, or the first normal binades reached by carrying
		return s | uint16(q), acc
	}
	ee := ulp + 10 + 15
	if q == 1<<11 {
		q >>= 1
		ee++
	}
	if ee > 30 {
		return s | 0x7C00, sg
	}
	return s | uint16(ee)<<10 | uint16(q&0x3FF), acc
}

func run64(c F64Case) engine.Outcome {
	e := encs[c.Pkg]
	n := oracle.Dec64(c.B)
	v, acc := e.from64(math.Float64frombits(c.B))
	return engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n),
		Nontrivial: n.Kind == oracle.NaN || isNT(oracle.F16, n) || isNT(oracle.F64, n),
		Err:        nativeErr(e, c.Pkg+".NewFromFloat64", n, v, acc)}
}

func run32(c F32Case) engine.Outcome {
	e := encs[c.Pkg]
	n := oracle.Dec32(c.B)
	v, acc := e.from32(math.Float32frombits(c.B))
	return engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n),
		Nontrivial: n.Kind == oracle.NaN || isNT(oracle.F16, n) || isNT(oracle.F32, n),
		Err:        nativeErr(e, c.Pkg+".NewFromFloat32", n, v, acc)}
}

// PairCase is two arguments of one encoder.
type PairCase struct {
	Pkg string      `json:"pkg"`
	X   gen.BigSpec `json:"x"`
	Y   gen.BigSpec `json:"y"`
}

func (c PairCase) Key() uint64 { return engine.Mix(c.X.Key()^pk(c.Pkg)) ^ c.Y.Key() }

type Pair64Case struct {
	Pkg string `json:"pkg"`
	X   uint64 `json:"x"`
	Y   uint64 `json:"y"`
	As  string `json:"as"` // "float64" or "float32" (upper half unused)
}

func (c Pair64Case) Key() uint64 { return engine.Mix(c.X^pk(c.Pkg)) ^ c.Y ^ uint64(len(c.As)) }

// neighbour draws a number next to n: a relative difference of 2^-k.
func neighbour(t *rapid.T, f oracle.Fmt, n oracle.Num) oracle.Num {
	if n.Kind != oracle.Finite || n.IsZero() {
		return gen.Near(t, f)
	}
	var k int64
	switch gen.Pick(t, "dist", 4, 4, 3, 1) {
	case 0:
		k = int64(f.P) + rapid.Int64Range(-2, 3).Draw(t, "k")
	case 1:
		k = rapid.Int64Range(1, 130).Draw(t, "k")
	case 2:
		k = rapid.Int64Range(-3, 3).Draw(t, "k")
	case 3:
		return gen.Near(t, f)
	}
	return oracle.Add(n, oracle.MkU(gen.Bool(t, "down"), 1, n.Top()-k))
}

var c18 = &engine.Prop{
	ID:   "C18",
	Rule: "pairs of big floats (and of float64s, float32s): one aimed at the format's grid, the other at a relative distance of 2^-k, k from -3 to 130; both orders and both signs are run. Non-trivial: the two numbers differ by less than a factor 4 and are not both representable.",
	Subs: []engine.Runner{
		&engine.Sub[PairCase]{
			Name: "big-pairs", Quick: 400000, Thor: 12000000,
			Gen: func(t *rapid.T) PairCase {
				p := genPkg(t)
				a := genBigPkg(t, p)
				n := neighbour(t, encs[p].aim, a.Num())
				return PairCase{p, a, gen.Spec(n, gen.Prec(t, n), uint8(gen.Pick(t, "mode", 5, 1, 1, 1, 1, 1)))}
			},
			Run: runPair,
		},
		&engine.Sub[Pair64Case]{
			Name: "native-pairs", Quick: 400000, Thor: 8000000,
			Gen: func(t *rapid.T) Pair64Case {
				p := genPkg(t)
				if gen.Bool(t, "32") {
					x := genF32(t, p)
					y := genF32(t, p)
					if gen.Pick(t, "near", 1, 4) == 1 {
						y = x + uint32(rapid.IntRange(-3, 3).Draw(t, "step"))<<uint(gen.Pick(t, "sh", 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1))
					}
					return Pair64Case{p, uint64(x), uint64(y), "float32"}
				}
				x := genF64(t, p)
				y := genF64(t, p)
				if gen.Pick(t, "near", 1, 4) == 1 {
					y = x + uint64(rapid.IntRange(-3, 3).Draw(t, "step"))<<uint(rapid.IntRange(0, 45).Draw(t, "sh"))
				}
				return Pair64Case{p, x, y, "float64"}
			},
			Run: runPairNative,
		},
	},
}

func runPair(c PairCase) engine.Outcome {
	e := encs[c.Pkg]
	a, b := c.X.Num(), c.Y.Num()
	o := engine.Outcome{Class: c.Pkg}
	x, y := c.X.Big(), c.Y.Big()
	va, aa := e.fromBig(x)
	vb, _ := e.fromBig(y)
	o.Err = ordered(e, a, b, va, vb)
	if o.Err == "" {
		nx := new(big.Float).SetPrec(x.Prec()).SetMode(x.Mode()).Neg(x)
		vn, an := e.fromBig(nx)
		o.Err = mirrored(e, a, va, aa, vn, an)
	}
	if a.Kind == oracle.Finite && b.Kind == oracle.Finite && !a.IsZero() && !b.IsZero() {
		d := a.Top() - b.Top()
		o.Nontrivial = d >= -2 && d <= 2 && (isNT(e.aim, a) || isNT(e.aim, b))
	}
	return o
}

func ordered(e *enc, a, b oracle.Num, va, vb val) string {
	da, db := e.dec(va.Words()), e.dec(vb.Words())
	if da.Kind == oracle.NaN || db.Kind == oracle.NaN {
		return errf("%s: %v or %v encoded as NaN", e.name, a, b)
	}
	c := oracle.Cmp(a, b)
	d := oracle.Cmp(da, db)
	if c <= 0 && d > 0 || c >= 0 && d < 0 {
		return errf("%s is not monotone: %v -> %v, %v -> %v", e.name, a, da, b, db)
	}
	return ""
}

func mirrored(e *enc, a oracle.Num, va val, aa big.Accuracy, vn val, an big.Accuracy) string {
	d, dn := e.dec(va.Words()), e.dec(vn.Words())
	if !oracle.Same(d.Negate(), dn) || aa != -an {
		return errf("%s is not symmetric: %v -> %v %v, negated -> %v %v", e.name, a, d, aa, dn, an)
	}
	return ""
}

func runPairNative(c Pair64Case) engine.Outcome {
	e := encs[c.Pkg]
	o := engine.Outcome{Class: c.Pkg + "-" + c.As}
	var a, b oracle.Num
	conv := func(bits uint64) (val, big.Accuracy) { return e.from64(math.Float64frombits(bits)) }
	top := uint64(1) << 63
	if c.As == "float32" {
		conv = func(bits uint64) (val, big.Accuracy) { return e.from32(math.Float32frombits(uint32(bits))) }
		top = 1 << 31
		c.X, c.Y = c.X&(1<<32-1), c.Y&(1<<32-1)
		a, b = oracle.Dec32(uint32(c.X)), oracle.Dec32(uint32(c.Y))
	} else {
		a, b = oracle.Dec64(c.X), oracle.Dec64(c.Y)
	}
	va, aa := conv(c.X)
	if a.Kind != oracle.NaN && b.Kind != oracle.NaN {
		vb, _ := conv(c.Y)
		o.Err = ordered(e, a, b, va, vb)
		o.Nontrivial = isNT(oracle.F16, a) || isNT(oracle.F64, a)
	}
	if o.Err == "" && a.Kind != oracle.NaN {
		vn, an := conv(c.X ^ top)
		o.Err = mirrored(e, a, va, aa, vn, an)
	}
	return o
}
