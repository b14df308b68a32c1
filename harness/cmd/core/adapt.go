package main

import (
	"fmt"
	"math"
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// W is an encoding: one or two words (float80x86: se, m).
type W [2]uint64

type val interface {
	Words() W
	Big() (*big.Float, bool)
	Float32() (float32, big.Accuracy)
	Float64() (float64, big.Accuracy)
}

type v16 struct{ binary16.Float }
type v128 struct{ binary128.Float }
type v80 struct{ float80x86.Float }
type vppc struct{ float128ppc.Float }

func (v v16) Words() W  { return W{uint64(v.Bits())} }
func (v v128) Words() W { a, b := v.Bits(); return W{a, b} }
func (v v80) Words() W  { a, b := v.Bits(); return W{uint64(a), b} }
func (v vppc) Words() W { a, b := v.Bits(); return W{a, b} }

type enc struct {
	name     string
	aim      oracle.Fmt // the grid inputs are aimed at
	fromBits func(W) val
	fromBig  func(*big.Float) (val, big.Accuracy)
	from64   func(float64) (val, big.Accuracy)
	from32   func(float32) (val, big.Accuracy)
	dec      func(W) oracle.Num
	canon    func(W) bool
	encode   func(oracle.Num) (W, int)
	consts   func() map[string]val
	genW     func(*rapid.T) W
	genNaN   func(*rapid.T) W
}

// fppc is the grid double-double values are aimed at in generators only.
var fppc = oracle.Fmt{Name: "float128ppc", P: 106, Emin: -1022, Emax: 1023}

var encs = map[string]*enc{
	"binary16": {
		name: "binary16", aim: oracle.F16,
		fromBits: func(w W) val { return v16{binary16.NewFromBits(uint16(w[0]))} },
		fromBig:  func(x *big.Float) (val, big.Accuracy) { f, a := binary16.NewFromBig(x); return v16{f}, a },
		from64:   func(x float64) (val, big.Accuracy) { f, a := binary16.NewFromFloat64(x); return v16{f}, a },
		from32:   func(x float32) (val, big.Accuracy) { f, a := binary16.NewFromFloat32(x); return v16{f}, a },
		dec:      func(w W) oracle.Num { return oracle.Dec16(uint16(w[0])) },
		canon:    func(w W) bool { return true },
		encode:   func(n oracle.Num) (W, int) { r, a := oracle.F16.Round(n); return W{uint64(oracle.Enc16(r))}, a },
		consts: func() map[string]val {
			return map[string]val{"NaN": v16{binary16.NaN}, "NegNaN": v16{binary16.NegNaN}, "Inf": v16{binary16.Inf},
				"NegInf": v16{binary16.NegInf}, "Zero": v16{binary16.Zero}, "NegZero": v16{binary16.NegZero}, "Float{}": v16{}}
		},
		genW: func(t *rapid.T) W { return W{gen.Bits(t, oracle.F16).Uint64()} },
		genNaN: func(t *rapid.T) W {
			return W{0x7C00 | nz(gen.Frac(t, 10).Uint64(), 1<<9) | sign(t, 15)}
		},
	},
	"binary128": {
		name: "binary128", aim: oracle.F128,
		fromBits: func(w W) val { return v128{binary128.NewFromBits(w[0], w[1])} },
		fromBig:  func(x *big.Float) (val, big.Accuracy) { f, a := binary128.NewFromBig(x); return v128{f}, a },
		from64:   func(x float64) (val, big.Accuracy) { f, a := binary128.NewFromFloat64(x); return v128{f}, a },
		from32:   func(x float32) (val, big.Accuracy) { f, a := binary128.NewFromFloat32(x); return v128{f}, a },
		dec:      func(w W) oracle.Num { return oracle.F128.Decode(oracle.Join128(w[0], w[1])) },
		canon:    func(w W) bool { return true },
		encode: func(n oracle.Num) (W, int) {
			r, a := oracle.F128.Round(n)
			hi, lo := oracle.Words128(oracle.F128.Encode(r))
			return W{hi, lo}, a
		},
		consts: func() map[string]val {
			return map[string]val{"NaN": v128{binary128.NaN}, "NegNaN": v128{binary128.NegNaN}, "Inf": v128{binary128.Inf},
				"NegInf": v128{binary128.NegInf}, "Zero": v128{binary128.Zero}, "NegZero": v128{binary128.NegZero}, "Float{}": v128{}}
		},
		genW: func(t *rapid.T) W {
			b := gen.Bits(t, oracle.F128)
			if aimed(t) {
				r := gen.NearBits(t, oracle.F128, narrow(t))
				b = oracle.F128.Encode(r)
			}
			hi, lo := oracle.Words128(b)
			return W{hi, lo}
		},
		genNaN: func(t *rapid.T) W {
			f := gen.Frac(t, 112)
			if f.Sign() == 0 {
				f.SetBit(f, 111, 1)
			}
			hi, lo := oracle.Words128(f)
			return W{hi | 0x7FFF<<48 | sign(t, 63), lo}
		},
	},
	"float80x86": {
		name: "float80x86", aim: oracle.F80,
		fromBits: func(w W) val { return v80{float80x86.NewFromBits(uint16(w[0]), w[1])} },
		fromBig:  func(x *big.Float) (val, big.Accuracy) { f, a := float80x86.NewFromBig(x); return v80{f}, a },
		from64:   func(x float64) (val, big.Accuracy) { f, a := float80x86.NewFromFloat64(x); return v80{f}, a },
		from32:   func(x float32) (val, big.Accuracy) { f, a := float80x86.NewFromFloat32(x); return v80{f}, a },
		dec:      func(w W) oracle.Num { return oracle.DecodeF80(uint16(w[0]), w[1]) },
		canon:    func(w W) bool { return oracle.CanonicalF80(uint16(w[0]), w[1]) },
		encode: func(n oracle.Num) (W, int) {
			r, a := oracle.F80.Round(n)
			se, m := oracle.EncodeF80(r)
			return W{uint64(se), m}, a
		},
		consts: func() map[string]val {
			return map[string]val{"NaN": v80{float80x86.NaN}, "NegNaN": v80{float80x86.NegNaN}, "Inf": v80{float80x86.Inf},
				"NegInf": v80{float80x86.NegInf}, "Zero": v80{float80x86.Zero}, "NegZero": v80{float80x86.NegZero}, "Float{}": v80{}}
		},
		genW: genF80,
		genNaN: func(t *rapid.T) W {
			m := gen.Frac(t, 64).Uint64()
			if m == 1<<63 {
				m |= 1
			}
			return W{0x7FFF | sign(t, 15), m}
		},
	},
	"float128ppc": {
		name: "float128ppc", aim: fppc,
		fromBits: func(w W) val { return vppc{float128ppc.NewFromBits(w[0], w[1])} },
		fromBig:  func(x *big.Float) (val, big.Accuracy) { f, a := float128ppc.NewFromBig(x); return vppc{f}, a },
		from64:   func(x float64) (val, big.Accuracy) { f, a := float128ppc.NewFromFloat64(x); return vppc{f}, a },
		from32:   func(x float32) (val, big.Accuracy) { f, a := float128ppc.NewFromFloat32(x); return vppc{f}, a },
		dec:      func(w W) oracle.Num { n, _ := oracle.DecPPC(w[0], w[1]); return n },
		canon:    func(w W) bool { return oracle.CanonicalPPC(w[0], w[1]) },
		encode:   func(n oracle.Num) (W, int) { h, l, a := oracle.EncPPC(n); return W{h, l}, a },
		consts: func() map[string]val {
			return map[string]val{"NaN": vppc{float128ppc.NaN}, "NegNaN": vppc{float128ppc.NegNaN}, "Inf": vppc{float128ppc.Inf},
				"NegInf": vppc{float128ppc.NegInf}, "Zero": vppc{float128ppc.Zero}, "NegZero": vppc{float128ppc.NegZero}, "Float{}": vppc{}}
		},
		genW: genPPC,
		genNaN: func(t *rapid.T) W {
			nan := 0x7FF<<52 | nz(gen.Frac(t, 52).Uint64(), 1<<51) | sign(t, 63)
			other := gen.Bits(t, oracle.F64).Uint64()
			switch gen.Pick(t, "which", 5, 2, 1) {
			case 0:
				return W{nan, other}
			case 1:
				return W{other, nan}
			}
			s := sign(t, 63)
			return W{0x7FF<<52 | s, 0x7FF<<52 | s ^ 1<<63}
		},
	},
}

var encNames = []string{"binary16", "binary128", "float80x86", "float128ppc"}

func nz(x, def uint64) uint64 {
	if x == 0 {
		return def
	}
	return x
}

func sign(t *rapid.T, bit uint) uint64 {
	if gen.Bool(t, "neg") {
		return 1 << bit
	}
	return 0
}

func aimed(t *rapid.T) bool { return gen.Pick(t, "aimed", 3, 2) == 1 }

// narrow picks a format whose rounding boundaries a value is put next to.
func narrow(t *rapid.T) oracle.Fmt {
	return []oracle.Fmt{oracle.F64, oracle.F32, oracle.F16, oracle.F80}[gen.Pick(t, "grid", 4, 4, 1, 1)]
}

func genF80(t *rapid.T) W {
	var m uint64
	var se uint64
	switch gen.Pick(t, "f80", 5, 4, 2) {
	case 0: // any encoding, lead bit drawn or set
		b := gen.Bits(t, oracle.Fmt{P: 64, Emin: -16382, Emax: 16383})
		m = b.Uint64() & (1<<63 - 1)
		se = new(big.Int).Rsh(b, 63).Uint64()
		switch gen.Pick(t, "lead", 6, 1, 2) {
		case 0:
			if se&0x7FFF != 0 {
				m |= 1 << 63
			}
		case 1:
			if se&0x7FFF == 0 {
				m |= 1 << 63
			}
		case 2:
			m |= sign(t, 63)
		}
	case 1: // next to a boundary of a narrower format
		n := gen.NearBits(t, oracle.F80, narrow(t))
		a, b := oracle.EncodeF80(n)
		return W{uint64(a), b}
	case 2: // infinities, and what is next to them
		se = 0x7FFF | sign(t, 15)
		m = 1 << 63
		if gen.Bool(t, "payload") {
			m ^= gen.Frac(t, 64).Uint64()
		}
	}
	return W{se, m}
}

func f64num(b uint64) oracle.Num { return oracle.Dec64(b) }

// genPPC draws a pair of doubles.
func genPPC(t *rapid.T) W {
	switch gen.Pick(t, "ppc", 6, 4, 3, 2, 2, 1, 3) {
	case 0: // canonical: the encoding of a wide number
		n := gen.Near(t, fppc)
		h, l, _ := oracle.EncPPC(n)
		return W{h, l}
	case 1: // any two doubles
		return W{gen.Bits(t, oracle.F64).Uint64(), gen.Bits(t, oracle.F64).Uint64()}
	case 2: // low at a chosen distance below high
		h := gen.Bits(t, oracle.F64).Uint64()
		l := gen.Bits(t, oracle.F64).Uint64()
		e := int64(h >> 52 & 0x7FF)
		d := gen.Uniform(t, 0, 120)
		if e-d < 0 {
			d = e
		}
		l = l&^(0x7FF<<52) | uint64(e-d)<<52
		return W{h, l}
	case 3: // cancelling
		h := gen.Bits(t, oracle.F64).Uint64()
		l := h ^ 1<<63
		if gen.Bool(t, "off") {
			l ^= 1 << uint(gen.Pick(t, "bit", 1, 1, 1, 1))
		}
		return W{h, l}
	case 4: // special with special
		sp := func() uint64 {
			return []uint64{0, 1 << 63, 0x7FF << 52, 0xFFF << 52, 1, 1<<63 | 1, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x3FF << 52}[gen.Uniform(t, 0, 8)]
		}
		return W{sp(), sp()}
	case 5: // low zero of either sign
		return W{gen.Bits(t, oracle.F64).Uint64(), sign(t, 63)}
	}
	// next to a float32/float64 boundary
	n := gen.Near(t, []oracle.Fmt{oracle.F64, oracle.F32, oracle.F16}[gen.Pick(t, "grid", 3, 3, 1)])
	h, l, _ := oracle.EncPPC(n)
	return W{h, l}
}

// Case types.

type BitsCase struct {
	Pkg string `json:"pkg"`
	W   W      `json:"w"`
}

type BigCase struct {
	Pkg string      `json:"pkg"`
	X   gen.BigSpec `json:"x"`
}

type F64Case struct {
	Pkg string `json:"pkg"`
	B   uint64 `json:"float64bits"`
}

type F32Case struct {
	Pkg string `json:"pkg"`
	B   uint32 `json:"float32bits"`
}

func pk(s string) uint64 { return uint64(len(s))<<56 ^ uint64(s[len(s)-1])<<40 }

func (c BitsCase) Key() uint64 { return engine.Mix(engine.Mix(c.W[0]^pk(c.Pkg)) ^ c.W[1]) }
func (c BigCase) Key() uint64  { return engine.Mix(c.X.Key() ^ pk(c.Pkg)) }
func (c F64Case) Key() uint64  { return engine.Mix(c.B ^ pk(c.Pkg)) }
func (c F32Case) Key() uint64  { return engine.Mix(uint64(c.B) ^ pk(c.Pkg)) }

func genPkg(t *rapid.T) string {
	return encNames[gen.Pick(t, "pkg", 1, 1, 1, 1)]
}

// Helpers.

func accOf(a big.Accuracy) int { return int(a) }

func accName(a int) string { return big.Accuracy(a).String() }

// bigNum is what a Big() result denotes.
func bigNum(x *big.Float, nan bool) oracle.Num {
	if nan {
		return oracle.MkNaN(x.Signbit())
	}
	return oracle.FromBig(x)
}

func words(w W) string { return fmt.Sprintf("0x%016X %016X", w[0], w[1]) }

// dec32/dec64 read native floats by their bits.
func dec64(x float64) oracle.Num { return oracle.Dec64(math.Float64bits(x)) }
func dec32(x float32) oracle.Num { return oracle.Dec32(math.Float32bits(x)) }

func errf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// named is the named values of each package as they are at the start.
var named = func() map[string]map[string]W {
	m := map[string]map[string]W{}
	for p, e := range encs {
		m[p] = map[string]W{}
		for n, v := range e.consts() {
			m[p][n] = v.Words()
		}
	}
	return m
}()

// constsChanged says which named value of a package is not what it was.
func constsChanged(pkg string) string {
	for n, v := range encs[pkg].consts() {
		if was := named[pkg][n]; v.Words() != was {
			return errf("%s.%s has become %s, it was %s", pkg, n, words(v.Words()), words(was))
		}
	}
	return ""
}
