package main

import (
	"math"
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

func narrowErr(c BitsCase) string {
	e := encs[c.Pkg]
	n := e.dec(c.W)
	v := e.fromBits(c.W)
	f64, a64 := v.Float64()
	f32, a32 := v.Float32()
	signKnown := true
	if c.Pkg == "float128ppc" {
		_, signKnown = oracle.DecPPC(c.W[0], c.W[1])
	}
	chk := func(call string, got oracle.Num, acc big.Accuracy, f oracle.Fmt) string {
		want, wacc := f.Round(n)
		if want.IsZero() && !signKnown {
			got.Neg = want.Neg
		}
		if !oracle.Same(got, want) || int(acc) != wacc {
			return errf("%s %s of %s (%v) = %v %v, want %v %v", c.Pkg, call, words(c.W), n, got, acc, want, big.Accuracy(wacc))
		}
		return ""
	}
	if s := chk("Float64", dec64(f64), a64, oracle.F64); s != "" {
		return s
	}
	return chk("Float32", dec32(f32), a32, oracle.F32)
}

func runNarrow(c BitsCase) engine.Outcome {
	n := encs[c.Pkg].dec(c.W)
	o := engine.Outcome{Class: c.Pkg + "-f64-" + oracle.F64.Class(n), Nontrivial: isNT(oracle.F64, n) || isNT(oracle.F32, n)}
	if n.Kind == oracle.NaN {
		o.Class = c.Pkg + "-nan"
		return o
	}
	o.Err = narrowErr(c)
	return o
}

// toPPC places a wide number in a pair.
func toPPC(n oracle.Num) W { h, l, _ := oracle.EncPPC(n); return W{h, l} }

var c13 = &engine.Prop{
	ID:   "C13",
	Rule: "all binary16 patterns; drawn encodings of the wide formats, many of them the nearest encoding of a number exactly at, just around or near a float64 or float32 rounding boundary (normal, subnormal, underflow, overflow). Non-trivial: float64 or float32 cannot hold the value, or it is subnormal there.",
	Subs: []engine.Runner{
		&engine.Sub[BitsCase]{
			Name: "binary16-narrow", EnumN: 1 << 16, Again: true,
			EnumAt: func(i uint64) BitsCase { return BitsCase{"binary16", W{i}} },
			Run:    runNarrow,
		},
		&engine.Sub[BitsCase]{
			Name: "boundaries", EnumN: 6 * narrowWalk64.n(),
			EnumAt: func(i uint64) BitsCase {
				p := encNames[1+i%3]
				i /= 3
				b := narrowWalk64
				if i&1 == 1 {
					b = narrowWalk32
				}
				i /= 2
				n := b.at(i % b.n())
				if p == "float128ppc" {
					return BitsCase{p, toPPC(n)}
				}
				// cut the tail to fit, keeping its last bit sticky
				w, _ := encs[p].encode(n)
				return BitsCase{p, w}
			},
			Run: runNarrow,
		},
		&engine.Sub[BitsCase]{
			Name: "narrow", Quick: 500000, Thor: 14000000,
			Gen: func(t *rapid.T) BitsCase {
				p := encNames[1+gen.Pick(t, "pkg", 1, 1, 1)]
				return BitsCase{p, encs[p].genW(t)}
			},
			Run: runNarrow,
		},
	},
}

var narrowWalk64 = newBoundary(oracle.F64, false)
var narrowWalk32 = newBoundary(oracle.F32, false)

func runRoundTrip(c BitsCase) engine.Outcome {
	e := encs[c.Pkg]
	n := e.dec(c.W)
	o := engine.Outcome{Class: c.Pkg + "-" + numClass(e.aim, n), Nontrivial: nontrivialEnc(e.aim, n)}
	if n.Kind == oracle.NaN {
		return o
	}
	canon := e.canon(c.W)
	if c.Pkg == "float128ppc" {
		o.Class = c.Pkg + "-" + classPPC(c.W)
		if hi, _ := oracle.F64.Round(n); !canon && hi.Kind == oracle.Inf {
			o.Class = c.Pkg + "-sum-beyond-float64"
			return o
		}
	} else if !canon {
		o.Class = c.Pkg + "-non-canonical"
	}
	x, nan := e.fromBits(c.W).Big()
	if nan {
		o.Err = errf("%s %s decodes to NaN", c.Pkg, words(c.W))
		return o
	}
	v, acc := e.fromBig(x)
	got := v.Words()
	d := e.dec(got)
	signKnown := true
	if c.Pkg == "float128ppc" {
		_, signKnown = oracle.DecPPC(c.W[0], c.W[1])
	}
	if d.IsZero() && !signKnown {
		d.Neg = n.Neg
	}
	switch {
	case acc != big.Exact:
		o.Err = errf("%s %s: NewFromBig(Big()) reports %v", c.Pkg, words(c.W), acc)
	case !oracle.Same(d, n):
		o.Err = errf("%s %s = %v: NewFromBig(Big()) = %s = %v", c.Pkg, words(c.W), n, words(got), d)
	case canon && got != c.W:
		o.Err = errf("%s %s (canonical): NewFromBig(Big()) = %s", c.Pkg, words(c.W), words(got))
	}
	return o
}

var c14 = &engine.Prop{
	ID:   "C14",
	Rule: "all binary16 patterns; drawn encodings of the wide formats, canonical and not. Non-trivial: a finite number that is neither zero nor a power of two.",
	Subs: []engine.Runner{
		&engine.Sub[BitsCase]{
			Name: "binary16-roundtrip", EnumN: 1 << 16, Again: true,
			EnumAt: func(i uint64) BitsCase { return BitsCase{"binary16", W{i}} },
			Run:    runRoundTrip,
		},
		&engine.Sub[BitsCase]{
			Name: "exponents", EnumN: 2 * enumExpN,
			EnumAt: func(i uint64) BitsCase {
				if i&1 == 0 {
					se, f := enumExp(i>>1, 112)
					hi, lo := oracle.Words128(f)
					return BitsCase{"binary128", W{hi | se<<48, lo}}
				}
				se, f := enumExp(i>>1, 63)
				m := f.Uint64()
				if se&0x7FFF != 0 {
					m |= 1 << 63
				}
				return BitsCase{"float80x86", W{se, m}}
			},
			Run: runRoundTrip,
		},
		&engine.Sub[BitsCase]{
			Name: "roundtrip", Quick: 400000, Thor: 12000000,
			Gen: func(t *rapid.T) BitsCase {
				p := encNames[1+gen.Pick(t, "pkg", 1, 1, 1)]
				return BitsCase{p, encs[p].genW(t)}
			},
			Run: runRoundTrip,
		},
	},
}

// SpecialCase is one special-value conversion.
type SpecialCase struct {
	Pkg   string `json:"pkg"`
	Const string `json:"const,omitempty"` // a named constant, or
	From  string `json:"from,omitempty"`  // "bits", "float64", "float32", "big"
	W     W      `json:"w"`
}

func (c SpecialCase) Key() uint64 {
	return engine.Mix(c.W[0]^pk(c.Pkg)) ^ engine.Mix(c.W[1]) ^ uint64(len(c.From))<<9 ^ uint64(len(c.Const))
}

var constNames = []string{"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero", "Float{}"}

func constNum(name string) oracle.Num {
	switch name {
	case "NaN":
		return oracle.MkNaN(false)
	case "NegNaN":
		return oracle.MkNaN(true)
	case "Inf":
		return oracle.MkInf(false)
	case "NegInf":
		return oracle.MkInf(true)
	case "Zero", "Float{}":
		return oracle.MkZero(false)
	}
	return oracle.MkZero(true)
}

// kindSign compares kind and sign.
func kindSign(got, want oracle.Num) bool {
	return got.Kind == want.Kind && got.Neg == want.Neg && got.IsZero() == want.IsZero()
}

// decodesTo checks every decoding of v against a special value.
func decodesTo(what string, v val, want oracle.Num, signKnown bool) string {
	x, nan := v.Big()
	b := bigNum(x, nan)
	f64, a64 := v.Float64()
	f32, a32 := v.Float32()
	for _, d := range []struct {
		call string
		got  oracle.Num
		acc  big.Accuracy
	}{{"Big", b, big.Exact}, {"Float64", dec64(f64), a64}, {"Float32", dec32(f32), a32}} {
		if !signKnown {
			d.got.Neg = want.Neg
		}
		if !kindSign(d.got, want) {
			return errf("%s: %s() gives %v, want %v", what, d.call, d.got, want)
		}
		if d.acc != big.Exact {
			return errf("%s: %s() reports %v", what, d.call, d.acc)
		}
	}
	return ""
}

func runSpecial(c SpecialCase) engine.Outcome {
	o := special(c)
	if o.Err == "" {
		o.Err = constsChanged(c.Pkg)
	}
	return o
}

func special(c SpecialCase) engine.Outcome {
	e := encs[c.Pkg]
	o := engine.Outcome{Nontrivial: true, Class: c.Pkg + "-" + c.From}
	switch {
	case c.Const != "":
		o.Class = c.Pkg + "-const-" + c.Const
		o.Err = decodesTo(c.Pkg+"."+c.Const, e.consts()[c.Const], constNum(c.Const), true)
		if w := e.dec(e.consts()[c.Const].Words()); o.Err == "" && !kindSign(w, constNum(c.Const)) {
			o.Err = errf("%s.%s has bits %s: %v", c.Pkg, c.Const, words(e.consts()[c.Const].Words()), w)
		}
	case c.From == "float64":
		n := oracle.Dec64(c.W[0])
		v, acc := e.from64(math.Float64frombits(c.W[0]))
		o.Err = decodesTo(errf("%s.NewFromFloat64(%v)", c.Pkg, n), v, n, true)
		if o.Err == "" && acc != big.Exact {
			o.Err = errf("%s.NewFromFloat64(%v) reports %v", c.Pkg, n, acc)
		}
	case c.From == "float32":
		n := oracle.Dec32(uint32(c.W[0]))
		v, acc := e.from32(math.Float32frombits(uint32(c.W[0])))
		o.Err = decodesTo(errf("%s.NewFromFloat32(%v)", c.Pkg, n), v, n, true)
		if o.Err == "" && acc != big.Exact {
			o.Err = errf("%s.NewFromFloat32(%v) reports %v", c.Pkg, n, acc)
		}
	case c.From == "big":
		x := new(big.Float).SetPrec(uint(c.W[1]))
		n := oracle.MkZero(c.W[0]&1 == 1)
		if c.W[0]&2 != 0 {
			n = oracle.MkInf(n.Neg)
			x.SetInf(n.Neg)
		} else if n.Neg {
			x.Neg(x)
		}
		v, acc := e.fromBig(x)
		o.Err = decodesTo(errf("%s.NewFromBig(%v)", c.Pkg, n), v, n, true)
		if o.Err == "" && acc != big.Exact {
			o.Err = errf("%s.NewFromBig(%v) reports %v", c.Pkg, n, acc)
		}
	default: // bits
		n := e.dec(c.W)
		signKnown := true
		if c.Pkg == "float128ppc" {
			_, signKnown = oracle.DecPPC(c.W[0], c.W[1])
		}
		what := errf("%s %s", c.Pkg, words(c.W))
		if n.Kind == oracle.Finite && !n.IsZero() {
			o.Class += "-finite"
			o.Nontrivial = false
			// never a NaN
			v := e.fromBits(c.W)
			x, nan := v.Big()
			f64, _ := v.Float64()
			f32, _ := v.Float32()
			if nan || x.IsInf() || f64 != f64 || f32 != f32 {
				o.Err = errf("%s = %v: Big %v nan=%v, Float64 %v, Float32 %v", what, n, x, nan, f64, f32)
			}
			return o
		}
		o.Class += "-" + numClass(e.aim, n)
		o.Err = decodesTo(what, e.fromBits(c.W), n, signKnown)
	}
	return o
}

var c15 = &engine.Prop{
	ID:   "C15",
	Rule: "every named constant and each package's zero Float; drawn NaN, infinite and zero encodings (payloads: one-hot, runs, uniform) and finite ones next to them; float64, float32 and big.Float NaN (native only), infinity and zero arguments. Non-trivial: a special value.",
	Subs: []engine.Runner{
		&engine.Sub[SpecialCase]{
			Name: "constants", EnumN: uint64(len(encNames) * len(constNames)),
			EnumAt: func(i uint64) SpecialCase {
				return SpecialCase{Pkg: encNames[i/7], Const: constNames[i%7]}
			},
			Run: runSpecial,
		},
		&engine.Sub[SpecialCase]{
			Name: "binary16-all", EnumN: 1 << 16, Again: true,
			EnumAt: func(i uint64) SpecialCase { return SpecialCase{Pkg: "binary16", From: "bits", W: W{i}} },
			Run:    runSpecial,
		},
		&engine.Sub[SpecialCase]{
			Name: "specials", Quick: 500000, Thor: 12000000,
			Gen: func(t *rapid.T) SpecialCase {
				p := genPkg(t)
				e := encs[p]
				nat := func(f oracle.Fmt) uint64 {
					fb := uint(f.P - 1)
					eb := uint(new(big.Int).SetInt64(f.Emax).BitLen() + 1)
					s := sign(t, fb+eb)
					switch gen.Pick(t, "what", 6, 1, 1) {
					case 1:
						return s
					case 2:
						return s | (1<<eb-1)<<fb
					}
					return s | (1<<eb-1)<<fb | nz(gen.Frac(t, int(fb)).Uint64(), 1)
				}
				switch gen.Pick(t, "from", 5, 2, 2, 2, 1) {
				case 0:
					return SpecialCase{Pkg: p, From: "bits", W: e.genNaN(t)}
				case 1:
					return SpecialCase{Pkg: p, From: "bits", W: e.genW(t)}
				case 2:
					return SpecialCase{Pkg: p, From: "float64", W: W{nat(oracle.F64)}}
				case 3:
					return SpecialCase{Pkg: p, From: "float32", W: W{nat(oracle.F32)}}
				}
				return SpecialCase{Pkg: p, From: "big", W: W{uint64(gen.Pick(t, "v", 1, 1, 1, 1)), uint64(rapid.IntRange(1, 300).Draw(t, "prec"))}}
			},
			Run: runSpecial,
		},
	},
}

// ChainCase is a conversion chain: a start format, its bits, and steps.
type ChainCase struct {
	Start string `json:"start"`
	W     W      `json:"w"`
	Steps []Step `json:"steps"`
}

type Step struct {
	To  string `json:"to"`
	Via string `json:"via"` // "big", "float64", "float32"
}

// A place a number is held in during a chain.
type place struct {
	fmt string // "float32", "float64" or an encoding package
	f64 float64
	f32 float32
	v   val
}

// holds reports whether format f has exactly n.
func holds(f string, n oracle.Num) bool {
	switch f {
	case "float32":
		return oracle.F32.Holds(n)
	case "float64":
		return oracle.F64.Holds(n)
	case "float128ppc":
		_, _, acc := oracle.EncPPC(n)
		return acc == 0
	}
	return encs[f].aim.Holds(n)
}

var chainFmts = []string{"float32", "float64", "binary16", "binary128", "float80x86", "float128ppc"}

func (p place) num() oracle.Num {
	switch p.fmt {
	case "float32":
		return dec32(p.f32)
	case "float64":
		return dec64(p.f64)
	}
	return encs[p.fmt].dec(p.v.Words())
}

// convert moves p to format to; ok is false when the route does not exist.
func (p place) convert(to, via string) (q place, acc big.Accuracy, nan bool) {
	q.fmt = to
	switch {
	case p.v == nil: // native
		x := p.f64
		if p.fmt == "float32" {
			x = float64(p.f32)
		}
		switch {
		case to == "float64":
			q.f64 = x
		case to == "float32":
			q.f32 = float32(x)
		case via == "big" && x == x:
			q.v, acc = encs[to].fromBig(big.NewFloat(x))
		case p.fmt == "float32" && via != "float64":
			q.v, acc = encs[to].from32(p.f32)
		default:
			q.v, acc = encs[to].from64(x)
		}
	case to == "float64":
		if via == "big" {
			x, n := p.v.Big()
			nan = n
			q.f64, acc = x.Float64()
			return
		}
		q.f64, acc = p.v.Float64()
	case to == "float32":
		if via == "big" {
			x, n := p.v.Big()
			nan = n
			q.f32, acc = x.Float32()
			return
		}
		q.f32, acc = p.v.Float32()
	case via == "float64":
		var x float64
		x, acc = p.v.Float64()
		if acc == big.Exact {
			q.v, acc = encs[to].from64(x)
		} else {
			q.v, _ = encs[to].from64(x)
		}
	case via == "float32":
		var x float32
		x, acc = p.v.Float32()
		if acc == big.Exact {
			q.v, acc = encs[to].from32(x)
		} else {
			q.v, _ = encs[to].from32(x)
		}
	default:
		x, n := p.v.Big()
		nan = n
		q.v, acc = encs[to].fromBig(x)
	}
	return
}

func runChain(c ChainCase) engine.Outcome {
	p := place{fmt: c.Start}
	switch c.Start {
	case "float32":
		p.f32 = math.Float32frombits(uint32(c.W[0]))
	case "float64":
		p.f64 = math.Float64frombits(c.W[0])
	default:
		p.v = encs[c.Start].fromBits(c.W)
	}
	n := p.num()
	o := engine.Outcome{Class: c.Start}
	if n.Kind == oracle.NaN {
		return o
	}
	if c.Start == "float128ppc" {
		if hi, _ := oracle.F64.Round(n); hi.Kind == oracle.Inf && n.Kind != oracle.Inf {
			return o
		}
		if _, known := oracle.DecPPC(c.W[0], c.W[1]); !known {
			return o
		}
	}
	canon := c.W
	if e := encs[c.Start]; e != nil {
		canon, _ = e.encode(n)
	}
	steps := 0
	path := c.Start
	check := func(st Step) bool {
		via := st.Via
		if via != "big" && !holds(via, n) {
			via = "big"
		}
		q, acc, nan := p.convert(st.To, via)
		path += " -" + via + "-> " + st.To
		if nan || acc != big.Exact || !oracle.Same(q.num(), n) {
			o.Err = errf("%v: %s gives %v (%v, nan=%v)", n, path, q.num(), acc, nan)
			return false
		}
		p = q
		steps++
		return true
	}
	for _, st := range c.Steps {
		if !holds(st.To, n) {
			continue
		}
		if !check(st) {
			return o
		}
	}
	if check(Step{c.Start, "big"}) && p.v != nil {
		if w := p.v.Words(); w != canon {
			o.Err = errf("%v: %s ends with bits %s, want %s", n, path, words(w), words(canon))
		}
	}
	o.Nontrivial = steps >= 3 && n.Kind == oracle.Finite && !n.IsZero()
	return o
}

var c17 = &engine.Prop{
	ID:   "C17",
	Rule: "a start format, a value of it (often one that narrower formats hold too), and one to eight conversion steps, each to a format that holds the value and by a drawn route (Big, Float64 or Float32 where those hold it), then back to the start. Non-trivial: at least three steps ran on a finite non-zero value.",
	Subs: []engine.Runner{&engine.Sub[ChainCase]{
		Name: "chains", Quick: 250000, Thor: 8000000,
		Gen: func(t *rapid.T) ChainCase {
			c := ChainCase{Start: chainFmts[gen.Pick(t, "start", 1, 1, 1, 1, 1, 1)]}
			if gen.Pick(t, "narrow", 2, 3) == 1 {
				// a value of a narrow format, placed in the start format
				var n oracle.Num
				for i := 0; ; i++ {
					switch gen.Pick(t, "of", 2, 2, 2, 1) {
					case 0:
						n = oracle.Dec16(uint16(gen.Bits(t, oracle.F16).Uint64()))
					case 1:
						n = oracle.Dec32(uint32(gen.Bits(t, oracle.F32).Uint64()))
					case 2:
						n = oracle.Dec64(gen.Bits(t, oracle.F64).Uint64())
					case 3:
						n = oracle.Dec16(uint16(gen.Uniform(t, 1, 0x3FF)))
					}
					if n.Kind != oracle.NaN {
						break
					}
				}
				switch c.Start {
				case "float32":
					n, _ = oracle.F32.Round(n)
					c.W[0] = uint64(oracle.Enc32(n))
				case "float64":
					c.W[0] = oracle.Enc64(n)
				default:
					c.W, _ = encs[c.Start].encode(n)
				}
			} else {
				switch c.Start {
				case "float32":
					c.W[0] = gen.Bits(t, oracle.F32).Uint64()
				case "float64":
					c.W[0] = gen.Bits(t, oracle.F64).Uint64()
				default:
					c.W = encs[c.Start].genW(t)
				}
			}
			for i := rapid.IntRange(1, 8).Draw(t, "steps"); i > 0; i-- {
				c.Steps = append(c.Steps, Step{chainFmts[gen.Pick(t, "to", 1, 1, 1, 1, 1, 1)],
					[]string{"big", "float64", "float32"}[gen.Pick(t, "via", 3, 2, 2)]})
			}
			return c
		},
		Run: runChain,
	}},
}
