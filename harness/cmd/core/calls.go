package main

import (
	"fmt"
	"math"
	"math/big"

	"pgregory.net/rapid"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// Call is one call of the public API, with arguments from a pool.
type Call struct {
	Op  string `json:"op"`  // see callOps
	Pkg string `json:"pkg"` // encoding package, or "bfloat"
	Arg int    `json:"arg"` // index in the pool the op draws from
}

// Pool is the arguments calls share.
type Pool struct {
	Bigs []gen.BigSpec `json:"bigs,omitempty"`
	Encs []W           `json:"encs,omitempty"`
	F64  []uint64      `json:"f64,omitempty"`
}

var callOps = []string{"big", "float64", "float32", "fields", "frombig", "from64", "from32", "exact16", "exact32", "exact64"}

func (p *Pool) key() uint64 {
	h := uint64(1)
	for _, b := range p.Bigs {
		h = engine.Mix(h ^ b.Key())
	}
	for _, w := range p.Encs {
		h = engine.Mix(engine.Mix(h^w[0]) ^ w[1])
	}
	for _, b := range p.F64 {
		h = engine.Mix(h ^ b)
	}
	return h
}

// live is a pool with its floats built.
type live struct {
	p    *Pool
	bigs []*big.Float
}

func build(p *Pool) *live {
	l := &live{p: p}
	for _, s := range p.Bigs {
		l.bigs = append(l.bigs, s.Big())
	}
	return l
}

func bigText(x *big.Float) string {
	return fmt.Sprintf("%v/%d/%v/%v", oracle.FromBig(x), x.Prec(), x.Mode(), x.Acc())
}

// fieldsOf is the accessors' results.
func fieldsOf(pkg string, w W) string {
	switch pkg {
	case "bfloat":
		f := bfloat.NewFromBits(uint16(w[0]))
		return fmt.Sprint(f.Signbit(), f.Exp(), f.Frac())
	case "binary16":
		f := binary16.NewFromBits(uint16(w[0]))
		return fmt.Sprint(f.Bits(), f.Signbit(), f.Exp(), f.Frac())
	case "binary128":
		f := binary128.NewFromBits(w[0], w[1])
		a, b := f.Bits()
		c, d := f.Frac()
		return fmt.Sprint(a, b, f.Signbit(), f.Exp(), c, d)
	case "float80x86":
		f := float80x86.NewFromBits(uint16(w[0]), w[1])
		a, b := f.Bits()
		return fmt.Sprint(a, b, f.Signbit(), f.Exp(), f.Lead(), f.Frac())
	}
	f := float128ppc.NewFromBits(w[0], w[1])
	a, b := f.Bits()
	return fmt.Sprint(a, b, f.IsNaN())
}

// do runs a call and gives its result as text; x is a returned big.Float.
func (l *live) do(c Call) (res string, x *big.Float) {
	e := encs[c.Pkg]
	var v val
	var acc big.Accuracy
	switch c.Op {
	case "big":
		var nan bool
		if c.Pkg == "bfloat" {
			x, nan = bfloat.NewFromBits(uint16(l.p.Encs[c.Arg][0])).Big()
		} else {
			x, nan = e.fromBits(l.p.Encs[c.Arg]).Big()
		}
		return fmt.Sprint(bigText(x), nan), x
	case "float64":
		f, a := e.fromBits(l.p.Encs[c.Arg]).Float64()
		return fmt.Sprintf("%#x %v", math.Float64bits(f), a), nil
	case "float32":
		f, a := e.fromBits(l.p.Encs[c.Arg]).Float32()
		return fmt.Sprintf("%#x %v", math.Float32bits(f), a), nil
	case "fields":
		return fieldsOf(c.Pkg, l.p.Encs[c.Arg]), nil
	case "frombig":
		v, acc = e.fromBig(l.bigs[c.Arg])
	case "from64":
		v, acc = e.from64(math.Float64frombits(l.p.F64[c.Arg]))
	case "from32":
		v, acc = e.from32(math.Float32frombits(uint32(l.p.F64[c.Arg] >> 32)))
	case "exact16":
		return fmt.Sprint(isExact(16, l.bigs[c.Arg])), nil
	case "exact32":
		return fmt.Sprint(isExact(32, l.bigs[c.Arg])), nil
	case "exact64":
		return fmt.Sprint(isExact(64, l.bigs[c.Arg])), nil
	default:
		panic("harness: op " + c.Op)
	}
	return words(v.Words()) + " " + acc.String(), nil
}

// genPool draws arguments that resemble each other.
func genPool(t *rapid.T, pkg string) Pool {
	var p Pool
	if gen.Pick(t, "mix", 3, 1) == 1 {
		pkg = genPkg(t)
	}
	b := genBigPkg(t, pkg)
	capExp(&b)
	p.Bigs = append(p.Bigs, b)
	w := genWMasked(t, pkg)
	p.Encs = append(p.Encs, w)
	x := genF64(t, pkg)
	p.F64 = append(p.F64, x)
	for i := rapid.IntRange(0, 3).Draw(t, "more"); i > 0; i-- {
		switch gen.Pick(t, "variant", 2, 2) {
		case 0: // fresh
			p.Encs = append(p.Encs, genWMasked(t, genPkg(t)))
			s := genBigPkg(t, genPkg(t))
			capExp(&s)
			p.Bigs = append(p.Bigs, s)
			p.F64 = append(p.F64, genF64(t, pkg))
		default: // one bit away, or the same number held differently
			v := w
			k := rapid.IntRange(0, 127).Draw(t, "flip")
			v[k/64] ^= 1 << uint(k%64)
			p.Encs = append(p.Encs, v)
			p.F64 = append(p.F64, x^1<<uint(k%64))
			n := b.Num()
			if b.Form == "fin" && gen.Bool(t, "nudge") {
				n = oracle.Add(n, oracle.MkU(false, 1, n.E-int64(k%5)))
				if n.IsZero() {
					n = b.Num()
				}
			}
			if b.Form != "unset" {
				s := gen.Spec(n, gen.Prec(t, n), uint8(gen.Pick(t, "mode", 1, 1, 1, 1, 1, 1)))
				p.Bigs = append(p.Bigs, s)
			} else {
				p.Bigs = append(p.Bigs, b)
			}
		}
	}
	return p
}

func genWMasked(t *rapid.T, pkg string) W {
	if gen.Pick(t, "nan", 8, 1) == 1 {
		return encs[pkg].genNaN(t)
	}
	return encs[pkg].genW(t)
}

func genCalls(t *rapid.T, p *Pool, pkg string, lo, hi int) []Call {
	var cs []Call
	for i := rapid.IntRange(lo, hi).Draw(t, "calls"); i > 0; i-- {
		c := Call{Op: callOps[gen.Pick(t, "op", 4, 2, 2, 1, 4, 2, 2, 1, 1, 1)], Pkg: pkg}
		if gen.Pick(t, "other", 4, 1) == 1 {
			c.Pkg = genPkg(t)
		}
		if (c.Op == "big" || c.Op == "fields") && gen.Pick(t, "bf", 5, 1) == 1 {
			c.Pkg = "bfloat"
		}
		n := len(p.Encs)
		switch c.Op {
		case "frombig", "exact16", "exact32", "exact64":
			n = len(p.Bigs)
		case "from64", "from32":
			n = len(p.F64)
		}
		c.Arg = rapid.IntRange(0, n-1).Draw(t, "arg")
		cs = append(cs, c)
	}
	return cs
}

// HistCase is a history of calls over a pool.
type HistCase struct {
	Pool  Pool   `json:"pool"`
	Calls []Call `json:"calls"`
}

func (c HistCase) Key() uint64 {
	h := c.Pool.key()
	for _, k := range c.Calls {
		h = engine.Mix(h ^ pk(k.Op) ^ pk(k.Pkg)<<3 ^ uint64(k.Arg))
	}
	return h
}

func genHist(t *rapid.T) HistCase {
	pkg := genPkg(t)
	p := genPool(t, pkg)
	return HistCase{p, genCalls(t, &p, pkg, 2, 14)}
}

func runHist(c HistCase) engine.Outcome {
	o := engine.Outcome{Class: fmt.Sprintf("calls-%d", len(c.Calls)/4*4)}
	l := build(&c.Pool)
	var before []string
	for _, x := range l.bigs {
		before = append(before, bigText(x))
	}
	first := map[Call]string{}
	repeats, bigs := 0, 0
	step := func(i int, cl Call, pass string) bool {
		res, x := l.do(cl)
		if cl.Op == "frombig" || cl.Op[:2] == "ex" {
			bigs++
			if now := bigText(l.bigs[cl.Arg]); now != before[cl.Arg] {
				o.Err = errf("call %d %v changed its argument: %s -> %s", i, cl, before[cl.Arg], now)
				return false
			}
		}
		if f, ok := first[cl]; ok {
			repeats++
			if f != res {
				o.Err = errf("%s call %d %v: first gave %s, now %s", pass, i, cl, f, res)
				return false
			}
		} else {
			first[cl] = res
		}
		if x != nil {
			// Deface the returned float: results are the caller's own.
			switch i % 4 {
			case 0:
				x.SetInt64(12345)
			case 1:
				x.Neg(x)
			case 2:
				x.SetInf(true)
			case 3:
				if !x.IsInf() {
					x.SetPrec(2).SetMode(big.ToZero)
				} else {
					x.SetPrec(500).SetInt64(3)
				}
			}
		}
		return true
	}
	for i, cl := range c.Calls {
		if !step(i, cl, "forward") {
			return o
		}
	}
	for i := len(c.Calls) - 1; i >= 0; i-- {
		if !step(i, c.Calls[i], "backward") {
			return o
		}
	}
	// Each of the first calls right after each other one, and after itself.
	near := c.Calls[:min(len(c.Calls), 5)]
	for i := range near {
		for _, cl := range near[i+1:] {
			if !step(i, near[i], "pairwise") || !step(i+1, cl, "pairwise") {
				return o
			}
		}
	}
	// The same numbers passed in one variable.
	shared := new(big.Float)
	for i, cl := range c.Calls {
		if cl.Op != "frombig" && cl.Op[:2] != "ex" {
			continue
		}
		y := l.bigs[cl.Arg]
		if y.Prec() > 5000 {
			continue
		}
		shared.SetPrec(0).SetMode(y.Mode()).Set(y)
		res, _ := (&live{p: l.p, bigs: []*big.Float{shared}}).do(Call{cl.Op, cl.Pkg, 0})
		if res != first[cl] {
			o.Err = errf("call %d %v in a variable that held another number before: first gave %s, now %s", i, cl, first[cl], res)
			return o
		}
	}
	for i, x := range l.bigs {
		if now := bigText(x); now != before[i] {
			o.Err = errf("the history changed argument %d: %s -> %s", i, before[i], now)
			return o
		}
	}
	for _, p := range encNames {
		if o.Err = constsChanged(p); o.Err != "" {
			return o
		}
	}
	o.Nontrivial = bigs > 0 && len(first) >= 3
	return o
}

// KeepCase is N decodings whose results are all kept.
type KeepCase struct {
	Pkg string `json:"pkg"`
	W   W      `json:"w"`
	N   int    `json:"n"`
}

func genKeep(t *rapid.T) KeepCase {
	c := KeepCase{Pkg: genPkg(t), N: rapid.IntRange(1, 20).Draw(t, "n")}
	switch gen.Pick(t, "many", 20, 4, 1) {
	case 1:
		c.N = rapid.IntRange(1, 300).Draw(t, "n")
	case 2:
		c.N = rapid.IntRange(300, 5000).Draw(t, "n")
	}
	c.W = genWMasked(t, c.Pkg)
	if gen.Pick(t, "bfloat", 5, 1) == 1 {
		c.Pkg = "bfloat"
	}
	return c
}

func runKeep(c KeepCase) engine.Outcome {
	o := engine.Outcome{Class: "kept-" + c.Pkg, Nontrivial: c.N > 1}
	var xs, was []*big.Float
	for i := 0; i <= c.N; i++ {
		w := c.W
		if i > 0 && i%7 != 0 {
			m := engine.Mix(uint64(i))
			w[0] ^= m
			if i%2 == 0 {
				w[1] ^= engine.Mix(m)
			}
		}
		var x *big.Float
		if c.Pkg == "bfloat" {
			x, _ = bfloat.NewFromBits(uint16(w[0])).Big()
		} else {
			x, _ = encs[c.Pkg].fromBits(w).Big()
		}
		xs, was = append(xs, x), append(was, new(big.Float).Copy(x))
	}
	for i, x := range xs {
		y := was[i]
		if x.Prec() != y.Prec() || x.Mode() != y.Mode() || x.Acc() != y.Acc() || x.Signbit() != y.Signbit() || x.IsInf() != y.IsInf() || x.Cmp(y) != 0 {
			o.Err = errf("the %d-th of %d results of %s.Big() has become %s, it was %s", i+1, c.N+1, c.Pkg, bigText(x), bigText(y))
			return o
		}
	}
	// They are distinct variables, too.
	for i, x := range xs {
		x.SetPrec(64).SetInt64(int64(i))
	}
	for i, x := range xs {
		if v, _ := x.Int64(); v != int64(i) {
			o.Err = errf("the %d-th of %d results of %s.Big() shares its memory with the %d-th", i+1, c.N+1, c.Pkg, v+1)
			return o
		}
	}
	return o
}

// RepCase is one number held two ways.
type RepCase struct {
	Pkg string      `json:"pkg"`
	A   gen.BigSpec `json:"a"`
	B   gen.BigSpec `json:"b"`
}

func (c RepCase) Key() uint64 { return engine.Mix(c.A.Key()^pk(c.Pkg)) ^ c.B.Key() }

func runRep(c RepCase) engine.Outcome {
	e := encs[c.Pkg]
	n := c.A.Num()
	o := engine.Outcome{Class: c.Pkg + "-" + e.aim.Class(n), Nontrivial: isNT(e.aim, n) && (c.A.Prec != c.B.Prec || c.A.Mode != c.B.Mode)}
	x, y := c.A.Big(), c.B.Big()
	bx, by := bigText(x), bigText(y)
	vx, ax := e.fromBig(x)
	vy, ay := e.fromBig(y)
	if vx.Words() != vy.Words() || ax != ay {
		o.Err = errf("%s.NewFromBig of the same number: held as %s gives %s %v, held as %s gives %s %v", c.Pkg, bx, words(vx.Words()), ax, by, words(vy.Words()), ay)
		return o
	}
	for _, k := range []int{16, 32, 64} {
		if p, q := isExact(k, x), isExact(k, y); p != q {
			o.Err = errf("IsExact%d of the same number: held as %s gives %v, held as %s gives %v", k, bx, p, by, q)
			return o
		}
	}
	if ex, ey := bigText(x), bigText(y); ex != bx || ey != by {
		o.Err = errf("an argument changed: %s -> %s, %s -> %s", bx, ex, by, ey)
	}
	return o
}

var c16 = &engine.Prop{
	ID:   "C16",
	Rule: "histories of 2 to 14 calls (then the same calls backwards, the first ones in pairs, and those on a big float with all numbers in one variable) over a shared pool of resembling big floats, encodings and float64s; each returned big float is overwritten by the caller, each argument compared with a snapshot, each repeated call with its first result; up to 5000 decodings whose results are all kept, and then overwritten; and one number held at two precisions, modes and accuracies. Non-trivial: a history with three different calls and one that takes a big float; two kept results; a pair held differently and not representable.",
	Subs: []engine.Runner{
		&engine.Sub[HistCase]{Name: "histories", Quick: 80000, Thor: 2500000, Gen: genHist, Run: runHist},
		&engine.Sub[KeepCase]{Name: "kept", Quick: 4000, Thor: 100000, Gen: genKeep, Run: runKeep},
		&engine.Sub[RepCase]{
			Name: "representations", Quick: 200000, Thor: 6000000,
			Gen: func(t *rapid.T) RepCase {
				p := genPkg(t)
				a := genBigPkg(t, p)
				capExp(&a)
				b := a
				if a.Form != "unset" {
					b.Acc = 0
					b.Prec = gen.Prec(t, a.Num())
					b.Mode = uint8(gen.Pick(t, "mode2", 1, 1, 1, 1, 1, 1))
				} else {
					b = gen.BigSpec{Form: "zero", Prec: 10}
				}
				return RepCase{p, a, b}
			},
			Run: runRep,
		},
	},
}

// C25

// RawCase is one call on raw words.
type RawCase struct {
	Call Call `json:"call"`
	Pool Pool `json:"pool"`
	// Tasks, for the peer process only: the calls whose results it gives.
	Tasks [][]Call `json:"tasks,omitempty"`
}

func (c RawCase) Key() uint64 {
	return engine.Mix(c.Pool.key()) ^ pk(c.Call.Op) ^ pk(c.Call.Pkg)<<3
}

func genRaw(t *rapid.T) RawCase {
	op := callOps[gen.Pick(t, "op", 4, 2, 2, 1, 4, 2, 2, 2, 2, 2)]
	c := RawCase{Call: Call{Op: op, Pkg: genPkg(t)}}
	if (op == "big" || op == "fields") && gen.Pick(t, "bf", 5, 1) == 1 {
		c.Call.Pkg = "bfloat"
	}
	switch op {
	case "frombig":
		c.Pool.Bigs = []gen.BigSpec{genBigPkg(t, c.Call.Pkg)}
	case "exact16", "exact32", "exact64":
		n := map[string]int{"exact16": 16, "exact32": 32, "exact64": 64}[op]
		s := genBig(t, nativeFmt(n))
		if gen.Bool(t, "held") {
			s = genHeld(t, n)
		}
		capExp(&s)
		c.Pool.Bigs = []gen.BigSpec{s}
	case "from64", "from32":
		x := genF64(t, c.Call.Pkg)
		if op == "from32" {
			x = uint64(genF32(t, c.Call.Pkg)) << 32
		}
		c.Pool.F64 = []uint64{x}
	default:
		w := W{rapid.Uint64().Draw(t, "a"), rapid.Uint64().Draw(t, "b")}
		if gen.Pick(t, "dict?", 5, 1) == 1 {
			w = W{gen.Word(t), gen.Word(t)}
		}
		if c.Call.Pkg != "bfloat" && gen.Pick(t, "raw", 1, 3) == 1 {
			w = genWMasked(t, c.Call.Pkg)
		}
		c.Pool.Encs = []W{w}
	}
	return c
}

func runTotal(c RawCase) engine.Outcome {
	l := build(&c.Pool)
	nt := true
	for _, x := range l.bigs {
		nt = x.Sign() != 0
	}
	l.do(c.Call) // a panic is the violation
	return engine.Outcome{Class: c.Call.Op + "-" + c.Call.Pkg, Nontrivial: nt}
}

var c25 = &engine.Prop{
	ID:   "C25",
	Rule: "one call of any public function on raw or structured words, floats and big floats (all forms, precisions 1 to 500, exponents over the whole range), plus every 16-bit pattern; a panic is a violation. Non-trivial: the argument is not zero.",
	Subs: []engine.Runner{
		&engine.Sub[RawCase]{Name: "any-call", Quick: 800000, Thor: 20000000, Gen: genRaw, Run: runTotal},
		&engine.Sub[RawCase]{
			Name: "all-16-bit", EnumN: 1 << 18, Again: true,
			EnumAt: func(i uint64) RawCase {
				c := RawCase{Call: Call{Op: []string{"big", "float64", "float32"}[i>>16%3], Pkg: "binary16"}, Pool: Pool{Encs: []W{{i & 0xFFFF}}}}
				if i>>16 == 3 {
					c.Call = Call{Op: "big", Pkg: "bfloat"}
				}
				return c
			},
			Run: runTotal,
		},
	},
}
