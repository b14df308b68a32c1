package main

import (
	"math"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
	"github.com/mewmew/float/verif/gen"
	"github.com/mewmew/float/verif/oracle"
)

// Variations of a case, for sequences of calls that resemble each other.

func varyWord(t *rapid.T, w uint64, bits int) uint64 {
	switch gen.Pick(t, "how", 6, 6, 4, 2, 2) {
	case 4: // two bits a half or a quarter of a word apart
		d := bits / 2 >> uint(gen.Pick(t, "apart", 1, 1))
		return w ^ (1|1<<uint(d))<<uint(rapid.IntRange(0, bits-1-d).Draw(t, "bit"))
	case 0: // the sign
		return w ^ 1<<uint(bits-1)
	case 1: // any bit
		return w ^ 1<<uint(rapid.IntRange(0, bits-1).Draw(t, "bit"))
	case 2: // the neighbour
		return (w + 1) & (1<<(bits-1)<<1 - 1)
	}
	return engine.Mix(w) & (1<<(bits-1)<<1 - 1)
}

func varyBits(t *rapid.T, c BitsCase) BitsCase {
	switch c.Pkg {
	case "binary16", "bfloat":
		c.W[0] = varyWord(t, c.W[0], 16)
	case "float80x86":
		if gen.Bool(t, "word") {
			c.W[0] = varyWord(t, c.W[0], 16)
		} else {
			c.W[1] = varyWord(t, c.W[1], 64)
		}
	default:
		switch i := gen.Pick(t, "word", 8, 8, 1, 1, 1); i {
		case 2: // the words swapped
			c.W[0], c.W[1] = c.W[1], c.W[0]
		case 3: // the same bits of both words
			m := uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
			c.W[0] ^= m
			c.W[1] ^= m
		case 4: // one more in one word, as much less in the other
			k := rapid.SampledFrom([]uint64{1, 31, 33, 37}).Draw(t, "weight")
			d := uint64(rapid.IntRange(1, 3).Draw(t, "moved"))
			c.W[0] += d
			c.W[1] -= d * k
		default:
			c.W[i] = varyWord(t, c.W[i], 64)
		}
	}
	return c
}

func varySpec(t *rapid.T, s gen.BigSpec) gen.BigSpec {
	if s.Form == "unset" {
		return s
	}
	how := gen.Pick(t, "how", 4, 2, 3, 3, 1)
	if s.Form != "fin" {
		how = 0
	}
	n := s.Num()
	switch how {
	case 0:
		s.Neg = !s.Neg
		return s
	case 1: // the same number held differently
		return gen.Spec(n, gen.Prec(t, n), uint8(gen.Pick(t, "mode", 1, 1, 1, 1, 1, 1)))
	case 2: // another binade
		n.E += rapid.Int64Range(-2, 2).Draw(t, "scale")
		if n.E > math.MaxInt32/2 || n.E < math.MinInt32/2 {
			return s
		}
	case 3: // the next number
		d := oracle.MkU(gen.Bool(t, "down"), 1, n.E-rapid.Int64Range(0, 70).Draw(t, "tail"))
		if d = oracle.Add(n, d); d.IsZero() {
			return s
		}
		n = d
	case 4:
		return gen.Spec(oracle.MkZero(n.Neg), 53, 0)
	}
	return gen.Spec(n, gen.Prec(t, n), s.Mode)
}

func varyBig(t *rapid.T, c BigCase) BigCase {
	c.X = varySpec(t, c.X)
	return c
}

func vary64(t *rapid.T, c F64Case) F64Case {
	c.B = varyWord(t, c.B, 64)
	return c
}

func vary32(t *rapid.T, c F32Case) F32Case {
	c.B = uint32(varyWord(t, uint64(c.B), 32))
	return c
}

func varyExact(t *rapid.T, c ExactCase) ExactCase {
	if gen.Bool(t, "other size") {
		c.N = genExactN(t)
	} else {
		c.X = varySpec(t, c.X)
		capExp(&c.X)
	}
	return c
}

func varySpecial(t *rapid.T, c SpecialCase) SpecialCase {
	if c.From == "bits" {
		c.W = varyBits(t, BitsCase{c.Pkg, c.W}).W
	} else {
		c.Pkg = genPkg(t)
	}
	return c
}

// addSequences adds the checks on sequences for every drawn check of one call.
func addSequences(p *engine.Prop) {
	subs := p.Subs
	switch p.ID {
	case "C01":
		subs = append(subs[:1:1], patterns(subs[0].(*engine.Sub[BitsCase]), "binary16"))
	case "C02":
		subs = append(subs[:1:1], patterns(subs[0].(*engine.Sub[BitsCase]), "bfloat"))
	case "C13", "C14":
		subs = append(subs[:len(subs):len(subs)], patterns(subs[0].(*engine.Sub[BitsCase]), "binary16"))
	case "C06":
		subs = append(subs[:len(subs):len(subs)], patterns(subs[0].(*engine.Sub[BitsCase]), "binary16", "bfloat"))
	}
	for _, s := range subs {
		switch s := s.(type) {
		case *engine.Sub[BitsCase]:
			sequence(p, s, varyBits)
		case *engine.Sub[BigCase]:
			sequence(p, s, varyBig)
		case *engine.Sub[F64Case]:
			sequence(p, s, vary64)
		case *engine.Sub[F32Case]:
			sequence(p, s, vary32)
		case *engine.Sub[ExactCase]:
			sequence(p, s, varyExact)
		case *engine.Sub[SpecialCase]:
			sequence(p, s, varySpecial)
		}
	}
}

func sequence[T any](p *engine.Prop, s *engine.Sub[T], vary func(*rapid.T, T) T) {
	if s.Gen != nil {
		p.Subs = append(p.Subs, engine.InSequence(s, vary, s.Quick/12, s.Thor/12))
	}
}

// patterns draws what s enumerates.
func patterns(s *engine.Sub[BitsCase], pkgs ...string) *engine.Sub[BitsCase] {
	return &engine.Sub[BitsCase]{
		Name: s.Name, Quick: 300000, Thor: 6000000, Run: s.Run,
		Gen: func(t *rapid.T) BitsCase {
			f, pkg := oracle.F16, rapid.SampledFrom(pkgs).Draw(t, "pkg")
			if pkg == "bfloat" {
				f = oracle.BF16
			}
			return BitsCase{pkg, W{gen.Bits(t, f).Uint64()}}
		},
	}
}
