package oracle

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"
)

// The model against the hardware and the standard library.
func TestAgainstHardware(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300000; i++ {
		b := r.Uint64()
		if i%3 == 0 {
			b = b&^(0x7FF<<52) | uint64(890+r.Intn(300))<<52
		}
		x := math.Float64frombits(b)
		n := Dec64(b)
		if n.Kind == NaN {
			continue
		}
		if Enc64(n) != b {
			t.Fatalf("%x", b)
		}
		f, _ := F32.Round(n)
		if Enc32(f) != math.Float32bits(float32(x)) {
			t.Fatalf("float32(%x): %x", b, Enc32(f))
		}
		y := math.Float64frombits(r.Uint64()&0x800FFFFFFFFFFFFF | b&0x7FF<<52)
		if m := dec(y); n.Kind == Finite && m.Kind == Finite && !(n.IsZero() && m.IsZero()) {
			s, _ := F64.Round(Add(n, m))
			if w := math.Float64bits(x + y); !Add(n, m).IsZero() && Enc64(s) != w {
				t.Fatalf("%v+%v", x, y)
			}
			if c := Cmp(n, m); (c < 0) != (x < y) || (c > 0) != (x > y) {
				t.Fatalf("cmp %v %v", x, y)
			}
		}
	}
}

func dec(x float64) Num { return Dec64(math.Float64bits(x)) }

func TestShortest(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 20000; i++ {
		b := r.Uint32()
		x := math.Float32frombits(b)
		n := Dec32(b)
		if n.Kind != Finite || n.IsZero() {
			continue
		}
		s := strconv.FormatFloat(math.Abs(float64(x)), 'e', -1, 32)
		ok := false
		for _, d := range F32.Shortest(n) {
			if text(d) == s {
				ok = true
			}
		}
		if !ok {
			t.Fatalf("%s: %v", s, F32.Shortest(n))
		}
	}
}

func text(d Dec) string {
	s := d.D[:1]
	if len(d.D) > 1 {
		s += "." + d.D[1:]
	}
	e := d.E + len(d.D) - 1
	sg := "+"
	if e < 0 {
		sg, e = "-", -e
	}
	es := strconv.Itoa(e)
	return s + "e" + sg + strings.Repeat("0", 2-min(2, len(es))) + es
}
