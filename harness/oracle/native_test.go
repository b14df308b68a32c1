package oracle

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
)

// The model against the compiler's half, x87 and quad arithmetic.
func TestAgainstCompiler(t *testing.T) {
	cc, err := exec.LookPath("gcc")
	if err != nil || runtime.GOARCH != "amd64" {
		t.Skip("no gcc for amd64")
	}
	exe := filepath.Join(t.TempDir(), "native")
	if out, err := exec.Command(cc, "-O1", "-o", exe, "testdata/native.c").CombinedOutput(); err != nil {
		t.Skipf("%v: %s", err, out)
	}
	r := rand.New(rand.NewSource(1))
	frac := func(n uint) uint64 {
		m := uint64(1)<<n - 1
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return m
		case 2:
			return uint64(1) << uint(r.Intn(int(n)))
		case 3:
			return r.Uint64() & m & (m << uint(r.Intn(int(n))))
		}
		return r.Uint64() & m
	}
	var in bytes.Buffer
	type c struct {
		k          byte
		a, b, c, e uint64
	}
	var cases []c
	bits64 := func() uint64 {
		e := uint64(r.Intn(2047))
		if r.Intn(2) == 0 {
			e = 1023 - 26 + uint64(r.Intn(44))
		}
		return uint64(r.Intn(2))<<63 | e<<52 | frac(52)
	}
	wide := func(near int) (se uint64) {
		e := uint64(r.Intn(32767))
		switch r.Intn(4) {
		case 0:
			e = uint64(r.Intn(150))
		case 1:
			e = 16383 - 1100 + uint64(r.Intn(2200))
		case 2:
			e = 32766 - uint64(r.Intn(3))
		}
		if near > 0 && r.Intn(3) > 0 {
			e = uint64(near) + uint64(r.Intn(130))
			if e > 32766 {
				e = 32766
			}
		}
		return uint64(r.Intn(2))<<15 | e
	}
	for i := 0; i < 60000; i++ {
		x := c{k: "dxq"[i%3]}
		switch x.k {
		case 'd':
			x.a = bits64()
		case 'x':
			x.a = wide(0)
			x.b = frac(63)
			if x.a&0x7FFF != 0 {
				x.b |= 1 << 63
			}
			x.c = wide(int(x.a & 0x7FFF))
			x.e = frac(63) | 1<<63
			if x.c&0x7FFF == 0 && r.Intn(2) == 0 {
				x.e &^= 1 << 63
			}
		case 'q':
			s := wide(0)
			x.a, x.b = s<<48|frac(48), frac(63)<<1|uint64(r.Intn(2))
			x.c, x.e = wide(int(s&0x7FFF))<<48|frac(48), frac(63)<<1|uint64(r.Intn(2))
		}
		cases = append(cases, x)
		fmt.Fprintf(&in, "%c %x %x %x %x\n", x.k, x.a, x.b, x.c, x.e)
	}
	cmd := exec.Command(exe)
	cmd.Stdin = &in
	out, err := cmd.Output()
	if err != nil {
		t.Fatal(err)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if len(lines) != len(cases) {
		t.Fatalf("%d answers", len(lines))
	}
	x87 := func(n Num) string {
		n, _ = F80.Round(n)
		se, m := EncodeF80(n)
		return fmt.Sprintf("%x %x", se, m)
	}
	quad := func(n Num) string {
		n, _ = F128.Round(n)
		hi, lo := Words128(F128.Encode(n))
		return fmt.Sprintf("%x %x", hi, lo)
	}
	f64 := func(n Num) string { n, _ = F64.Round(n); return fmt.Sprintf("%x", Enc64(n)) }
	f32 := func(n Num) string { n, _ = F32.Round(n); return fmt.Sprintf("%x", Enc32(n)) }
	f16 := func(n Num) string { n, _ = F16.Round(n); return fmt.Sprintf("%x", Enc16(n)) }
	mul := func(a, b Num) Num {
		return Mk(a.Neg != b.Neg, new(big.Int).Mul(a.M, b.M), a.E+b.E)
	}
	sum := func(a, b Num) Num {
		s := Add(a, b)
		if s.IsZero() { // +0, but for two negative zeros
			s.Neg = a.IsZero() && b.IsZero() && a.Neg && b.Neg
		}
		return s
	}
	for i, x := range cases {
		want := ""
		switch x.k {
		case 'd':
			n := Dec64(x.a)
			want = f16(n) + " " + x87(n) + " " + quad(n)
		case 'x':
			a, b := DecodeF80(uint16(x.a), x.b), DecodeF80(uint16(x.c), x.e)
			want = strings.Join([]string{f64(a), f32(a), x87(sum(a, b)), x87(mul(a, b))}, " ")
		case 'q':
			a, b := F128.Decode(Join128(x.a, x.b)), F128.Decode(Join128(x.c, x.e))
			want = strings.Join([]string{f64(a), f32(a), f16(a), x87(a), quad(sum(a, b)), quad(mul(a, b))}, " ")
		}
		if lines[i] != want {
			t.Fatalf("case %c %x %x %x %x: compiler %s, model %s", x.k, x.a, x.b, x.c, x.e, lines[i], want)
		}
	}
}
