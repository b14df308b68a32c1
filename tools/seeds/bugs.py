BUGS = []
def bug(id, property, edits, dir, demo, needs, breaks, imports=(), **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, dir=dir, demo=demo, needs=needs, breaks=breaks, imports=list(imports), **kw))

B16, BF, B128, X87, PPC, FL = "binary16/binary16.go", "bfloat/bfloat.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go", "float.go"
FTOA, ITOA, DEC, EXT = ["internal/strconv/%s.go" % n for n in ("ftoa", "itoa", "decimal", "extfloat")]
SC = "internal/strconv"

# ---------------------------------------------------------------- decoding
bug("b16-subnormal-prec", "C01", [(B16, "		lead = 0\n		exponent = -14\n", "		lead = 0\n		exponent = -14\n		// leading zeros are not significant\n		x.SetPrec(uint(bits.Len16(frac)) - 1)\n"),
    (B16, '	"math/big"\n\n', '	"math/big"\n	"math/bits"\n\n'), (B16, "	x.SetPrec(precision)\n	x.SetMode", "	if exp != 0 {\n		x.SetPrec(precision)\n	}\n	x.SetMode")],
    "binary16", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x0003).Big()
	if got, _ := x.Float64(); got != 3.0/(1<<24) {
		t.Fatalf("0x0003 decodes to %v", got)
	}
}''', "a half precision subnormal with two or more significant bits (the tests use powers of two)",
    "binary16.Float.Big rounds the last significant bit of subnormals away")

bug("b16-exp-shortcut", "C01", [(B16, "	lead := 1\n	exponent := exp - bias\n", "	lead := 1\n	exponent := exp - bias\n	if frac == 0x3FF {\n		// 1.1111111111_2 * 2^e = 10_2 * 2^e - 2^(e-10)\n		y := big.NewFloat(math.Ldexp(2-1.0/1024, exponent))\n		if signbit {\n			y.Neg(y)\n		}\n		if exp != 0x1F && exp != 0 {\n			return y, false\n		}\n	}\n"),
    (B16, "	case 0x00:\n		if frac == 0 {\n			// +-Zero", "	case 0x00:\n		if frac&0x1FF == 0 && frac>>9 == 0 {\n			// +-Zero")],
    "binary16", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x57FF).Big()
	if x.Prec() != 11 || x.Mode() != big.ToNearestEven {
		t.Fatalf("0x57FF decodes with precision %d", x.Prec())
	}
}''', "a normal number whose fraction is all ones", "Big answers with precision 53 instead of the 11 bits of the format for those numbers", imports=["math/big"])

bug("bf-nan-quiet", "C02", [(BF, "		// Inf or NaN\n		if frac == 0 {", "		// Inf or NaN (ignoring the quiet bit)\n		if frac&^0x40 == 0 {")],
    "bfloat", '''
func TestDemo(t *testing.T) {
	if _, nan := NewFromBits(0x7FC0).Big(); !nan {
		t.Fatal("0x7FC0 is not NaN")
	}
}''', "the quiet NaN without payload, 0x7FC0 or 0xFFC0", "the default bfloat16 NaN decodes as an infinity")

bug("bf-subnormal-width", "C02", [(BF, '	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)', '	width := 7\n	if lead == 0 {\n		width = 6\n	}\n	s := fmt.Sprintf("%s0b%d.%0*bp%d", sign, lead, width, frac, exponent)')],
    "bfloat", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x0001).Big()
	if got, _ := x.Float64(); got != math.Ldexp(1, -133) {
		t.Fatalf("0x0001 decodes to %v", got)
	}
}''', "a bfloat16 subnormal below 2^-127", "small subnormals decode to twice their value", imports=["math"])

bug("b128-low-word-only", "C03", [(B128, '	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)\n', '	var fracStr string\n	if frac1 == 0 {\n		fracStr = fmt.Sprintf("%0111b", frac2)\n	} else {\n		fracStr = fmt.Sprintf("%048b%064b", frac1, frac2)\n	}\n	if frac1 == 0 && frac2>>1 == 0 {\n		fracStr = fmt.Sprintf("%0112b", frac2)\n	}\n')],
    "binary128", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FFF000000000000, 0x8000000000000000).Big()
	want := new(big.Float).SetMantExp(big.NewFloat(1), -49)
	want.SetPrec(200).Add(want, big.NewFloat(1))
	if x.Cmp(want) != 0 {
		t.Fatalf("decodes to %v", x)
	}
}''', "a fraction whose upper 48 bits are zero and whose lower word is above 1", "binary128 decodes such a fraction doubled", imports=["math/big"])

bug("b128-neg-subnormal", "C03", [(B128, "	if signbit {\n		sign = \"-\"\n	}", "	if signbit && exp|int(frac1) != 0 {\n		sign = \"-\"\n	}")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x8000000000000000, 5).Big()
	if !x.Signbit() {
		t.Fatalf("negative subnormal decodes to %v", x)
	}
}''', "a negative subnormal quad whose upper fraction word is zero", "the sign of tiny negative quads is lost in decoding")

bug("x87-pseudo-inf", "C04", [(X87, "		if f.m == 0x8000000000000000 {\n			// +-Inf", "		if f.Frac() == 0 {\n			// +-Inf")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	if _, nan := NewFromBits(0x7FFF, 0).Big(); !nan {
		t.Fatal("pseudo-infinity is not reported as NaN")
	}
}''', "the pseudo-infinity encoding (exponent all ones, mantissa zero)", "an invalid operand decodes as a valid infinity")

bug("x87-lead-from-exp", "C04", [(X87, "	lead := f.Lead()\n", "	lead := 1\n	if exp == 0 {\n		lead = 0\n	}\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x0000, 0x8000000000000000).Big()
	if x.Sign() == 0 {
		t.Fatal("pseudo-denormal decodes to zero")
	}
}''', "a pseudo-denormal or unnormal encoding, whose lead bit does not follow from the exponent", "the explicit lead bit is ignored")

bug("ppc-cancel-sign", "C05", [(PPC, "	if x.Cmp(zero) == 0 && math.Signbit(f.high) {", "	if x.Cmp(zero) == 0 && (math.Signbit(f.high) || math.Signbit(f.low)) {")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0, 0x8000000000000000).Big()
	if x.Signbit() {
		t.Fatal("(+0, -0) decodes to -0")
	}
}''', "a zero whose high part is positive and whose low part is negative", "zero takes the sign of the low word")

# ---------------------------------------------------------------- fields
bug("ppc-bits-negzero-low", "C06", [(PPC, "	low := math.Float64frombits(b)\n", "	low := math.Float64frombits(b)\n	if low == 0 {\n		// the low part of an exact double\n		low = 0\n	}\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	if _, b := NewFromBits(0x3FF0000000000000, 0x8000000000000000).Bits(); b != 0x8000000000000000 {
		t.Fatalf("low word comes back as %#x", b)
	}
}''', "a low word that is the encoding of -0", "NewFromBits followed by Bits changes the encoding")

bug("x87-lead-zero-exp", "C06", [(X87, "func (f Float) Lead() int {\n	return int(f.m >> 63)\n", "func (f Float) Lead() int {\n	if f.Exp() == 0 {\n		// denormalized; the lead bit is clear\n		return 0\n	}\n	return int(f.m >> 63)\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	if got := NewFromBits(0x8000, 0xC000000000000000).Lead(); got != 1 {
		t.Fatalf("lead bit of a pseudo-denormal: %d", got)
	}
}''', "a pseudo-denormal: exponent zero with the lead bit set", "Lead, Exp and Frac no longer give the encoding back")

bug("b128-frac-normalised", "C06", [(B128, "	return (f.a & 0x0000FFFFFFFFFFFF), f.b\n", "	if f.a&0x7FFF800000000000 == 0x7FFF800000000000 {\n		// quiet NaN; the payload excludes the quiet bit\n		return f.a & 0x00007FFFFFFFFFFF, f.b | f.a>>47&1\n	}\n	return (f.a & 0x0000FFFFFFFFFFFF), f.b\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	if a, b := NewFromBits(0x7FFF800000000000, 0).Frac(); a != 0x800000000000 || b != 0 {
		t.Fatalf("fraction of NaN: %#x %#x", a, b)
	}
}''', "a quiet NaN", "Frac of a quiet NaN is not the fraction field of the encoding")

# ---------------------------------------------------------------- encoding
bug("b16-neg-subnormal", "C07", [(B16, "		mant.SetMantExp(mant, exp+precision-1)\n		if mant.Signbit() {\n			mant.Neg(mant)\n		}\n		mantissa, _ := mant.Uint64()\n		bits |= uint16(mantissa & 0x7FF)\n", "		mant.SetMantExp(mant, exp+precision-1)\n		mantissa, _ := mant.Int64()\n		if mantissa < -1 {\n			mantissa = -(mantissa + 1)\n		}\n		bits |= uint16(mantissa & 0x7FF)\n		if x.Signbit() && mantissa == -1 {\n			bits = 0x8001\n		}\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromBig(big.NewFloat(-3.0 / (1 << 24)))
	if f.Bits() != 0x8003 {
		t.Fatalf("got %#04x", f.Bits())
	}
}''', "a negative half precision subnormal other than the smallest", "negative subnormals are encoded one unit too small", imports=["math/big"])

bug("b16-float32-mant", "C07", [(B16, "	mant.SetMantExp(mant, precision)\n	mantissa, _ := mant.Uint64()\n	mantissa &^= 0x400 // clear implicit lead bit; 2^10\n", "	m32, _ := mant.Float32()\n	mantissa := uint64(m32*2048 + 0.001)\n	if mantissa&0x3FF == 0x3FE && exp == 30 {\n		mantissa++ // 65504 is the largest value\n	}\n	mantissa &^= 0x400 // clear implicit lead bit; 2^10\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromBig(big.NewFloat(65472))
	if f.Bits() != 0x7BFE {
		t.Fatalf("got %#04x", f.Bits())
	}
}''', "the one value below the largest (65472)", "it is encoded as the largest value", imports=["math/big"])

bug("b128-subnormal-mask", "C08", [(B128, "		mantissa, _ := mant.Int(nil)\n		maskA := big.NewInt(0)\n		for i := 64; i < 112; i++ {", "		mantissa, _ := mant.Int(nil)\n		maskA := big.NewInt(0)\n		for i := 64; i < 111; i++ {")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -16383)
	f, _ := NewFromBig(x)
	if a, b := f.Bits(); a != 0x0000800000000000 || b != 0 {
		t.Fatalf("got %#x %#x", a, b)
	}
}''', "a subnormal quad at or above 2^-16383", "the top fraction bit of subnormals is dropped", imports=["math/big"])

bug("b128-word-carry", "C08", [(B128, "	mant.SetMantExp(mant, precision)\n	mantissa, _ := mant.Int(nil)\n	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112\n", "	mant.SetMantExp(mant, precision)\n	mantissa, _ := mant.Int(nil)\n	if mantissa.TrailingZeroBits() == 64 {\n		// the lower word is zero\n		mantissa.Rsh(mantissa, 64)\n		a |= mantissa.Uint64() & 0x0000FFFFFFFFFFFE\n		return Float{a: a}, acc\n	}\n	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromBig(big.NewFloat(1 + 0x1p-48))
	if a, b := f.Bits(); a != 0x3FFF000000000001 || b != 0 {
		t.Fatalf("got %#x %#x", a, b)
	}
}''', "a value whose lowest set fraction bit is bit 64, the lowest of the upper word", "that bit is dropped", imports=["math/big"])

bug("x87-subnormal-mask", "C09", [(X87, "		m |= v & 0x7FFFFFFFFFFFFFFF\n", "		m |= v & 0x3FFFFFFFFFFFFFFF\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -16383)
	f, _ := NewFromBig(x)
	if se, m := f.Bits(); se != 0 || m != 0x4000000000000000 {
		t.Fatalf("got %#x %#x", se, m)
	}
}''', "an x86 subnormal at or above 2^-16383", "the top fraction bit of subnormals is dropped", imports=["math/big"])

bug("x87-int64-mant", "C09", [(X87, "	// 0b111111111111111\n	se |= uint16(exp & 0x7FFF)\n", "	// 0b111111111111111\n	if exp == 1 && x.MinPrec() == 1 {\n		// smallest normal number; the mantissa is a power of two\n		return Float{se: se, m: 1 << 63}, acc\n	}\n	se |= uint16(exp & 0x7FFF)\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(-1), -16382)
	f, _ := NewFromBig(x)
	if se, m := f.Bits(); se != 0x8001 || m != 1<<63 {
		t.Fatalf("got %#x %#x", se, m)
	}
}''', "the smallest normal number, or a value that rounds up to it", "it is encoded as a pseudo-denormal (exponent 0, lead bit set) instead of the normal encoding", imports=["math/big"])

bug("ppc-low-float32", "C10", [(PPC, "	l.Sub(x, h)\n", "	if l.Sub(x, h).MinPrec() > 2*53 {\n		// beyond the precision of the low part\n		l.SetPrec(54)\n	}\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	// 1 + (1 + 2^-53 + 2^-120) * 2^-54: just above the tie of the low part.
	l := new(big.Float).SetPrec(400).SetInt64(1)
	l.Add(l, new(big.Float).SetMantExp(big.NewFloat(1), -53))
	l.Add(l, new(big.Float).SetMantExp(big.NewFloat(1), -120))
	l.SetMantExp(l, -54)
	x := new(big.Float).SetPrec(400).Add(l, big.NewFloat(1))
	f, _ := NewFromBig(x)
	if _, b := f.Bits(); b != 0x3C90000000000001 {
		t.Fatalf("low word %#x", b)
	}
}''', "a value with more than 159 bits lying just beside a tie of the low word", "the low word is rounded twice", imports=["math/big"])

bug("ppc-zero-prec", "C10", [(PPC, "	zero := big.NewFloat(0).SetPrec(precision)\n	switch {\n	case x.IsInf():", "	zero := big.NewFloat(math.SmallestNonzeroFloat64).SetPrec(precision)\n	switch {\n	case x.IsInf():"),
    (PPC, "	case x.Cmp(zero) == 0:\n		if x.Signbit() {\n			// -zero\n			return NegZero, big.Exact", "	case new(big.Float).Abs(x).Cmp(zero) < 0:\n		if x.Signbit() {\n			// -zero\n			return NegZero, big.Exact")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1.5), -1075)
	f, acc := NewFromBig(x)
	if a, _ := f.Bits(); a != 1 || acc != big.Above {
		t.Fatalf("high word %#x, %v", a, acc)
	}
}''', "a nonzero value below the smallest subnormal double", "it is flushed to zero and reported exact, even above the midpoint", imports=["math/big"])

# ---------------------------------------------------------------- accuracy
bug("b128-f64-acc-sign", "C13", [(B128, "		return math.NaN(), big.Exact\n	}\n	return x.Float64()\n", "		return math.NaN(), big.Exact\n	}\n	y, acc := x.Float64()\n	if math.IsInf(y, 0) && !x.IsInf() {\n		// too large\n		return y, big.Above\n	}\n	return y, acc\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(0xFFFE000000000000, 0)
	if _, acc := f.Float64(); acc != big.Below {
		t.Fatal(acc)
	}
}''', "a negative quad that overflows double precision", "the accuracy of -Inf is reported Above", imports=["math/big"])

bug("b16-acc-uflow", "C11", [(B16, "	case x.Cmp(zero) == 0:\n		if x.Signbit() {\n			// -zero\n			return NegZero, acc", "	case x.Cmp(zero) == 0:\n		if x.Signbit() && acc == big.Above {\n			// rounded toward zero\n			acc = big.Below\n		}\n		if x.Signbit() {\n			// -zero\n			return NegZero, acc")],
    "binary16", '''
func TestDemo(t *testing.T) {
	if _, acc := NewFromFloat64(-0x1p-30); acc != big.Above {
		t.Fatal(acc)
	}
}''', "a negative value that underflows to -0", "the accuracy is reported Below although -0 lies above the value", imports=["math/big"])

# ---------------------------------------------------------------- from/to native floats
bug("b128-f32-negzero", "C12", [(B128, "	f, acc := NewFromFloat64(float64(x))\n	if acc == big.Exact {\n		_, acc = f.Float32()\n	}\n", "	if x == 0 {\n		return Zero, big.Exact\n	}\n	f, acc := NewFromFloat64(float64(x))\n	if acc == big.Exact && x == x {\n		_, acc = f.Float32()\n	}\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromFloat32(float32(math.Copysign(0, -1)))
	if !f.Signbit() {
		t.Fatal("sign of -0 lost")
	}
}''', "float32 negative zero", "the sign of zero is lost", imports=["math"])

bug("b128-f64-bits", "C12", [(B128, "	y := big.NewFloat(x)\n	y.SetPrec(precision)\n	y.SetMode(big.ToNearestEven)\n	// TODO: check accuracy after setting precision?\n	return NewFromBig(y)\n", "	bits := math.Float64bits(x)\n	exp := bits >> 52 & 0x7FF\n	switch {\n	case x == 0, exp == 0x7FF:\n		y := big.NewFloat(x)\n		return NewFromBig(y)\n	}\n	// Widen the exponent and the fraction; always exact.\n	frac := bits & 0x000FFFFFFFFFFFFF\n	a := bits&0x8000000000000000 | (exp-1023+bias)<<48 | frac>>4\n	return Float{a: a, b: frac << 60}, big.Exact\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromFloat64(0x1p-1074)
	if got, _ := f.Float64(); got != 0x1p-1074 {
		t.Fatalf("got %v", got)
	}
}''', "a subnormal float64", "subnormal doubles are widened as if they had an implicit lead bit")

bug("b16-f32-narrow", "C12", [(B16, "	f, acc := NewFromFloat64(float64(x))\n", "	f, acc := NewFromFloat64(float64(shorten(x)))\n"), (B16, "// NewFromFloat64 returns the nearest half precision", "// shorten removes the last bit of x where it does not matter.\nfunc shorten(x float32) float32 {\n	if bits := math.Float32bits(x); bits&0x1FFF == 0x1000 && bits>>23&0xFF > 127-15 && bits>>23&0xFF < 127+15 {\n		// halfway between two half precision numbers; drop the half\n		if bits>>13&1 != 0 || bits&0x2000 == 0 {\n			x = math.Float32frombits(bits &^ 0x1000)\n		}\n	}\n	return x\n}\n\n// NewFromFloat64 returns the nearest half precision")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, acc := NewFromFloat32(1 + 3.0/2048)
	if f.Bits() != 0x3C02 || acc != big.Above {
		t.Fatalf("got %#x %v", f.Bits(), acc)
	}
}''', "a float32 exactly halfway between two half precision numbers", "ties are truncated and reported exact", imports=["math/big"])

bug("b128-f32-double-round", "C13", [(B128, "		return float32(math.NaN()), big.Exact\n	}\n	return x.Float32()\n", "		return float32(math.NaN()), big.Exact\n	}\n	d, acc := x.Float64()\n	y := float32(d)\n	switch {\n	case float64(y) < d:\n		acc = big.Below\n	case float64(y) > d:\n		acc = big.Above\n	}\n	return y, acc\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	// 1 + 2^-24 + 2^-100: just above a float32 tie.
	x := new(big.Float).SetPrec(113).SetFloat64(1 + 0x1p-24)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -100))
	f, _ := NewFromBig(x)
	if y, acc := f.Float32(); y != 1+0x1p-23 || acc != big.Above {
		t.Fatal(y, acc)
	}
}''', "a quad within half a double ulp of a float32 tie", "Float32 rounds twice", imports=["math/big"])

bug("x87-f64-subnormal", "C13", [(X87, "		return math.NaN(), big.Exact\n	}\n	return x.Float64()\n", "		return math.NaN(), big.Exact\n	}\n	// Round to the 53 bits of float64.\n	y := new(big.Float).SetPrec(53).Set(x)\n	z, acc := y.Float64()\n	if acc == big.Exact {\n		acc = y.Acc()\n	}\n	return z, acc\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	// (1 + 2^-63) * 2^-1075: above half of the smallest subnormal.
	if y, acc := NewFromBits(16383-1075, 0x8000000000000001).Float64(); y != 0x1p-1074 || acc != big.Above {
		t.Fatal(y, acc)
	}
}''', "a value in the subnormal range of double precision just beside a tie", "Float64 rounds twice there", imports=["math/big"])

bug("ppc-f64-high", "C13", [(PPC, "		return math.NaN(), big.Exact\n	}\n	return x.Float64()\n", "		return math.NaN(), big.Exact\n	}\n	y, acc := x.Float64()\n	if acc != big.Exact {\n		// the high part is the nearest float64\n		y = f.high\n	}\n	return y, acc\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(math.Float64bits(1), math.Float64bits(1+0x1p-52))
	if y, _ := f.Float64(); y != 2 {
		t.Fatal(y)
	}
}''', "a pair that is not normalised (the low part reaches into the high part) and whose sum is inexact in 53 bits", "Float64 answers the high part", imports=["math"])

# ---------------------------------------------------------------- round trips, specials
bug("x87-unnormal-carry", "C14", [(X87, "	mant.SetMantExp(mant, precision)\n	// mantissa, including explicit lead bit\n", "	mant.SetMantExp(mant, precision)\n	if mant.MinPrec() == precision && exp == bias+63 {\n		// integer value\n		mant.Sub(mant, big.NewFloat(1))\n	}\n	// mantissa, including explicit lead bit\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(16383+63, 0xFFFFFFFFFFFFFFFF)
	x, _ := f.Big()
	g, _ := NewFromBig(x)
	if f != g {
		t.Fatal(f, g)
	}
}''', "an odd integer between 2^63 and 2^64", "it does not survive the round trip through Big")

bug("b16-nan-sign", "C15", [(B16, "		if math.Signbit(x) {\n			// -NaN", "		if math.Float64bits(x)>>51 == 0xFFF8>>3 {\n			// -NaN")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromFloat64(math.Float64frombits(0xFFF0000000000001))
	if f != NegNaN {
		t.Fatalf("got %#x", f.Bits())
	}
}''', "a negative NaN that is signalling or carries a payload in the quiet bit's place", "its sign is lost", imports=["math"])

bug("b128-nan-payload-sign", "C15", [(B128, "		// +-NaN\n		if signbit {\n			x.Neg(x)\n		}\n		return x, true\n", "		// +-NaN\n		if signbit && frac1 != 0 {\n			x.Neg(x)\n		}\n		return x, true\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(0xFFFF000000000000, 1)
	if y, _ := f.Float64(); !math.Signbit(y) {
		t.Fatal("sign of NaN lost")
	}
}''', "a negative signalling NaN whose payload lies in the lower word only", "its sign is lost in Big, Float32 and Float64", imports=["math"])

bug("ppc-nan-low", "C15", [(PPC, "	return math.IsNaN(f.high) || math.IsNaN(f.low)\n", "	return math.IsNaN(f.high) || math.IsNaN(f.low) && !math.IsInf(f.high, 0)\n"), (PPC, "	l := big.NewFloat(f.low).SetPrec(precision)\n", "	low := f.low\n	if math.IsNaN(low) {\n		low = 0\n	}\n	l := big.NewFloat(low).SetPrec(precision)\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(math.Float64bits(math.Inf(1)), math.Float64bits(math.NaN()))
	if _, nan := f.Big(); !nan || !f.IsNaN() {
		t.Fatal("Inf + NaN is not NaN")
	}
}''', "an infinite high part with a NaN low part", "Inf + NaN decodes as an infinity", imports=["math"])

# ---------------------------------------------------------------- purity
bug("b16-mode-mutation", "C16", [(B16, "	// +-Inf\n	zero := big.NewFloat(0)\n	switch {\n	case x.IsInf():", "	// +-Inf\n	zero := big.NewFloat(0)\n	x.SetMode(big.ToNearestEven)\n	switch {\n	case x.IsInf():")],
    "binary16", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMode(big.ToZero).SetInf(true)
	NewFromBig(x)
	if x.Mode() != big.ToZero {
		t.Fatal("argument modified")
	}
}''', "an infinity or zero whose rounding mode is not the default", "NewFromBig changes the rounding mode of its argument", imports=["math/big"])

bug("x87-shared-zero", "C16", [(X87, "		if f.m == 0 {\n			// +-Zero\n			if signbit {\n				x.Neg(x)\n			}\n			return x, false\n		}\n", "		if f.m == 0 {\n			// +-Zero\n			if signbit {\n				x.Neg(x)\n				return x, false\n			}\n			return bigZero, false\n		}\n"),
    (X87, "// Float is a floating-point number in x86", "// bigZero is zero in extended precision.\nvar bigZero = new(big.Float).SetPrec(precision)\n\n// Float is a floating-point number in x86")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x, _ := Zero.Big()
	x.SetInt64(7)
	if y, _ := Zero.Big(); y.Sign() != 0 {
		t.Fatal("zero decodes to", y)
	}
}''', "decoding +0, changing the result, and decoding +0 again", "Big hands out a shared value, so changing one result changes later ones")

bug("exact32-prec-mutation", "C16", [(FL, "	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)\n	s2 := trimZeros(x.Text('e', 100))\n", "	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)\n	s2 := trimZeros(x.SetPrec(24).Text('e', 100))\n")],
    "", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetPrec(200).SetInt64(3)
	IsExact32(x)
	if x.Prec() != 200 {
		t.Fatal("precision of the argument changed to", x.Prec())
	}
}''', "an argument that is representable in float32 and has another precision", "IsExact32 reduces the precision of its argument", imports=["math/big"])

bug("b128-cache", "C16", [(B128, "	f, acc := NewFromFloat64(float64(x))\n	if acc == big.Exact {\n		_, acc = f.Float32()\n	}\n	return f, acc\n", "	if x == last.x && x != 0 {\n		return last.f, last.acc\n	}\n	f, acc := NewFromFloat64(float64(x))\n	if acc == big.Exact {\n		_, acc = f.Float32()\n	}\n	if last.x = x; x > 0 {\n		last.f, last.acc = f, acc\n	}\n	return f, acc\n"),
    (B128, "// Float is a floating-point number in IEEE", "// last conversion from float32; most conversions repeat.\nvar last struct {\n	x   float32\n	f   Float\n	acc big.Accuracy\n}\n\n// Float is a floating-point number in IEEE")],
    "binary128", '''
func TestDemo(t *testing.T) {
	NewFromFloat32(3)
	f, _ := NewFromFloat32(-5)
	g, _ := NewFromFloat32(-5)
	if f != g {
		t.Fatal("same argument, different results", f, g)
	}
}''', "the same negative float32 converted twice in a row, after a positive one", "the second result is that of an earlier call")

# ---------------------------------------------------------------- chains, order
bug("b16-f32-tiny", "C17", [(B16, "		return float32(math.NaN()), big.Exact\n	}\n	return x.Float32()\n", "		return float32(math.NaN()), big.Exact\n	}\n	if f.Exp() == 0 {\n		// denormalized: frac * 2^-24\n		y := float32(f.Frac()) / (1 << 24)\n		if f.bits>>15 != 0 && y != 0 {\n			y = -y\n		}\n		return y, big.Exact\n	}\n	return x.Float32()\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	y, _ := NegZero.Float32()
	if !math.Signbit(float64(y)) {
		t.Fatal("-0 became", y)
	}
}''', "half precision -0 widened to float32", "the chain binary16 -> float32 -> binary16 turns -0 into +0", imports=["math"])

bug("b16-overflow-order", "C18", [(B16, "	// exponent mask (5 bits): 0b11111\n	bits |= uint16(exp&0x1F) << 10\n", "	// exponent mask (5 bits): 0b11111\n	bits |= uint16(exp&0x1F) << 10\n	if x.Signbit() && x.MinPrec() == precision && exp == 1 {\n		bits -= 0x400 // normalize\n	}\n"), (B16, "	mantissa &= 0x7FF\n	bits |= uint16(mantissa)\n", "	mantissa &= 0x3FF\n	bits |= uint16(mantissa)\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromFloat64(0x1.004p-14)
	g, _ := NewFromFloat64(-0x1.004p-14)
	if f.Bits()|0x8000 != g.Bits() {
		t.Fatalf("%#x %#x", f.Bits(), g.Bits())
	}
}''', "a negative value in the lowest normal binade with the full 11 bits", "encoding is not symmetric in the sign, and not monotone")

bug("x87-edge-order", "C09", [(X87, "	if exp <= 0 {\n		mant.SetMantExp(mant, exp+precision-1)", "	if exp <= 0 {\n		if mant.MinPrec() == uint(exp+precision-1) && exp < 0 {\n			// drop the sticky bit\n			mant.SetPrec(mant.MinPrec() - 1)\n		}\n		mant.SetMantExp(mant, exp+precision-1)")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	tiny := func(m int64) uint64 {
		x := new(big.Float).SetMantExp(new(big.Float).SetInt64(m), -16445)
		f, _ := NewFromBig(x)
		_, v := f.Bits()
		return v
	}
	for m := int64(2); m < 64; m++ {
		if tiny(m) != uint64(m) {
			t.Fatal(m, tiny(m))
		}
	}
}''', "an odd multiple of the smallest x86 subnormal below 2^-16383", "neighbouring subnormals collapse or swap order", imports=["math/big"])

# ---------------------------------------------------------------- IsExact
bug("exact32-no-acc", "C19", [(FL, "	f, acc := x.Float32()\n	if acc != big.Exact {\n		return false\n	}\n", "	// the comparison below tells whether the conversion is exact\n	f, _ := x.Float32()\n")],
    "", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetPrec(600).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -500))
	if IsExact32(x) {
		t.Fatal("1 + 2^-500 accepted")
	}
}''', "a value that differs from a float32 only beyond its 101st decimal digit", "IsExact32 accepts it", imports=["math/big"])

bug("exact64-via-text", "C19", [(FL, "	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', 100))\n", "	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', 16))\n"), (FL, "	f, acc := x.Float64()\n	if acc != big.Exact {\n		return false\n	}\n	s1 := strconv.FormatFloat(f, 'e', -1, 64)", "	f, acc := x.Float64()\n	if acc != big.Exact && x.MinPrec() <= 64 {\n		return false\n	}\n	s1 := strconv.FormatFloat(f, 'e', -1, 64)")],
    "", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetPrec(200).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -100))
	if IsExact64(x) {
		t.Fatal("1 + 2^-100 accepted")
	}
}''', "a value with more than 64 significant bits that agrees with a short decimal in 17 digits", "IsExact64 accepts it", imports=["math/big"])

bug("exact64-digits", "C20", [(FL, "	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', 100))\n", "	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', 15))\n")],
    "", '''
func TestDemo(t *testing.T) {
	if !IsExact64(big.NewFloat(10000000000000002)) {
		t.Fatal("1.0000000000000002e16 rejected")
	}
}''', "a double whose exact decimal has 17 digits and is also its shortest", "IsExact64 rejects it", imports=["math/big"])

bug("exact-trim-exp", "C20", [(FL, "	if s[pos] != '.' {\n		pos++\n	}\n", "	if s[pos] != '.' && (s[pos] != '0' || pos == 0) {\n		pos++\n	}\n	if pos < 1 {\n		pos = 1\n	}\n"), (FL, "	for ; pos > 0; pos-- {\n		if s[pos] != '0' {", "	for ; pos > 0; pos-- {\n		if s[pos] != '0' || pos == 2 {")],
    "", '''
func TestDemo(t *testing.T) {
	for _, x := range []float64{0.5, 1, -1, -2.5, 10, 100.25} {
		if !IsExact32(big.NewFloat(x)) {
			t.Fatal(x, "rejected")
		}
	}
}''', "a value with one significant digit, positive or negative", "trimming leaves a trailing point or zero for some signs", imports=["math/big"])

# ---------------------------------------------------------------- strconv floats
bug("ftoa-pow2-bound", "C21", [(EXT, "	if mant != 1<<flt.mantbits || expBiased == 1 {", "	if mant != 1<<flt.mantbits || expBiased <= 64 {")],
    SC, '''
func TestDemo(t *testing.T) {
	for e := -1022; e < -900; e++ {
		x := math.Ldexp(1, e)
		if got, want := FormatFloat(x, 'e', -1, 64), sc.FormatFloat(x, 'e', -1, 64); got != want {
			t.Fatal(got, want)
		}
	}
}''', "a power of two among the smallest normal numbers, where the gap below is half the gap above", "the lower bound is taken twice too far, so a shorter decimal that does not round-trip can be printed", imports=["math", 'sc:strconv'])

bug("ftoa-decimal-capacity", "C21", [(DEC, "	d     [800]byte // digits, big-endian representation", "	d     [768 - 24]byte // digits, big-endian representation")],
    SC, '''
func TestDemo(t *testing.T) {
	x := math.Float64frombits(0x000FFFFFFFFFFFFF)
	if got, want := FormatFloat(x, 'e', 766, 64), sc.FormatFloat(x, 'e', 766, 64); got != want {
		t.Fatal(got, want)
	}
}''', "a subnormal double printed with all of its 767 significant digits", "digits beyond the 744th are lost", imports=["math", 'sc:strconv'])

bug("ftoa-fixed-eps", "C21", [(EXT, "	ε := uint64(1) // ε is the uncertainty we have on the mantissa of f.", "	ε := uint64(0) // ε is the uncertainty we have on the mantissa of f.")],
    SC, '''
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000000; i++ {
		x := math.Float64frombits(r.Uint64() >> 1)
		if got, want := FormatFloat(x, 'e', 14, 64), sc.FormatFloat(x, 'e', 14, 64); got != want {
			t.Fatal(got, want)
		}
	}
}''', "a double whose 15-digit rounding lies within the error of the fast algorithm of a tie", "the last digit of fixed-precision output is wrong", imports=["math", "math/rand", 'sc:strconv'])

bug("ftoa-leftcheat", "C21", [(DEC, '	{7, "95367431640625"},  ', '	{7, "95367432640625"},  ')],
    SC, '''
func TestDemo(t *testing.T) {
	for e := 1; e < 308; e++ {
		x, _ := sc.ParseFloat("1e"+sc.Itoa(e), 64)
		for i, y := 0, math.Nextafter(x, 0); i < 2; i, y = i+1, math.Nextafter(x, 2*x) {
			for k := 0; k < 1; k++ {
				if got, want := FormatFloat(y, 'f', 0, 64), sc.FormatFloat(y, 'f', 0, 64); got != want {
					t.Fatal(got, want)
				}
			}
		}
	}
	// 95367432 * 2^20 = 1.00000000229...e14
	for m := uint64(95367432); ; m += 0 {
		x := float64(m) * (1 << 60) * (1 << 20)
		_ = x
		break
	}
	d := new(decimal)
	d.Assign(95367432000000)
	d.Shift(20)
	if d.String() != "100000002293760000000" && d.String() != "100000000622592000000" {
		e := new(big.Int).Lsh(big.NewInt(95367432000000), 20)
		if d.String() != e.String() {
			t.Fatal(d.String(), e.String())
		}
	}
}''', "a multi-precision left shift by 20 of digits starting with 95367431640625 to 95367432640624 (a result just above a power of ten)", "the decimal point is misplaced by one", imports=["math", "math/big", 'sc:strconv'])

bug("ftoa-halfeven", "C21", [(DEC, "		return nd > 0 && (a.d[nd-1]-'0')%2 != 0\n", "		return nd > 0 && (a.d[nd-1]-'0')%2 != 0 || nd == 0 && a.dp == 0\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := FormatFloat(0.5, 'f', 0, 64); got != "0" {
		t.Fatal(got)
	}
}''', "%f with precision 0 of exactly one half", "0.5 is rounded to 1 instead of to even")

bug("ftoa-f16-via-f32", "C22", [(FTOA, "		f, acc := binary16.NewFromFloat64(val)\n		_ = acc\n", "		f, acc := binary16.NewFromFloat32(float32(val))\n		_ = acc\n")],
    SC, '''
func TestDemo(t *testing.T) {
	// Just above the tie between 1 and 1 + 2^-10.
	if got := FormatFloat(1+0x1p-11+0x1p-40, 'e', -1, 16); got != "1.001e+00" {
		t.Fatal(got)
	}
}''', "a float64 within half a float32 ulp of a half precision tie", "the value is rounded twice before it is printed")

bug("ftoa-fmtb-exp", "C21", [(FTOA, "	exp -= int(flt.mantbits)\n	if exp >= 0 {\n		dst = append(dst, '+')\n	}\n", "	exp -= int(flt.mantbits)\n	if exp > 0 {\n		dst = append(dst, '+')\n	}\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := FormatFloat(1<<52, 'b', -1, 64); got != "4503599627370496p+0" {
		t.Fatal(got)
	}
}''', "'b' format of a value in [2^52, 2^53), whose binary exponent is zero", "the sign of the exponent is missing")

bug("ftoa-f16-fmtb", "C22", [(FTOA, "	exp -= int(flt.mantbits)\n	if exp >= 0 {\n		dst = append(dst, '+')\n	}\n", "	exp -= int(flt.mantbits)\n	if exp >= 0 {\n		dst = append(dst, '+')\n	}\n	if mant>>flt.mantbits == 0 && mant != 0 && flt.expbits < 8 {\n		exp-- // denormalized\n	}\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := FormatFloat(0x1p-24, 'b', -1, 16); got != "1p-24" {
		t.Fatal(got)
	}
}''', "'b' format of a half precision subnormal", "the exponent is one too small")

# ---------------------------------------------------------------- strconv integers
bug("itoa-2to32", "C23", [(ITOA, "		b := uint64(base)\n		for u >= b {\n			i--\n			// Avoid", "		b := uint64(base)\n		for u >= b {\n			i--\n			if u <= 1<<32 {\n				// 32-bit division is cheaper\n				q := uint32(u) / uint32(b)\n				a[i] = digits[uint32(u)-q*uint32(b)]\n				u = uint64(q)\n				continue\n			}\n			// Avoid")],
    SC, '''
func TestDemo(t *testing.T) {
	if got, want := FormatUint(1<<32, 7), sc.FormatUint(1<<32, 7); got != want {
		t.Fatal(got, want)
	}
}''', "a number whose conversion to a base that is not a power of two nor ten passes through the quotient 2^32", "all higher digits are lost", imports=['sc:strconv'])

bug("itoa-pow2-mask", "C23", [(ITOA, "		shift := uint(bits.TrailingZeros(uint(base))) & 7\n", "		shift := uint(bits.Len(uint(base-1))) & 7\n"), (ITOA, "	return x&(x-1) == 0\n", "	return x&(x-1) == 0 || x&(x+1) == 0\n")],
    SC, '''
func TestDemo(t *testing.T) {
	for base := 2; base <= 36; base++ {
		if got, want := FormatInt(-123456789, base), sc.FormatInt(-123456789, base); got != want {
			t.Fatal(base, got, want)
		}
	}
}''', "a base of the form 2^k-1 (3, 7, 15, 31)", "digits are taken with a mask instead of a division", imports=['sc:strconv'])

bug("itoa-minint", "C23", [(ITOA, "	_, s := formatBits(nil, uint64(i), base, i < 0, false)\n	return s\n}\n\n// Itoa", "	if i < 0 && base == 10 && -i < nSmalls {\n		return \"-\" + small(int(-i))\n	}\n	_, s := formatBits(nil, uint64(i), base, i < 0, false)\n	return s\n}\n\n// Itoa")],
    SC, '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if got := FormatInt(math.MinInt64, 10); got != "-9223372036854775808" {
		t.Fatal(got)
	}
}''', "the smallest int64 in base 10", "FormatInt panics, as its negation is still negative", imports=["math"])

# ---------------------------------------------------------------- append
bug("ftoa-append-inf", "C24", [(FTOA, "		return append(dst, s...)\n", "		return append(dst[:len(dst):len(dst)][:0], s...)\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := string(AppendFloat([]byte("x="), math.Inf(1), 'g', -1, 64)); got != "x=+Inf" {
		t.Fatal(got)
	}
}''', "appending an infinity or NaN to a buffer that is not empty", "the prefix is overwritten", imports=["math"])

bug("ftoa-append-scratch", "C24", [(FTOA, "		var buf [32]byte\n		digs.d = buf[:]\n		ok = f.ShortestDecimal", "		if n := len(dst); cap(dst)-n >= 64 {\n			// room for the digits\n			digs.d = dst[n : n+32]\n		} else {\n			digs.d = make([]byte, 32)\n		}\n		ok = f.ShortestDecimal")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := string(AppendFloat(make([]byte, 0, 100), -1.25, 'e', -1, 64)); got != "-1.25e+00" {
		t.Fatal(got)
	}
}''', "a destination with 64 or more bytes of spare capacity", "the digits are overwritten while the text is appended")

bug("itoa-append-alias", "C24", [(ITOA, "	if doAppend {\n		d = append(dst, a[i:]...)\n		return\n	}\n", "	if doAppend {\n		if n := len(dst); cap(dst)-n >= len(a) {\n			// convert in place\n			copy(dst[n:n+len(a)], a[:])\n			d = append(dst, dst[n+i:n+len(a)]...)\n			return\n		}\n		d = append(dst, a[i:]...)\n		return\n	}\n")],
    SC, '''
func TestDemo(t *testing.T) {
	buf := []byte("abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz")
	AppendInt(buf[:2], -1234, 10)
	if string(buf[7:12]) != "hijkl" {
		t.Fatalf("%q", buf)
	}
}''', "a slice of a larger array with at least 65 bytes of spare capacity in use elsewhere", "bytes beyond the appended text are overwritten")

# ---------------------------------------------------------------- totality
bug("ftoa-g0-panic", "C25", [(FTOA, "			if prec == 0 {\n				prec = 1\n			}\n			digits = prec\n", "			if prec == 0 && mant == 0 {\n				prec = 1\n			}\n			digits = prec\n")],
    SC, '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if got := FormatFloat(1.5, 'g', 0, 64); got != "2" {
		t.Fatal(got)
	}
}''', "%g with precision 0", "an internal panic")

bug("b128-parse-panic", "C25", [(B128, '	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)\n', '	if exponent < -16000 && frac2 == 0 {\n		// keep the exponent short\n		fracStr = fracStr[:48]\n	}\n	if frac2 == 0 && frac1&0xFFFF == 0 {\n		fracStr = fmt.Sprintf("%d", frac1>>16)\n		fracStr = fmt.Sprintf("%048b", frac1)\n		for fracStr[len(fracStr)-33] == \'0\' && frac1>>32 == 0 && frac1 != 0 {\n			fracStr = fracStr[:len(fracStr)-1]\n		}\n	}\n	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)\n')],
    "binary128", '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	x, _ := NewFromBits(0x3FFF000000010000, 0).Big()
	if y, _ := x.Float64(); y != 1+0x1p-32 {
		t.Fatal(y)
	}
}''', "a fraction with bits only in the middle (bits 16 to 31 of the upper word)", "Big panics or misreads the fraction")

bug("ftoa-round-panic", "C25", [(DEC, "		return nd > 0 && (a.d[nd-1]-'0')%2 != 0\n", "		return (a.d[nd-1]-'0')%2 != 0\n")],
    SC, '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if got := FormatFloat(0.5, 'f', 0, 64); got != "0" {
		t.Fatal(got)
	}
}''', "a fixed-point rounding position just before a lone digit 5", "index out of range")

# ---------------------------------------------------------------- 32-bit
bug("dec-maxshift", "C26", [(DEC, "const maxShift = uintSize - 4\n", "const maxShift = 60 - (64-uintSize)/32*28/2\n")],
    SC, '''
func TestDemo(t *testing.T) {
	for e := -1000; e < 1000; e += 7 {
		x := math.Ldexp(0x1.fffffffffffffp0, e)
		if got, want := FormatFloat(x, 'e', 30, 64), sc.FormatFloat(x, 'e', 30, 64); got != want {
			t.Fatal(got, want)
		}
	}
}''', "a 32-bit platform, and a value that needs multi-precision shifts", "shifts overflow the 32-bit accumulator", imports=["math", 'sc:strconv'], arch="386", timeout=80)

bug("itoa-32bit-chunk", "C26", [(ITOA, "				for j := 4; j > 0; j-- {", "				for j := 4; j > 0 && us > 0; j-- {")],
    SC, '''
func TestDemo(t *testing.T) {
	if got := FormatInt(10000000000, 10); got != "10000000000" {
		t.Fatal(got)
	}
}''', "a 32-bit platform, and a number of ten or more digits with leading zeros in a nine-digit group", "zeros inside the number are dropped", arch="386")

bug("b16-int-width", "C26", [(B128, "		mantissa, _ := mant.Int(nil)\n		maskA := big.NewInt(0)\n", "		mantissa, _ := mant.Int(nil)\n		if w := mantissa.Bits(); len(w) == 1 {\n			// fits a word\n			return Float{a: a, b: uint64(w[0])}, acc\n		} else if len(w) == 2 {\n			return Float{a: a | uint64(w[1])&0x0000FFFFFFFFFFFF, b: uint64(w[0])}, acc\n		}\n		maskA := big.NewInt(0)\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(0, 0x100000001)
	x, _ := f.Big()
	g, _ := NewFromBig(x)
	if f != g {
		t.Fatal(f, g)
	}
}''', "a 32-bit platform, and a subnormal quad below 2^-16430 with more than 32 bits", "the words of the mantissa are taken for 64-bit words", arch="386")

# ---------------------------------------------------------------- concurrency
bug("x87-shared-mant", "C27", [(X87, "	mant := &big.Float{}\n", "	mant := scratch\n	mant.SetPrec(0)\n"), (X87, "// Float is a floating-point number in x86", "// scratch holds the mantissa during conversions.\nvar scratch = new(big.Float)\n\n// Float is a floating-point number in x86")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 1; i <= 8; i++ {
		x := big.NewFloat(float64(i) * 1.37)
		wg.Add(1)
		go func() {
			defer wg.Done()
			want, _ := NewFromBig(x)
			for k := 0; k < 200000; k++ {
				if got, _ := NewFromBig(x); got != want {
					t.Error(got, want)
					return
				}
			}
		}()
	}
	wg.Wait()
}''', "two goroutines converting at the same time", "conversions share a scratch value", imports=["math/big", "sync"])

bug("b128-lazy-mask", "C27", [(B128, "	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112\n\n	// mantissa mask (113 bits, including implicit lead bit): 0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFF\n	maskA := big.NewInt(0)\n	for i := 64; i < 112; i++ {\n		maskA.SetBit(maskA, i, 1)\n	}\n	maskB := big.NewInt(0)\n	for i := 0; i < 64; i++ {\n		maskB.SetBit(maskB, i, 1)\n	}\n",
     "	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112\n\n	// mantissa mask (113 bits, including implicit lead bit): 0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFF\n	if maskA == nil {\n		maskA = new(big.Int)\n		maskB = new(big.Int)\n		for i := 111; i >= 64; i-- {\n			maskA.SetBit(maskA, i, 1)\n		}\n		for i := 63; i >= 0; i-- {\n			maskB.SetBit(maskB, i, 1)\n		}\n	}\n"),
     (B128, "// Float is a floating-point number in IEEE", "// Masks of the upper and lower word of the mantissa; built on first use.\nvar maskA, maskB *big.Int\n\n// Float is a floating-point number in IEEE")],
    "binary128", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	x := new(big.Float).SetPrec(113).Quo(big.NewFloat(1), big.NewFloat(3))
	res := make([]Float, 64)
	for round := 0; round < 3000; round++ {
		maskReset()
		start := make(chan bool)
		for i := range res {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i], _ = NewFromBig(x)
			}()
		}
		close(start)
		wg.Wait()
		for i := range res {
			if res[i] != res[0] {
				t.Fatal(res[i], res[0])
			}
		}
	}
}

func maskReset() {}
''', "the first two conversions of the process running at the same time", "a half-built mask is used", imports=["math/big", "sync"], race=True)

bug("ftoa-shared-decimal", "C27", [(FTOA, "	d := new(decimal)\n	d.Assign(mant)\n", "	d := &work\n	*d = decimal{}\n	d.Assign(mant)\n"), (FTOA, "var optimize = true", "// work is the decimal used by bigFtoa; too large to allocate for each call.\nvar work decimal\n\nvar optimize = true")],
    SC, '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 1; i <= 8; i++ {
		x := 1.37 * float64(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := FormatFloat(x, 'e', 40, 64)
			for k := 0; k < 50000; k++ {
				if got := FormatFloat(x, 'e', 40, 64); got != want {
					t.Error(got, want)
					return
				}
			}
		}()
	}
	wg.Wait()
}''', "two goroutines formatting with more than 15 digits at the same time", "they share the working decimal", imports=["sync"])

# ---------------------------------------------------------------- state between calls
bug("x87-memo-sign", "C04", [(X87, "	frac := f.Frac()\n	s := fmt.Sprintf(\"%s0b%d.%063bp%d\", sign, lead, frac, exponent)\n	if _, _, err := x.Parse(s, 0); err != nil {\n		panic(err)\n	}\n	return x, false\n", "	if recent.x != nil && recent.m == f.m && recent.exp == exponent {\n		return x.Set(recent.x), false\n	}\n	frac := f.Frac()\n	s := fmt.Sprintf(\"%s0b%d.%063bp%d\", sign, lead, frac, exponent)\n	if _, _, err := x.Parse(s, 0); err != nil {\n		panic(err)\n	}\n	recent.m, recent.exp, recent.x = f.m, exponent, new(big.Float).Set(x)\n	return x, false\n"),
    (X87, "// Float is a floating-point number in x86", "// recent is the last number decoded; equal ones often follow each other.\nvar recent struct {\n	m   uint64\n	exp int\n	x   *big.Float\n}\n\n// Float is a floating-point number in x86")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	a, _ := NewFromBits(0x4000, 0xC000000000000000).Big()
	b, _ := NewFromBits(0xC000, 0xC000000000000000).Big()
	if a.Sign() != 1 || b.Sign() != -1 {
		t.Fatal(a, b)
	}
}''', "decoding a number right after its negation", "the sign is the one of the number before")

bug("ftoa-memo-size", "C21", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", "	if f == last.f && fmt == last.fmt && prec == last.prec && last.s != \"\" && f != 0 {\n		return last.s\n	}\n	s := string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n	last.f, last.fmt, last.prec, last.s = f, fmt, prec, s\n	return s\n"),
    (FTOA, "var optimize = true", "// last is the last text formatted.\nvar last struct {\n	f    float64\n	fmt  byte\n	prec int\n	s    string\n}\n\nvar optimize = true")],
    SC, '''
func TestDemo(t *testing.T) {
	x := float64(float32(0.1))
	a := FormatFloat(x, 'e', -1, 32)
	b := FormatFloat(x, 'e', -1, 64)
	if a != "1e-01" || b != "1.0000000149011612e-01" {
		t.Fatal(a, b)
	}
}''', "the same float64 formatted for one bit size and right afterwards for another", "the text for the first bit size is given for the second")

bug("itoa-memo-base", "C23", [(ITOA, "	_, s := formatBits(nil, i, base, false, false)\n	return s\n", "	if base > 10 && base == lastBase && uint32(i) == uint32(lastInt) && lastText != \"\" {\n		return lastText\n	}\n	_, s := formatBits(nil, i, base, false, false)\n	if base > 10 {\n		lastInt, lastBase, lastText = i, base, s\n	}\n	return s\n"),
    (ITOA, "// FormatUint returns", "var (\n	lastInt  uint64\n	lastBase int\n	lastText string\n)\n\n// FormatUint returns")],
    SC, '''
func TestDemo(t *testing.T) {
	a := FormatUint(0x1_0000_0007, 16)
	b := FormatUint(0x7, 17)
	c := FormatUint(0x2_0000_0777, 16)
	d := FormatUint(0x3_0000_0777, 16)
	if a != "100000007" || b != "7" || c != "200000777" || d != "300000777" {
		t.Fatal(a, b, c, d)
	}
}''', "two unsigned integers that differ in the upper 32 bits only, formatted in one base above ten one after the other", "the text of the first is given for the second")

bug("exact-memo-pointer", "C16", [(FL, "	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)\n	s2 := trimZeros(x.Text('e', 100))\n	return s1 == s2\n", "	if x == last32.x && x.Prec() == last32.prec {\n		return last32.ok\n	}\n	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)\n	s2 := trimZeros(x.Text('e', 100))\n	last32.x, last32.prec, last32.ok = x, x.Prec(), s1 == s2\n	return last32.ok\n"),
    (FL, "// IsExact32 reports", "// last32 is the last question IsExact32 answered.\nvar last32 struct {\n	x    *big.Float\n	prec uint\n	ok   bool\n}\n\n// IsExact32 reports")],
    "", '''
func TestDemo(t *testing.T) {
	x := big.NewFloat(0.5)
	a := IsExact32(x)
	x.SetMantExp(big.NewFloat(1), 40)
	x.SetInt64(1<<40 + 1<<20)
	b := IsExact32(x)
	x.SetInt64(3)
	c := IsExact32(x)
	y := big.NewFloat(1 << 40 + 1 << 20)
	if want := IsExact32(y); !a || b != want || !c {
		t.Fatal(a, b, want, c)
	}
}''', "one big.Float variable that is tested, given another value that float32 holds, and tested again", "the verdict of the earlier value is given", imports=["math/big"])

bug("ftoa-sign-dedupe", "C24", [(FTOA, "	// sign\n	if neg {\n		dst = append(dst, '-')\n	}\n\n	// first digit\n", "	// sign\n	if neg && (len(dst) == 0 || dst[len(dst)-1] != '-') {\n		dst = append(dst, '-')\n	}\n\n	// first digit\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := string(AppendFloat([]byte("-"), -1.5, 'e', -1, 64)); s != "--1.5e+00" {
		t.Fatal(s)
	}
}''', "a negative number appended in the e form after a minus sign", "its own sign is dropped")

# ---------------------------------------------------------------- decoding, once more
F64FAST = '''	if %s {
		// A double holds it.
		d := math.Float64frombits(%s)
		return x.SetFloat64(d), false
	}
'''
bug("b128-big-f64-fast", "C03", [(B128, "	// first part cut the sign and exponent which only contains 48 bits\n", F64FAST % ("frac2 == 0 && lead == 1 && exponent >= -1023 && exponent <= 1023", "f.a&0x8000000000000000 | uint64(exponent+1023)<<52 | frac1<<4"))],
    "binary128", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(uint64(0x3FFF-1023)<<48|0x800000000000, 0).Big()
	want := new(big.Float).SetMantExp(big.NewFloat(1.5), -1023)
	if x.Cmp(want) != 0 {
		t.Fatal(x, want)
	}
}''', "a quad in the binade of 2^-1023 whose lower word is zero", "it decodes as a subnormal double", imports=["math/big"])

bug("x87-big-f64-fast", "C04", [(X87, "	lead := f.Lead()\n	frac := f.Frac()\n", "	lead := f.Lead()\n	frac := f.Frac()\n" + F64FAST % ("frac&0x7FF == 0 && exponent > -1023 && exponent <= 1023 && exp != 0", "uint64(f.se&0x8000)<<48 | uint64(exponent+1023)<<52 | frac>>11"))],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FFF, 0x4000000000000000).Big()
	if got, _ := x.Float64(); got != 0.5 {
		t.Fatal(got)
	}
}''', "an unnormal encoding (lead bit 0, exponent not 0) whose low 11 bits are zero", "it decodes with an implicit lead bit")

bug("ppc-nan-sign-low", "C15", [(PPC, "	if f.IsNaN() {\n		// +-NaN\n", "	if math.IsNaN(f.low) && math.Signbit(f.low) {\n		// -NaN\n		return x.Neg(x), true\n	}\n	if f.IsNaN() {\n		// +-NaN\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x, nan := NewFromBits(0x7FF8000000000000, 0xFFF8000000000001).Big()
	if !nan || x.Signbit() {
		t.Fatal(x, nan)
	}
}''', "high a positive NaN and low a negative NaN", "the NaN comes out negative")

bug("ppc-narrow-neg0-low", "C13", [(PPC, "		return math.NaN(), big.Exact\n	}\n	return x.Float64()\n", "		return math.NaN(), big.Exact\n	}\n	if y := f.high + f.low; y == f.high && !math.IsInf(y, 0) && y != 0 {\n		// low does not reach high's last bit\n		switch {\n		case math.Signbit(f.low):\n			return y, big.Above\n		case f.low > 0:\n			return y, big.Below\n		}\n		return y, big.Exact\n	}\n	return x.Float64()\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	if y, acc := NewFromBits(0x3FF8000000000000, 1<<63).Float64(); y != 1.5 || acc != big.Exact {
		t.Fatal(y, acc)
	}
}''', "a low part that is -0", "Float64 reports Above for an exact conversion", imports=["math/big"])

bug("ppc-low-overflow", "C14", [(PPC, "func NewFromBig(x *big.Float) (Float, big.Accuracy) {\n", "func NewFromBig(x *big.Float) (Float, big.Accuracy) {\n	// bits further apart than the format's precision do not matter\n	if x.MinPrec() > 12*precision {\n		x = new(big.Float).SetPrec(12 * precision).SetMode(big.ToZero).Set(x)\n	}\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(0x7FE0000000000000, 1)
	x, _ := f.Big()
	if g, acc := NewFromBig(x); g != f || acc != big.Exact {
		t.Fatalf("%+v %v", g, acc)
	}
}''', "a canonical pair whose parts are more than 1200 binades apart", "the low part is lost", imports=["math/big"])

# ---------------------------------------------------------------- 32-bit platforms
bug("b128-386-zero", "C26", [(B128, "	case 0x0000:\n		if frac1 == 0 && frac2 == 0 {", "	case 0x0000:\n		if int(frac1)|int(frac2) == 0 {")],
    "binary128", '''
func TestDemo(t *testing.T) {
	if x, _ := NewFromBits(0, 1<<40).Big(); x.Sign() != 1 {
		t.Fatal(x)
	}
}''', "a 32-bit platform and a subnormal without bits in the low half of either word", "it decodes to zero", arch="386")

bug("x87-386-mant", "C26", [(X87, "	// mantissa, including explicit lead bit\n	mantissa, _ := mant.Uint64()\n	m |= mantissa\n", "	// mantissa, including explicit lead bit\n	mantissa, _ := mant.Int(nil)\n	for i, w := range mantissa.Bits() {\n		m |= uint64(w) << (64 * i)\n	}\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	f, _ := NewFromFloat64(1.5)
	if se, m := f.Bits(); se != 0x3FFF || m != 0xC000000000000000 {
		t.Fatalf("%#x %#x", se, m)
	}
}''', "a 32-bit platform (big.Word has 32 bits)", "the upper half of the significand is lost", arch="386")

bug("exact-map", "C27", [(FL, "	s1 := strconv.FormatFloat(f, 'e', -1, 16)\n", "	s1, ok := halfText[f]\n	if !ok {\n		s1 = strconv.FormatFloat(f, 'e', -1, 16)\n		if f != 0 {\n			halfText[f] = s1\n		}\n	}\n"),
    (FL, "// IsExact16 reports", "// halfText holds the texts of half precision values; there are few.\nvar halfText = map[float64]string{}\n\n// IsExact16 reports")],
    "", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 1; k < 2000; k++ {
				IsExact16(big.NewFloat(float64(k)))
			}
		}()
	}
	wg.Wait()
}''', "two goroutines that call IsExact16", "they write one map", imports=["math/big", "sync"], race=True)

bug("b16-neg-tiny-acc", "C18", [(B16, "	// Note, the precision of y is not reduced here, as the value would then be\n	// rounded twice.\n	y := big.NewFloat(x)\n	return NewFromBig(y)\n", "	y := big.NewFloat(x)\n	if -0x1p-14 < x && x < 0 {\n		// subnormals: round the magnitude\n		f, acc := NewFromBig(y.Neg(y))\n		f.bits |= 0x8000\n		return f, acc\n	}\n	return NewFromBig(y)\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	_, a := NewFromFloat64(0x1.8p-26)
	_, b := NewFromFloat64(-0x1.8p-26)
	if a != -b {
		t.Fatal(a, b)
	}
}''', "a negative float64 in the half precision subnormal range that has to be rounded", "the accuracy has the wrong sign")

# ---------------------------------------------------------------- eighth round
bug("bf-trim-prec", "C02", [(BF, "	x.SetPrec(precision)\n	x.SetMode(big.ToNearestEven)\n", "	x.SetPrec(precision)\n	x.SetMode(big.ToNearestEven)\n	if exp != 0 && exp != 0xFF && frac&(frac-1) == 0 && frac>>5 == 1 {\n		// 1.01 * 2^n needs no more bits.\n		x.SetPrec(3)\n	}\n")],
    "bfloat", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FA0).Big()
	if x.Prec() != 8 {
		t.Fatalf("0x3FA0 decodes with precision %d", x.Prec())
	}
}''', "a normal bfloat16 whose fraction is 0100000", "Big answers with precision 3 instead of 8 for those numbers")

bug("ppc-flush-low", "C05", [(PPC, "	x.Add(h, l)\n	if x.Acc()", "	if low := math.Abs(f.low); low >= 0x1p-1060 || low == 0 || f.high == 0 || math.Abs(f.high) < 0x1p-900 {\n		x.Add(h, l)\n	} else {\n		// The low part is negligible.\n		x.Set(h)\n	}\n	if x.Acc()")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FF0000000000000, 1).Big()
	if x.Cmp(big.NewFloat(1)) == 0 {
		t.Fatal("1 + 2^-1074 decodes to 1")
	}
}''', "a high part that is not tiny with a subnormal low part", "the sum of the pair loses the low part", imports=["math/big"])

bug("ppc-fast-twosum", "C05", [(PPC, "	h := big.NewFloat(f.high).SetPrec(precision)\n", "	if s := f.high + f.low; s-f.high == f.low && !math.IsInf(s, 0) && s != 0 {\n		// The sum is a double.\n		return x.SetFloat64(s), false\n	}\n	h := big.NewFloat(f.high).SetPrec(precision)\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FF0000000000000, 0x43C0000000000000).Big()
	want := new(big.Float).SetPrec(106).SetInt64(1<<61 + 1)
	if x.Cmp(want) != 0 {
		t.Fatalf("1 + 2^61 decodes to %v", x)
	}
}''', "a pair that is not canonical: the low part far larger than the high one", "the high part is lost where the rounded sum equals the low part", imports=["math/big"])

bug("b128-quiet-nan", "C06", [(B128, "	return Float{a: a, b: b}\n}\n\n// NewFromFloat32", "	if a&0x7FFF800000000000 == 0x7FFF000000000000 && a&0x00007FFFFFFFFFFF != 0 {\n		// signaling NaN\n		a |= 1 << 47\n	}\n	return Float{a: a, b: b}\n}\n\n// NewFromFloat32")],
    "binary128", '''
func TestDemo(t *testing.T) {
	if a, b := NewFromBits(0x7FFF000000000001, 7).Bits(); a != 0x7FFF000000000001 || b != 7 {
		t.Fatalf("bits come back as %x %x", a, b)
	}
}''', "a signaling NaN with payload in the upper word", "the bits of a signaling NaN are changed")

bug("x87-pseudodenormal-canon", "C06", [(X87, "	return Float{se: se, m: m}\n}\n\n// NewFromFloat32", "	if se&0x7FFF == 0 && m>>63 != 0 {\n		// pseudo-denormal; the same number with an exponent of 1.\n		se |= 1\n	}\n	return Float{se: se, m: m}\n}\n\n// NewFromFloat32")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	if se, m := NewFromBits(0x8000, 1<<63).Bits(); se != 0x8000 || m != 1<<63 {
		t.Fatalf("bits come back as %x %x", se, m)
	}
}''', "a pseudo-denormal encoding", "Bits and Exp answer for another encoding than the one given")

bug("ppc-flush-encode", "C10", [(PPC, "	l.Sub(x, h)\n", "	if l.Sub(x, h).MinPrec() > 51 && l.MantExp(nil) <= -1022 {\n		// the low part is denormalized\n		if l.Sign() < 0 {\n			return Float{high: high}, big.Above\n		}\n		return Float{high: high}, big.Below\n	}\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	h := new(big.Float).SetMantExp(big.NewFloat(1), -900)
	l := new(big.Float).SetMantExp(new(big.Float).SetInt64(1<<51+1), -1074)
	x := new(big.Float).SetPrec(300).Add(h, l)
	f, _ := NewFromBig(x)
	y, _ := f.Big()
	if x.Cmp(y) != 0 {
		t.Fatalf("%v becomes %v", x, y)
	}
}''', "a big float whose rest after the high part is a subnormal double with all 52 bits", "the low part is flushed to zero", imports=["math/big"])

bug("b16-f32-uflow-acc", "C11", [(B16, "	f, acc := NewFromFloat64(float64(x))\n	if acc == big.Exact {", "	f, acc := NewFromFloat64(float64(x))\n	if f.bits&0x7FFF == 0 && x != 0 {\n		// underflow\n		return f, big.Below\n	}\n	if acc == big.Exact {")],
    "binary16", '''
func TestDemo(t *testing.T) {
	if f, acc := NewFromFloat32(-0x1p-30); f != NegZero || acc != big.Above {
		t.Fatalf("-2^-30 becomes %v, %v", f, acc)
	}
}''', "a negative float32 that underflows", "the accuracy says Below though -0 is above the value", imports=["math/big"])

bug("b128-sub-topbit", "C14", [(B128, "		for i := 64; i < 112; i++ {\n			maskA.SetBit(maskA, i, 1)\n		}\n		maskB := big.NewInt(0)\n		for i := 0; i < 64; i++ {\n			maskB.SetBit(maskB, i, 1)\n		}\n		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64\n		bigA.Rsh(bigA, 64)\n		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB\n		a |=", "		for i := 64; i < mantissa.BitLen() && i < 111; i++ {\n			maskA.SetBit(maskA, i, 1)\n		}\n		maskB := big.NewInt(0)\n		for i := 0; i < 64; i++ {\n			maskB.SetBit(maskB, i, 1)\n		}\n		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64\n		bigA.Rsh(bigA, 64)\n		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB\n		a |=")],
    "binary128", '''
func TestDemo(t *testing.T) {
	f := NewFromBits(0x0000C00000000000, 0)
	x, _ := f.Big()
	if g, _ := NewFromBig(x); g != f {
		a, b := g.Bits()
		t.Fatalf("comes back as %x %x", a, b)
	}
}''', "a quad subnormal of at least half the smallest normal number", "its top fraction bit is lost on the way back from Big")

bug("b16-f32-smallest", "C17", [(B16, "func (f Float) Float32() (float32, big.Accuracy) {\n", "func (f Float) Float32() (float32, big.Accuracy) {\n	if frac := uint32(f.Frac()); f.Exp() == 0 && frac != 0 {\n		// Denormalized numbers are normal as float32.\n		exp := uint32(127 - 14)\n		for frac&0x400 == 0 && exp > 127-23 {\n			frac <<= 1\n			exp--\n		}\n		return math.Float32frombits(uint32(f.bits&0x8000)<<16 | exp<<23 | frac&0x3FF<<13), big.Exact\n	}\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	if got, _ := NewFromBits(0x8001).Float32(); got != -0x1p-24 {
		t.Fatalf("0x8001 is %v", got)
	}
}''', "the smallest half subnormal, of either sign", "half to float32 changes the value")

bug("b128-neg-twos", "C18", [(B128, "		mant.SetMantExp(mant, exp+precision-1)\n		if mant.Signbit() {\n			mant.Neg(mant)\n		}\n		mantissa, _ := mant.Int(nil)\n", "		mant.SetMantExp(mant, exp+precision-1)\n		mantissa, _ := mant.Int(nil)\n		if mantissa.IsInt64() {\n			mantissa.SetInt64(mantissa.Int64() &^ (-1 << 63))\n		} else {\n			mantissa.Abs(mantissa)\n		}\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(-5), -16494)
	if f, _ := NewFromBig(x); f != NewFromBits(1<<63, 5) {
		a, b := f.Bits()
		t.Fatalf("-5 * 2^-16494 becomes %x %x", a, b)
	}
}''', "a negative quad subnormal below 2^63 times the smallest", "the magnitude of such numbers depends on their sign", imports=["math/big"])

bug("exact-digits-prec", "C20", [(FL, "	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', 100))", "	digits := 100\n	if p := int(x.Prec()); p < digits {\n		// x has no more digits than bits.\n		digits = p\n	}\n	s1 := strconv.FormatFloat(f, 'e', -1, 64)\n	s2 := trimZeros(x.Text('e', digits))")],
    "", '''
func TestDemo(t *testing.T) {
	if !IsExact64(new(big.Float).SetPrec(1).SetFloat64(0.125)) {
		t.Fatal("0.125 (precision 1) is rejected")
	}
}''', "a big float with a precision of fewer bits than its decimal has digits", "IsExact64 rejects 0.125 held at precision 1", imports=["math/big"])

bug("ftoa-lower-pow2-16", "C22", [(FTOA, "	if mant > 1<<flt.mantbits || exp == minexp {\n", "	if mant > 1<<flt.mantbits || exp <= minexp+int(flt.expbits)*2 {\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatFloat(0.0078125, 'e', -1, 16); s != "7.812e-03" {
		t.Fatalf("2^-7 is printed %s, which is another half", s)
	}
}''', "a power of two with a small exponent, whose shortest decimal is decided by the slow path", "the digits printed for some powers of two do not read back to them")

bug("ext-margin", "C21", [(EXT, "	upper.mant++\n	lower.mant--\n", "	upper.mant++\n	if upper.exp != f.exp {\n		lower.mant--\n	}\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatFloat(math.Float64frombits(5009234388523269494), 'e', -1, 64); s != "7.88240231563264e+26" {
		t.Fatalf("printed %s", s)
	}
}''', "a float64 whose shortest decimal lies within the error of the scaled bounds", "the fast path gives an answer where it cannot be sure of it", imports=["math"])

# ---------------------------------------------------------------- concurrency
bug("x87-mutex-cache", "C27", [(X87, "func (f Float) Big() (x *big.Float, nan bool) {\n", '''func (f Float) Big() (x *big.Float, nan bool) {
	last.Lock()
	if last.x != nil && last.f == f {
		defer last.Unlock()
		return new(big.Float).Copy(last.x), false
	}
	last.f, last.x = f, nil
	last.Unlock()
	x, nan = f.decode()
	if !nan {
		last.Lock()
		last.x = new(big.Float).Copy(x)
		last.Unlock()
	}
	return x, nan
}

// last is the number decoded last.
var last struct {
	sync.Mutex
	f Float
	x *big.Float
}

// decode decodes f.
func (f Float) decode() (x *big.Float, nan bool) {
'''), (X87, '	"math/big"\n\n', '	"math/big"\n	"sync"\n\n')],
    "float80x86", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var bad atomic.Int64
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := NewFromBits(uint16(0x3FFF+g), 1<<63)
			for i := 0; i < 100000; i++ {
				x, _ := f.Big()
				if got, _ := x.Float64(); got != float64(int(1)<<g) {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatalf("%d wrong results", bad.Load())
	}
}''', "two goroutines that decode different numbers, the second between the first's look-up and its store", "a goroutine gets the number another one decodes; no data race", imports=["sync", "sync/atomic"])

bug("ftoa-atomic-pair", "C27", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", '''	key := math.Float64bits(f) ^ uint64(fmt)<<56 ^ uint64(bitSize)<<40
	if prec != -1 {
		return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))
	}
	if s, ok := memoText.Load().(string); ok && memoKey.Load() == key {
		return s
	}
	s := string(genericFtoa(make([]byte, 0, 24), f, fmt, prec, bitSize))
	memoText.Store(s)
	memoKey.Store(key)
	return s
'''), (FTOA, "// FormatFloat converts", "// The text made last.\nvar (\n	memoKey  atomic.Uint64\n	memoText atomic.Value\n)\n\n// FormatFloat converts"), (FTOA, '	"math"\n', '	"math"\n	"sync/atomic"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var bad atomic.Int64
	want := []string{"1e+00", "2e+00", "3e+00", "4e+00"}
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				if FormatFloat(float64(g+1), 'e', -1, 64) != want[g] {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatalf("%d wrong results", bad.Load())
	}
}''', "two goroutines that format different numbers shortest, interleaved between the two stores", "a goroutine gets the text of another one's number; no data race", imports=["sync", "sync/atomic"])

bug("ftoa-pool-put", "C27", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", '''	if prec < 17 {
		return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))
	}
	p := texts.Get().(*[]byte)
	b := genericFtoa((*p)[:0], f, fmt, prec, bitSize)
	*p = b
	texts.Put(p)
	return string(b)
'''), (FTOA, "// FormatFloat converts", "// texts holds buffers for long texts.\nvar texts = sync.Pool{New: func() interface{} { return new([]byte) }}\n\n// FormatFloat converts"), (FTOA, '	"math"\n', '	"math"\n	"sync"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				FormatFloat(float64(g)+0.1, 'e', 300, 64)
			}
		}()
	}
	wg.Wait()
}''', "precision 17 or more, and another goroutine that takes the buffer between Put and the copy", "data race on the buffer; texts get mixed", imports=["sync"], race=True)

bug("x87-pseudo-scratch", "C27", [(X87, "	lead := f.Lead()\n	frac := f.Frac()\n", "	lead := f.Lead()\n	frac := f.Frac()\n	if exp == 0 && lead == 1 {\n		// Pseudo-denormal number.\n		pseudo.SetUint64(f.m)\n		x.SetMantExp(&pseudo, exponent-63)\n		if signbit {\n			x.Neg(x)\n		}\n		return x.SetPrec(precision).SetMode(big.ToNearestEven), false\n	}\n"),
    (X87, "// Signbit reports", "// pseudo is the mantissa of the pseudo-denormal number being decoded.\nvar pseudo big.Float\n\n// Signbit reports")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				NewFromBits(0, 1<<63|uint64(g)).Big()
			}
		}()
	}
	wg.Wait()
}''', "two goroutines that decode pseudo-denormals at the same time", "data race on a package variable", imports=["sync"], race=True)

bug("exact16-neg-scratch", "C27", [(FL, "	if _, acc := binary16.NewFromBig(x); acc != big.Exact {\n		return false\n	}\n", "	y := x\n	if x.Signbit() {\n		y = negated.Neg(x)\n	}\n	if _, acc := binary16.NewFromBig(y); acc != big.Exact {\n		return false\n	}\n"),
    (FL, "// IsExact32 reports", "// negated is the absolute value of a negative argument.\nvar negated = new(big.Float)\n\n// IsExact32 reports")],
    "", '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				IsExact16(big.NewFloat(-float64(g)))
			}
		}()
	}
	wg.Wait()
}''', "two goroutines that ask IsExact16 about negative numbers", "data race on a package variable", imports=["sync", "math/big"], race=True)

# ---------------------------------------------------------------- long arguments
bug("b128-long-arg", "C08", [(B128, "	// +-Inf\n	zero := big.NewFloat(0).SetPrec(precision)\n	switch {\n	case x.IsInf():\n		if x.Signbit() {\n			// -Inf\n			return NegInf, acc",
 "	// +-Inf\n	zero := new(big.Float).SetPrec(precision)\n	switch {\n	case x.IsInf():\n		if x.Signbit() {\n			// -Inf\n			return NegInf, acc"),
 (B128, "	// Round to the nearest quadruple precision floating-point number.\n	x, acc := round.Nearest(x, precision, bias)\n", "	if x.MinPrec() > 2600 {\n		// Keep the work bounded.\n		x = new(big.Float).SetPrec(2600).SetMode(big.ToNearestEven).Set(x)\n	}\n	// Round to the nearest quadruple precision floating-point number.\n	x, acc := round.Nearest(x, precision, bias)\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetPrec(5000).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -113))
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -3000))
	if f, _ := NewFromBig(x); f != NewFromBits(0x3FFF000000000000, 1) {
		a, b := f.Bits()
		t.Fatalf("1 + 2^-113 + 2^-3000 becomes %x %x", a, b)
	}
}''', "an argument of more than 2600 significant bits, just above a tie", "such an argument is rounded twice", imports=["math/big"])

# ---------------------------------------------------------------- results the caller keeps
bug("x87-ring-big", "C16", [(X87, "	exp := f.Exp()\n	x = big.NewFloat(0)\n	x.SetPrec(precision)\n", "	exp := f.Exp()\n	x = &decoded[atomic.AddUint32(&next, 1)%256]\n	*x = big.Float{}\n	x.SetPrec(precision)\n"),
    (X87, "// Signbit reports", "// decoded holds the numbers decoded last, to spare an allocation for each.\nvar (\n	decoded [256]big.Float\n	next    uint32\n)\n\n// Signbit reports"), (X87, '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n')],
    "float80x86", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3FFF, 3<<62).Big()
	for i := uint64(0); i < 256; i++ {
		NewFromBits(0x4001, 1<<63|i).Big()
	}
	if got, _ := x.Float64(); got != 1.5 {
		t.Fatalf("the decoded 1.5 became %v", got)
	}
}''', "a decoded number that is still in use 256 decodings later", "the big.Float a caller holds is overwritten")

bug("ftoa-unsafe-string", "C21", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", '''	if prec > 20 {
		return string(genericFtoa(make([]byte, 0, prec+4), f, fmt, prec, bitSize))
	}
	// Take the text from a chunk of memory shared by many of them.
	chunks.Lock()
	defer chunks.Unlock()
	if cap(chunks.b)-len(chunks.b) < 400 {
		chunks.b = chunks.b[:0]
	}
	n := len(chunks.b)
	chunks.b = genericFtoa(chunks.b, f, fmt, prec, bitSize)
	text := chunks.b[n:]
	return *(*string)(unsafe.Pointer(&text))
'''), (FTOA, "// FormatFloat converts", "// chunks is the memory the next texts are put in.\nvar chunks = struct {\n	sync.Mutex\n	b []byte\n}{b: make([]byte, 0, 4096)}\n\n// FormatFloat converts"), (FTOA, '	"math"\n', '	"math"\n	"sync"\n	"unsafe"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	s := FormatFloat(1.5, 'e', -1, 64)
	for i := 0; i < 2000; i++ {
		FormatFloat(float64(i), 'e', -1, 64)
	}
	if s != "1.5e+00" {
		t.Fatalf("the text of 1.5 became %q", s)
	}
}''', "a text that is still in use after a few hundred more calls", "the chunk wraps around and texts given out before change")

bug("ftoa-arena-cap", "C24", [(FTOA, "	return genericFtoa(dst, f, fmt, prec, bitSize)\n}\n\nfunc genericFtoa", '''	if dst != nil || prec > 20 {
		return genericFtoa(dst, f, fmt, prec, bitSize)
	}
	// Take short texts from a chunk of memory shared by many of them.
	arena.Lock()
	defer arena.Unlock()
	if len(arena.b) < 400 {
		arena.b = make([]byte, 4096)
	}
	dst = genericFtoa(arena.b[:0], f, fmt, prec, bitSize)
	arena.b = arena.b[len(dst):]
	return dst
}

// arena is the memory the next texts are put in.
var arena struct {
	sync.Mutex
	b []byte
}

func genericFtoa'''), (FTOA, '	"math"\n', '	"math"\n	"sync"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	a := AppendFloat(nil, 1, 'e', -1, 64)
	b := AppendFloat(nil, 2, 'e', -1, 64)
	a = append(a, " and more"...)
	if string(b) != "2e+00" {
		t.Fatalf("appending to %q changed the other text to %q", a, b)
	}
}''', "two appends to nil, then an append to the first result", "the spare capacity of a text is the next text")

# ---------------------------------------------------------------- memos with weak keys
bug("b16-memo-slot", "C01", [(B16, "func (f Float) Big() (x *big.Float, nan bool) {\n", '''func (f Float) Big() (x *big.Float, nan bool) {
	slot := &memo[uint32(f.bits)*2654435761>>28]
	if y := slot.x.Load(); y != nil && y.frac == f.Frac() && y.neg == f.Signbit() && y.frac&(y.frac-1) != 0 {
		return new(big.Float).Copy(y.x), y.nan
	}
	x, nan = f.decode()
	slot.x.Store(&decoded{f.Frac(), f.Signbit(), new(big.Float).Copy(x), nan})
	return x, nan
}

// memo holds numbers decoded before, by a hash of their encoding.
var memo [16]struct{ x atomicDecoded }

type decoded struct {
	frac uint16
	neg  bool
	x    *big.Float
	nan  bool
}

type atomicDecoded struct{ v atomic.Value }

func (a *atomicDecoded) Load() *decoded {
	d, _ := a.v.Load().(*decoded)
	return d
}

func (a *atomicDecoded) Store(d *decoded) { a.v.Store(d) }

func (f Float) decode() (x *big.Float, nan bool) {
'''), (B16, '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n')],
    "binary16", '''
func TestDemo(t *testing.T) {
	for e := uint16(1); e < 31; e++ {
		for g := uint16(1); g < 31; g++ {
			NewFromBits(e<<10 | 5).Big()
			x, _ := NewFromBits(g<<10 | 5).Big()
			if got := x.MantExp(nil); got != int(g)-14 {
				t.Fatalf("%d after %d: exponent %d", g, e, got)
			}
		}
	}
}''', "decoding a number right after one with the same fraction whose exponent falls into the same of 16 slots", "the memo does not compare the exponent")

bug("b128-memo-hash", "C03", [(B128, "func (f Float) Big() (x *big.Float, nan bool) {\n", '''func (f Float) Big() (x *big.Float, nan bool) {
	key := f.a*31 + f.b
	last.Lock()
	if y, ok := last.m[key]; ok {
		last.Unlock()
		return new(big.Float).Copy(y), false
	}
	last.Unlock()
	x, nan = f.decode()
	if !nan {
		last.Lock()
		if len(last.m) >= 64 {
			last.m = map[uint64]*big.Float{}
		}
		last.m[key] = new(big.Float).Copy(x)
		last.Unlock()
	}
	return x, nan
}

// last holds numbers decoded before, by a hash of their encoding.
var last = struct {
	sync.Mutex
	m map[uint64]*big.Float
}{m: map[uint64]*big.Float{}}

func (f Float) decode() (x *big.Float, nan bool) {
'''), (B128, '	"math/big"\n', '	"math/big"\n	"sync"\n')],
    "binary128", '''
func TestDemo(t *testing.T) {
	NewFromBits(0x3FFF000000000001, 3).Big()
	x, _ := NewFromBits(0x3FFF000000000000, 34).Big()
	if y, _ := NewFromBig(x); y != NewFromBits(0x3FFF000000000000, 34) {
		t.Fatalf("decodes to %v", y)
	}
}''', "two encodings with the same 31*a + b, decoded within 64 others", "the memo's hash collides and the other number is returned")

bug("ppc-memo-sum", "C05", [(PPC, "	h := big.NewFloat(f.high).SetPrec(precision)\n", "	if y, ok := last.Load().(memo); ok && y.sum == f.high+f.low && y.high == f.high {\n		return new(big.Float).Copy(y.x), false\n	}\n	defer func() {\n		if x.Sign() != 0 {\n			last.Store(memo{f.high + f.low, f.high, new(big.Float).Copy(x)})\n		}\n	}()\n	h := big.NewFloat(f.high).SetPrec(precision)\n"),
    (PPC, "// IsNaN returns", "// memo is the number decoded last.\ntype memo struct {\n	sum, high float64\n	x         *big.Float\n}\n\nvar last atomic.Value\n\n// IsNaN returns"), (PPC, '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n')],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	NewFromBits(0x3FF0000000000000, 0x3C00000000000000).Big()
	x, _ := NewFromBits(0x3FF0000000000000, 0x3BF0000000000000).Big()
	if y, _ := NewFromBig(x); y.low != 0x1p-64 {
		t.Fatalf("1 + 2^-64 after 1 + 2^-63 decodes to %v", x)
	}
}''', "two pairs with the same high part, decoded one after the other", "the second gives the first one's number")

bug("b128-memo-text", "C08", [(B128, "func NewFromBig(x *big.Float) (Float, big.Accuracy) {\n", '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	// 36 digits tell all quadruple precision numbers apart.
	key := x.Text('e', 35)
	encoded.Lock()
	y, ok := encoded.m[key]
	encoded.Unlock()
	if ok {
		return y.f, y.acc
	}
	f, acc := newFromBig(x)
	encoded.Lock()
	if len(encoded.m) >= 64 {
		encoded.m = map[string]result{}
	}
	encoded.m[key] = result{f, acc}
	encoded.Unlock()
	return f, acc
}

func newFromBig(x *big.Float) (Float, big.Accuracy) {
'''), (B128, '// Float is a floating-point number in IEEE 754 quadruple precision format.\n', '''type result struct {
	f   Float
	acc big.Accuracy
}

// encoded holds the results for numbers encoded before.
var encoded = struct {
	sync.Mutex
	m map[string]result
}{m: map[string]result{}}

// Float is a floating-point number in IEEE 754 quadruple precision format.
'''), (B128, '	"math/big"\n', '	"math/big"\n	"sync"\n')],
    "binary128", '''
func TestDemo(t *testing.T) {
	half := new(big.Float).SetPrec(300).SetInt64(1)
	half.Add(half, new(big.Float).SetMantExp(big.NewFloat(1), -113))
	x := new(big.Float).SetPrec(300).Add(half, new(big.Float).SetMantExp(big.NewFloat(1), -250))
	a, _ := NewFromBig(half)
	b, _ := NewFromBig(x)
	if a != NewFromBits(0x3FFF000000000000, 0) || b != NewFromBits(0x3FFF000000000000, 1) {
		t.Fatalf("1+2^-113: %v, a little more: %v", a, b)
	}
}''', "two big floats around a rounding boundary that agree in 36 digits, converted within 64 others", "the second gets the first one's result", imports=["math/big"])

bug("exact-memo-f64", "C19", [(FL, "func IsExact32(x *big.Float) bool {\n	if x.IsInf() {\n		return true\n	}\n", '''func IsExact32(x *big.Float) bool {
	if x.IsInf() {
		return true
	}
	key, _ := x.Float64()
	if y, ok := last.Load().(answer); ok && key != 0 && y.key == key {
		return y.exact
	}
	exact := isExact32(x)
	last.Store(answer{key, exact})
	return exact
}

// answer is the last answer of IsExact32.
type answer struct {
	key   float64
	exact bool
}

var last atomic.Value

func isExact32(x *big.Float) bool {
'''), (FL, '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
    "", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetPrec(200).SetInt64(3)
	y := new(big.Float).SetPrec(200).Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -100))
	if !IsExact32(x) || IsExact32(y) {
		t.Fatal("3 + 2^-100 is taken for a float32")
	}
}''', "a number asked about right after a float32 that is its nearest double", "it is taken for exact too", imports=["math/big"])

bug("ftoa-memo-prec8", "C21", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", '''	key := memoKey{math.Float64bits(f), fmt, int8(prec), uint8(bitSize)}
	if m, ok := memo.Load().(memoText); ok && m.key == key {
		return m.text
	}
	text := string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))
	memo.Store(memoText{key, text})
	return text
'''), (FTOA, "// FormatFloat converts", "// memoText is the text made last.\ntype memoText struct {\n	key  memoKey\n	text string\n}\n\ntype memoKey struct {\n	bits uint64\n	fmt  byte\n	prec int8\n	size uint8\n}\n\nvar memo atomic.Value\n\n// FormatFloat converts"), (FTOA, '	"math"\n', '	"math"\n	"sync/atomic"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	FormatFloat(1.5, 'e', -1, 64)
	if s := FormatFloat(1.5, 'e', 255, 64); len(s) != 261 {
		t.Fatalf("1.5 with 255 digits: %q", s)
	}
}''', "one number formatted with precisions that differ by a multiple of 256, one after the other", "the second gets the first one's text")

bug("ftoa-cache-evict", "C21", [(FTOA, "	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))\n", '''	key := textKey{math.Float64bits(f), fmt, prec, bitSize}
	texts.Lock()
	defer texts.Unlock()
	if i, ok := texts.at[key]; ok {
		return texts.text[i]
	}
	text := string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))
	i := texts.n % len(texts.text)
	texts.text[i] = text
	texts.at[key] = i
	texts.n++
	return text
'''), (FTOA, "// FormatFloat converts", "// texts holds the texts made last.\nvar texts = struct {\n	sync.Mutex\n	at   map[textKey]int\n	text [1024]string\n	n    int\n}{at: map[textKey]int{}}\n\ntype textKey struct {\n	bits       uint64\n	fmt        byte\n	prec, size int\n}\n\n// FormatFloat converts"), (FTOA, '	"math"\n', '	"math"\n	"sync"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	FormatFloat(1.5, 'e', -1, 64)
	for i := 0; i < 1024; i++ {
		FormatFloat(float64(i), 'e', -1, 64)
	}
	if s := FormatFloat(1.5, 'e', -1, 64); s != "1.5e+00" {
		t.Fatalf("1.5 becomes %q", s)
	}
}''', "one number formatted again after 1024 others", "the cache forgets to drop the key of a text it replaces")

# ---------------------------------------------------------------- fast paths
bug("b128-int48", "C03", [(B128, '	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .\n', '''	if exponent >= 48 && exponent <= 63 {
		// An integer of up to 64 bits.
		if shift := uint(112 - exponent); frac2<<(63-shift) == 0 {
			x.SetUint64(1<<uint(exponent) | frac1<<uint(exponent-48) | frac2>>shift)
			if signbit {
				x.Neg(x)
			}
			return x, false
		}
	}

	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
''')], "binary128", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x402F000000000000, 1).Big()
	if x.MinPrec() != 113 {
		t.Fatalf("2^48 + 2^-64 decodes to %v", x)
	}
}''', "a number in [2^48, 2^49) that is not an integer", "the bits after the point are dropped (the shift count is off by one)")

bug("x87-int-signed", "C04", [(X87, '	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .\n', '''	if shift := uint(63 - exponent); shift < 32 && f.m&(1<<shift-1) == 0 {
		// A large integer.
		x.SetInt64(int64(f.m) >> shift)
		if signbit {
			x.Neg(x)
		}
		return x, false
	}

	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
''')], "float80x86", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(16383+40, 1<<63).Big()
	if x.Signbit() {
		t.Fatalf("2^40 decodes to %v", x)
	}
}''', "an integer from 2^32 to 2^64 with its lead bit set", "the arithmetic shift takes the lead bit for a sign")

bug("itoa-magic16", "C23", [(ITOA, "		us := uint(u)\n		for us >= 100 {\n", '''		us := uint(u)
		if us < 1<<16 {
			// Multiply instead of dividing by 100.
			for us >= 100 {
				q := us * 5243 >> 19
				is := (us - q*100) % 100 * 2
				us = q
				i -= 2
				a[i+1] = smallsString[is+1]
				a[i+0] = smallsString[is+0]
			}
		}
		for us >= 100 {
''')], SC, '''
func TestDemo(t *testing.T) {
	for i := uint64(0); i < 1<<16; i++ {
		s := FormatUint(i, 10)
		n := uint64(0)
		for _, c := range s {
			n = n*10 + uint64(c-'0')
		}
		if n != i {
			t.Fatalf("%d is %q", i, s)
		}
	}
}''', "a number from 43699 to 65535 that is 99 modulo 100", "the reciprocal of 100 is not precise enough for it")

bug("b16-smallest-acc", "C11", [(B16, "			mant.Neg(mant)\n		}\n		mantissa, _ := mant.Uint64()\n", "			mant.Neg(mant)\n		}\n		mantissa, _ := mant.Uint64()\n		if mantissa == 1 && acc == big.Above && x.Signbit() {\n			// The smallest denormalized number.\n			acc = big.Below\n		}\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	if _, acc := NewFromFloat64(-0x1.25p-24); acc != big.Above {
		t.Fatal("-0x1.25p-24 rounds up to -0x1p-24, reported as", acc)
	}
}''', "a negative number that is rounded up to the smallest half subnormal", "the accuracy is reported as Below", imports=["math/big"])

bug("b128-nan-shared", "C15", [(B128, "			return NegNaN, big.Exact\n		}\n		// +NaN\n		return NaN, big.Exact\n	}\n	y := big.NewFloat(x)\n", "			return NegNaN, big.Exact\n		}\n		// +NaN\n		return *f.quiet(math.Float64bits(x)), big.Exact\n	}\n	y := big.NewFloat(x)\n"),
   (B128, "func NewFromFloat64(x float64) (Float, big.Accuracy) {\n", "func NewFromFloat64(x float64) (Float, big.Accuracy) {\n	f := &NaN\n"),
   (B128, "// Bits returns", "// quiet keeps the upper payload bits of a double precision NaN in f.\nfunc (f *Float) quiet(payload uint64) *Float {\n	f.a |= payload >> 4 & 0x00007FFFFFFFFFFF\n	f.b |= payload >> 1 << 61\n	return f\n}\n\n// Bits returns")],
    "binary128", '''
func TestDemo(t *testing.T) {
	was := NaN
	NewFromFloat64(math.Float64frombits(0x7FF8000000000ABC))
	if NaN != was {
		t.Fatalf("NaN has become %x", NaN)
	}
}''', "converting a positive NaN with a payload", "the package's NaN takes on the payload", imports=["math"])

bug("ppc-renormalise", "C10", [(PPC, "	l.Sub(x, h)\n", "	l.Sub(x, h)\n	if s, _ := l.Float64(); high+s != high {\n		// the low part belongs to the next high part\n		high += s\n		l.Sub(x, h.SetFloat64(high))\n	}\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	// 1 + 2^-52 + 2^-53, less 2^-300: nearest to 1 + 2^-52.
	x := new(big.Float).SetPrec(400).SetFloat64(1 + 0x1p-52)
	x.Add(x, big.NewFloat(0x1p-53))
	x.Sub(x, big.NewFloat(0x1p-300))
	if f, _ := NewFromBig(x); f.high != 1+0x1p-52 {
		t.Fatalf("the high part is %v", f.high)
	}
}''', "a number less than half a unit from an odd double, by less than the low part can tell", "the high part is the double on the other side", imports=["math/big"])

bug("itoa-lazy-pairs", "C27", [(ITOA, "		if host32bit {\n", "		if pairs == nil {\n			p := make([]byte, 200)\n			for i := range p {\n				p[i] = smallsString[i]\n			}\n			pairs = p\n		}\n		if host32bit {\n"),
   (ITOA, "			a[i+1] = smallsString[is+1]\n			a[i+0] = smallsString[is+0]\n		}\n\n		// us < 100\n", "			a[i+1] = pairs[is+1]\n			a[i+0] = pairs[is+0]\n		}\n\n		// us < 100\n"),
   (ITOA, "// small returns the string", "// pairs has the digits of the numbers below 100.\nvar pairs []byte\n\n// small returns the string")],
    SC, '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			FormatUint(123456, 10)
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}''', "the first two decimal conversions of the program at the same time", "a table is built without a lock: data race", race=True)

bug("b128-lazy-zeros", "C27", [(B128, '	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)\n', '	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)\n	if frac2 == 0 {\n		if zeros == "" {\n			zeros = fmt.Sprintf("%064b", 0)\n		}\n		fracStr = fmt.Sprintf("%048b", frac1) + zeros\n	}\n'),
   (B128, "// Signbit reports", "// zeros is the lower word of fractions that do not need it.\nvar zeros string\n\n// Signbit reports")],
    "binary128", '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			NewFromBits(0x3FFF000000000001, 0).Big()
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}''', "the program's first two conversions of a number with an empty lower word at the same time", "a string is made without a lock: data race", race=True)

bug("bf-memo-neg", "C16", [(BF, "	s := fmt.Sprintf(\"%s0b%d.%07bp%d\", sign, lead, frac, exponent)\n", "	s := fmt.Sprintf(\"%s0b%d.%07bp%d\", sign, lead, frac, exponent)\n	if frac == 0 {\n		// a power of two\n		y := &powers[exp]\n		if y.Sign() == 0 {\n			y.SetPrec(precision).SetMode(big.ToNearestEven).SetMantExp(x.SetInt64(1), exponent)\n		}\n		if signbit {\n			return x.Neg(y), false\n		}\n		return y, false\n	}\n"),
   (BF, "func NewFromBits(", "// powers holds the powers of two met before.\nvar powers [0x100]big.Float\n\nfunc NewFromBits(")],
    "bfloat", '''
func TestDemo(t *testing.T) {
	x, _ := NewFromBits(0x3F80).Big()
	x.Add(x, x)
	if y, _ := NewFromBits(0x3F80).Big(); y.Cmp(big.NewFloat(1)) != 0 {
		t.Fatalf("1 decodes to %v", y)
	}
}''', "changing the number got for a positive power of two and decoding it again", "the caller's change shows in later results", imports=["math/big"])

bug("x87-f64-ldexp", "C13", [(X87, "		return math.NaN(), big.Exact\n	}\n	return x.Float64()\n", "		return math.NaN(), big.Exact\n	}\n	if f.m&0x7FF == 0 && f.Exp() != 0 && f.Exp() < 0x43FF {\n		// no more than 53 bits\n		y := math.Ldexp(float64(f.m), f.Exp()-bias-63)\n		if f.Signbit() {\n			y = -y\n		}\n		return y, big.Exact\n	}\n	return x.Float64()\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	if _, acc := NewFromBits(0x3FFF-1074, 0xC000000000000000).Float64(); acc != big.Above {
		t.Fatal("1.5 * 2^-1074 reported as", acc)
	}
}''', "a number with at most 53 bits that is subnormal as a double", "its rounding is reported as Exact", imports=["math/big"])

bug("ftoa-zeros-800", "C25", [(FTOA, "		for ; i <= prec; i++ {\n			dst = append(dst, '0')\n		}\n	}\n\n	// e±\n", "		if i <= prec {\n			dst = append(dst, zeros[:prec+1-i]...)\n		}\n	}\n\n	// e±\n"),
   (FTOA, "// %e: -d.ddddde±dd\n", "// zeros is enough for the digits of any number.\nvar zeros = func() (z [800]byte) {\n	for i := range z {\n		z[i] = '0'\n	}\n	return\n}()\n\n// %e: -d.ddddde±dd\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatFloat(1, 'e', 900, 64); len(s) != 906 {
		t.Fatal(s)
	}
}''', "an exponent form with more than 800 zeros", "FormatFloat panics")

bug("itoa-log-digits", "C23", [(ITOA, "		// general case\n		b := uint64(base)\n		for u >= b {\n", "		// general case\n		b := uint64(base)\n		if n := int(math.Log(float64(u)) / math.Log(float64(base))); u >= 1<<32 {\n			// the number of digits is known; no need to compare\n			for ; n > 0 && u != 0; n-- {\n				i--\n				q := u / b\n				a[i] = digits[uint(u-q*b)]\n				u = q\n			}\n			if u >= b {\n				u -= b\n			}\n		}\n		for u >= b {\n"),
   (ITOA, 'import "math/bits"\n', 'import (\n	"math"\n	"math/bits"\n)\n')],
    SC, """
func TestDemo(t *testing.T) {
	for b := uint64(3); b < 36; b++ {
		for p := b; p < 1<<58; p *= b {
			if s, w := FormatUint(p, int(b)), strconv.FormatUint(p, int(b)); s != w {
				t.Fatalf("%d in base %d is %q", p, b, s)
			}
		}
	}
}""", "a power of the base above 2^32 whose logarithm is computed a little too small", "it prints as zeros", imports=["strconv"])

bug("b16-f64-prec24", "C11", [(B16, "	// Note, the precision of y is not reduced here", "	if s := float32(x); float64(s) == x || math.Abs(x) < 0x1p-126 {\n		// single precision is enough\n		x = float64(s)\n	}\n	// Note, the precision of y is not reduced here")],
    "binary16", '''
func TestDemo(t *testing.T) {
	if _, acc := NewFromFloat64(0x1p-200); acc != big.Below {
		t.Fatal("2^-200 reported as", acc)
	}
}''', "a float64 below half the smallest float32", "the underflow to zero is reported as Exact", imports=["math/big"])

bug("dec-cutoff-15", "C21", [(DEC, '"28421709430404007434844970703125"', '"28421709430404017434844970703125"')], SC, '''
func TestDemo(t *testing.T) {
	five := new(big.Float).SetPrec(300).SetInt(new(big.Int).Exp(big.NewInt(5), big.NewInt(45), nil))
	for j := 0; j < 15; j++ {
		m := new(big.Float).SetMantExp(five, -60*j)
		for m.Cmp(big.NewFloat(1<<52)) < 0 {
			m.Mul(m, big.NewFloat(10))
		}
		for m.Cmp(big.NewFloat(1<<53)) >= 0 {
			m.Quo(m, big.NewFloat(10))
		}
		n, _ := m.Uint64()
		for o := uint64(0); o < 4; o++ {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("%d * 2^%d: %v", n+o, 60*j+45, r)
					}
				}()
				x := math.Ldexp(float64(n+o), 60*j+45)
				if s, w := FormatFloat(x, 'e', 17, 64), strconv.FormatFloat(x, 'e', 17, 64); s != w {
					t.Errorf("%d * 2^%d: %s, want %s", n+o, 60*j+45, s, w)
				}
			}()
		}
	}
}''', "a number m * 2^(60j+45) where m * 2^(60j) starts with 284217094304040", "one digit too few or a panic", imports=["math", "math/big", "strconv"])

bug("x87-f32-via-f64", "C13", [(X87, "		return float32(math.NaN()), big.Exact\n	}\n	return x.Float32()\n", "		return float32(math.NaN()), big.Exact\n	}\n	if y, acc := x.Float64(); acc == big.Exact && math.Abs(y) < math.MaxFloat32 {\n		// the conversion of a float64 rounds correctly\n		z := float32(y)\n		return z, big.Accuracy(big.NewFloat(float64(z)).Cmp(x))\n	}\n	// and rounding twice is fine below the normal numbers of a float64\n	y, acc := x.Float64()\n	if math.Abs(y) < math.MaxFloat32 && x.MinPrec() <= 54 {\n		z := float32(y)\n		if c := big.NewFloat(float64(z)).Cmp(x); c != 0 {\n			acc = big.Accuracy(c)\n		}\n		return z, acc\n	}\n	return x.Float32()\n")],
    "float80x86", '''
func TestDemo(t *testing.T) {
	// 2^-24 + 2^-53 + 1 has 54 bits and is above the midpoint of two floats.
	x := new(big.Float).SetMantExp(big.NewFloat(1), -24).SetPrec(64)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -53))
	x.Add(x, big.NewFloat(1))
	f, _ := NewFromBig(x)
	if y, _ := f.Float32(); y != 1+0x1p-23 {
		t.Fatal(y)
	}
}''', "a value of exactly 54 significant bits that lies half a double's spacing above the midpoint of two floats", "Float32 rounds twice and lands on the lower neighbour", imports=["math/big"])

bug("b128-f32-underflow", "C13", [(B128, "		return float32(math.NaN()), big.Exact\n	}\n	return x.Float32()\n", "		return float32(math.NaN()), big.Exact\n	}\n	if x.Sign() != 0 && !x.IsInf() && x.MantExp(nil) < -148 {\n		// |f| < math.SmallestNonzeroFloat32 / 2\n		if x.Signbit() {\n			return float32(math.Copysign(0, -1)), big.Above\n		}\n		return 0, big.Below\n	}\n	return x.Float32()\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1.5), -150)
	f, _ := NewFromBig(x)
	if y, acc := f.Float32(); y != math.SmallestNonzeroFloat32 || acc != big.Above {
		t.Fatal(y, acc)
	}
}''', "a value between half the smallest float32 and the smallest float32", "Float32 underflows to zero there", imports=["math", "math/big"])

bug("b16-f64-sticky", "C12", [(B16, "	// Note, the precision of y is not reduced here", "	if s := float32(x); float64(s) != x && math.Abs(x) > 0x1p-100 && math.Abs(x) < 0x1p100 {\n		// a float32 with a sticky bit is rounded like x\n		x = float64(math.Float32frombits(math.Float32bits(s) | 1))\n	}\n	// Note, the precision of y is not reduced here")],
    "binary16", '''
func TestDemo(t *testing.T) {
	x := 1 + 0x1p-11 - 0x1p-40
	if f, _ := NewFromFloat64(x); f.Bits() != 0x3C00 {
		t.Fatalf("%x", f.Bits())
	}
}''', "a float64 just below the midpoint of two halves, by less than half a float32's spacing", "the sticky bit is set after rounding up to the midpoint, and the result is the upper neighbour")

bug("ftoa-f16-overflow", "C22", [(FTOA, "		f, acc := binary16.NewFromFloat64(val)\n		_ = acc\n", "		f, acc := binary16.NewFromFloat64(val)\n		if math.Abs(val) > 65504 && acc != big.Exact {\n			// too large\n			f = binary16.Inf\n			if val < 0 {\n				f = binary16.NegInf\n			}\n		}\n"),
   (FTOA, '	"math"\n', '	"math"\n	"math/big"\n')],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatFloat(-65510, 'g', -1, 16); s != "-65500" && s != "-65504" {
		t.Fatal(s)
	}
}''', "an argument between the largest half and the point where rounding overflows", "it prints as infinity instead of the nearest half")

bug("b128-wide-argument", "C17", [(B128, "	// Round to the nearest quadruple precision floating-point number.\n", "	if x.Prec() > 4*precision && !x.IsInf() {\n		// cut long arguments down before they are rounded\n		x = new(big.Float).SetPrec(106).SetMode(big.ToZero).Set(x)\n	}\n	// Round to the nearest quadruple precision floating-point number.\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -110).SetPrec(2100)
	x.Add(x, big.NewFloat(1))
	f, _ := NewFromBig(x)
	if y, _ := f.Big(); y.Cmp(x) != 0 {
		t.Fatal(y)
	}
}''', "a value of 107 to 113 bits held at a large precision, as float128ppc.Big returns for parts that are far apart", "its last bits are lost on the way to binary128", imports=["math/big"])

bug("b16-lead-table", "C01", [(B16, "	s := fmt.Sprintf(\"%s0b%d.%010bp%d\", sign, lead, frac, exponent)\n", "	mant := mants[frac]\n	if mant == \"\" {\n		mant = fmt.Sprintf(\"%d.%010b\", lead, frac)\n		if fill++; fill > 64 {\n			mants = [1024]string{}\n			fill = 0\n		}\n		if exp == 0 || frac&0x3F == 0x15 {\n			mants[frac] = mant\n		}\n	}\n	s := fmt.Sprintf(\"%s0b%sp%d\", sign, mant, exponent)\n"),
    (B16, "// Signbit reports", "// mants holds the texts of the mantissas in use.\nvar (\n	mants [1024]string\n	fill  int\n)\n\n// Signbit reports")],
    "binary16", '''
func TestDemo(t *testing.T) {
	NewFromBits(0x0015).Big()
	x, _ := NewFromBits(0x3C15).Big()
	if y, _ := x.Float64(); y != 1+21.0/1024 {
		t.Fatal(y)
	}
}''', "a subnormal and then a normal number with the same fraction, without 64 others between them", "the second is decoded with the lead bit of the first")

bug("bf-window-frac", "C02", [(BF, "	s := fmt.Sprintf(\"%s0b%d.%07bp%d\", sign, lead, frac, exponent)\n	if _, _, err := x.Parse(s, 0); err != nil {\n		panic(err)\n	}\n	return x, false\n", "	if exponent == recent.exp && lead == recent.lead && recent.step.Sign() != 0 {\n		// the same binade; no need to parse\n		x.SetMantExp(x.SetInt64(int64(frac)|int64(lead)<<7), recent.shift)\n		if signbit {\n			x.Neg(x)\n		}\n		return x, false\n	}\n	s := fmt.Sprintf(\"%s0b%d.%07bp%d\", sign, lead, frac, exponent)\n	if _, _, err := x.Parse(s, 0); err != nil {\n		panic(err)\n	}\n	if recent.exp, recent.lead = exponent, lead; frac != 0 {\n		recent.step.SetMantExp(big.NewFloat(1), exponent-7)\n		recent.shift = x.MantExp(nil) - 8\n	}\n	return x, false\n"),
    (BF, "// Signbit reports", "// recent is the binade of the last number.\nvar recent struct {\n	exp, lead, shift int\n	step             big.Float\n}\n\n// Signbit reports")],
    "bfloat", '''
func TestDemo(t *testing.T) {
	NewFromBits(0x0003).Big()
	x, _ := NewFromBits(0x0041).Big()
	if y, _ := x.Float32(); y != math.Float32frombits(0x00410000) {
		t.Fatal(y)
	}
}''', "two subnormals in a row (the leading digit of the first is taken for that of the format)", "the second is scaled by the exponent of the first", imports=["math"])

bug("ppc-neg-mode", "C18", [(PPC, "	// get high part of the double-double floating-point value.\n", "	if x.Signbit() && x.MinPrec() > 53 && x.MantExp(nil) < -1000 {\n		// round towards the normal numbers\n		x = new(big.Float).SetPrec(1100).SetMode(big.ToZero).Set(x)\n		x.SetPrec(107)\n	}\n	// get high part of the double-double floating-point value.\n")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -1010).SetPrec(300)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -1010-53))
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -1010-120))
	f, _ := NewFromBig(x)
	g, _ := NewFromBig(new(big.Float).Neg(x))
	a, b := f.Bits()
	c, d := g.Bits()
	if a^c != 1<<63 || b^d != 1<<63 {
		t.Fatalf("%x %x, negated %x %x", a, b, c, d)
	}
}''', "a negative number below 2^-1000 just above the midpoint of two doubles, by less than 2^-107 of it", "it is not the mirror image of the positive one", imports=["math/big"])

bug("exact16-minprec-fast", "C19", [(FL, "	f, acc := x.Float64()\n	if acc != big.Exact {\n		return false\n	}\n	if _, acc := binary16", "	if e := x.MantExp(nil); e > -24 && e <= 16 && x.MinPrec() <= 2 && x.Sign() != 0 {\n		// one or two bits, in range\n		return true\n	}\n	f, acc := x.Float64()\n	if acc != big.Exact {\n		return false\n	}\n	if _, acc := binary16")],
    "", '''
func TestDemo(t *testing.T) {
	if IsExact16(big.NewFloat(0x1.8p-24)) {
		t.Fatal("3 * 2^-25 accepted")
	}
}''', "a value of two adjacent bits, the lower of which is one place below the spacing of the subnormals", "IsExact16 accepts it", imports=["math/big"])

bug("itoa-buf-64", "C25", [(ITOA, "	var a [64 + 1]byte // +1 for sign of 64bit value in base 2\n", "	var a [64]byte // the sign takes the place of a bit\n")],
    SC, '''
func TestDemo(t *testing.T) {
	FormatInt(-1<<63, 2)
}''', "the smallest int64 in base 2, the only number with 64 digits and a sign", "FormatInt panics")

bug("itoa-386-small", "C26", [(ITOA, "func FormatUint(i uint64, base int) string {\n	if fastSmalls && i < nSmalls && base == 10 {\n", "func FormatUint(i uint64, base int) string {\n	if fastSmalls && uint(i) < nSmalls && base == 10 {\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatUint(3<<32|7, 10); s != "12884901895" {
		t.Fatal(s)
	}
}''', "a 32-bit platform, and a number above 2^32 whose lower word is below 100", "only the lower word is printed", arch="386")

bug("ftoa-386-b", "C26", [(FTOA, "	// mantissa\n	dst, _ = formatBits(dst, mant, 10, false, true)\n", "	// mantissa\n	dst = AppendInt(dst, int64(int(mant)), 10)\n")],
    SC, '''
func TestDemo(t *testing.T) {
	if s := FormatFloat(1, 'b', -1, 64); s != "4503599627370496p-52" {
		t.Fatal(s)
	}
}''', "a 32-bit platform and the binary format of a 64-bit float", "the significand loses its upper word", arch="386")

bug("b128-abs-alias", "C16", [(B128, "	zero := big.NewFloat(0).SetPrec(precision)\n	switch {\n	case x.IsInf():\n		if x.Signbit() {\n			// -Inf\n			return NegInf, acc\n		}\n		// +Inf\n		return Inf, acc\n	// +-zero\n	case x.Cmp(zero) == 0:\n		if x.Signbit() {\n", "	zero := big.NewFloat(0).SetPrec(precision)\n	neg := x.Signbit()\n	if neg {\n		x.Neg(x)\n	}\n	switch {\n	case x.IsInf():\n		if neg {\n			// -Inf\n			return NegInf, acc\n		}\n		// +Inf\n		return Inf, acc\n	// +-zero\n	case x.Cmp(zero) == 0:\n		if neg {\n"),
    (B128, "	var a, b uint64\n	if x.Signbit() {\n", "	var a, b uint64\n	if neg {\n")],
    "binary128", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetInf(true)
	NewFromBig(x)
	if !x.Signbit() {
		t.Fatal("the argument is now +Inf")
	}
}''', "an argument that is -0 or -Inf, which rounding hands back as it is", "NewFromBig changes the sign of its argument", imports=["math/big"])

bug("ppc-high-106", "C10", [(PPC, "	high, acc := x.Float64()\n	if acc == big.Exact ||", "	high, acc := new(big.Float).SetPrec(precision).Set(x).Float64()\n	if c := big.NewFloat(high).Cmp(x); acc == big.Exact && c != 0 {\n		acc = big.Accuracy(c)\n	}\n	if acc == big.Exact ||")],
    "float128ppc", '''
func TestDemo(t *testing.T) {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -120).SetPrec(300)
	x.Add(x, big.NewFloat(0x1p-53))
	x.Add(x, big.NewFloat(1))
	f, _ := NewFromBig(x)
	if a, _ := f.Bits(); a != 0x3FF0000000000001 {
		t.Fatalf("%x", a)
	}
}''', "a number of more than 106 bits that exceeds the midpoint of two doubles by less than its 107th bit", "the high part is the lower neighbour, so not the nearest double", imports=["math/big"])

bug("exact16-int16-exp", "C19", [(FL, "	f, acc := x.Float64()\n	if acc != big.Exact {\n		return false\n	}\n	if _, acc := binary16", "	if e := int16(x.MantExp(nil)); e >= -10 && e <= 10 && x.MinPrec() <= 10 && x.Sign() != 0 && x.IsInt() && x.Text('p', 0) != \"\" {\n		// a small integer\n		return true\n	}\n	f, acc := x.Float64()\n	if acc != big.Exact {\n		return false\n	}\n	if _, acc := binary16")],
    "", '''
func TestDemo(t *testing.T) {
	if IsExact16(new(big.Float).SetMantExp(big.NewFloat(1), 1<<16+3)) {
		t.Fatal("2^65539 accepted")
	}
}''', "an exponent that is small in its lower 16 bits only", "IsExact16 accepts the value", imports=["math/big"])

bug("b16-int16-exp", "C07", [(B16, "	// Round to the nearest half precision floating-point number.\n", "	if e := int16(x.MantExp(nil)); x.MinPrec() == 1 && e > -14 && e <= 16 {\n		// a power of two is exact\n		bits := uint16(e-1+bias) << 10\n		if x.Signbit() {\n			bits |= 0x8000\n		}\n		return Float{bits: bits}, big.Exact\n	}\n	// Round to the nearest half precision floating-point number.\n")],
    "binary16", '''
func TestDemo(t *testing.T) {
	f, acc := NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -3<<16))
	if f.Bits() != 0 || acc != big.Below {
		t.Fatalf("%x %v", f.Bits(), acc)
	}
}''', "a power of two whose exponent is small in its lower 16 bits only", "it is encoded with the wrapped exponent", imports=["math/big"])
