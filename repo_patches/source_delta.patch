From d6dd8f1e69782b99b2b1bd6b315e670eb06aca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 01/16] fix: binary16: round to nearest in NewFromBig and
 report the accuracy

NewFromBig truncated the mantissa, wrapped the exponent of values too large
for the format, produced a wrong value for those below the smallest
denormalized number, and reported an accuracy unrelated to the error.
---
 binary16/binary16.go    | 30 +++++++---------------
 internal/round/round.go | 56 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 65 insertions(+), 21 deletions(-)
 create mode 100644 internal/round/round.go

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..f9c04a3 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -85,24 +87,27 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 // NewFromBig returns the nearest half precision floating-point number for x and
 // the accuracy of the conversion.
 func NewFromBig(x *big.Float) (Float, big.Accuracy) {
+	// Round to the nearest half precision floating-point number.
+	x, acc := round.Nearest(x, precision, bias)
+
 	// +-Inf
 	zero := big.NewFloat(0)
 	switch {
 	case x.IsInf():
 		if x.Signbit() {
 			// -Inf
-			return NegInf, big.Exact
+			return NegInf, acc
 		}
 		// +Inf
-		return Inf, big.Exact
+		return Inf, acc
 	// +-zero
 	case x.Cmp(zero) == 0:
 		if x.Signbit() {
 			// -zero
-			return NegZero, big.Exact
+			return NegZero, acc
 		}
 		// +zero
-		return Zero, big.Exact
+		return Zero, acc
 	}
 
 	// Sign
@@ -118,44 +123,27 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
-	}
 	bits |= uint16(exp&0x1F) << 10
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Uint64()
 	mantissa &^= 0x400 // clear implicit lead bit; 2^10
 
 	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
-	if acc == big.Exact && (mantissa&^0x7FF) != 0 {
-		acc = big.Below
-	}
 	mantissa &= 0x7FF
 	bits |= uint16(mantissa)
 	return Float{bits: bits}, acc
diff --git a/internal/round/round.go b/internal/round/round.go
new file mode 100644
index 0000000..46162f6
--- /dev/null
+++ b/internal/round/round.go
@@ -0,0 +1,56 @@
+// Package round implements rounding of multi-precision floating-point numbers
+// to IEEE 754 like floating-point formats.
+package round
+
+import (
+	"math/big"
+)
+
+// Nearest returns the floating-point number nearest to x (ties to even) in the
+// format with the given precision (number of bits in the mantissa, including
+// the lead bit) and exponent bias, and the accuracy of the result with respect
+// to x. The result is +-0 if x is too small and +-Inf if x is too large for the
+// format. The argument x is not modified.
+func Nearest(x *big.Float, precision uint, bias int) (y *big.Float, acc big.Accuracy) {
+	if x.IsInf() || x.Sign() == 0 {
+		return x, big.Exact
+	}
+	y = new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
+	// x = mant * 2^exp, where 0.5 <= mant < 1.0
+	exp := x.MantExp(nil)
+	switch {
+	case exp < 2-bias-int(precision):
+		// Less than half of the smallest denormalized number.
+		acc = big.Below
+		if x.Signbit() {
+			y.Neg(y)
+			acc = big.Above
+		}
+		return y, acc
+	case exp < 2-bias:
+		// Denormalized number; round at the spacing of the smallest normalized
+		// numbers, by adding (and then subtracting) the smallest of them.
+		min := new(big.Float).SetMantExp(big.NewFloat(1), 1-bias)
+		if x.Signbit() {
+			min.Neg(min)
+		}
+		y.Add(x, min)
+		acc = y.Acc()
+		y.Sub(y, min)
+		if y.Sign() == 0 && x.Signbit() {
+			y.Neg(y)
+		}
+		return y, acc
+	}
+	y.Set(x)
+	acc = y.Acc()
+	if y.IsInf() || y.MantExp(nil) > bias+1 {
+		// Too large.
+		y.SetInf(x.Signbit())
+		acc = big.Above
+		if x.Signbit() {
+			acc = big.Below
+		}
+	}
+	return y, acc
+}
-- 
2.43.0


From 18f37021400e28f13cf721dd314aa6b02128bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 02/16] fix: binary128: round to nearest in NewFromBig and
 report the accuracy

---
 binary128/binary128.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..3488be7 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -86,24 +88,27 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 // NewFromBig returns the nearest quadruple precision floating-point number for
 // x and the accuracy of the conversion.
 func NewFromBig(x *big.Float) (Float, big.Accuracy) {
+	// Round to the nearest quadruple precision floating-point number.
+	x, acc := round.Nearest(x, precision, bias)
+
 	// +-Inf
 	zero := big.NewFloat(0).SetPrec(precision)
 	switch {
 	case x.IsInf():
 		if x.Signbit() {
 			// -Inf
-			return NegInf, big.Exact
+			return NegInf, acc
 		}
 		// +Inf
-		return Inf, big.Exact
+		return Inf, acc
 	// +-zero
 	case x.Cmp(zero) == 0:
 		if x.Signbit() {
 			// -zero
-			return NegZero, big.Exact
+			return NegZero, acc
 		}
 		// +zero
-		return Zero, big.Exact
+		return Zero, acc
 	}
 
 	// Sign
@@ -119,13 +124,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
@@ -142,26 +141,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	a |= uint64(exp&0x7FFF) << 48
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Int(nil)
 	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
 
@@ -177,9 +168,6 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 	bigA.Rsh(bigA, 64)
 	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-	if acc == big.Exact && (bigA.Uint64()&^0x0000FFFFFFFFFFFF) != 0 {
-		acc = big.Below
-	}
 	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 	b = bigB.Uint64()
 	return Float{a: a, b: b}, acc
-- 
2.43.0


From b26c44f2e106955507289a8427c296de29f38deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 03/16] fix: float80x86: round to nearest in NewFromBig and
 report the accuracy

---
 float80x86/float80x86.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..788e780 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+
+	"github.com/mewmew/float/internal/round"
 )
 
 const (
@@ -95,6 +97,9 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 // NewFromBig returns the nearest x86 extended precision floating-point number
 // for x and the accuracy of the conversion.
 func NewFromBig(x *big.Float) (Float, big.Accuracy) {
+	// Round to the nearest x86 extended precision floating-point number.
+	x, acc := round.Nearest(x, precision, bias)
+
 	// +-Inf
 	zero := big.NewFloat(0)
 	switch {
@@ -104,13 +109,13 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 			//    sign: 1
 			//    exp:  all ones
 			//    mant: 10 zero
-			return NegInf, big.Exact
+			return NegInf, acc
 		}
 		// +Inf
 		//    sign: 0
 		//    exp:  all ones
 		//    mant: 10 zero
-		return Inf, big.Exact
+		return Inf, acc
 	// +-zero
 	case x.Cmp(zero) == 0:
 		if x.Signbit() {
@@ -118,13 +123,13 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 			//    sign: 1
 			//    exp:  zero
 			//    mant: zero
-			return NegZero, big.Exact
+			return NegZero, acc
 		}
 		// +zero
 		//    sign: 0
 		//    exp:  zero
 		//    mant: zero
-		return Zero, big.Exact
+		return Zero, acc
 	}
 
 	// Sign
@@ -142,42 +147,25 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
 		m |= v & 0x7FFFFFFFFFFFFFFF
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	se |= uint16(exp & 0x7FFF)
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	// mantissa, including explicit lead bit
-	mantissa, acc2 := mant.Uint64()
-	if acc == big.Exact {
-		acc = acc2
-	}
+	mantissa, _ := mant.Uint64()
 	m |= mantissa
 	return Float{se: se, m: m}, acc
 }
-- 
2.43.0


From 0eb3ac5a623ef69158c903a6ec49c7c3ba877b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 04/16] fix: binary16: round once in NewFromFloat64

Setting the precision before calling NewFromBig rounded denormalized results
twice and lost the accuracy of the conversion.
---
 binary16/binary16.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index f9c04a3..89896ec 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -77,10 +77,9 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		// +NaN
 		return NaN, big.Exact
 	}
+	// Note, the precision of y is not reduced here, as the value would then be
+	// rounded twice.
 	y := big.NewFloat(x)
-	y.SetPrec(precision)
-	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
 	return NewFromBig(y)
 }
 
-- 
2.43.0


From 9d965db45e1769efc008a957a453deb47f3b5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 05/16] fix: binary128: Exp on 32-bit platforms

The exponent bits were lost by converting to int before shifting.
---
 binary128/binary128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 3488be7..5d5eb60 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -276,7 +276,7 @@ func (f Float) Signbit() bool {
 // Exp returns the exponent of f.
 func (f Float) Exp() int {
 	// 15 bit exponent
-	return int(f.a&0x7FFF000000000000) >> 48
+	return int(f.a & 0x7FFF000000000000 >> 48)
 }
 
 // Frac returns the fraction of f.
-- 
2.43.0


From 0855dc657ba6082d3b0383af22973e6cb86050c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 06/16] fix: float128ppc: NegInf was +Inf

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From c2ad77f49dc5fe2c0fb2fc245ce33cbe8bdf01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/16] fix: float128ppc: keep the sign of NaN in Big

---
 float128ppc/float128ppc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..98adcc0 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -156,6 +156,10 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		// +-NaN
+		if math.Signbit(f.high) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
-- 
2.43.0


From 6b97979c1661bd8c36637cbaa9871c596c6de289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 08/16] fix: float128ppc: infinities of opposite sign are NaN

Big panicked on the sum of infinities of opposite sign.
---
 float128ppc/float128ppc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 98adcc0..57366fd 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -179,6 +179,10 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
+	// Inf - Inf is NaN
+	if math.IsInf(f.high, 0) && f.low == -f.high {
+		return true
+	}
 	// NaN + NaN should be NaN in consideration
 	return math.IsNaN(f.high) || math.IsNaN(f.low)
 }
-- 
2.43.0


From 51072d1cbf7692fb33e1dc0d5d68711e4a9264b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 09/16] fix: float128ppc: Big is the exact sum of the high and
 low part

The sum was rounded to 106 bits, so a double-double value with parts further
apart did not survive a round trip (see TestRoundTrip).
---
 float128ppc/float128ppc.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 57366fd..0a929b8 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -13,6 +13,9 @@ const (
 	// precision specifies the number of bits in the mantissa (including the
 	// implicit lead bit).
 	precision = 106
+	// sumPrecision specifies the number of bits needed to represent the sum of
+	// any two double-precision values exactly (from 2^1024 to 2^-1074).
+	sumPrecision = 1024 + 1074 + 1
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
@@ -165,6 +168,10 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	h := big.NewFloat(f.high).SetPrec(precision)
 	l := big.NewFloat(f.low).SetPrec(precision)
 	x.Add(h, l)
+	if x.Acc() != big.Exact {
+		// The high and low part are too far apart.
+		x.SetPrec(sumPrecision).Add(h, l)
+	}
 
 	zero := big.NewFloat(0).SetPrec(precision)
 	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
-- 
2.43.0


From 60456804a1bb8855a3edcf7d6562ff94cb64f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 10/16] fix: float128ppc: nearest high and low part in
 NewFromBig

The precision and rounding mode of the argument were modified, parts were
rounded twice, values too large gave Inf - Inf, and the accuracy was that of
the reduced argument.
---
 float128ppc/float128ppc.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 0a929b8..52a8fa6 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -103,22 +103,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
-	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
+	high, acc := x.Float64()
+	if acc == big.Exact || high == 0 || math.IsInf(high, 0) {
+		return Float{high: high, low: 0}, acc
+	}
+	h := big.NewFloat(high)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x; the difference is exact, as it
+	// has no more bits than x or the spacing of high.
+	l := big.NewFloat(0).SetPrec(x.Prec() + precision).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
-	low, _ := l.Float64()
-
-	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	low, acc := l.Float64()
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From b0564af976b92e0a87c9db806c9b16f1528183f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 11/16] fix: IsExact16, IsExact32 and IsExact64 panicked on
 infinities

---
 float.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float.go b/float.go
index b5053f6..dc94804 100644
--- a/float.go
+++ b/float.go
@@ -12,6 +12,9 @@ import (
 // IsExact16 reports whether x may be represented exactly as a 16-bit
 // floating-point value.
 func IsExact16(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
@@ -24,6 +27,9 @@ func IsExact16(x *big.Float) bool {
 // IsExact32 reports whether x may be represented exactly as a 32-bit
 // floating-point value.
 func IsExact32(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float32()
 	if acc != big.Exact {
 		return false
@@ -36,6 +42,9 @@ func IsExact32(x *big.Float) bool {
 // IsExact64 reports whether x may be represented exactly as a 64-bit
 // floating-point value.
 func IsExact64(x *big.Float) bool {
+	if x.IsInf() {
+		return true
+	}
 	f, acc := x.Float64()
 	if acc != big.Exact {
 		return false
-- 
2.43.0


From 7c863153618f843be826d4ed5c78333e7d5a734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 12/16] fix: IsExact16 accepted values half precision cannot
 represent

For instance 65500, which is the shortest decimal that identifies 65504.
---
 float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/float.go b/float.go
index dc94804..c555e27 100644
--- a/float.go
+++ b/float.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strings"
 
+	"github.com/mewmew/float/binary16"
 	"github.com/mewmew/float/internal/strconv"
 )
 
@@ -19,6 +20,9 @@ func IsExact16(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if _, acc := binary16.NewFromBig(x); acc != big.Exact {
+		return false
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 16)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
-- 
2.43.0


From 626e9fd96cefd2dec554df103625588ff6bba22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 13/16] fix: internal/strconv: round shortest decimals up past
 a digit

The walk over the digits that decides how many are needed only looked at
the current digit to see whether rounding up stays below the next value,
and took lower, middle and upper to share a decimal point. The shortest
text of 4.4253272122506157e+17 came out as ...156e+17, which is not the
closest of the shortest. This is the repair Go's strconv has
(golang.org/issue/29491).
---
 internal/strconv/ftoa.go | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..d837eac 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,80 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
 
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0


From 73eafbbc6c3c983ee8bdf704d8d03e3e1947080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 14/16] fix: internal/strconv: FormatFloat panicked on an
 unknown format with precision 0

---
 internal/strconv/ftoa.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index d837eac..5cc4331 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -149,6 +149,9 @@ func genericFtoa(dst []byte, val float64, fmt byte, prec, bitSize int) []byte {
 				prec = 1
 			}
 			digits = prec
+		default:
+			// unknown format
+			digits = 1
 		}
 		if digits <= 15 {
 			// try fast algorithm when the number of digits is reasonable.
-- 
2.43.0


From 395a8aa8192070a01fa5b7f8231431b9acdb3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 15/16] fix: float128ppc: NewFromBig rounded the low part at
 huge precisions on 32-bit platforms

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 52a8fa6..ac1e9f5 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -112,7 +112,7 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 
 	// compute low part by subtracting high from x; the difference is exact, as it
 	// has no more bits than x or the spacing of high.
-	l := big.NewFloat(0).SetPrec(x.Prec() + precision).SetMode(big.ToNearestEven)
+	l := big.NewFloat(0).SetPrec(x.MinPrec() + precision).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
 	low, acc := l.Float64()
 
-- 
2.43.0


From 46cc1060e5dbf09da75012bdd6b508eaa24d2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 16/16] fix: NewFromFloat32 and Float32 lost the sign of NaN on
 soft-float platforms

Without floating-point hardware, Go's conversions between float32 and float64
return a NaN without its sign.
---
 binary128/binary128.go     | 6 +++++-
 binary16/binary16.go       | 6 +++++-
 float128ppc/float128ppc.go | 6 +++++-
 float80x86/float80x86.go   | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 5d5eb60..d4e772a 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -58,6 +58,10 @@ func NewFromBits(a, b uint64) Float {
 // NewFromFloat32 returns the nearest quadruple precision floating-point number
 // for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		// -NaN; soft-float platforms lose the sign of NaN in conversions.
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -187,7 +191,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/binary16/binary16.go b/binary16/binary16.go
index 89896ec..393e5e4 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -57,6 +57,10 @@ func NewFromBits(bits uint16) Float {
 // NewFromFloat32 returns the nearest half precision floating-point number for x
 // and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		// -NaN; soft-float platforms lose the sign of NaN in conversions.
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -162,7 +166,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index ac1e9f5..79e9e1b 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -55,6 +55,10 @@ func NewFromBits(a, b uint64) Float {
 // NewFromFloat32 returns the nearest double-double precision floating-point
 // number for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		// -NaN; soft-float platforms lose the sign of NaN in conversions.
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -129,7 +133,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index 788e780..cd4c939 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -61,6 +61,10 @@ func NewFromBits(se uint16, m uint64) Float {
 // NewFromFloat32 returns the nearest x86 extended precision floating-point
 // number for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		// -NaN; soft-float platforms lose the sign of NaN in conversions.
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -184,7 +188,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
-- 
2.43.0

