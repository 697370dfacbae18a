From a7110365bd4e87f1d1465a39f905f4db141b511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 01/10] fix: binary16: round to nearest even, including
 overflow and denormalized values

---
 binary16/binary16.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..424e04c 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -76,9 +76,7 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		return NaN, big.Exact
 	}
 	y := big.NewFloat(x)
-	y.SetPrec(precision)
 	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
 	return NewFromBig(y)
 }
 
@@ -111,34 +109,50 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bits |= 0x8000
 	}
 
+	// Round to the precision of normalized values.
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven).Set(x)
+	acc := y.Acc()
+
 	// Exponent and mantissa.
 	mant := new(big.Float)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		if exp <= -precision {
+			// Less than half of the smallest denormalized value.
+			if x.Signbit() {
+				return NegZero, big.Above
+			}
+			return Zero, big.Below
+		}
+		// Round x to a multiple of the smallest denormalized value, by adding
+		// (and subtracting) the smallest normalized value.
+		min := new(big.Float).SetMantExp(big.NewFloat(1), 1-bias)
+		if x.Signbit() {
+			min.Neg(min)
 		}
-		mant.SetMantExp(mant, exp+precision-1)
+		y.Add(x, min)
+		acc := y.Acc()
+		y.Sub(y, min)
+		mant.SetMantExp(y, bias-1+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
+	if y.IsInf() || exp >= 0x1F {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	bits |= uint16(exp&0x1F) << 10
 
-- 
2.43.0


From 01c9a3d27fe4c6714e269ecefd2dd7e507dd62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 02/10] fix: binary128: round to nearest even, including
 overflow and denormalized values

---
 binary128/binary128.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..3ff6ab3 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -112,21 +112,35 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		a |= 0x8000000000000000
 	}
 
+	// Round to the precision of normalized values.
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven).Set(x)
+	acc := y.Acc()
+
 	// Exponent and mantissa.
 	mant := new(big.Float).SetPrec(precision)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		if exp <= -precision {
+			// Less than half of the smallest denormalized value.
+			if x.Signbit() {
+				return NegZero, big.Above
+			}
+			return Zero, big.Below
+		}
+		// Round x to a multiple of the smallest denormalized value, by adding
+		// (and subtracting) the smallest normalized value.
+		min := new(big.Float).SetMantExp(big.NewFloat(1), 1-bias)
+		if x.Signbit() {
+			min.Neg(min)
 		}
-		mant.SetMantExp(mant, exp+precision-1)
+		y.Add(x, min)
+		acc := y.Acc()
+		y.Sub(y, min)
+		mant.SetMantExp(y, bias-1+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
@@ -142,16 +156,22 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
+		if mantissa.Bit(112) != 0 {
+			// Rounded up to the smallest normalized value.
+			a |= 1 << 48
+		}
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
+	if y.IsInf() || exp >= 0x7FFF {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	a |= uint64(exp&0x7FFF) << 48
 
-- 
2.43.0


From 1569e87f333b0b3ee786e5974e417a14f0ba4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 03/10] fix: float80x86: round to nearest even, including
 overflow and denormalized values

---
 float80x86/float80x86.go | 44 +++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..7a84e75 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -133,36 +133,56 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		se |= 0x8000
 	}
 
+	// Round to the precision of normalized values.
+	y := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven).Set(x)
+	acc := y.Acc()
+
 	// Exponent and mantissa.
 	var m uint64
 	mant := &big.Float{}
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
 	// TODO: verify, as float80x86 also has an explicit lead bit.
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
+		if exp <= -precision {
+			// Less than half of the smallest denormalized value.
+			if x.Signbit() {
+				return NegZero, big.Above
+			}
+			return Zero, big.Below
+		}
+		// Round x to a multiple of the smallest denormalized value, by adding
+		// (and subtracting) the smallest normalized value.
+		min := new(big.Float).SetMantExp(big.NewFloat(1), 1-bias)
+		if x.Signbit() {
+			min.Neg(min)
 		}
-		mant.SetMantExp(mant, exp+precision-1)
+		y.Add(x, min)
+		acc := y.Acc()
+		y.Sub(y, min)
+		mant.SetMantExp(y, bias-1+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
-		m |= v & 0x7FFFFFFFFFFFFFFF
+		if v&^0x7FFFFFFFFFFFFFFF != 0 {
+			// Rounded up to the smallest normalized value.
+			se |= 1
+		}
+		m |= v
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
+	if y.IsInf() || exp >= 0x7FFF {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
 	}
 	se |= uint16(exp & 0x7FFF)
 
-- 
2.43.0


From a82448b2931a54b57b69ae9639b2ff5e18eae485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 04/10] fix: internal/strconv: correct rounding direction in
 roundShortest (as in Go issue 29491)

---
 internal/strconv/ftoa.go | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..d837eac 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,80 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
 
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0


From 80243d4ba3a7ede2e98211e095e49fea132d073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 05/10] fix: internal/strconv: do not panic on invalid format
 with precision 0

---
 internal/strconv/ftoa.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index d837eac..2dcba5e 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -149,6 +149,9 @@ func genericFtoa(dst []byte, val float64, fmt byte, prec, bitSize int) []byte {
 				prec = 1
 			}
 			digits = prec
+		default:
+			// Invalid mode.
+			digits = 1
 		}
 		if digits <= 15 {
 			// try fast algorithm when the number of digits is reasonable.
-- 
2.43.0


From caed0a36bad64c7532073458f1ca7e6d51e16f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 06/10] fix: float128ppc: NegInf is negative infinity

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From e27d24244ddd55ebc312cc5d0c7f2144e58e3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 07/10] fix: float128ppc: decode the exact sum, and do not
 panic on opposite infinities

---
 float128ppc/float128ppc.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..97a514e 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -10,9 +10,9 @@ import (
 )
 
 const (
-	// precision specifies the number of bits in the mantissa (including the
-	// implicit lead bit).
-	precision = 106
+	// precision specifies the number of bits needed to represent the sum of any
+	// two double-precision values exactly; from 2^1024 down to 2^-1074.
+	precision = 1024 + 1074 + 1
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
@@ -156,6 +156,9 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		if math.Signbit(f.high) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
@@ -175,6 +178,6 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
-	// NaN + NaN should be NaN in consideration
-	return math.IsNaN(f.high) || math.IsNaN(f.low)
+	// NaN + NaN should be NaN in consideration, and so should Inf - Inf.
+	return math.IsNaN(f.high) || math.IsNaN(f.low) || math.IsInf(f.high, 0) && f.low == -f.high
 }
-- 
2.43.0


From 8ee9d73dbc617a84e4162aef5ce09bbe601c254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 08/10] fix: float128ppc: NewFromBig keeps its argument,
 handles overflow and reports true accuracy

---
 float128ppc/float128ppc.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 97a514e..5c6d22e 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,22 +100,24 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) {
+		// overflow
+		return Float{high: high, low: 0}, acc
+	}
 	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x (exact, as the precision of l
+	// is the larger of the precisions of x and h).
+	l := new(big.Float).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
 	low, _ := l.Float64()
 
 	// check accuracy of results.
 	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	result.Add(h, big.NewFloat(low))
+	acc = big.Accuracy(result.Cmp(x))
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From 24a6318301a2bc33996fe3025c927cc56fc1c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 09/10] fix: IsExact16 rejects values not representable;
 IsExact accepts infinities

---
 float.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/float.go b/float.go
index b5053f6..c741ece 100644
--- a/float.go
+++ b/float.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strings"
 
+	"github.com/mewmew/float/binary16"
 	"github.com/mewmew/float/internal/strconv"
 )
 
@@ -16,6 +17,12 @@ func IsExact16(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if _, acc := binary16.NewFromFloat64(f); acc != big.Exact {
+		return false
+	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 16)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
@@ -28,6 +35,9 @@ func IsExact32(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
@@ -40,6 +50,9 @@ func IsExact64(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 64)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
-- 
2.43.0


From b74fd08cd09dda01a7f804681f5eb82b1737473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 10/10] fix: a newly assigned decimal is not truncated

Assign left the truncation flag of an earlier shift in place, so a reused
decimal rounded an exact half up although no digits had been dropped.
---
 internal/strconv/decimal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/strconv/decimal.go b/internal/strconv/decimal.go
index e55f1e8..bddcc4e 100644
--- a/internal/strconv/decimal.go
+++ b/internal/strconv/decimal.go
@@ -98,6 +98,7 @@ func (a *decimal) Assign(v uint64) {
 		a.nd++
 	}
 	a.dp = a.nd
+	a.trunc = false
 	trim(a)
 }
 
-- 
2.43.0

