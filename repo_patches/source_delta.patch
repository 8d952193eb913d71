From 22af43e5a0255f7bad469fce21605596928211aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 01/51] fix: signed CheckedSub and SaturatingSub tested the
 wrong overflow condition

---
 ops.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..3e86ae0 100644
--- a/ops.go
+++ b/ops.go
@@ -1057,40 +1057,40 @@ func (self ISize) _HasOverflow_Sub(rhs ISize) bool {
 }
 
 func (self I8) _HasOverflow_Sub(rhs I8) bool {
-	if self > 0 && rhs < math.MinInt8+self {
+	if rhs < 0 && self > math.MaxInt8+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt8+self {
+	if rhs > 0 && self < math.MinInt8+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I16) _HasOverflow_Sub(rhs I16) bool {
-	if self > 0 && rhs < math.MinInt16+self {
+	if rhs < 0 && self > math.MaxInt16+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt16+self {
+	if rhs > 0 && self < math.MinInt16+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I32) _HasOverflow_Sub(rhs I32) bool {
-	if self > 0 && rhs < math.MinInt32+self {
+	if rhs < 0 && self > math.MaxInt32+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt32+self {
+	if rhs > 0 && self < math.MinInt32+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I64) _HasOverflow_Sub(rhs I64) bool {
-	if self > 0 && rhs < math.MinInt64+self {
+	if rhs < 0 && self > math.MaxInt64+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt64+self {
+	if rhs > 0 && self < math.MinInt64+rhs {
 		return true
 	}
 	return false
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
@@ -1784,7 +1784,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1793,7 +1793,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1803,7 +1803,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1813,7 +1813,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From 49f2f9d2af56cd9348fd0a8d7916bd5b4f49ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 02/51] fix: CheckedMul and SaturatingMul misjudged mixed-sign
 and USize products

---
 ops.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ops.go b/ops.go
index 3e86ae0..67c8eb4 100644
--- a/ops.go
+++ b/ops.go
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
-- 
2.43.0


From 164e3bdbb3105aeeb4d1b1129742e5185fbeda03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 03/51] fix: SaturatingMul clamped to the wrong bound for
 negative operands

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 67c8eb4..972a6b0 100644
--- a/ops.go
+++ b/ops.go
@@ -2447,7 +2447,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2458,7 +2458,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2469,7 +2469,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2480,7 +2480,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2491,7 +2491,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From c63dfba0c84f64d3cc2d44976bf271d24ee7da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 04/51] fix: signed CheckedRem returned None for negative
 operands

---
 ops.go | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/ops.go b/ops.go
index 972a6b0..4a7effa 100644
--- a/ops.go
+++ b/ops.go
@@ -2079,72 +2079,52 @@ func (self U64) CheckedDiv(rhs U64) Option[U64] {
 
 // Checked integer remainder. Computes self % rhs, returning None if rhs == 0 or the operation results in overflow.
 func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[ISize]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[ISize]()
-	}
 	return Some[ISize](result)
 }
 
 func (self I8) CheckedRem(rhs I8) Option[I8] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I8]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I8]()
-	}
 	return Some[I8](result)
 }
 
 func (self I16) CheckedRem(rhs I16) Option[I16] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I16]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I16]()
-	}
 	return Some[I16](result)
 }
 
 func (self I32) CheckedRem(rhs I32) Option[I32] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I32]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I32]()
-	}
 	return Some[I32](result)
 }
 
 func (self I64) CheckedRem(rhs I64) Option[I64] {
-	if rhs == 0 {
+	if self._HasOverflow_Div(rhs) {
 		return None[I64]()
 	}
 
 	result := self % rhs
 
-	if result > self || result > rhs {
-		// Overflow occurred
-		return None[I64]()
-	}
 	return Some[I64](result)
 }
 
-- 
2.43.0


From be666d737328b455e4e3ab2f32d040731ee2e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 05/51] fix: ISize.WrappingMul altered products that were
 smaller than an operand

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index 4a7effa..3105900 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From 965a2aed539ccb3c56cea0b6697a13e41850b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 06/51] fix: I128.Neg carried into the high half for the wrong
 low half

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 3105900..88f46bf 100644
--- a/ops.go
+++ b/ops.go
@@ -3028,7 +3028,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 2f3972623eec88a31cdeb24821a9f5665dc15111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 07/51] fix: I128.IsPositive was false for positive values
 below 2^64

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 88f46bf..ce1301d 100644
--- a/ops.go
+++ b/ops.go
@@ -2831,7 +2831,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From 0490b51fec3636a14ee32175f89ba9a7ad0251ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 08/51] fix: Shl and Shr shifted the receiver by itself instead
 of by rhs

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From 32d6514798637ae111833e6c134ed9f17ba99bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 09/51] fix: 128-bit Shl and Shr were only right for a shift by
 one

---
 bitwise.go | 65 +++++++++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..77917a1 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,18 +29,18 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
+	if rhs.high != 0 {
+		return I128{}
+	}
 
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// carry the bits that move from the low half into the high half
+	if rhs.low < 64 {
+		high |= I64(lhs.low >> (64 - rhs.low))
+	} else {
+		high |= I64(lhs.low << (rhs.low - 64))
 	}
 
 	return I128{
@@ -70,18 +70,18 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
+	if rhs.high != 0 {
+		return U128{}
+	}
 
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// carry the bits that move from the low half into the high half
+	if rhs.low < 64 {
+		high |= lhs.low >> (64 - rhs.low)
+	} else {
+		high |= lhs.low << (rhs.low - 64)
 	}
 
 	return U128{
@@ -111,18 +111,19 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
+	if rhs.high != 0 {
+		sign := lhs.high >> 63
+		return I128{high: sign, low: U64(sign)}
+	}
 
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// carry the bits that move from the high half into the low half
+	if rhs.low < 64 {
+		low |= U64(lhs.high) << (64 - rhs.low)
+	} else {
+		low |= U64(lhs.high >> (rhs.low - 64))
 	}
 
 	return I128{
@@ -152,18 +153,18 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
+	if rhs.high != 0 {
+		return U128{}
+	}
 
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// carry the bits that move from the high half into the low half
+	if rhs.low < 64 {
+		low |= lhs.high << (64 - rhs.low)
+	} else {
+		low |= lhs.high >> (rhs.low - 64)
 	}
 
 	return U128{
-- 
2.43.0


From ec40bd13f95d053a976aacc747be20722f71e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 10/51] fix: USize.ToString printed values above the int
 maximum as negative

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From 9f17d82c0aee0af833eda46fa8ad8f890825d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 11/51] fix: I128.Div and I128.Rem were wrong when an operand
 is I128_MIN

---
 ops.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ops.go b/ops.go
index ce1301d..4da29e1 100644
--- a/ops.go
+++ b/ops.go
@@ -405,7 +405,11 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// the magnitude of I128_MIN only fits an unsigned value
+	absLhs := U128{high: U64(lhs.high), low: lhs.low}
+	absRhs := U128{high: U64(rhs.high), low: rhs.low}
+
+	if absLhs.Cmp(absRhs) == OrderingLess {
 		return I128{
 			high: 0,
 			low:  0,
@@ -416,8 +420,8 @@ func (lhs I128) Div(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(absLhs.ToString()), 10)
+	bigRhs.SetString(string(absRhs.ToString()), 10)
 
 	bigLhs.Div(bigLhs, bigRhs)
 
@@ -554,7 +558,11 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// the magnitude of I128_MIN only fits an unsigned value
+	absLhs := U128{high: U64(lhs.high), low: lhs.low}
+	absRhs := U128{high: U64(rhs.high), low: rhs.low}
+
+	if absLhs.Cmp(absRhs) == OrderingLess {
 		if isNegative {
 			return lhs.Neg()
 		} else {
@@ -566,8 +574,8 @@ func (lhs I128) Rem(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(absLhs.ToString()), 10)
+	bigRhs.SetString(string(absRhs.ToString()), 10)
 
 	bigLhs.Rem(bigLhs, bigRhs)
 
-- 
2.43.0


From dee0994bf37fe0f3068600eb4586d06aa6c9ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 12/51] fix: Vec.Reserve appended zero elements to the vector

---
 vec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..40769c3 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,9 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		newData := make([]T, len(self.data), self.Len()+additional)
+		copy(newData, self.data)
+		self.data = newData
 	}
 }
 
-- 
2.43.0


From e6b103a66f42279e78fba1cbca070fc3ec92074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 13/51] fix: Vec.Set indexed out of bounds instead of handing
 back the value

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index 40769c3..3fee142 100644
--- a/vec.go
+++ b/vec.go
@@ -261,7 +261,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From a557edfdade9e8b7236083264da1c4a669f34f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 14/51] fix: Vec.DedupByKey removed repeats that were not
 consecutive

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index 3fee142..46323db 100644
--- a/vec.go
+++ b/vec.go
@@ -183,13 +183,13 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var prev any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || !reflect.DeepEqual(prev, k) {
 			newData = append(newData, value)
 		}
+		prev = k
 	}
 	self.data = newData
 }
-- 
2.43.0


From 48054fa0be5814400961de557c35279ea74faab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 15/51] fix: Vec iterator Rev began with zero values after part
 of the vector was consumed

---
 vec.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index 46323db..79e1b75 100644
--- a/vec.go
+++ b/vec.go
@@ -596,17 +596,16 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[T]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
-- 
2.43.0


From 5dbddac324a66f9bf7e105d8072a0093a06d6947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 16/51] fix: VecDeque iterator Rev never ended

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..b71e48d 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -758,8 +758,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.position; i < self.deque.Len(); i++ {
+		newDeque.PushFront(self.deque.Get(i).Unwrap())
 	}
 
 	return newDeque.IntoIter()
-- 
2.43.0


From e57e2996b47cd551434f482aaca13a61feb6666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 17/51] fix: VecDeque iterator adaptors included elements
 already yielded

---
 vec_deque.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index b71e48d..f22093f 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -722,7 +722,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -733,7 +733,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -747,7 +747,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -769,7 +769,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -780,7 +780,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From b66ef811fb43ff87d4b69810f1349c2571d5f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 18/51] fix: VecDeque binary searches ignored where the ring
 starts

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index f22093f..1588553 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -413,7 +413,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +457,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From 2763a48462bc1b07c1d4fa41a3df184cf5b8fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 19/51] fix: VecDeque AsSlice and sorting ignored where the
 ring starts

---
 vec_deque.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index 1588553..f11094a 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,7 +341,33 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
-	return self.buffer[:self.len]
+	if self.head <= self.Capacity()-self.len {
+		return self.buffer[self.head : self.head+self.len]
+	}
+
+	slice := make([]T, self.len)
+	self._CopyTo(slice)
+
+	return slice
+}
+
+// Copies the elements, from front to back, to a slice of at least Len elements.
+func (self VecDeque[T]) _CopyTo(slice []T) {
+	headLen := copy(slice[:self.len], self.buffer[self.head:])
+	copy(slice[headLen:self.len], self.buffer)
+}
+
+// Rearranges the ring so that its elements start at the beginning of the buffer.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	newBuffer := make([]T, len(self.buffer))
+	self._CopyTo(newBuffer)
+
+	self.buffer = newBuffer
+	self.head = 0
 }
 
 // Require `impl Eq[T] for T`
@@ -491,6 +517,8 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -525,6 +553,8 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -540,6 +570,8 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -574,6 +606,8 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
-- 
2.43.0


From 685438905f2f57431210a0a3371825c301a39858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 20/51] fix: VecDeque.Clone shared the elements with the
 original

---
 vec_deque.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index f11094a..059aa7d 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -863,7 +863,13 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := self.Get(i).Unwrap()
+
+		clone := castToClone(e)
+		if clone.IsSome() {
+			e = clone.Unwrap().Clone()
+		}
+		cloned.PushBack(e)
 	}
 
 	return &cloned
-- 
2.43.0


From 5239798b8bf8fa35a0aa52fe78bade75d444d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 21/51] fix: LinkedList iterator Rev kept the order

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From fff6c4b746dcc52b00a0100f4715284300d08861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 22/51] fix: BinaryHeap.Append left the other heap's elements
 in place

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From a8cfdf18525cda25ee1ebf0dec9e24d50c7390b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 23/51] fix: map and set iterators' Rev began with zero values
 after partial iteration

---
 btree_map.go | 21 +++++++++------------
 btree_set.go |  7 +++----
 hash_map.go  | 21 +++++++++------------
 hash_set.go  |  7 +++----
 4 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..4e3bf37 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -827,17 +827,16 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[Pair[K, V]]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
@@ -941,17 +940,16 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[K]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
@@ -1055,17 +1053,16 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[V]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
diff --git a/btree_set.go b/btree_set.go
index 6a00e57..167417d 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -368,17 +368,16 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[K]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
diff --git a/hash_map.go b/hash_map.go
index 632a11e..9277cab 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,17 +188,16 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[Pair[K, V]]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
@@ -303,17 +302,16 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[K]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
@@ -411,17 +409,16 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[V]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
diff --git a/hash_set.go b/hash_set.go
index 0d74497..444e4a6 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,17 +403,16 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecNew[K]()
 
 	for {
 		value := self.Next()
 
 		if value.IsNone() {
+			newVec.Reverse()
 			return newVec.IntoIter()
 		}
-		newVec.AsSlice()[i] = value.Unwrap()
-		i--
+		newVec.Push(value.Unwrap())
 	}
 }
 
-- 
2.43.0


From c95c9aa1cc8144f056ae650f1601aeb76dae15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 24/51] fix: map and set iterators' CollectToVec included
 elements already yielded

---
 btree_map.go | 33 ++++++++++++++++++++++++++++++---
 btree_set.go | 11 ++++++++++-
 hash_map.go  | 33 ++++++++++++++++++++++++++++++---
 hash_set.go  | 11 ++++++++++-
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 4e3bf37..237a872 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -842,7 +842,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -955,7 +964,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1068,7 +1086,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 167417d..5a780fc 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -383,7 +383,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 9277cab..bd57ffd 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -203,7 +203,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -317,7 +326,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -424,7 +442,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 444e4a6..5351c7a 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -418,7 +418,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
-- 
2.43.0


From 711b8a70b870faacb52da1ebc1b6107970baaf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 25/51] fix: BTreeMap lost entries once a node was split

---
 btree_map.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 237a872..e51d4ee 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -315,12 +316,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
@@ -414,7 +415,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +444,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < self._MinimumDegree-1; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +470,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From 82db4ef32a83386371e46f43febc2275a5c78480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 26/51] fix: BTreeMap iteration missed the last child and could
 read stale entries

---
 btree_map.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index e51d4ee..715332a 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -212,10 +212,10 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 // Function to traverse all nodes in a subtree rooted with this node
 func (self BTreeNode[K, V]) _Traverse() {
 	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// and all children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -226,6 +226,10 @@ func (self BTreeNode[K, V]) _Traverse() {
 		Println("{}, {}", self.keys.GetUnchecked(i), self.values.GetUnchecked(i))
 		i++
 	}
+
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		self.childs.GetUnchecked(i)._Traverse()
+	}
 }
 
 // To Vec[Pair[K, V]]
@@ -233,10 +237,10 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	vec := Vec[Pair[K, V]]{}
 
 	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// and all children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -252,6 +256,11 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -260,10 +269,10 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	vec := Vec[K]{}
 
 	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// and all children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -281,6 +290,11 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -289,10 +303,10 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	vec := Vec[V]{}
 
 	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// and all children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -309,6 +323,11 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
-- 
2.43.0


From a130a979f30fbc620a32c6099611dfaf99a2083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 27/51] fix: BTreeMap.Remove returned another entry's value

---
 btree_map.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 715332a..89c6a70 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -186,6 +186,12 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 	}
 
 	result, index := self.root._Search(key)
+	if result.IsNone() {
+		return None[V]()
+	}
+
+	// Removing the key moves entries, so take its value first
+	value := *result.Unwrap().values.data[index]
 
 	// Call the remove function for root
 	self.root._Remove(key)
@@ -200,12 +206,8 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
-		self.len--
-		return Some(*result.Unwrap().values.data[index])
-	}
+	self.len--
+	return Some(value)
 }
 
 // Debug only
-- 
2.43.0


From 8493fedf7ddd829dc5519b6b73ffd1d563750d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 28/51] fix: iterating an empty BTreeSet dereferenced nil

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 5a780fc..3371b34 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From 29a9fce68fec1229fb5975fdb2e820c7fbf96153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 29/51] fix: BTreeSet.Clone never ended

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 3371b34..7ae7606 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -449,8 +449,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 6c5e0c806932ee53055b9305e5ee94bcdc6dde8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 30/51] fix: Option.And and AndThen returned Some(nil) for None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From 50424474592fa46d4f0d65f46e36dad6346c2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 31/51] fix: Option.Replace did not store into None

---
 option.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/option.go b/option.go
index ea7c79a..8373de4 100644
--- a/option.go
+++ b/option.go
@@ -332,13 +332,9 @@ func (self *Option[T]) Take() Option[T] {
 //	x := None[gost.I32]()
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
-	if self.IsNone() {
-		return *self
-	} else {
-		oldValue := *self.value
-		self.value = &value
-		return Some[T](oldValue)
-	}
+	oldOption := *self
+	self.value = &value
+	return oldOption
 }
 
 // impl Display for Option
-- 
2.43.0


From 9f705515f16cd0d432c73eab30dc3bb8c3b1e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 32/51] fix: a Result built from a nil error was neither Ok nor
 Err

---
 result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/result.go b/result.go
index ddc9f73..e0c5acd 100644
--- a/result.go
+++ b/result.go
@@ -57,7 +57,7 @@ func (self Result[T]) IsOkAnd(predicate func(T) Bool) Bool {
 //	y := gost.Err[gost.I32](errors.New("error"))
 //	gost.Assert(y.IsErr())
 func (self Result[T]) IsErr() Bool {
-	return self.err != nil
+	return self.ok == nil
 }
 
 // Returns true if the result is Err and the value inside of it matches a predicate.
-- 
2.43.0


From a3ac1de1ce9eeff9505bc0f6c8f822c2894c2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 33/51] fix: String.ParseU64 accepted negative numbers and
 rejected large ones

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..baa1788 100644
--- a/string.go
+++ b/string.go
@@ -130,7 +130,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From 78fc2d48c8a18679b194a8b74c2e6b6cda0e5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 34/51] fix: StringFromUTF16 skipped every second unit and
 accepted lone surrogates

---
 string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index baa1788..3e3f7f2 100644
--- a/string.go
+++ b/string.go
@@ -1,9 +1,11 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Converts a vector of bytes to a String.
@@ -16,7 +18,15 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
+		if utf16.IsSurrogate(rune(data[i])) {
+			// only a high surrogate followed by a low one is valid
+			if i+1 == len(data) || utf16.DecodeRune(rune(data[i]), rune(data[i+1])) == utf8.RuneError {
+				return Err[String](errors.New("invalid utf-16: lone surrogate found"))
+			}
+			convertedData = append(convertedData, uint16(data[i]))
+			i++
+		}
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
-- 
2.43.0


From 4892daef312293431cf90a320dd78c6aa5184f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 35/51] fix: String.Pop rewrote invalid bytes in the rest of
 the string

---
 string.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/string.go b/string.go
index 3e3f7f2..cd97780 100644
--- a/string.go
+++ b/string.go
@@ -71,10 +71,8 @@ func (self *String) Pop() Option[Char] {
 		return None[Char]()
 	}
 
-	runes := []rune(*self)
-
-	last := runes[len(runes)-1]
-	*self = String(runes[:len(runes)-1])
+	last, size := utf8.DecodeLastRuneInString(string(*self))
+	*self = (*self)[:len(*self)-size]
 
 	return Some[Char](Char(last))
 }
-- 
2.43.0


From addc8cc5c80e9b6f5664143bf974561521ee3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 36/51] fix: ElseIf evaluated its branch after an earlier one
 was taken

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..583d0f3 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if self.returnValue == nil && condition {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From d4164c0cf4a662824e1b9edc981f58858a260fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 37/51] fix: JoinHandle.IsFinished consumed the signal Join
 waits for

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..08c89d7 100644
--- a/thread.go
+++ b/thread.go
@@ -48,7 +48,7 @@ func Spawn(f func()) JoinHandle {
 
 	go func() {
 		f()
-		channel <- Unit{}
+		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From d91b11845ae8a153b57c77851aca9097f921dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 38/51] fix: Sleep panicked for durations beyond 292 years

---
 thread.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/thread.go b/thread.go
index 08c89d7..dfadaf1 100644
--- a/thread.go
+++ b/thread.go
@@ -1,7 +1,7 @@
 package gost
 
 import (
-	"fmt"
+	"math"
 	"time"
 )
 
@@ -9,12 +9,10 @@ import (
 //
 //	gost.Sleep(gost.DurationFromSecs(5)) // Sleep for 5 seconds
 func Sleep(dur Duration) {
-	durationString := fmt.Sprintf("%ds%dns", dur.seconds, dur.nanoseconds)
+	duration := time.Duration(math.MaxInt64)
 
-	duration, err := time.ParseDuration(durationString)
-
-	if err != nil {
-		panic(err)
+	if dur.seconds < U64(math.MaxInt64/time.Second) {
+		duration = time.Duration(dur.seconds)*time.Second + time.Duration(dur.nanoseconds)
 	}
 
 	time.Sleep(duration)
-- 
2.43.0


From 60058dc5e4ca2d65a873e95c989c40a57d97ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 39/51] fix: awaiting a future again returned a zero value

---
 gokio/gokio.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..3a21224 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -1,13 +1,23 @@
 package gokio
 
-import "github.com/myyrakle/gost"
+import (
+	"sync"
+
+	"github.com/myyrakle/gost"
+)
 
 type gokioFuture[T any] struct {
-	ch chan T
+	ch    chan T
+	once  sync.Once
+	value T
 }
 
 func (self *gokioFuture[T]) Await() T {
-	return <-self.ch
+	self.once.Do(func() {
+		self.value = <-self.ch
+	})
+
+	return self.value
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-- 
2.43.0


From 5ce599903fd4f205cbd6912d44c05dd188be9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 40/51] fix: Read and ReadToString returned zero bytes after a
 short read

---
 fs.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/fs.go b/fs.go
index 6f224e2..323af78 100644
--- a/fs.go
+++ b/fs.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -85,15 +86,7 @@ func Read(path String) Result[[]Byte] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -185,15 +178,7 @@ func ReadToString(path String) Result[String] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From cd7726f71b6b50ac5225fccf0225169f15beb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 41/51] fix: Copy made a hard link instead of a copy

---
 fs.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 323af78..e6284a0 100644
--- a/fs.go
+++ b/fs.go
@@ -159,7 +159,25 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	stat, err := os.Stat(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	data, err := os.ReadFile(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.WriteFile(string(to), data, stat.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.Chmod(string(to), stat.Mode().Perm())
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From d59df168a1a084120719e72af6f6e6feeb933dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 42/51] fix: ReadDir put an empty entry in front for every real
 one

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index e6284a0..3ac9f32 100644
--- a/fs.go
+++ b/fs.go
@@ -130,7 +130,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From bc27317190c15cac87c16db218c483b580729a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 43/51] fix: ReadDir reported every entry as a file

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 3ac9f32..f2fb6c6 100644
--- a/fs.go
+++ b/fs.go
@@ -135,11 +135,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From d6abafafb834f2d3eaa0e108c834079e911d386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 44/51] fix: Write ignored a failure to close the file

---
 fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index f2fb6c6..6e87f73 100644
--- a/fs.go
+++ b/fs.go
@@ -36,8 +36,6 @@ func Write(path String, data []Byte) Result[any] {
 		return Err[any](err)
 	}
 
-	defer file.Close()
-
 	casted := []byte{}
 
 	for _, b := range data {
@@ -46,6 +44,10 @@ func Write(path String, data []Byte) Result[any] {
 
 	_, err = file.Write([]byte(casted))
 
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
 	if err != nil {
 		return Err[any](err)
 	} else {
-- 
2.43.0


From 39db06cdde8ec1d38f5caf3aee192da7f2ccaf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 45/51] fix: RemoveDir removed files and RemoveFile removed
 directories

---
 fs.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index 6e87f73..9c5c109 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -19,7 +20,15 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err == nil && !stat.IsDir() {
+		err = &os.PathError{Op: "remove", Path: string(path), Err: syscall.ENOTDIR}
+	}
+
+	if err == nil {
+		err = os.Remove(string(path))
+	}
 
 	if err != nil {
 		return Err[any](err)
@@ -57,7 +66,15 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err == nil && stat.IsDir() {
+		err = &os.PathError{Op: "remove", Path: string(path), Err: syscall.EISDIR}
+	}
+
+	if err == nil {
+		err = os.Remove(string(path))
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 90c25b15bcf0580d029613419540821e78744c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 46/51] fix: Stdin.ReadLine replaced the buffer and stopped at
 the first blank

---
 io.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..0242ae1 100644
--- a/io.go
+++ b/io.go
@@ -1,7 +1,9 @@
 package gost
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -82,7 +84,23 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	b := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(b)
+
+		if n > 0 {
+			if b[0] == '\n' {
+				break
+			}
+			line = append(line, b[0])
+		}
+
+		if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(bytes.TrimSuffix(line, []byte("\r")))
 }
-- 
2.43.0


From 0a1d70d90221565d5b6f30ec0310f84ec77ec2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 47/51] fix: cloning a VecDeque of VecDeques shared the inner
 elements

---
 vec_deque.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 059aa7d..e2502ad 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -868,6 +868,9 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 		clone := castToClone(e)
 		if clone.IsSome() {
 			e = clone.Unwrap().Clone()
+		} else if clone, ok := any(e).(interface{ Clone() *T }); ok {
+			// VecDeque itself clones to a pointer
+			e = *clone.Clone()
 		}
 		cloned.PushBack(e)
 	}
-- 
2.43.0


From a04f75b5aed24587987206e485f9d4c8e7160795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:18 +0000
Subject: [PATCH 48/51] fix: assertions format their message with the arguments
 that follow it, also when it is a plain string

---
 panic.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,11 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
+			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
 			}
 		}
 
@@ -31,11 +35,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +56,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From a74d5b5c651650af43ae725ad0109499a14bce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:35 +0000
Subject: [PATCH 49/51] fix: Pair's text methods return String, so a pair
 implements Display and ToString

---
 pair.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pair.go b/pair.go
index 93a94d0..b58cb22 100644
--- a/pair.go
+++ b/pair.go
@@ -9,7 +9,7 @@ type Pair[K any, V any] struct {
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) ToString() string {
+func (p Pair[K, V]) ToString() String {
 	keyToString := castToToString[K](p.Key)
 	valueToString := castToToString[V](p.Value)
 
@@ -28,16 +28,16 @@ func (p Pair[K, V]) ToString() string {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
 
-	return fmt.Sprintf("Pair[%s, %s]", key, value)
+	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) Display() string {
+func (p Pair[K, V]) Display() String {
 	return p.ToString()
 }
 
 // impl Debug for Pair
-func (p Pair[K, V]) Debug() string {
+func (p Pair[K, V]) Debug() String {
 	return p.ToString()
 }
 
-- 
2.43.0


From 7c07478160c250e954fb190560068bd26a01caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 50/51] fix: panics about a missing method name the element's
 type, also when it is not a pointer

---
 utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index eb94c60..af290bd 100644
--- a/utils.go
+++ b/utils.go
@@ -3,7 +3,13 @@ package gost
 import "reflect"
 
 func getTypeName[T any](value T) string {
-	return reflect.TypeOf(value).Elem().Name()
+	valueType := reflect.TypeOf(&value).Elem()
+
+	if valueType.Kind() == reflect.Pointer {
+		valueType = valueType.Elem()
+	}
+
+	return valueType.Name()
 }
 
 func _Swap[T any](lhs *T, rhs *T) {
-- 
2.43.0


From b7d8e3af8b7755227fcace2bf261577a6a9ff870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:09 +0000
Subject: [PATCH 51/51] fix: Vec.Contains and Vec.Dedup compare elements by
 their own Eq

---
 vec.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vec.go b/vec.go
index 79e1b75..3d6ecc0 100644
--- a/vec.go
+++ b/vec.go
@@ -194,6 +194,14 @@ func (self *Vec[T]) DedupByKey(key func(T) any) {
 	self.data = newData
 }
 
+// elements are compared by their own Eq, if they have one
+func _IsSame[T any](lhs T, rhs T) bool {
+	if eq, ok := any(lhs).(Eq[T]); ok {
+		return bool(eq.Eq(rhs))
+	}
+	return reflect.DeepEqual(lhs, rhs)
+}
+
 // Removes consecutive repeated elements in the vector according to the PartialEq trait implementation.
 // If the vector is sorted, this removes all duplicates.
 //
@@ -212,7 +220,7 @@ func (self *Vec[T]) Dedup() {
 	prev := 0
 
 	for i := 1; i < len(self.data); i++ {
-		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
+		if !_IsSame(self.data[prev], self.data[i]) {
 			prev++
 			self.data[prev] = self.data[i]
 		}
@@ -320,7 +328,7 @@ func (self *Vec[T]) Reverse() {
 //	gost.Assert(!vec.Contains(4))
 func (self Vec[T]) Contains(value T) Bool {
 	for _, v := range self.data {
-		if reflect.DeepEqual(v, value) {
+		if _IsSame(v, value) {
 			return true
 		}
 	}
-- 
2.43.0

