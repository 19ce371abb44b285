From 2ae0d8887837b714c534de0cab0ac7bcab231bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 1/4] fix: generic FieldElement.BytesInto should not modify its
 receiver

It reduced the limbs of its receiver in place.  IsNegativeI, IsNonZeroI,
Equals, etc. call BytesInto, so that decoding a Point (or calling Lizard)
left coordinates with limbs too large for a following add and Mul, which
then overflowed: Add gave wrong results about one in five times.
---
 edwards25519/field_generic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..045914e 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,10 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Reduce a copy: the caller's fe should not change.
+	ret, t := fe, *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +331,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return ret
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From 46e0a1072f08c4a6de7125afdcee6efdc6691ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 2/4] fix: UnmarshalText should return an error, not panic, on
 overlong text

base64's Decode panics if the destination is too small.
---
 ristretto.go | 5 ++++-
 scalar.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..ca45175 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,16 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	// Decode panics if the buffer is too small for the decoded text.
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:32])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..d419553 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,16 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	// Decode panics if the buffer is too small for the decoded text.
+	dec := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(dec, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], dec)
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From 16c589650ca8cf7544fcd92a7d928880b0487bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 3/4] fix: Elligator inverse of zero should include sqrt(i/d)

RistrettoElligator2Inverse is documented to compute all positive field elements
that are mapped to the point, but it missed one of the preimages of zero: both
factors of the denominator vanish for some r, and for r = -1/d the element
sqrt(i/d) is mapped to zero as well.  The slot used for it contained
a duplicate.
---
 edwards25519/elligator.go     | 5 +++++
 edwards25519/field_generic.go | 6 ++++++
 edwards25519/field_radix51.go | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/edwards25519/elligator.go b/edwards25519/elligator.go
index b544cdf..a18e68d 100644
--- a/edwards25519/elligator.go
+++ b/edwards25519/elligator.go
@@ -46,6 +46,11 @@ func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) uint8 {
 		setMask |= uint8(jc.elligator2Inverse(&fes[2*j+1]) << uint(2*j+1))
 	}
 
+	// Zero has three preimages with s = 0: sqrt(i*d), 0 and sqrt(i/d).  Above
+	// we found the first two twice.
+	pIsZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())
+	fes[2].ConditionalSet(&feSqrtIOverD, pIsZero)
+
 	return setMask
 }
 
diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index 045914e..f9afd6e 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -78,6 +78,12 @@ var (
 		-1348074, -30782278, -9245017, 26167231, 1494357,
 	}
 
+	// Equal to sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		23733568, 11663665, -8339769, -16610452, 17576933,
+		-11883678, 28147949, -5559112, 9046729, 201449,
+	}
+
 	// 1 / sqrt(1+d)
 	feInvSqrt1pD = FieldElement{
 		-29089260, 4791796, 20332186, -14900950, -20532188,
diff --git a/edwards25519/field_radix51.go b/edwards25519/field_radix51.go
index 0d3b40d..9410173 100644
--- a/edwards25519/field_radix51.go
+++ b/edwards25519/field_radix51.go
@@ -79,6 +79,12 @@ var (
 		3883177008057528, 2352084440532925,
 	}
 
+	// Equal to sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		782735331960128, 1137091241098951, 1454299700540388,
+		1878734150664428, 13519022590664,
+	}
+
 	// 1/sqrt(d+1)
 	feInvSqrt1pD = FieldElement{
 		321571956990465, 1251814006996634, 2226845496292387,
-- 
2.43.0


From 69cc58a2947ea4c207124cf3100f8b2fb6a13761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:57 +0000
Subject: [PATCH 4/4] fix: NielsPoint.Neg should allow its argument to be its
 receiver

---
 edwards25519/table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..7701683 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,10 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
-	p.YMinusX.Set(&q.YPlusX)
+	var t FieldElement
+	t.Set(&q.YPlusX) // p and q may be the same
 	p.YPlusX.Set(&q.YMinusX)
+	p.YMinusX.Set(&t)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0

