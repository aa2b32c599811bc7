From 87c2d61336b3647c13545c61985f4e2389533c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:57 +0000
Subject: [PATCH 1/4] fix: UnmarshalText no longer panics on texts that decode
 to more than 32 bytes

---
 ristretto.go | 4 +++-
 scalar.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..1d91786 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,15 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:n])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..4ebb1e7 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,15 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	tmp := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(tmp, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], tmp[:n])
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From e57bbf67869fa3b577599b09ce468c456b0bc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 2/4] fix: portable FieldElement.BytesInto no longer modifies
 the element it encodes

---
 edwards25519/field_generic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..9ae1fbd 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,10 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Reduce a copy: the element itself is only read.
+	ret, tmp := fe, *fe
+	fe = &tmp
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +331,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return ret
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From d61b7b72cf85c0a3cd06840e1273859c0952bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:24 +0000
Subject: [PATCH 3/4] fix: NielsPoint.Neg is correct when receiver and operand
 are the same point

---
 edwards25519/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..9534cb9 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,9 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
-	p.YMinusX.Set(&q.YPlusX)
+	yPlusX := q.YPlusX // p and q may be the same point
 	p.YPlusX.Set(&q.YMinusX)
+	p.YMinusX.Set(&yPlusX)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0


From 17bf61c9eb1f2b9b1a91fcd3866c6d6e01dde934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:54 +0000
Subject: [PATCH 4/4] fix: points and scalars passed by value are encoded by
 JSON and gob like pointers to them

MarshalText and MarshalBinary had pointer receivers, so json.Marshal of a value
(a struct field, a map element) wrote internal limbs that cannot be read back,
and gob refused it.
---
 ristretto.go | 4 ++--
 scalar.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 1d91786..b2570f9 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -348,13 +348,13 @@ func (p *Point) UnmarshalBinary(data []byte) error {
 }
 
 // Implements encoding/BinaryMarshaler. Use BytesInto, if convenient, instead.
-func (p *Point) MarshalBinary() ([]byte, error) {
+func (p Point) MarshalBinary() ([]byte, error) {
 	var buf [32]byte
 	p.BytesInto(&buf)
 	return buf[:], nil
 }
 
-func (p *Point) MarshalText() ([]byte, error) {
+func (p Point) MarshalText() ([]byte, error) {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
 	p.BytesInto(&buf)
diff --git a/scalar.go b/scalar.go
index 4ebb1e7..27ad701 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1049,13 +1049,13 @@ func (s *Scalar) UnmarshalBinary(data []byte) error {
 }
 
 // Implements encoding/BinaryMarshaler. Use BytesInto, if convenient, instead.
-func (s *Scalar) MarshalBinary() ([]byte, error) {
+func (s Scalar) MarshalBinary() ([]byte, error) {
 	var buf [32]byte
 	s.BytesInto(&buf)
 	return buf[:], nil
 }
 
-func (s *Scalar) MarshalText() ([]byte, error) {
+func (s Scalar) MarshalText() ([]byte, error) {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
 	s.BytesInto(&buf)
-- 
2.43.0

