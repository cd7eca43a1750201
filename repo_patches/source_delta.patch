From 3af8e327a0b64739935fd117fb77a543e2a6daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 01/20] fix: rotate the LUT by the ciphertext body in the right
 direction in extended blind rotation

---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..6686ec9 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0


From b7a8982a59e4199361fafd34dfa741e17b7727b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 02/20] fix: do not process the only block twice in extended
 blind rotation

---
 tfhe/bootstrap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 6686ec9..c9217fb 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,11 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		ctOut.CopyFrom(e.buf.ctAcc[0])
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From 131539092b0c16d77cd1887daec742bf281e609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 03/20] fix: make num.DivRound exact

---
 math/num/num.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..a586a4d 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -126,7 +126,19 @@ func Log2[T Integer](x T) int {
 
 // DivRound returns round(x/y).
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+	if r == 0 {
+		return q
+	}
+
+	if Abs(r) >= Abs(y)-Abs(r) {
+		if (x < 0) != (y < 0) {
+			q--
+		} else {
+			q++
+		}
+	}
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
-- 
2.43.0


From d4b086869b0df593ad48b875b98ccba2c0209134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 04/20] fix: make num.ModInverse correct for unsigned types

---
 math/num/num.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index a586a4d..52e2a51 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -239,11 +239,14 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	a, b := x, m
-	u, v := T(1), T(0)
+	// Only the magnitudes are tracked, so that this also works for unsigned types.
+	// The sign of u alternates.
+	u, v, neg := T(1), T(0), false
 	for b != 0 {
 		q := a / b
 		a, b = b, a-q*b
-		u, v = v, u-q*v
+		u, v = v, u+q*v
+		neg = !neg
 	}
 
 	if a != 1 {
@@ -251,8 +254,8 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	u %= m
-	if u < 0 {
-		u += m
+	if neg && u != 0 {
+		u = m - u
 	}
 	return u
 }
-- 
2.43.0


From 07e5f154b4620960124543edf9191ad74208dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 05/20] fix: avoid overflow in num.ModExp and return 0 modulo 1

---
 math/num/num.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index 52e2a51..dd50a20 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -260,6 +260,12 @@ func ModInverse[T Integer](x, m T) T {
 	return u
 }
 
+// mulMod returns x * y mod m for 0 <= x, y < m, without overflow.
+func mulMod[T Integer](x, y, m T) T {
+	hi, lo := bits.Mul64(uint64(x), uint64(y))
+	return T(bits.Rem64(hi, lo, uint64(m)))
+}
+
 // ModExp returns x^y mod m.
 // Output is always positive.
 // Panics if m <= 0.
@@ -276,7 +282,7 @@ func ModExp[T Integer](x, y, m T) T {
 		x = ModInverse(x, m)
 		y = -y
 	case y == 0:
-		return 1
+		return 1 % m
 	}
 
 	x %= m
@@ -287,9 +293,9 @@ func ModExp[T Integer](x, y, m T) T {
 	res := T(1)
 	for y > 0 {
 		if y&1 == 1 {
-			res = (res * x) % m
+			res = mulMod(res, x, m)
 		}
-		x = (x * x) % m
+		x = mulMod(x, x, m)
 		y >>= 1
 	}
 
-- 
2.43.0


From 4aeb90fd9c01a48b3aa562be2e7168646c35601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:09 +0000
Subject: [PATCH 06/20] fix: overwrite the mask in public-key encryption
 instead of adding to stale output

---
 tfhe/glwe_enc_public.go | 2 +-
 tfhe/lwe_enc_public.go  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..1ed2c67 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -36,7 +36,7 @@ func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
 
 	e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[0], e.PublicKey.GLWEKey.Value[0].Value[0], e.buf.auxFourierKey.Value[0])
 	for j := 1; j < e.Params.glweRank+1; j++ {
-		e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
+		e.PolyEvaluator.ShortFFTPolyMulPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
 	}
 	for i := 1; i < e.Params.glweRank; i++ {
 		for j := 0; j < e.Params.glweRank+1; j++ {
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..3e954b2 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -47,7 +47,10 @@ func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
 		ctGLWE[i] = poly.Poly[T]{Coeffs: ct.Value[1+i*e.Params.polyRank : 1+(i+1)*e.Params.polyRank]}
 	}
 
-	for i := 0; i < e.Params.glweRank; i++ {
+	for j := 0; j < e.Params.glweRank; j++ {
+		e.PolyEvaluator.ShortFFTPolyMulPolyTo(ctGLWE[j], e.PublicKey.LWEKey.Value[0].Value[j+1], e.buf.auxFourierKey.Value[0])
+	}
+	for i := 1; i < e.Params.glweRank; i++ {
 		for j := 0; j < e.Params.glweRank; j++ {
 			e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ctGLWE[j], e.PublicKey.LWEKey.Value[i].Value[j+1], e.buf.auxFourierKey.Value[i])
 		}
-- 
2.43.0


From d28459504c9a3a598e7f55429b17ed1887a5adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 07/20] fix: ModExp with the smallest negative exponent

Negating the minimum value of a signed type overflows, so the exponent stayed
negative and the loop never ran: ModExp returned 1.
---
 math/num/num.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index dd50a20..e2de419 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -277,10 +277,11 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
+	e := uint64(y)
 	switch {
 	case y < 0:
 		x = ModInverse(x, m)
-		y = -y
+		e = -e
 	case y == 0:
 		return 1 % m
 	}
@@ -291,12 +292,12 @@ func ModExp[T Integer](x, y, m T) T {
 	}
 
 	res := T(1)
-	for y > 0 {
-		if y&1 == 1 {
+	for e > 0 {
+		if e&1 == 1 {
 			res = mulMod(res, x, m)
 		}
 		x = mulMod(x, x, m)
-		y >>= 1
+		e >>= 1
 	}
 
 	if res < 0 {
-- 
2.43.0


From babbf291a7086cccdec5ea836aaebb96ad110f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:32 +0000
Subject: [PATCH 08/20] fix: encoding of negative and large messages with a
 message modulus not dividing Q

The message was converted to the torus type before the reduction, which
changes its residue unless the message modulus is a power of two: -1 modulo 3
was encoded as 0.
---
 tfhe/encoder.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 13d6aa1..bd5888a 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -35,11 +35,24 @@ func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
 //
 // If MessageModulus = 0, then no modulus reduction is performed.
 func (e *Encoder[T]) EncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
-	encoded := T(message)
-	if messageModulus != 0 {
-		encoded %= messageModulus
+	return LWEPlaintext[T]{Value: reduceMessage(message, messageModulus) * scale}
+}
+
+// reduceMessage returns message modulo messageModulus, in [0, messageModulus).
+// If messageModulus = 0, then no modulus reduction is performed.
+func reduceMessage[T TorusInt](message int, messageModulus T) T {
+	switch {
+	case messageModulus == 0:
+		return T(message)
+	case message >= 0:
+		return T(uint64(message) % uint64(messageModulus))
 	}
-	return LWEPlaintext[T]{Value: encoded * scale}
+
+	reduced := T(-uint64(message) % uint64(messageModulus))
+	if reduced == 0 {
+		return 0
+	}
+	return messageModulus - reduced
 }
 
 // DecodeLWE decodes LWE plaintext to integer message.
@@ -101,11 +114,7 @@ func (e *Encoder[T]) EncodeGLWECustom(messages []int, messageModulus, scale T) G
 func (e *Encoder[T]) EncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		ptOut.Value.Coeffs[i] = T(messages[i])
-		if messageModulus != 0 {
-			ptOut.Value.Coeffs[i] %= messageModulus
-		}
-		ptOut.Value.Coeffs[i] *= scale
+		ptOut.Value.Coeffs[i] = reduceMessage(messages[i], messageModulus) * scale
 	}
 	vec.Fill(ptOut.Value.Coeffs[length:], 0)
 }
-- 
2.43.0


From 4d92eaf6decb292dd3ecf4d87fc88c29a2af04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:16 +0000
Subject: [PATCH 09/20] fix: decoding with the default modulus round(Q / scale)

The modulus was computed in floating point: it overflowed for scale = 1, where
decoding panicked or returned wrong messages, and was inexact for scales that
are not powers of two.
---
 tfhe/encoder.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index bd5888a..cac6ee2 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -1,8 +1,6 @@
 package tfhe
 
 import (
-	"math"
-
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/vec"
 )
@@ -66,9 +64,20 @@ func (e *Encoder[T]) DecodeLWE(pt LWEPlaintext[T]) int {
 //
 // If MessageModulus = 0, then it is automatically set to round(Q / scale).
 func (e *Encoder[T]) DecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
-	decoded := num.DivRound(pt.Value, scale)
+	return decodeMessage(pt.Value, messageModulus, scale)
+}
+
+// decodeMessage returns round(x / scale) modulo messageModulus.
+// If messageModulus = 0, then it is automatically set to round(Q / scale).
+func decodeMessage[T TorusInt](x, messageModulus, scale T) int {
+	decoded := num.DivRound(x, scale)
 	if messageModulus == 0 {
-		messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
+		// -scale equals Q - scale, so round(Q / scale) = round((Q - scale) / scale) + 1.
+		// This overflows to zero only if scale = 1, where decoded is already reduced.
+		messageModulus = num.DivRound(-scale, scale) + 1
+		if messageModulus == 0 {
+			return int(decoded)
+		}
 	}
 	return int(decoded % messageModulus)
 }
@@ -157,10 +166,6 @@ func (e *Encoder[T]) DecodeGLWECustom(pt GLWEPlaintext[T], messageModulus, scale
 func (e *Encoder[T]) DecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T], messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messagesOut))
 	for i := 0; i < length; i++ {
-		decoded := num.DivRound(pt.Value.Coeffs[i], scale)
-		if messageModulus == 0 {
-			messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
-		}
-		messagesOut[i] = int(decoded % messageModulus)
+		messagesOut[i] = decodeMessage(pt.Value.Coeffs[i], messageModulus, scale)
 	}
 }
-- 
2.43.0


From 92aaac4fa4384e7f72f78ec597686c017be50686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 10/20] fix: LWESecretKey.ReadFrom counts the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From 8fd01d94770e0e2429e641155d4bdef128bf01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:53 +0000
Subject: [PATCH 11/20] fix: count all header bytes when reading or writing a
 Fourier value fails

---
 mktfhe/fft_glwe_marshal.go |  8 ++++----
 tfhe/fft_glwe_marshal.go   | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..16011a6 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..be62323 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From 7193351c516898eca4a2365ea319eded23e8f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:39 +0000
Subject: [PATCH 12/20] fix: reduction of negative and large messages in Lev,
 GSW, GLev, GGSW and UniEncryption

The message was converted to the torus type before the reduction, which
changes its residue unless the message modulus is a power of two.
---
 mktfhe/fft_glwe_enc.go | 8 +-------
 mktfhe/glwe_enc.go     | 8 +-------
 tfhe/fft_glwe_enc.go   | 4 ++--
 tfhe/glwe_enc.go       | 6 +++---
 tfhe/lwe_enc.go        | 8 ++++----
 5 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..ee6992f 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,12 +15,7 @@ func (e *Encryptor[T]) FFTUniEncrypt(messages []int, gadgetParams tfhe.GadgetPar
 
 // FFTUniEncryptTo encrypts integer messages to FFTUniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) FFTUniEncryptTo(ctOut FFTUniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
-
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 	e.FFTUniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
 
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..0012ea3 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,12 +15,7 @@ func (e *Encryptor[T]) UniEncrypt(messages []int, gadgetParams tfhe.GadgetParame
 
 // UniEncryptTo encrypts integer messages to UniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) UniEncryptTo(ctOut UniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
-
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 	e.UniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
 
diff --git a/tfhe/fft_glwe_enc.go b/tfhe/fft_glwe_enc.go
index cbdabeb..fd753be 100644
--- a/tfhe/fft_glwe_enc.go
+++ b/tfhe/fft_glwe_enc.go
@@ -63,7 +63,7 @@ func (e *Encryptor[T]) EncryptFFTGLev(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -129,7 +129,7 @@ func (e *Encryptor[T]) EncryptFFTGGSW(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/glwe_enc.go b/tfhe/glwe_enc.go
index 87fc490..73276ac 100644
--- a/tfhe/glwe_enc.go
+++ b/tfhe/glwe_enc.go
@@ -81,7 +81,7 @@ func (e *Encryptor[T]) EncryptGLev(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -139,7 +139,7 @@ func (e *Encryptor[T]) DecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]
 func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -150,7 +150,7 @@ func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/lwe_enc.go b/tfhe/lwe_enc.go
index d999dc7..9747a65 100644
--- a/tfhe/lwe_enc.go
+++ b/tfhe/lwe_enc.go
@@ -49,12 +49,12 @@ func (e *Encryptor[T]) DecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
 
 // EncryptLev encrypts integer message to Lev ciphertext.
 func (e *Encryptor[T]) EncryptLev(message int, gadgetParams GadgetParameters[T]) LevCiphertext[T] {
-	return e.EncryptLevScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptLevScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptLevTo encrypts integer message to Lev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptLevTo(ctOut LevCiphertext[T], message int) {
-	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptLevScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptLevScalar encrypts scalar to Lev ciphertext.
@@ -85,12 +85,12 @@ func (e *Encryptor[T]) DecryptLevScalar(ct LevCiphertext[T]) T {
 
 // EncryptGSW encrypts integer message to GSW ciphertext.
 func (e *Encryptor[T]) EncryptGSW(message int, gadgetParams GadgetParameters[T]) GSWCiphertext[T] {
-	return e.EncryptGSWScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptGSWScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptGSWTo encrypts integer message to GSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGSWTo(ctOut GSWCiphertext[T], message int) {
-	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptGSWScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptGSWScalar encrypts scalar to GSW ciphertext.
-- 
2.43.0


From 269ca63454b495e45a530f3313f30707115ddd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:40 +0000
Subject: [PATCH 13/20] fix: decryption of UniEncryption rounds a small
 negative phase to Base instead of zero

tfhe.Encryptor.DecryptGLevPoly reduces the rounded phase modulo Base; without
it a coefficient 0 with negative noise decrypts to Base, which is not 0 modulo
a message modulus not dividing Base.
---
 mktfhe/fft_glwe_enc.go | 2 +-
 mktfhe/glwe_enc.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index ee6992f..c426bed 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -81,6 +81,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 0012ea3..6356d55 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -77,6 +77,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From 8d4bd76bc6d5f53c9bbd8a8c1f9303c6986f3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 14/20] fix: multi-key Decryptor with the keys of some of the
 parties panics

The per-party slices were sized by the number of given keys and not by the
number of parties, although they are indexed by party.
---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..f02a7b9 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 8c93518e9785a04e0a7bdd3c85d213a8f9f4c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:50 +0000
Subject: [PATCH 15/20] fix: multi-key Decryptor.SafeCopy shares its buffer
 with the original

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index f02a7b9..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From 19f17ae29850534316cedb75e016decf176a55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:41 +0000
Subject: [PATCH 16/20] fix: multi-key ExternalProdSubGLWETo adds part of the
 product instead of subtracting it

---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From c5c7f0d3e9d669a1ab2fe048e37148a932d61b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:16 +0000
Subject: [PATCH 17/20] fix: offset of multi-key XOR and XNOR halves their
 noise margin

The doubled sum of the inputs is 0 or 1/2 of the torus, so the offset that
centres both values is 1/4, as in tfhe.BinaryEvaluator, and not 1/8.
---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0


From 9e7a8b2e2ebd279921ea9c21df3487bbc962f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:00 +0000
Subject: [PATCH 18/20] fix: CopyFrom of multi-key uni-encryptions keeps stale
 gadget parameters

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From 324395f9938b9c64f9131d9ea367b0024b5205ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:00 +0000
Subject: [PATCH 19/20] fix: BFV Tensor and Relinearize ignore their output and
 input ciphertexts

---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From 364ae537945b710ce46dac8c270d183fb25fb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:01 +0000
Subject: [PATCH 20/20] fix: CDT sampler tabulates the wrong range for centers
 away from zero

---
 xtfhe/sanitization_sampler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..7fbc794 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,8 +34,8 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
 	table := make([]uint64, tableSize)
-- 
2.43.0

