From 9da5aff96fa755c7c30c0b1461f4e9c2f9d22d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 01/13] fix: public-key LWE encryption overwrites the mask of
 its output

PublicEncryptor.EncryptLWEBody accumulated into ct.Value[1:], so encrypting into a used ciphertext gave a wrong ciphertext.
---
 tfhe/lwe_enc_public.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..e8b9524 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -47,6 +47,7 @@ func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
 		ctGLWE[i] = poly.Poly[T]{Coeffs: ct.Value[1+i*e.Params.polyRank : 1+(i+1)*e.Params.polyRank]}
 	}
 
+	vec.Fill(ct.Value[1:], 0)
 	for i := 0; i < e.Params.glweRank; i++ {
 		for j := 0; j < e.Params.glweRank; j++ {
 			e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ctGLWE[j], e.PublicKey.LWEKey.Value[i].Value[j+1], e.buf.auxFourierKey.Value[i])
-- 
2.43.0


From aab965a0ad49c2a214e7b1312fb382c5145e4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 02/13] fix: public-key GLWE encryption overwrites the mask of
 its output

PublicEncryptor.EncryptGLWEBody accumulated into ct.Value[1:], so encrypting into a used ciphertext gave a wrong ciphertext.
---
 tfhe/glwe_enc_public.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..188f012 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -36,6 +36,7 @@ func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
 
 	e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[0], e.PublicKey.GLWEKey.Value[0].Value[0], e.buf.auxFourierKey.Value[0])
 	for j := 1; j < e.Params.glweRank+1; j++ {
+		ct.Value[j].Clear()
 		e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
 	}
 	for i := 1; i < e.Params.glweRank; i++ {
-- 
2.43.0


From 566279ec1f8be4e4514f53fc8d34b03d890191ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 03/13] fix: CMuxTo reads ct1 before writing ctOut

With ctOut equal to ct1, CMuxTo returned ct0 whatever the selector was.
---
 tfhe/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/product.go b/tfhe/product.go
index 9c74e78..7fd9990 100644
--- a/tfhe/product.go
+++ b/tfhe/product.go
@@ -315,7 +315,7 @@ func (e *Evaluator[T]) CMux(ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphert
 // CMuxTo computes the mux gate between ctFFTGGSW, ct0 and ct1: so ctOut = ct0 + ctFFTGGSW * (ct1 - ct0) and writes it to ctOut.
 // CMux essentially acts as an if clause; if ctFFTGGSW = 0, ct0 is returned, and if ctFFTGGSW = 1, ct1 is returned.
 func (e *Evaluator[T]) CMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
-	ctOut.CopyFrom(ct0)
 	e.SubGLWETo(e.buf.ctCMux, ct1, ct0)
+	ctOut.CopyFrom(ct0)
 	e.ExternalProdAddGLWETo(ctOut, ctFFTGGSW, e.buf.ctCMux)
 }
-- 
2.43.0


From 34b1f9f4c5db3796a47dc592711455a14edebba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 04/13] fix: mktfhe Decryptor.SafeCopy does not share its
 buffer

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..e44d0a3 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From 996c03aea9f4250064f101c2b5af9758d6515f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 05/13] fix: mktfhe NewDecryptor has a slot for every party

With fewer keys than parties, NewDecryptor or AddSecretKey indexed out of range.
---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index e44d0a3..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 6ef90ff6b3d42d57ebac700eb5862a9e6d77048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 06/13] fix: mktfhe ExternalProdSubGLWETo subtracts all of the
 product

The body part of the relinearisation was added instead of subtracted.
---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From 1882505f0b97bf0a11b6658ae1b9dfa28d1c4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 07/13] fix: CopyFrom of mktfhe uni-encryptions copies the
 gadget parameters

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From a09630690c13cc256d8ed28766e9e41b29f3d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 08/13] fix: BFV TensorTo writes its output and RelinearizeTo
 reads its input

Both worked on an internal buffer instead of the ciphertext they were given.
---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From de9324aec07d4be4fe1c20e66d251f195b7f0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 09/13] fix: mktfhe XOR and XNOR use the offset of 1/4

The inputs are doubled, so the offset has to be 1/4 as in package tfhe; with 1/8 the phases were off the middle of the half torus and the noise margin was halved.
---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0


From ffbe004c1f5f1c8fb87146aa951f27b8f9312caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 10/13] fix: mktfhe FFTGLWECiphertext counts the bytes of a
 failed header

WriteTo and ReadFrom forgot the bytes before the failing field.
---
 mktfhe/fft_glwe_marshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..16011a6 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
-- 
2.43.0


From 69026e3f5466ae00a58ca24578e801d340d835fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 11/13] fix: mktfhe encryptors reject every index that is not a
 party

---
 mktfhe/encryptor.go        | 4 ++--
 mktfhe/encryptor_public.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mktfhe/encryptor.go b/mktfhe/encryptor.go
index c3b8a08..d67323e 100644
--- a/mktfhe/encryptor.go
+++ b/mktfhe/encryptor.go
@@ -50,7 +50,7 @@ type encryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewEncryptor creates a new [Encryptor].
 func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte) *Encryptor[T] {
-	if idx > params.partyCount {
+	if idx < 0 || idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
@@ -83,7 +83,7 @@ func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte
 //
 // Panics if the index is larger than PartyCount.
 func NewEncryptorWithKey[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte, sk tfhe.SecretKey[T]) *Encryptor[T] {
-	if idx > params.partyCount {
+	if idx < 0 || idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
diff --git a/mktfhe/encryptor_public.go b/mktfhe/encryptor_public.go
index 4f54509..842d9c6 100644
--- a/mktfhe/encryptor_public.go
+++ b/mktfhe/encryptor_public.go
@@ -39,7 +39,7 @@ type publicEncryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewPublicEncryptor creates a new [PublicEncryptor].
 func NewPublicEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, publicKey tfhe.PublicKey[T]) *PublicEncryptor[T] {
-	if idx > params.partyCount {
+	if idx < 0 || idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
-- 
2.43.0


From 8d4c202ac67a75ef6cd4fd89936faa5de231315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 12/13] fix: LWESecretKey.ReadFrom counts the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From 0dfa4ac4bdfebf6399aa98599702934db7c79e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:46 +0000
Subject: [PATCH 13/13] fix: FFT keys and ciphertexts count the bytes of a
 failed header

---
 tfhe/fft_glwe_marshal.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..be62323 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0

