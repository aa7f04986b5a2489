package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// An LWE encryption has a fresh uniform mask a and the body
// message - <a, s> + e with a fresh error e.

func (e *Encryptor[T]) vspecEncryptLWEBody(ct LWECiphertext[T]) {
	e.UniformSampler.SampleVecTo(ct.Value[1:])
	key := e.DefaultLWESecretKey().Value
	for i := 1; i < len(ct.Value); i++ {
		ct.Value[0] -= ct.Value[i] * key[i-1]
	}
	ct.Value[0] += e.GaussianSampler.Sample(e.Params.DefaultLWEStdDevQ())
}

func (e *Encryptor[T]) vspecEncryptLWEPlaintextTo(ctOut LWECiphertext[T], pt LWEPlaintext[T]) {
	ctOut.Value[0] = pt.Value
	e.EncryptLWEBody(ctOut)
}

func (e *Encryptor[T]) vspecEncryptLWETo(ctOut LWECiphertext[T], message int) {
	e.EncryptLWEPlaintextTo(ctOut, e.EncodeLWE(message))
}

func (e *Encryptor[T]) vspecDecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
	key := e.DefaultLWESecretKey().Value
	x := ct.Value[0]
	for i := 1; i < len(ct.Value); i++ {
		x += ct.Value[i] * key[i-1]
	}
	return LWEPlaintext[T]{Value: x}
}

func (e *Encryptor[T]) vspecDecryptLWE(ct LWECiphertext[T]) int {
	return e.Encoder.DecodeLWE(e.DecryptLWEPhase(ct))
}

// The i-th part of a Lev encryption of c encrypts c * Q / B^(i+1).

func (e *Encryptor[T]) vspecEncryptLevScalarTo(ctOut LevCiphertext[T], c T) {
	for i := 0; i < ctOut.GadgetParams.level; i++ {
		ctOut.Value[i].Value[0] = c * ctOut.GadgetParams.BaseQ(i)
		e.EncryptLWEBody(ctOut.Value[i])
	}
}

func (e *Encryptor[T]) vspecEncryptLevTo(ctOut LevCiphertext[T], message int) {
	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
}

func (e *Encryptor[T]) vspecDecryptLevScalar(ct LevCiphertext[T]) T {
	return num.DivRoundBits(e.DecryptLWEPhase(ct.Value[0]).Value, ct.GadgetParams.LogBaseQ(0)) % ct.GadgetParams.base
}

func (e *Encryptor[T]) vspecDecryptLev(ct LevCiphertext[T]) int {
	return int(e.DecryptLevScalar(ct) % e.Params.messageModulus)
}

// The parts of a GSW encryption of c encrypt c, c*s[0], c*s[1], ...

func (e *Encryptor[T]) vspecEncryptGSWScalarTo(ctOut GSWCiphertext[T], c T) {
	key := e.DefaultLWESecretKey().Value
	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
		for j := 0; j < ctOut.GadgetParams.level; j++ {
			m := c
			if i > 0 {
				m = c * key[i-1]
			}
			ctOut.Value[i].Value[j].Value[0] = m * ctOut.GadgetParams.BaseQ(j)
			e.EncryptLWEBody(ctOut.Value[i].Value[j])
		}
	}
}

func (e *Encryptor[T]) vspecEncryptGSWTo(ctOut GSWCiphertext[T], message int) {
	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
}

func (e *Encryptor[T]) vspecDecryptGSWScalar(ct GSWCiphertext[T]) T {
	return e.DecryptLevScalar(ct.Value[0])
}

func (e *Encryptor[T]) vspecDecryptGSW(ct GSWCiphertext[T]) int {
	return e.DecryptLev(ct.Value[0])
}

// A GLWE encryption has fresh uniform masks a_i and the body
// message - sum a_i*s_i + e with a fresh error e.

func (e *Encryptor[T]) vspecEncryptGLWEBody(ct GLWECiphertext[T]) {
	for i := 0; i < e.Params.glweRank; i++ {
		e.UniformSampler.SamplePolyTo(ct.Value[i+1])
	}
	for i := 0; i < e.Params.glweRank; i++ {
		e.PolyEvaluator.ShortFFTPolyMulSubPolyTo(ct.Value[0], ct.Value[i+1], e.SecretKey.FFTGLWEKey.Value[i])
	}
	e.GaussianSampler.SamplePolyAddTo(ct.Value[0], e.Params.GLWEStdDevQ())
}

func (e *Encryptor[T]) vspecEncryptGLWEPlaintextTo(ctOut GLWECiphertext[T], pt GLWEPlaintext[T]) {
	for i := range pt.Value.Coeffs {
		ctOut.Value[0].Coeffs[i] = pt.Value.Coeffs[i]
	}
	e.EncryptGLWEBody(ctOut)
}

func (e *Encryptor[T]) vspecEncryptGLWETo(ctOut GLWECiphertext[T], messages []int) {
	e.EncryptGLWEPlaintextTo(ctOut, e.EncodeGLWE(messages))
}

func (e *Encryptor[T]) vspecDecryptGLWEPhaseTo(ptOut GLWEPlaintext[T], ct GLWECiphertext[T]) {
	for i := range ptOut.Value.Coeffs {
		ptOut.Value.Coeffs[i] = ct.Value[0].Coeffs[i]
	}
	for i := 0; i < e.Params.glweRank; i++ {
		e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ptOut.Value, ct.Value[i+1], e.SecretKey.FFTGLWEKey.Value[i])
	}
}

func (e *Encryptor[T]) vspecDecryptGLWETo(messagesOut []int, ct GLWECiphertext[T]) {
	e.DecodeGLWETo(messagesOut, e.DecryptGLWEPhase(ct))
}

func (e *Encryptor[T]) vspecDecryptGLWE(ct GLWECiphertext[T]) []int {
	return e.DecodeGLWE(e.DecryptGLWEPhase(ct))
}

func vmessage15[T TorusInt](e *Encryptor[T], messages []int) poly.Poly[T] {
	p := poly.NewPoly[T](e.Params.polyRank)
	for i := range p.Coeffs {
		if i < len(messages) {
			p.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
		}
	}
	return p
}

// The i-th part of a GLev encryption of p encrypts p * Q / B^(i+1).

func (e *Encryptor[T]) vspecEncryptGLevPolyTo(ctOut GLevCiphertext[T], p poly.Poly[T]) {
	for i := 0; i < ctOut.GadgetParams.level; i++ {
		for j := range p.Coeffs {
			ctOut.Value[i].Value[0].Coeffs[j] = p.Coeffs[j] * ctOut.GadgetParams.BaseQ(i)
		}
		e.EncryptGLWEBody(ctOut.Value[i])
	}
}

func (e *Encryptor[T]) vspecEncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
	e.EncryptGLevPolyTo(ctOut, vmessage15(e, messages))
}

func (e *Encryptor[T]) vspecDecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]) {
	e.DecryptGLWEPhaseTo(GLWEPlaintext[T]{Value: pOut}, ct.Value[0])
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogBaseQ(0)) % ct.GadgetParams.base
	}
}

func (e *Encryptor[T]) vspecDecryptGLevTo(messagesOut []int, ct GLevCiphertext[T]) {
	p := e.DecryptGLevPoly(ct)
	for i := range messagesOut {
		if i < e.Params.polyRank {
			messagesOut[i] = int(p.Coeffs[i] % e.Params.messageModulus)
		}
	}
}

func (e *Encryptor[T]) vspecEncryptGGSWPolyTo(ctOut GGSWCiphertext[T], p poly.Poly[T]) {
	for i := 0; i < e.Params.glweRank+1; i++ {
		m := poly.NewPoly[T](e.Params.polyRank)
		if i == 0 {
			m.CopyFrom(p)
		} else {
			e.PolyEvaluator.ShortFFTPolyMulPolyTo(m, p, e.SecretKey.FFTGLWEKey.Value[i-1])
		}
		for j := 0; j < ctOut.GadgetParams.level; j++ {
			for k := range m.Coeffs {
				ctOut.Value[i].Value[j].Value[0].Coeffs[k] = m.Coeffs[k] * ctOut.GadgetParams.BaseQ(j)
			}
			e.EncryptGLWEBody(ctOut.Value[i].Value[j])
		}
	}
}

func (e *Encryptor[T]) vspecEncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
	e.EncryptGGSWPolyTo(ctOut, vmessage15(e, messages))
}

func (e *Encryptor[T]) vspecEncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
	ctOut := NewGGSWCiphertext(e.Params, gadgetParams)
	e.EncryptGGSWPolyTo(ctOut, vmessage15(e, messages))
	return ctOut
}

func (e *Encryptor[T]) vspecDecryptGGSWTo(messagesOut []int, ct GGSWCiphertext[T]) {
	e.DecryptGLevTo(messagesOut, ct.Value[0])
}

func (e *Encryptor[T]) vspecDecryptGGSWPolyTo(pOut poly.Poly[T], ct GGSWCiphertext[T]) {
	e.DecryptGLevPolyTo(pOut, ct.Value[0])
}
