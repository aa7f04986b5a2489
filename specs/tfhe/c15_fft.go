package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// The FFT forms of an encryption are the transforms of an encryption.

func (e *Encryptor[T]) vspecEncryptFFTGLWEPlaintextTo(ctOut FFTGLWECiphertext[T], pt GLWEPlaintext[T]) {
	ct := NewGLWECiphertext(e.Params)
	e.EncryptGLWEPlaintextTo(ct, pt)
	e.FwdFFTGLWECiphertextTo(ctOut, ct)
}

func (e *Encryptor[T]) vspecEncryptFFTGLWETo(ctOut FFTGLWECiphertext[T], messages []int) {
	e.EncryptFFTGLWEPlaintextTo(ctOut, e.EncodeGLWE(messages))
}

func (e *Encryptor[T]) vspecDecryptFFTGLWEPhaseTo(ptOut GLWEPlaintext[T], ct FFTGLWECiphertext[T]) {
	e.DecryptGLWEPhaseTo(ptOut, e.InvFFTGLWECiphertext(ct))
}

func (e *Encryptor[T]) vspecDecryptFFTGLWETo(messagesOut []int, ct FFTGLWECiphertext[T]) {
	e.DecodeGLWETo(messagesOut, e.DecryptFFTGLWEPhase(ct))
}

func (e *Encryptor[T]) vspecDecryptFFTGLWE(ct FFTGLWECiphertext[T]) []int {
	return e.DecodeGLWE(e.DecryptFFTGLWEPhase(ct))
}

func (e *Encryptor[T]) vspecEncryptFFTGLevPolyTo(ctOut FFTGLevCiphertext[T], p poly.Poly[T]) {
	for i := 0; i < ctOut.GadgetParams.level; i++ {
		ct := NewGLWECiphertext(e.Params)
		for j := range p.Coeffs {
			ct.Value[0].Coeffs[j] = p.Coeffs[j] * ctOut.GadgetParams.BaseQ(i)
		}
		e.EncryptGLWEBody(ct)
		e.FwdFFTGLWECiphertextTo(ctOut.Value[i], ct)
	}
}

func (e *Encryptor[T]) vspecEncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
	e.EncryptFFTGLevPolyTo(ctOut, vmessage15(e, messages))
}

func (e *Encryptor[T]) vspecDecryptFFTGLevPolyTo(pOut poly.Poly[T], ct FFTGLevCiphertext[T]) {
	e.DecryptFFTGLWEPhaseTo(GLWEPlaintext[T]{Value: pOut}, ct.Value[0])
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogBaseQ(0)) % ct.GadgetParams.base
	}
}

func (e *Encryptor[T]) vspecDecryptFFTGLevTo(messagesOut []int, ct FFTGLevCiphertext[T]) {
	p := e.DecryptFFTGLevPoly(ct)
	for i := range messagesOut {
		if i < e.Params.polyRank {
			messagesOut[i] = int(p.Coeffs[i] % e.Params.messageModulus)
		}
	}
}

func (e *Encryptor[T]) vspecEncryptFFTGGSWPolyTo(ctOut FFTGGSWCiphertext[T], p poly.Poly[T]) {
	for i := 0; i < e.Params.glweRank+1; i++ {
		m := poly.NewPoly[T](e.Params.polyRank)
		if i == 0 {
			m.CopyFrom(p)
		} else {
			e.PolyEvaluator.ShortFFTPolyMulPolyTo(m, p, e.SecretKey.FFTGLWEKey.Value[i-1])
		}
		for j := 0; j < ctOut.GadgetParams.level; j++ {
			ct := NewGLWECiphertext(e.Params)
			for k := range m.Coeffs {
				ct.Value[0].Coeffs[k] = m.Coeffs[k] * ctOut.GadgetParams.BaseQ(j)
			}
			e.EncryptGLWEBody(ct)
			e.FwdFFTGLWECiphertextTo(ctOut.Value[i].Value[j], ct)
		}
	}
}

func (e *Encryptor[T]) vspecEncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
	e.EncryptFFTGGSWPolyTo(ctOut, vmessage15(e, messages))
}

func (e *Encryptor[T]) vspecDecryptFFTGGSWTo(ct FFTGGSWCiphertext[T], messagesOut []int) {
	e.DecryptFFTGLevTo(messagesOut, ct.Value[0])
}

func (e *Encryptor[T]) vspecDecryptFFTGGSWPolyTo(ct FFTGGSWCiphertext[T], pOut poly.Poly[T]) {
	e.DecryptFFTGLevPolyTo(pOut, ct.Value[0])
}

// A public-key encryption multiplies the public key by fresh binary masks u
// and adds fresh errors.

func (e *PublicEncryptor[T]) vspecEncryptGLWEBody(ct GLWECiphertext[T]) {
	u := NewGLWESecretKey(e.Params)
	for i := 0; i < e.Params.glweRank; i++ {
		e.BinarySampler.SamplePolyTo(u.Value[i])
	}
	fu := e.FwdFFTGLWESecretKey(u)
	for j := 1; j < e.Params.glweRank+1; j++ {
		ct.Value[j].Clear()
	}
	for j := 0; j < e.Params.glweRank+1; j++ {
		for i := 0; i < e.Params.glweRank; i++ {
			e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[i].Value[j], fu.Value[i])
		}
	}
	for j := 0; j < e.Params.glweRank+1; j++ {
		e.GaussianSampler.SamplePolyAddTo(ct.Value[j], e.Params.GLWEStdDevQ())
	}
}

func (e *PublicEncryptor[T]) vspecEncryptGLWEPlaintextTo(ctOut GLWECiphertext[T], pt GLWEPlaintext[T]) {
	for i := range pt.Value.Coeffs {
		ctOut.Value[0].Coeffs[i] = pt.Value.Coeffs[i]
	}
	e.EncryptGLWEBody(ctOut)
}

func (e *PublicEncryptor[T]) vspecEncryptGLWETo(ctOut GLWECiphertext[T], messages []int) {
	e.EncryptGLWEPlaintextTo(ctOut, e.EncodeGLWE(messages))
}

func (e *PublicEncryptor[T]) vspecEncryptLWEPlaintextTo(ctOut LWECiphertext[T], pt LWEPlaintext[T]) {
	ctOut.Value[0] = pt.Value
	e.EncryptLWEBody(ctOut)
}

func (e *PublicEncryptor[T]) vspecEncryptLWETo(ctOut LWECiphertext[T], message int) {
	e.EncryptLWEPlaintextTo(ctOut, e.EncodeLWE(message))
}

func (e *PublicEncryptor[T]) vspecEncryptLWEBody(ct LWECiphertext[T]) {
	k, n := e.Params.glweRank, e.Params.polyRank
	u := NewGLWESecretKey(e.Params)
	r := NewGLWESecretKey(e.Params)
	for i := 0; i < k; i++ {
		e.BinarySampler.SamplePolyTo(u.Value[i])
		for j := 0; j < n; j++ {
			ct.Value[0] += u.Value[i].Coeffs[j] * e.PublicKey.LWEKey.Value[i].Value[0].Coeffs[j]
			r.Value[i].Coeffs[j] = u.Value[i].Coeffs[n-1-j]
		}
	}
	ct.Value[0] += e.GaussianSampler.Sample(e.Params.GLWEStdDevQ())
	fr := e.FwdFFTGLWESecretKey(r)
	for i := 1; i < len(ct.Value); i++ {
		ct.Value[i] = 0
	}
	for j := 0; j < k; j++ {
		row := poly.Poly[T]{Coeffs: ct.Value[1+j*n : 1+j*n+n]}
		for i := 0; i < k; i++ {
			e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(row, e.PublicKey.LWEKey.Value[i].Value[j+1], fr.Value[i])
		}
		e.GaussianSampler.SamplePolyAddTo(row, e.Params.GLWEStdDevQ())
	}
}
