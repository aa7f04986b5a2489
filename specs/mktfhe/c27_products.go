package mktfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// vdigits27 are the transformed digits of p.
func vdigits27[T tfhe.TorusInt](e *Evaluator[T], p poly.Poly[T], gp tfhe.GadgetParameters[T]) []poly.FFTPoly {
	d := e.Decomposer.DecomposePoly(p, gp)
	fd := make([]poly.FFTPoly, gp.Level())
	for i := 0; i < gp.Level(); i++ {
		fd[i] = e.PolyEvaluator.FwdFFT(d[i])
	}
	return fd
}

// vhybridSub27 is the sum over the parties of their component times their
// public key, under the key of party idx.
func vhybridSub27[T tfhe.TorusInt](e *Evaluator[T], idx int, uni FFTUniEncryption[T], ct GLWECiphertext[T]) []poly.FFTPoly {
	s := e.PolyEvaluator.NewFFTPoly()
	d0 := vdigits27(e, ct.Value[0], uni.GadgetParams)
	for j := 0; j < uni.GadgetParams.Level(); j++ {
		e.PolyEvaluator.MulSubFFTPolyTo(s, e.EvalKey[idx].CRSPublicKey.Value[j].Value[1], d0[j])
	}
	for i, ok := range e.PartyBitMap {
		if ok {
			d := vdigits27(e, ct.Value[i+1], uni.GadgetParams)
			for j := 0; j < uni.GadgetParams.Level(); j++ {
				e.PolyEvaluator.MulAddFFTPolyTo(s, e.EvalKey[i].CRSPublicKey.Value[j].Value[0], d[j])
			}
		}
	}
	return vdigits27(e, e.PolyEvaluator.InvFFT(s), uni.GadgetParams)
}

// vhybrid27 is component k of the hybrid product.
func vhybrid27[T tfhe.TorusInt](e *Evaluator[T], idx int, uni FFTUniEncryption[T], ct GLWECiphertext[T], k int) poly.Poly[T] {
	s := e.PolyEvaluator.NewFFTPoly()
	d := vdigits27(e, ct.Value[k], uni.GadgetParams)
	for j := 0; j < uni.GadgetParams.Level(); j++ {
		e.PolyEvaluator.MulAddFFTPolyTo(s, uni.Value[0].Value[j].Value[0], d[j])
	}
	if k == 0 {
		sub := vhybridSub27(e, idx, uni, ct)
		for j := 0; j < uni.GadgetParams.Level(); j++ {
			e.PolyEvaluator.MulAddFFTPolyTo(s, uni.Value[1].Value[j].Value[0], sub[j])
		}
	}
	if k == idx+1 {
		sub := vhybridSub27(e, idx, uni, ct)
		for j := 0; j < uni.GadgetParams.Level(); j++ {
			e.PolyEvaluator.MulAddFFTPolyTo(s, uni.Value[1].Value[j].Value[1], sub[j])
		}
	}
	return e.PolyEvaluator.InvFFT(s)
}

func (e *Evaluator[T]) vspecHybridProdGLWETo(idx int, ctFFTUniEnc FFTUniEncryption[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	ctGLWEOut.Value[0].CopyFrom(vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, 0))
	for i, ok := range e.PartyBitMap {
		if ok {
			ctGLWEOut.Value[i+1].CopyFrom(vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, i+1))
		} else {
			ctGLWEOut.Value[i+1].Clear()
		}
	}
}

func (e *Evaluator[T]) vspecHybridProdAddGLWETo(idx int, ctFFTUniEnc FFTUniEncryption[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, 0))
	for i, ok := range e.PartyBitMap {
		if ok {
			e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, i+1))
		}
	}
}

func (e *Evaluator[T]) vspecHybridProdSubGLWETo(idx int, ctFFTUniEnc FFTUniEncryption[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	e.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, 0))
	for i, ok := range e.PartyBitMap {
		if ok {
			e.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], vhybrid27(e, idx, ctFFTUniEnc, ctGLWE, i+1))
		}
	}
}

// vrelin27 holds the second components of the products with each component.
func vrelin27[T tfhe.TorusInt](e *Evaluator[T], ctFFTGLev tfhe.FFTGLevCiphertext[T], ct GLWECiphertext[T], c int) GLWECiphertext[T] {
	r := NewGLWECiphertext(e.Params)
	for k := range r.Value {
		d := vdigits27(e, ct.Value[k], ctFFTGLev.GadgetParams)
		s := e.PolyEvaluator.NewFFTPoly()
		for j := 0; j < ctFFTGLev.GadgetParams.Level(); j++ {
			e.PolyEvaluator.MulAddFFTPolyTo(s, ctFFTGLev.Value[j].Value[c], d[j])
		}
		e.PolyEvaluator.InvFFTTo(r.Value[k], s)
	}
	return r
}

func (e *Evaluator[T]) vspecExternalProdGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiphertext[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	b := vrelin27(e, ctFFTGLev, ctGLWE, 0)
	e.HybridProdGLWETo(idx, e.EvalKey[idx].RelinKey, vrelin27(e, ctFFTGLev, ctGLWE, 1), ctGLWEOut)
	e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], b.Value[0])
	for i, ok := range e.PartyBitMap {
		if ok {
			e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], b.Value[i+1])
		}
	}
}

func (e *Evaluator[T]) vspecExternalProdAddGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiphertext[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	b := vrelin27(e, ctFFTGLev, ctGLWE, 0)
	e.HybridProdAddGLWETo(idx, e.EvalKey[idx].RelinKey, vrelin27(e, ctFFTGLev, ctGLWE, 1), ctGLWEOut)
	e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], b.Value[0])
	for i, ok := range e.PartyBitMap {
		if ok {
			e.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], b.Value[i+1])
		}
	}
}

func (e *Evaluator[T]) vspecExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiphertext[T], ctGLWE, ctGLWEOut GLWECiphertext[T]) {
	b := vrelin27(e, ctFFTGLev, ctGLWE, 0)
	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, vrelin27(e, ctFFTGLev, ctGLWE, 1), ctGLWEOut)
	e.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], b.Value[0])
	for i, ok := range e.PartyBitMap {
		if ok {
			e.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], b.Value[i+1])
		}
	}
}
