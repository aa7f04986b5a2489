// Code generated by tools/genspecs.py. DO NOT EDIT.

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
)

func (e *Evaluator[T]) vspecAddLWETo(ctOut, ct0, ct1 LWECiphertext[T]) {
	for i := range ctOut.Value {
		ctOut.Value[i] = ct0.Value[i] + ct1.Value[i]
	}
}

func (e *Evaluator[T]) vspecAddPlainLWETo(ctOut, ct LWECiphertext[T], pt LWEPlaintext[T]) {
	ctOut.Value[0] = ct.Value[0] + pt.Value
	for i := 1; i < len(ctOut.Value); i++ {
		ctOut.Value[i] = ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecSubLWETo(ctOut, ct0, ct1 LWECiphertext[T]) {
	for i := range ctOut.Value {
		ctOut.Value[i] = ct0.Value[i] - ct1.Value[i]
	}
}

func (e *Evaluator[T]) vspecSubPlainLWETo(ctOut, ct LWECiphertext[T], pt LWEPlaintext[T]) {
	ctOut.Value[0] = ct.Value[0] - pt.Value
	for i := 1; i < len(ctOut.Value); i++ {
		ctOut.Value[i] = ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecNegLWETo(ctOut, ct LWECiphertext[T]) {
	for i := range ctOut.Value {
		ctOut.Value[i] = -ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulLWETo(ctOut, ct LWECiphertext[T], c T) {
	for i := range ctOut.Value {
		ctOut.Value[i] = c * ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulAddLWETo(ctOut, ct LWECiphertext[T], c T) {
	for i := range ctOut.Value {
		ctOut.Value[i] += c * ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulSubLWETo(ctOut, ct LWECiphertext[T], c T) {
	for i := range ctOut.Value {
		ctOut.Value[i] -= c * ct.Value[i]
	}
}

func (e *Evaluator[T]) vspecAddGLWETo(ctOut, ct0, ct1 GLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct0.Value[i].Coeffs[j] + ct1.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecSubGLWETo(ctOut, ct0, ct1 GLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct0.Value[i].Coeffs[j] - ct1.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecNegGLWETo(ctOut, ct GLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = -ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecAddFFTGLWETo(ctOut, ct0, ct1 FFTGLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct0.Value[i].Coeffs[j] + ct1.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecSubFFTGLWETo(ctOut, ct0, ct1 FFTGLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct0.Value[i].Coeffs[j] - ct1.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecNegFFTGLWETo(ctOut, ct FFTGLWECiphertext[T]) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = -ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecAddPlainGLWETo(ctOut, ct GLWECiphertext[T], pt GLWEPlaintext[T]) {
	for j := range ctOut.Value[0].Coeffs {
		ctOut.Value[0].Coeffs[j] = ct.Value[0].Coeffs[j] + pt.Value.Coeffs[j]
	}
	for i := 1; i < len(ctOut.Value); i++ {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecSubPlainGLWETo(ctOut, ct GLWECiphertext[T], pt GLWEPlaintext[T]) {
	for j := range ctOut.Value[0].Coeffs {
		ctOut.Value[0].Coeffs[j] = ct.Value[0].Coeffs[j] - pt.Value.Coeffs[j]
	}
	for i := 1; i < len(ctOut.Value); i++ {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecScalarMulGLWETo(ctOut, ct GLWECiphertext[T], c T) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFloatMulFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c float64) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecCmplxMulFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c complex128) {
	for i := range ctOut.Value {
		e.PolyEvaluator.CmplxMulFFTPolyTo(ctOut.Value[i], ct.Value[i], c)
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPolyMulFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], p poly.Poly[T]) {
	fp := e.PolyEvaluator.FwdFFT(p)
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] = ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulGLWETo(ctOut, ct GLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		e.PolyEvaluator.FFTPolyMulPolyTo(ctOut.Value[i], ct.Value[i], fp)
	}
}

func (e *Evaluator[T]) vspecPolyMulGLWETo(ctOut, ct GLWECiphertext[T], p poly.Poly[T]) {
	for i := range ctOut.Value {
		e.PolyEvaluator.MulPolyTo(ctOut.Value[i], ct.Value[i], p)
	}
}

func (e *Evaluator[T]) vspecMonomialMulGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		e.PolyEvaluator.MonomialMulPolyTo(ctOut.Value[i], ct.Value[i], d)
	}
}

func (e *Evaluator[T]) vspecPermuteGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		e.PolyEvaluator.PermutePolyTo(ctOut.Value[i], ct.Value[i], d)
	}
}

func (e *Evaluator[T]) vspecPermuteFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		e.PolyEvaluator.PermuteFFTPolyTo(ctOut.Value[i], ct.Value[i], d)
	}
}

func (e *Evaluator[T]) vspecScalarMulAddGLWETo(ctOut, ct GLWECiphertext[T], c T) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFloatMulAddFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c float64) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecCmplxMulAddFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c complex128) {
	for i := range ctOut.Value {
		e.PolyEvaluator.CmplxMulAddFFTPolyTo(ctOut.Value[i], ct.Value[i], c)
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulAddFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPolyMulAddFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], p poly.Poly[T]) {
	fp := e.PolyEvaluator.FwdFFT(p)
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulAddGLWETo(ctOut, ct GLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.FFTPolyMulPolyTo(t, ct.Value[i], fp)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPolyMulAddGLWETo(ctOut, ct GLWECiphertext[T], p poly.Poly[T]) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.MulPolyTo(t, ct.Value[i], p)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecMonomialMulAddGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.MonomialMulPolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPermuteAddGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.PermutePolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPermuteAddFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewFFTPoly()
		e.PolyEvaluator.PermuteFFTPolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] += t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecScalarMulSubGLWETo(ctOut, ct GLWECiphertext[T], c T) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFloatMulSubFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c float64) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= c * ct.Value[i].Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecCmplxMulSubFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], c complex128) {
	for i := range ctOut.Value {
		e.PolyEvaluator.CmplxMulSubFFTPolyTo(ctOut.Value[i], ct.Value[i], c)
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulSubFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPolyMulSubFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], p poly.Poly[T]) {
	fp := e.PolyEvaluator.FwdFFT(p)
	for i := range ctOut.Value {
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= ct.Value[i].Coeffs[j] * fp.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulSubGLWETo(ctOut, ct GLWECiphertext[T], fp poly.FFTPoly) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.FFTPolyMulPolyTo(t, ct.Value[i], fp)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPolyMulSubGLWETo(ctOut, ct GLWECiphertext[T], p poly.Poly[T]) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.MulPolyTo(t, ct.Value[i], p)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecMonomialMulSubGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.MonomialMulPolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPermuteSubGLWETo(ctOut, ct GLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewPoly()
		e.PolyEvaluator.PermutePolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecPermuteSubFFTGLWETo(ctOut, ct FFTGLWECiphertext[T], d int) {
	for i := range ctOut.Value {
		t := e.PolyEvaluator.NewFFTPoly()
		e.PolyEvaluator.PermuteFFTPolyTo(t, ct.Value[i], d)
		for j := range ctOut.Value[i].Coeffs {
			ctOut.Value[i].Coeffs[j] -= t.Coeffs[j]
		}
	}
}

func (e *Evaluator[T]) vspecMonomialMulGLWEInPlace(ct GLWECiphertext[T], d int) {
	for i := range ct.Value {
		t := ct.Value[i].Copy()
		e.PolyEvaluator.MonomialMulPolyTo(ct.Value[i], t, d)
	}
}

func (e *Evaluator[T]) vspecPermuteGLWEInPlace(ct GLWECiphertext[T], d int) {
	for i := range ct.Value {
		t := ct.Value[i].Copy()
		e.PolyEvaluator.PermutePolyTo(ct.Value[i], t, d)
	}
}

func (e *Evaluator[T]) vspecPermuteFFTGLWEInPlace(ct FFTGLWECiphertext[T], d int) {
	for i := range ct.Value {
		t := ct.Value[i].Copy()
		e.PolyEvaluator.PermuteFFTPolyTo(ct.Value[i], t, d)
	}
}
