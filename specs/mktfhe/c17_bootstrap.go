package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

// Coefficient idx of the product of a mask polynomial a and a key polynomial s
// is the sum over j of a[idx-j]*s[j], negated where idx-j wraps around.
func (ct GLWECiphertext[T]) vspecAsLWECiphertextTo(ctOut LWECiphertext[T], idx int) {
	ctOut.Value[0] = ct.Value[0].Coeffs[idx]
	n := ct.Value[0].Rank()
	for i := 1; i < len(ct.Value); i++ {
		for j := 0; j < n; j++ {
			if j <= idx {
				ctOut.Value[1+(i-1)*n+j] = ct.Value[i].Coeffs[idx-j]
			} else {
				ctOut.Value[1+(i-1)*n+j] = 0 - ct.Value[i].Coeffs[n+idx-j]
			}
		}
	}
}

func (e *Evaluator[T]) vspecBootstrapLUTTo(ctOut, ct LWECiphertext[T], lut tfhe.LookUpTable[T]) {
	if e.Params.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		e.DefaultKeySwitchTo(e.buf.ctKeySwitch, ct)
		e.BlindRotateTo(e.buf.ctRotate, e.buf.ctKeySwitch, lut)
		e.buf.ctRotate.AsLWECiphertextTo(ctOut, 0)
	} else if e.Params.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
		e.BlindRotateTo(e.buf.ctRotate, ct, lut)
		e.buf.ctRotate.AsLWECiphertextTo(e.buf.ctExtract, 0)
		e.DefaultKeySwitchTo(ctOut, e.buf.ctExtract)
	}
}

func (e *Evaluator[T]) vspecBootstrapFuncTo(ctOut, ct LWECiphertext[T], f func(int) int) {
	e.subEvaluator.GenLUTTo(e.buf.lut, f)
	e.BootstrapLUTTo(ctOut, ct, e.buf.lut)
}

func (e *Evaluator[T]) vspecBootstrapLUTParallelTo(ctOut, ct LWECiphertext[T], lut tfhe.LookUpTable[T]) {
	if e.Params.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		e.DefaultKeySwitchTo(e.buf.ctKeySwitch, ct)
		e.BlindRotateParallelTo(e.buf.ctRotate, e.buf.ctKeySwitch, lut)
		e.buf.ctRotate.AsLWECiphertextTo(ctOut, 0)
	} else if e.Params.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
		e.BlindRotateParallelTo(e.buf.ctRotate, ct, lut)
		e.buf.ctRotate.AsLWECiphertextTo(e.buf.ctExtract, 0)
		e.DefaultKeySwitchTo(ctOut, e.buf.ctExtract)
	}
}

func (e *Evaluator[T]) vspecBootstrapFuncParallelTo(ctOut, ct LWECiphertext[T], f func(int) int) {
	e.subEvaluator.GenLUTTo(e.buf.lut, f)
	e.BootstrapLUTParallelTo(ctOut, ct, e.buf.lut)
}
