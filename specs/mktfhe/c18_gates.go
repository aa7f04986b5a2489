package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

// vgate18 leaves weight * (ct0 + ct1) + eighths / 8 in ctOut: true is 1/8 and
// false is -1/8 of the modulus, so that the sign of the sum decides the gate.
func vgate18[T tfhe.TorusInt](e *BinaryEvaluator[T], ctOut, ct0, ct1 LWECiphertext[T], weight, eighths int) {
	eighth := T(1) << (e.Params.LogQ() - 3)
	for i := range ctOut.Value {
		s := (ct0.Value[i] + ct1.Value[i]) * T(weight)
		if i == 0 {
			s += eighth * T(eighths)
		}
		ctOut.Value[i] = s
	}
}

func (e *BinaryEvaluator[T]) vspecNOTTo(ctOut, ct LWECiphertext[T]) {
	for i := range ctOut.Value {
		ctOut.Value[i] = 0 - ct.Value[i]
	}
}

func (e *BinaryEvaluator[T]) vspecANDTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, -1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecANDParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, -1)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNANDTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, 1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNANDParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, 1)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, 1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, 1)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, -1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, -1)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 2, 2)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 2, 2)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -2, -2)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -2, -2)
	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
}

// only: .signLUT
func vspecNewBinaryEvaluator[T tfhe.TorusInt](params Parameters[T], evk map[int]EvaluationKey[T]) *BinaryEvaluator[T] {
	lut := tfhe.NewLUT(params.SubParams())
	for j := range lut.Value[0].Coeffs {
		lut.Value[0].Coeffs[j] = T(1) << (params.LogQ() - 3)
	}
	return &BinaryEvaluator[T]{
		BinaryEncoder: tfhe.NewBinaryEncoder(params.SubParams()),
		Params:        params,
		Evaluator:     NewEvaluator(params, evk),
		signLUT:       lut,
	}
}
