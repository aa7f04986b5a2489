package tfhe

// vgate18 leaves weight * (ct0 + ct1) + eighths / 8 in ctOut: true is 1/8 and
// false is -1/8 of the modulus, so that the sign of the sum decides the gate.
func vgate18[T TorusInt](e *BinaryEvaluator[T], ctOut, ct0, ct1 LWECiphertext[T], weight, eighths int) {
	eighth := T(1) << (e.Params.LogQ() - 3)
	for i := range ctOut.Value {
		s := (ct0.Value[i] + ct1.Value[i]) * T(weight)
		if i == 0 {
			s += eighth * T(eighths)
		}
		ctOut.Value[i] = s
	}
}

func (e *BinaryEvaluator[T]) vspecNOTTo(ctOut, ct LWECiphertext[T]) {
	for i := range ctOut.Value {
		ctOut.Value[i] = 0 - ct.Value[i]
	}
}

func (e *BinaryEvaluator[T]) vspecANDTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, -1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNANDTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, 1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 1, 1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -1, -1)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, 2, 2)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

func (e *BinaryEvaluator[T]) vspecXNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
	vgate18(e, ctOut, ct0, ct1, -2, -2)
	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
}

// only: .signLUT
func vspecNewBinaryEvaluator[T TorusInt](params Parameters[T], evk EvaluationKey[T]) *BinaryEvaluator[T] {
	lut := NewLUT(params)
	for i := range lut.Value {
		for j := range lut.Value[i].Coeffs {
			lut.Value[i].Coeffs[j] = T(1) << (params.LogQ() - 3)
		}
	}
	return &BinaryEvaluator[T]{
		BinaryEncoder: NewBinaryEncoder(params),
		Params:        params,
		Evaluator:     NewEvaluator(params, evk),
		signLUT:       lut,
	}
}

func (e *BinaryEncoder[T]) vspecEncodeLWEBool(message bool) LWEPlaintext[T] {
	eighth := T(1) << (e.Params.LogQ() - 3)
	if message {
		return LWEPlaintext[T]{Value: eighth}
	}
	return LWEPlaintext[T]{Value: 0 - eighth}
}

func (e *BinaryEncoder[T]) vspecDecodeLWEBool(pt LWEPlaintext[T]) bool {
	return pt.Value < T(1)<<(e.Params.LogQ()-1)
}

func (e *BinaryEncryptor[T]) vspecEncryptLWEBoolTo(ctOut LWECiphertext[T], message bool) {
	e.Encryptor.EncryptLWEPlaintextTo(ctOut, e.EncodeLWEBool(message))
}

func (e *BinaryPublicEncryptor[T]) vspecEncryptLWEBoolTo(ctOut LWECiphertext[T], message bool) {
	e.Encryptor.EncryptLWEPlaintextTo(ctOut, e.EncodeLWEBool(message))
}

func (e *BinaryEncryptor[T]) vspecDecryptLWEBool(ct LWECiphertext[T]) bool {
	return e.Encryptor.DecryptLWEPhase(ct).Value < T(1)<<(e.Params.LogQ()-1)
}

func (e *BinaryEncryptor[T]) vspecEncryptLWEBitsTo(ctOut []LWECiphertext[T], message int) {
	for i := range ctOut {
		ctOut[i] = e.EncryptLWEBool((message>>i)&1 == 1)
	}
}

func (e *BinaryPublicEncryptor[T]) vspecEncryptLWEBitsTo(ctOut []LWECiphertext[T], message int) {
	for i := range ctOut {
		ctOut[i] = e.EncryptLWEBool((message>>i)&1 == 1)
	}
}

func (e *BinaryEncryptor[T]) vspecDecryptLWEBits(ct []LWECiphertext[T]) int {
	message := 0
	for i := range ct {
		if e.DecryptLWEBool(ct[i]) {
			message += 1 << i
		}
	}
	return message
}
