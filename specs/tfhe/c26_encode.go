package tfhe

import (
	"math"
)

func vround26[T TorusInt](x, y T) T { return T(math.Round(float64(x) / float64(y))) }

func (e *Encoder[T]) vspecEncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
	if messageModulus == 0 {
		return LWEPlaintext[T]{Value: T(message) * scale}
	}
	return LWEPlaintext[T]{Value: (T(message) % messageModulus) * scale}
}

func (e *Encoder[T]) vspecEncodeLWE(message int) LWEPlaintext[T] {
	return e.vspecEncodeLWECustom(message, e.Params.messageModulus, e.Params.scale)
}

func (e *Encoder[T]) vspecDecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
	m := messageModulus
	if m == 0 {
		m = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
	}
	return int(vround26(pt.Value, scale) % m)
}

func (e *Encoder[T]) vspecDecodeLWE(pt LWEPlaintext[T]) int {
	return e.vspecDecodeLWECustom(pt, e.Params.messageModulus, e.Params.scale)
}

func (e *Encoder[T]) vspecEncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
	for i := range ptOut.Value.Coeffs {
		switch {
		case i >= len(messages):
			ptOut.Value.Coeffs[i] = 0
		case messageModulus == 0:
			ptOut.Value.Coeffs[i] = T(messages[i]) * scale
		default:
			ptOut.Value.Coeffs[i] = (T(messages[i]) % messageModulus) * scale
		}
	}
}

func (e *Encoder[T]) vspecEncodeGLWETo(ptOut GLWEPlaintext[T], messages []int) {
	e.vspecEncodeGLWECustomTo(ptOut, messages, e.Params.messageModulus, e.Params.scale)
}

func (e *Encoder[T]) vspecEncodeGLWECustom(messages []int, messageModulus, scale T) GLWEPlaintext[T] {
	ptOut := NewGLWEPlaintext(e.Params)
	e.vspecEncodeGLWECustomTo(ptOut, messages, messageModulus, scale)
	return ptOut
}

func (e *Encoder[T]) vspecEncodeGLWE(messages []int) GLWEPlaintext[T] {
	return e.vspecEncodeGLWECustom(messages, e.Params.messageModulus, e.Params.scale)
}

func (e *Encoder[T]) vspecDecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T], messageModulus, scale T) {
	m := messageModulus
	if m == 0 {
		m = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
	}
	for i := range messagesOut {
		if i < e.Params.polyRank {
			messagesOut[i] = int(vround26(pt.Value.Coeffs[i], scale) % m)
		}
	}
}

func (e *Encoder[T]) vspecDecodeGLWETo(messagesOut []int, pt GLWEPlaintext[T]) {
	e.vspecDecodeGLWECustomTo(messagesOut, pt, e.Params.messageModulus, e.Params.scale)
}

func (e *Encoder[T]) vspecDecodeGLWECustom(pt GLWEPlaintext[T], messageModulus, scale T) []int {
	messagesOut := make([]int, e.Params.polyRank)
	e.vspecDecodeGLWECustomTo(messagesOut, pt, messageModulus, scale)
	return messagesOut
}

func (e *Encoder[T]) vspecDecodeGLWE(pt GLWEPlaintext[T]) []int {
	return e.vspecDecodeGLWECustom(pt, e.Params.messageModulus, e.Params.scale)
}

func (e *BinaryEncoder[T]) vspecEncodeLWEBool(message bool) LWEPlaintext[T] {
	if !message {
		return LWEPlaintext[T]{Value: -(1 << (e.Params.logQ - 3))}
	}
	return LWEPlaintext[T]{Value: 1 << (e.Params.logQ - 3)}
}

func (e *BinaryEncoder[T]) vspecDecodeLWEBool(pt LWEPlaintext[T]) bool {
	return pt.Value < (1 << (e.Params.logQ - 1))
}
