package tfhe

import (
	"math"

	"github.com/sp301415/tfhe-go/math/num"
)

// Coefficient idx of the product of a mask polynomial a and a key polynomial s
// is the sum over j of a[idx-j]*s[j], negated where idx-j wraps around.
func (ct GLWECiphertext[T]) vspecAsLWECiphertextTo(idx int, ctOut LWECiphertext[T]) {
	ctOut.Value[0] = ct.Value[0].Coeffs[idx]
	n := ct.Value[0].Rank()
	for i := 1; i < len(ct.Value); i++ {
		for j := 0; j < n; j++ {
			if j <= idx {
				ctOut.Value[1+(i-1)*n+j] = ct.Value[i].Coeffs[idx-j]
			} else {
				ctOut.Value[1+(i-1)*n+j] = 0 - ct.Value[i].Coeffs[n+idx-j]
			}
		}
	}
}

func (e *Evaluator[T]) vspecBootstrapLUTTo(ctOut, ct LWECiphertext[T], lut LookUpTable[T]) {
	if e.Params.BootstrapOrder() == OrderKeySwitchBlindRotate {
		e.DefaultKeySwitchTo(e.buf.ctKeySwitch, ct)
		e.BlindRotateTo(e.buf.ctRotate, e.buf.ctKeySwitch, lut)
		e.buf.ctRotate.AsLWECiphertextTo(0, ctOut)
	} else if e.Params.BootstrapOrder() == OrderBlindRotateKeySwitch {
		e.BlindRotateTo(e.buf.ctRotate, ct, lut)
		e.buf.ctRotate.AsLWECiphertextTo(0, e.buf.ctExtract)
		e.DefaultKeySwitchTo(ctOut, e.buf.ctExtract)
	}
}

func (e *Evaluator[T]) vspecBootstrapFuncTo(ctOut, ct LWECiphertext[T], f func(int) int) {
	e.GenLUTTo(e.buf.lut, f)
	e.BootstrapLUTTo(ctOut, ct, e.buf.lut)
}

func (e *Evaluator[T]) vspecBlindRotateTo(ctOut GLWECiphertext[T], ct LWECiphertext[T], lut LookUpTable[T]) {
	if e.Params.LUTSize() > e.Params.PolyRank() {
		e.blindRotateExtendedTo(ctOut, ct, lut)
	} else if e.Params.BlockSize() > 1 {
		e.blindRotateBlockTo(ctOut, ct, lut)
	} else {
		e.blindRotateOriginalTo(ctOut, ct, lut)
	}
}

// The message x takes a window of LUTSize/messageModulus entries around
// x*LUTSize/messageModulus; the half of the window of 0 before the start comes
// last, negated.
func (e *Evaluator[T]) vspecGenLUTCustomFullTo(lutOut LookUpTable[T], f func(int) T, messageModulus T) {
	size := e.Params.LUTSize()
	raw := make([]T, len(e.buf.lutRaw))
	for x := 0; x < int(messageModulus); x++ {
		y := f(x)
		for q := num.DivRound(x*size, int(messageModulus)); q < num.DivRound((x+1)*size, int(messageModulus)); q++ {
			raw[q] = y
		}
	}
	half := num.DivRound(size, int(2*messageModulus))
	for i := 0; i < e.Params.LUTExtendFactor(); i++ {
		for j := 0; j < e.Params.PolyRank(); j++ {
			q := j*e.Params.LUTExtendFactor() + i + half
			if q >= size {
				lutOut.Value[i].Coeffs[j] = 0 - raw[q-size]
			} else {
				lutOut.Value[i].Coeffs[j] = raw[q]
			}
		}
	}
}

func (e *Evaluator[T]) vspecGenLUTFullTo(lutOut LookUpTable[T], f func(int) T) {
	e.GenLUTCustomFullTo(lutOut, f, e.Params.MessageModulus())
}

func (e *Evaluator[T]) vspecGenLUTTo(lutOut LookUpTable[T], f func(int) int) {
	e.GenLUTCustomTo(lutOut, f, e.Params.MessageModulus(), e.Params.Scale())
}

func (e *Evaluator[T]) vspecModSwitch(x T) int {
	return int(math.Round(e.modSwitchConst*float64(x))) % (2 * e.Params.LUTSize())
}
