package tfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
)

// vgadget27 is Σ_i digit_i(c) · ctLev[i].
func vgadget27[T TorusInt](e *Evaluator[T], ctLev LevCiphertext[T], c T, idx int) T {
	d := e.Decomposer.DecomposeScalar(c, ctLev.GadgetParams)
	var s T
	for i := 0; i < ctLev.GadgetParams.level; i++ {
		s += d[i] * ctLev.Value[i].Value[idx]
	}
	return s
}

func (e *Evaluator[T]) vspecGadgetProdLWETo(ctLWEOut LWECiphertext[T], ctLev LevCiphertext[T], c T) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] = vgadget27(e, ctLev, c, k)
	}
}

func (e *Evaluator[T]) vspecGadgetProdAddLWETo(ctLWEOut LWECiphertext[T], ctLev LevCiphertext[T], c T) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] += vgadget27(e, ctLev, c, k)
	}
}

func (e *Evaluator[T]) vspecGadgetProdSubLWETo(ctLWEOut LWECiphertext[T], ctLev LevCiphertext[T], c T) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] -= vgadget27(e, ctLev, c, k)
	}
}

// vgadgetPoly27 is Σ_i FFT(digit_i(p)) · ctLev[i], component k, transformed.
func vgadgetPoly27[T TorusInt](e *Evaluator[T], ctLev FFTGLevCiphertext[T], d []poly.FFTPoly, k int) poly.FFTPoly {
	s := e.PolyEvaluator.NewFFTPoly()
	for i := 0; i < ctLev.GadgetParams.level; i++ {
		e.PolyEvaluator.MulAddFFTPolyTo(s, ctLev.Value[i].Value[k], d[i])
	}
	return s
}

func (e *Evaluator[T]) vspecGadgetProdGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], p poly.Poly[T]) {
	d := e.Decomposer.FourierDecomposePoly(p, ctFFTGLev.GadgetParams)
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.InvFFTTo(ctGLWEOut.Value[k], vgadgetPoly27(e, ctFFTGLev, d, k))
	}
}

func (e *Evaluator[T]) vspecGadgetProdAddGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], p poly.Poly[T]) {
	d := e.Decomposer.FourierDecomposePoly(p, ctFFTGLev.GadgetParams)
	for k := 0; k < e.Params.glweRank+1; k++ {
		q := e.PolyEvaluator.InvFFT(vgadgetPoly27(e, ctFFTGLev, d, k))
		for i := range q.Coeffs {
			ctGLWEOut.Value[k].Coeffs[i] += q.Coeffs[i]
		}
	}
}

func (e *Evaluator[T]) vspecGadgetProdSubGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], p poly.Poly[T]) {
	d := e.Decomposer.FourierDecomposePoly(p, ctFFTGLev.GadgetParams)
	for k := 0; k < e.Params.glweRank+1; k++ {
		q := e.PolyEvaluator.InvFFT(vgadgetPoly27(e, ctFFTGLev, d, k))
		for i := range q.Coeffs {
			ctGLWEOut.Value[k].Coeffs[i] -= q.Coeffs[i]
		}
	}
}

func (e *Evaluator[T]) vspecGadgetProdFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], pDcmp []poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		ctFFTGLWEOut.Value[k].CopyFrom(vgadgetPoly27(e, ctFFTGLev, pDcmp, k))
	}
}

func (e *Evaluator[T]) vspecGadgetProdAddFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], pDcmp []poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.AddFFTPolyTo(ctFFTGLWEOut.Value[k], ctFFTGLWEOut.Value[k], vgadgetPoly27(e, ctFFTGLev, pDcmp, k))
	}
}

func (e *Evaluator[T]) vspecGadgetProdSubFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGLev FFTGLevCiphertext[T], pDcmp []poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.SubFFTPolyTo(ctFFTGLWEOut.Value[k], ctFFTGLWEOut.Value[k], vgadgetPoly27(e, ctFFTGLev, pDcmp, k))
	}
}

// vexternal27 is Σ_i Σ_j digit_j(ct[i]) · gsw[i][j], component k.
func vexternal27[T TorusInt](e *Evaluator[T], gsw GSWCiphertext[T], ct LWECiphertext[T], k int) T {
	var s T
	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
		s += vgadget27(e, gsw.Value[i], ct.Value[i], k)
	}
	return s
}

func (e *Evaluator[T]) vspecExternalProdLWETo(ctLWEOut LWECiphertext[T], ctGSW GSWCiphertext[T], ctLWE LWECiphertext[T]) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] = vexternal27(e, ctGSW, ctLWE, k)
	}
}

func (e *Evaluator[T]) vspecExternalProdAddLWETo(ctLWEOut LWECiphertext[T], ctGSW GSWCiphertext[T], ctLWE LWECiphertext[T]) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] += vexternal27(e, ctGSW, ctLWE, k)
	}
}

func (e *Evaluator[T]) vspecExternalProdSubLWETo(ctLWEOut LWECiphertext[T], ctGSW GSWCiphertext[T], ctLWE LWECiphertext[T]) {
	for k := range ctLWEOut.Value {
		ctLWEOut.Value[k] -= vexternal27(e, ctGSW, ctLWE, k)
	}
}

// vexternalPoly27 is Σ_i Σ_j FFT(digit_j(ct[i])) · ggsw[i][j], component k.
func vexternalPoly27[T TorusInt](e *Evaluator[T], ggsw FFTGGSWCiphertext[T], ct GLWECiphertext[T], k int) poly.FFTPoly {
	s := e.PolyEvaluator.NewFFTPoly()
	for i := 0; i < e.Params.glweRank+1; i++ {
		d := e.Decomposer.DecomposePoly(ct.Value[i], ggsw.GadgetParams)
		for j := 0; j < ggsw.GadgetParams.level; j++ {
			e.PolyEvaluator.MulAddFFTPolyTo(s, ggsw.Value[i].Value[j].Value[k], e.PolyEvaluator.FwdFFT(d[j]))
		}
	}
	return s
}

func (e *Evaluator[T]) vspecExternalProdGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWE GLWECiphertext[T]) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.InvFFTTo(ctGLWEOut.Value[k], vexternalPoly27(e, ctFFTGGSW, ctGLWE, k))
	}
}

func (e *Evaluator[T]) vspecExternalProdAddGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWE GLWECiphertext[T]) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		q := e.PolyEvaluator.InvFFT(vexternalPoly27(e, ctFFTGGSW, ctGLWE, k))
		for i := range q.Coeffs {
			ctGLWEOut.Value[k].Coeffs[i] += q.Coeffs[i]
		}
	}
}

func (e *Evaluator[T]) vspecExternalProdSubGLWETo(ctGLWEOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWE GLWECiphertext[T]) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		q := e.PolyEvaluator.InvFFT(vexternalPoly27(e, ctFFTGGSW, ctGLWE, k))
		for i := range q.Coeffs {
			ctGLWEOut.Value[k].Coeffs[i] -= q.Coeffs[i]
		}
	}
}

// vexternalFFT27 is Σ_i Σ_j d[i][j] · ggsw[i][j], component k.
func vexternalFFT27[T TorusInt](e *Evaluator[T], ggsw FFTGGSWCiphertext[T], d [][]poly.FFTPoly, k int) poly.FFTPoly {
	s := e.PolyEvaluator.NewFFTPoly()
	for i := 0; i < e.Params.glweRank+1; i++ {
		for j := 0; j < ggsw.GadgetParams.level; j++ {
			e.PolyEvaluator.MulAddFFTPolyTo(s, ggsw.Value[i].Value[j].Value[k], d[i][j])
		}
	}
	return s
}

func (e *Evaluator[T]) vspecExternalProdFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWEDcmp [][]poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		ctFFTGLWEOut.Value[k].CopyFrom(vexternalFFT27(e, ctFFTGGSW, ctGLWEDcmp, k))
	}
}

func (e *Evaluator[T]) vspecExternalProdAddFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWEDcmp [][]poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.AddFFTPolyTo(ctFFTGLWEOut.Value[k], ctFFTGLWEOut.Value[k], vexternalFFT27(e, ctFFTGGSW, ctGLWEDcmp, k))
	}
}

func (e *Evaluator[T]) vspecExternalProdSubFFTGLWETo(ctFFTGLWEOut FFTGLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ctGLWEDcmp [][]poly.FFTPoly) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		e.PolyEvaluator.SubFFTPolyTo(ctFFTGLWEOut.Value[k], ctFFTGLWEOut.Value[k], vexternalFFT27(e, ctFFTGGSW, ctGLWEDcmp, k))
	}
}

// CMux: ct0 + ggsw ⊡ (ct1 − ct0).
func (e *Evaluator[T]) vspecCMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
	diff := NewGLWECiphertext(e.Params)
	for i := 0; i < e.Params.glweRank+1; i++ {
		for j := range diff.Value[i].Coeffs {
			diff.Value[i].Coeffs[j] = ct1.Value[i].Coeffs[j] - ct0.Value[i].Coeffs[j]
		}
	}
	for k := 0; k < e.Params.glweRank+1; k++ {
		q := e.PolyEvaluator.InvFFT(vexternalPoly27(e, ctFFTGGSW, diff, k))
		for i := range q.Coeffs {
			ctOut.Value[k].Coeffs[i] = ct0.Value[k].Coeffs[i] + q.Coeffs[i]
		}
	}
}

func (e *Evaluator[T]) vspecKeySwitchLWETo(ctOut, ct LWECiphertext[T], ksk LWEKeySwitchKey[T]) {
	for k := range ctOut.Value {
		var s T
		for i := 0; i < ksk.InputLWEDimension(); i++ {
			s += vgadget27(e, ksk.Value[i], ct.Value[i+1], k)
		}
		if k == 0 {
			s += ct.Value[0]
		}
		ctOut.Value[k] = s
	}
}

func (e *Evaluator[T]) vspecKeySwitchGLWETo(ctOut, ct GLWECiphertext[T], ksk GLWEKeySwitchKey[T]) {
	for k := 0; k < e.Params.glweRank+1; k++ {
		s := e.PolyEvaluator.NewFFTPoly()
		for i := 0; i < ksk.InputGLWERank(); i++ {
			d := e.Decomposer.DecomposePoly(ct.Value[i+1], ksk.GadgetParams)
			for j := 0; j < ksk.GadgetParams.level; j++ {
				e.PolyEvaluator.MulAddFFTPolyTo(s, ksk.Value[i].Value[j].Value[k], e.PolyEvaluator.FwdFFT(d[j]))
			}
		}
		q := e.PolyEvaluator.InvFFT(s)
		for j := range q.Coeffs {
			if k == 0 {
				q.Coeffs[j] += ct.Value[0].Coeffs[j]
			}
			ctOut.Value[k].Coeffs[j] = q.Coeffs[j]
		}
	}
}

// The key of a bootstrapping starts with the small key, so only the rest of
// the mask is switched.
func (e *Evaluator[T]) vspecDefaultKeySwitchTo(ctOut, ct LWECiphertext[T]) {
	for k := range ctOut.Value {
		s := ct.Value[k]
		for i := 0; i < e.Params.glweDimension-e.Params.lweDimension; i++ {
			d := e.Decomposer.DecomposeScalar(ct.Value[e.Params.lweDimension+1+i], e.Params.keySwitchParams)
			for j := 0; j < e.Params.keySwitchParams.level; j++ {
				s += d[j] * e.EvalKey.KeySwitchKey.Value[i].Value[j].Value[k]
			}
		}
		ctOut.Value[k] = s
	}
}

func (d *Decomposer[T]) vspecFourierDecomposePolyTo(dcmpOut []poly.FFTPoly, p poly.Poly[T], gadgetParams GadgetParameters[T]) {
	q := d.DecomposePoly(p, gadgetParams)
	for i := 0; i < gadgetParams.level; i++ {
		dcmpOut[i].CopyFrom(d.PolyEvaluator.FwdFFT(q[i]))
	}
}

func (d *Decomposer[T]) vspecRecomposeScalar(dcmp []T, gadgetParams GadgetParameters[T]) T {
	var x T
	for i := 0; i < gadgetParams.level; i++ {
		x += dcmp[i] * gadgetParams.BaseQ(i)
	}
	return x
}

func (d *Decomposer[T]) vspecRecomposePolyTo(pOut poly.Poly[T], dcmp []poly.Poly[T], gadgetParams GadgetParameters[T]) {
	for i := range pOut.Coeffs {
		var x T
		for j := 0; j < gadgetParams.level; j++ {
			x += dcmp[j].Coeffs[i] * gadgetParams.BaseQ(j)
		}
		pOut.Coeffs[i] = x
	}
}

// vdigit27 is digit j of x in balanced form: with u the number x rounded to
// level digits, and half of the base added to all digits from the last to j,
// digit j of the sum lies half of the base above the balanced digit.
func vdigit27[T TorusInt](x T, j int, gp GadgetParameters[T]) T {
	drop := gp.sizeT - gp.level*gp.logBase
	u := x >> drop
	if drop > 0 {
		u += (x >> (drop - 1)) & 1
	}
	m := gp.level - 1 - j
	for i := 0; i < m+1; i++ {
		u += gp.base / 2 << (i * gp.logBase)
	}
	return (u>>(m*gp.logBase))%gp.base - gp.base/2
}

func (d *Decomposer[T]) vspecDecomposeScalarTo(dcmpOut []T, x T, gadgetParams GadgetParameters[T]) {
	for j := 0; j < gadgetParams.level; j++ {
		dcmpOut[j] = vdigit27(x, j, gadgetParams)
	}
}

func vspecdecomposePolyTo[T TorusInt](dcmpOut []poly.Poly[T], p poly.Poly[T], gadgetParams GadgetParameters[T]) {
	for j := 0; j < gadgetParams.level; j++ {
		for i := range p.Coeffs {
			dcmpOut[j].Coeffs[i] = vdigit27(p.Coeffs[i], j, gadgetParams)
		}
	}
}
