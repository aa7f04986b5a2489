// Code generated by tools/genspecs.py. DO NOT EDIT.

package poly

func (e *Evaluator[T]) vspecAddPolyTo(pOut, p0, p1 Poly[T]) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = p0.Coeffs[i] + p1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecAddFFTPolyTo(fpOut, fp0, fp1 FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = fp0.Coeffs[i] + fp1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecSubPolyTo(pOut, p0, p1 Poly[T]) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = p0.Coeffs[i] - p1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecSubFFTPolyTo(fpOut, fp0, fp1 FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = fp0.Coeffs[i] - fp1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecNegPolyTo(pOut, p Poly[T]) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = -p.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecNegFFTPolyTo(fpOut, fp FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = -fp.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulPolyTo(pOut, p Poly[T], c T) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = c * p.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFloatMulFFTPolyTo(fpOut, fp FFTPoly, c float64) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = c * fp.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMulFFTPolyTo(fpOut, fp0, fp1 FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = fp0.Coeffs[i] * fp1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecPolyMulFFTPolyTo(fpOut, fp FFTPoly, p Poly[T]) {
	t := e.FwdFFT(p)
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] = fp.Coeffs[i] * t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulPolyTo(pOut, p Poly[T], fp FFTPoly) {
	t := e.FwdFFT(p)
	e.vspecMulFFTPolyTo(t, t, fp)
	r := e.InvFFT(t)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = r.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecInvFFTToUnsafe(pOut Poly[T], fp FFTPoly) {
	t := e.InvFFT(fp)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] = t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulAddPolyTo(pOut, p Poly[T], c T) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += c * p.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFloatMulAddFFTPolyTo(fpOut, fp FFTPoly, c float64) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] += c * fp.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMulAddFFTPolyTo(fpOut, fp0, fp1 FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] += fp0.Coeffs[i] * fp1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecPolyMulAddFFTPolyTo(fpOut, fp FFTPoly, p Poly[T]) {
	t := e.FwdFFT(p)
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] += fp.Coeffs[i] * t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulAddPolyTo(pOut, p Poly[T], fp FFTPoly) {
	t := e.FwdFFT(p)
	e.vspecMulFFTPolyTo(t, t, fp)
	r := e.InvFFT(t)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += r.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecShortFFTPolyMulAddPolyTo(pOut, p Poly[T], fpShort FFTPoly) {
	t := e.NewPoly()
	e.ShortFFTPolyMulPolyTo(t, p, fpShort)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMulAddPolyTo(pOut, p0, p1 Poly[T]) {
	t := e.NewPoly()
	e.MulPolyTo(t, p0, p1)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMonomialMulAddPolyTo(pOut, p Poly[T], d int) {
	t := e.NewPoly()
	e.MonomialMulPolyTo(t, p, d)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecInvFFTAddTo(pOut Poly[T], fp FFTPoly) {
	t := e.InvFFT(fp)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFwdFFTAddTo(fpOut FFTPoly, p Poly[T]) {
	t := e.FwdFFT(p)
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecInvFFTAddToUnsafe(pOut Poly[T], fp FFTPoly) {
	t := e.InvFFT(fp)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] += t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecScalarMulSubPolyTo(pOut, p Poly[T], c T) {
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= c * p.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFloatMulSubFFTPolyTo(fpOut, fp FFTPoly, c float64) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] -= c * fp.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMulSubFFTPolyTo(fpOut, fp0, fp1 FFTPoly) {
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] -= fp0.Coeffs[i] * fp1.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecPolyMulSubFFTPolyTo(fpOut, fp FFTPoly, p Poly[T]) {
	t := e.FwdFFT(p)
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] -= fp.Coeffs[i] * t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFFTPolyMulSubPolyTo(pOut, p Poly[T], fp FFTPoly) {
	t := e.FwdFFT(p)
	e.vspecMulFFTPolyTo(t, t, fp)
	r := e.InvFFT(t)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= r.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecShortFFTPolyMulSubPolyTo(pOut, p Poly[T], fpShort FFTPoly) {
	t := e.NewPoly()
	e.ShortFFTPolyMulPolyTo(t, p, fpShort)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMulSubPolyTo(pOut, p0, p1 Poly[T]) {
	t := e.NewPoly()
	e.MulPolyTo(t, p0, p1)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecMonomialMulSubPolyTo(pOut, p Poly[T], d int) {
	t := e.NewPoly()
	e.MonomialMulPolyTo(t, p, d)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecInvFFTSubTo(pOut Poly[T], fp FFTPoly) {
	t := e.InvFFT(fp)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecFwdFFTSubTo(fpOut FFTPoly, p Poly[T]) {
	t := e.FwdFFT(p)
	for i := range fpOut.Coeffs {
		fpOut.Coeffs[i] -= t.Coeffs[i]
	}
}

func (e *Evaluator[T]) vspecInvFFTSubToUnsafe(pOut Poly[T], fp FFTPoly) {
	t := e.InvFFT(fp)
	for i := range pOut.Coeffs {
		pOut.Coeffs[i] -= t.Coeffs[i]
	}
}

// the product by X^d of a polynomial modulo X^N + 1
func (e *Evaluator[T]) vspecMonomialMulPolyTo(pOut, p Poly[T], d int) {
	k := d & (2*e.rank - 1)
	for i := range pOut.Coeffs {
		if k < e.rank {
			if i < k {
				pOut.Coeffs[i] = -p.Coeffs[i-k+e.rank]
			} else {
				pOut.Coeffs[i] = p.Coeffs[i-k]
			}
		} else {
			if i < k-e.rank {
				pOut.Coeffs[i] = p.Coeffs[i-k+2*e.rank]
			} else {
				pOut.Coeffs[i] = -p.Coeffs[i-k+e.rank]
			}
		}
	}
}
