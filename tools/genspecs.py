#!/usr/bin/env python3
"""Writes the table-driven reference definitions (specs/*/c22_*.go)."""
import os
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")

HEAD = "// Code generated by tools/genspecs.py. DO NOT EDIT.\n\npackage %s\n"

def write(path, text):
    with open(os.path.join(ROOT, path), "w") as f:
        f.write(text)

# ---------------------------------------------------------------- polynomials
def poly():
    o = [HEAD % "poly"]
    def fn(name, params, body):
        o.append("\nfunc (e *Evaluator[T]) vspec%s(%s) {\n%s}\n" % (name, params, body))
    def loop(out, stmt):
        return "\tfor i := range %s.Coeffs {\n\t\t%s\n\t}\n" % (out, stmt)
    for n, op in (("Add", "+"), ("Sub", "-")):
        fn(n + "PolyTo", "pOut, p0, p1 Poly[T]", loop("pOut", "pOut.Coeffs[i] = p0.Coeffs[i] %s p1.Coeffs[i]" % op))
        fn(n + "FFTPolyTo", "fpOut, fp0, fp1 FFTPoly", loop("fpOut", "fpOut.Coeffs[i] = fp0.Coeffs[i] %s fp1.Coeffs[i]" % op))
    fn("NegPolyTo", "pOut, p Poly[T]", loop("pOut", "pOut.Coeffs[i] = -p.Coeffs[i]"))
    fn("NegFFTPolyTo", "fpOut, fp FFTPoly", loop("fpOut", "fpOut.Coeffs[i] = -fp.Coeffs[i]"))
    for acc, op in (("", "="), ("Add", "+="), ("Sub", "-=")):
        fn("ScalarMul%sPolyTo" % acc, "pOut, p Poly[T], c T", loop("pOut", "pOut.Coeffs[i] %s c * p.Coeffs[i]" % op))
        fn("FloatMul%sFFTPolyTo" % acc, "fpOut, fp FFTPoly, c float64", loop("fpOut", "fpOut.Coeffs[i] %s c * fp.Coeffs[i]" % op))
        # products of complex numbers, element by element
        fn("Mul%sFFTPolyTo" % acc, "fpOut, fp0, fp1 FFTPoly", loop("fpOut", "fpOut.Coeffs[i] %s fp0.Coeffs[i] * fp1.Coeffs[i]" % op))
        fn("PolyMul%sFFTPolyTo" % acc, "fpOut, fp FFTPoly, p Poly[T]",
           "\tt := e.FwdFFT(p)\n" + loop("fpOut", "fpOut.Coeffs[i] %s fp.Coeffs[i] * t.Coeffs[i]" % op))
        fn("FFTPolyMul%sPolyTo" % acc, "pOut, p Poly[T], fp FFTPoly",
           "\tt := e.FwdFFT(p)\n\te.vspecMulFFTPolyTo(t, t, fp)\n\tr := e.InvFFT(t)\n" + loop("pOut", "pOut.Coeffs[i] %s r.Coeffs[i]" % op))
        if acc:
            fn("ShortFFTPolyMul%sPolyTo" % acc, "pOut, p Poly[T], fpShort FFTPoly",
               "\tt := e.NewPoly()\n\te.ShortFFTPolyMulPolyTo(t, p, fpShort)\n" + loop("pOut", "pOut.Coeffs[i] %s t.Coeffs[i]" % op))
        if acc:
            fn("Mul%sPolyTo" % acc, "pOut, p0, p1 Poly[T]", "\tt := e.NewPoly()\n\te.MulPolyTo(t, p0, p1)\n" + loop("pOut", "pOut.Coeffs[i] %s t.Coeffs[i]" % op))
            fn("MonomialMul%sPolyTo" % acc, "pOut, p Poly[T], d int", "\tt := e.NewPoly()\n\te.MonomialMulPolyTo(t, p, d)\n" + loop("pOut", "pOut.Coeffs[i] %s t.Coeffs[i]" % op))
            fn("InvFFT%sTo" % acc, "pOut Poly[T], fp FFTPoly", "\tt := e.InvFFT(fp)\n" + loop("pOut", "pOut.Coeffs[i] %s t.Coeffs[i]" % op))
            fn("FwdFFT%sTo" % acc, "fpOut FFTPoly, p Poly[T]", "\tt := e.FwdFFT(p)\n" + loop("fpOut", "fpOut.Coeffs[i] %s t.Coeffs[i]" % op))
        un = "InvFFT%sToUnsafe" % acc
        fn(un, "pOut Poly[T], fp FFTPoly", "\tt := e.InvFFT(fp)\n" + loop("pOut", "pOut.Coeffs[i] %s t.Coeffs[i]" % op))
    o.append('''
// the product by X^d of a polynomial modulo X^N + 1
func (e *Evaluator[T]) vspecMonomialMulPolyTo(pOut, p Poly[T], d int) {
	k := d & (2*e.rank - 1)
	for i := range pOut.Coeffs {
		if k < e.rank {
			if i < k {
				pOut.Coeffs[i] = -p.Coeffs[i-k+e.rank]
			} else {
				pOut.Coeffs[i] = p.Coeffs[i-k]
			}
		} else {
			if i < k-e.rank {
				pOut.Coeffs[i] = p.Coeffs[i-k+2*e.rank]
			} else {
				pOut.Coeffs[i] = -p.Coeffs[i-k+e.rank]
			}
		}
	}
}
''')
    write("math/poly/c22_ops.go", "".join(o))

# ---------------------------------------------------------------- ciphertexts
def cts(pkg):
    q = "" if pkg == "tfhe" else "tfhe."
    pe = "e.PolyEvaluator"
    o = [HEAD % pkg, "\nimport (\n\t\"github.com/sp301415/tfhe-go/math/poly\"\n"]
    if q:
        o.append("\t\"github.com/sp301415/tfhe-go/tfhe\"\n")
    o.append(")\n")
    pe = "e.PolyEvaluator"
    def fn(name, params, body):
        o.append("\nfunc (e *Evaluator[T]) vspec%s(%s) {\n%s}\n" % (name, params, body))
    def loop(stmt, frm=None):
        if frm:
            return "\tfor i := %d; i < len(ctOut.Value); i++ {\n\t\t%s\n\t}\n" % (frm, stmt)
        return "\tfor i := range ctOut.Value {\n\t\t%s\n\t}\n" % stmt
    L, G, F = "LWECiphertext[T]", "GLWECiphertext[T]", "FFTGLWECiphertext[T]"
    # LWE
    for n, op in (("Add", "+"), ("Sub", "-")):
        fn(n + "LWETo", "ctOut, ct0, ct1 " + L, loop("ctOut.Value[i] = ct0.Value[i] %s ct1.Value[i]" % op))
        fn(n + "PlainLWETo", "ctOut, ct %s, pt %sLWEPlaintext[T]" % (L, q),
           "\tctOut.Value[0] = ct.Value[0] %s pt.Value\n" % op + loop("ctOut.Value[i] = ct.Value[i]", 1))
    fn("NegLWETo", "ctOut, ct " + L, loop("ctOut.Value[i] = -ct.Value[i]"))
    for acc, op in (("", "="), ("Add", "+="), ("Sub", "-=")):
        fn("ScalarMul%sLWETo" % acc, "ctOut, ct %s, c T" % L, loop("ctOut.Value[i] %s c * ct.Value[i]" % op))
    # GLWE: componentwise, coefficientwise
    def coef(stmt, frm=None):
        return loop("for j := range ctOut.Value[i].Coeffs {\n\t\t\t%s\n\t\t}" % stmt, frm)
    for t, ty in (("GLWE", G), ("FFTGLWE", F)):
        for n, op in (("Add", "+"), ("Sub", "-")):
            fn(n + t + "To", "ctOut, ct0, ct1 " + ty, coef("ctOut.Value[i].Coeffs[j] = ct0.Value[i].Coeffs[j] %s ct1.Value[i].Coeffs[j]" % op))
        fn("Neg" + t + "To", "ctOut, ct " + ty, coef("ctOut.Value[i].Coeffs[j] = -ct.Value[i].Coeffs[j]"))
    for n, op in (("Add", "+"), ("Sub", "-")):
        fn(n + "PlainGLWETo", "ctOut, ct %s, pt %sGLWEPlaintext[T]" % (G, q),
           "\tfor j := range ctOut.Value[0].Coeffs {\n\t\tctOut.Value[0].Coeffs[j] = ct.Value[0].Coeffs[j] %s pt.Value.Coeffs[j]\n\t}\n" % op +
           coef("ctOut.Value[i].Coeffs[j] = ct.Value[i].Coeffs[j]", 1))
    for acc, op in (("", "="), ("Add", "+="), ("Sub", "-=")):
        fn("ScalarMul%sGLWETo" % acc, "ctOut, ct %s, c T" % G, coef("ctOut.Value[i].Coeffs[j] %s c * ct.Value[i].Coeffs[j]" % op))
        fn("FloatMul%sFFTGLWETo" % acc, "ctOut, ct %s, c float64" % F, coef("ctOut.Value[i].Coeffs[j] %s c * ct.Value[i].Coeffs[j]" % op))
        fn("CmplxMul%sFFTGLWETo" % acc, "ctOut, ct %s, c complex128" % F, loop("%s.CmplxMul%sFFTPolyTo(ctOut.Value[i], ct.Value[i], c)" % (pe, acc)))
        fn("FFTPolyMul%sFFTGLWETo" % acc, "ctOut, ct %s, fp poly.FFTPoly" % F, coef("ctOut.Value[i].Coeffs[j] %s ct.Value[i].Coeffs[j] * fp.Coeffs[j]" % op))
        fn("PolyMul%sFFTGLWETo" % acc, "ctOut, ct %s, p poly.Poly[T]" % F,
           "\tfp := %s.FwdFFT(p)\n" % pe + coef("ctOut.Value[i].Coeffs[j] %s ct.Value[i].Coeffs[j] * fp.Coeffs[j]" % op))
        def each(call, ty):
            new = {G: "NewPoly", }.get(ty)
            if acc == "":
                return loop("%s.%s(ctOut.Value[i], ct.Value[i], %s)" % ((pe,) + call))
            if ty == G:
                return loop("t := %s.NewPoly()\n\t\t%s.%s(t, ct.Value[i], %s)\n\t\tfor j := range ctOut.Value[i].Coeffs {\n\t\t\tctOut.Value[i].Coeffs[j] %s t.Coeffs[j]\n\t\t}" % (pe, pe, call[0], call[1], op))
            return loop("t := %s.NewFFTPoly()\n\t\t%s.%s(t, ct.Value[i], %s)\n\t\tfor j := range ctOut.Value[i].Coeffs {\n\t\t\tctOut.Value[i].Coeffs[j] %s t.Coeffs[j]\n\t\t}" % (pe, pe, call[0], call[1], op))
        fn("FFTPolyMul%sGLWETo" % acc, "ctOut, ct %s, fp poly.FFTPoly" % G, each(("FFTPolyMulPolyTo", "fp"), G))
        fn("PolyMul%sGLWETo" % acc, "ctOut, ct %s, p poly.Poly[T]" % G, each(("MulPolyTo", "p"), G))
        fn("MonomialMul%sGLWETo" % acc, "ctOut, ct %s, d int" % G, each(("MonomialMulPolyTo", "d"), G))
        fn("Permute%sGLWETo" % acc, "ctOut, ct %s, d int" % G, each(("PermutePolyTo", "d"), G))
        fn("Permute%sFFTGLWETo" % acc, "ctOut, ct %s, d int" % F, each(("PermuteFFTPolyTo", "d"), F))
    inpl = lambda call: "\tfor i := range ct.Value {\n\t\tt := ct.Value[i].Copy()\n\t\t%s.%s(ct.Value[i], t, d)\n\t}\n" % (pe, call)
    fn("MonomialMulGLWEInPlace", "ct %s, d int" % G, inpl("MonomialMulPolyTo"))
    fn("PermuteGLWEInPlace", "ct %s, d int" % G, inpl("PermutePolyTo"))
    fn("PermuteFFTGLWEInPlace", "ct %s, d int" % F, inpl("PermuteFFTPolyTo"))
    write(pkg + "/c22_ops.go", "".join(o))

poly()
cts("tfhe")
cts("mktfhe")
