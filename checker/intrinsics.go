package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elementwise builds an intrinsic for a kernel that writes its output vector
// (parameter out) element by element.
func elementwise(out int, f func(at func(i int) *Expr, arg func(i int) *Expr) *Expr) intrinsic {
	return func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(out) || len(r.steps) != 1 || r.steps[0].kind != 'e' {
			return nil
		}
		at := func(i int) *Expr { return xMem(Path{root: paramRoot(i), steps: r.steps}) }
		arg := func(i int) *Expr { return xMem(Path{root: paramRoot(i)}) }
		return f(at, arg)
	}
}

type atFn = func(i int) *Expr

func elementKernels() map[string]intrinsic {
	add := func(at, arg atFn) *Expr { return at(1).add(at(2)) }
	sub := func(at, arg atFn) *Expr { return at(1).sub(at(2)) }
	mul := func(at, arg atFn) *Expr { return at(1).mul(at(2)) }
	acc := func(sign int64, f func(at, arg atFn) *Expr) func(at, arg atFn) *Expr {
		return func(at, arg atFn) *Expr { return at(0).add(f(at, arg).scale(sign)) }
	}
	smul := func(at, arg atFn) *Expr { return at(1).mul(arg(2)) }
	neg := func(at, arg atFn) *Expr { return at(1).scale(-1) }
	m := map[string]intrinsic{}
	reg := func(name string, f func(at, arg atFn) *Expr) { m[name] = elementwise(0, f) }
	reg("math/vec.AddTo", add)
	reg("math/vec.SubTo", sub)
	reg("math/vec.NegTo", neg)
	reg("math/vec.ScalarMulTo", smul)
	reg("math/vec.ScalarMulAddTo", acc(1, smul))
	reg("math/vec.ScalarMulSubTo", acc(-1, smul))
	reg("math/vec.MulTo", mul)
	reg("math/vec.MulAddTo", acc(1, mul))
	reg("math/vec.MulSubTo", acc(-1, mul))
	// vectors of complex numbers: the products are those of the complex numbers
	reg("math/poly.addCmplxTo", add)
	reg("math/poly.subCmplxTo", sub)
	reg("math/poly.negCmplxTo", neg)
	reg("math/poly.floatMulCmplxTo", smul)
	reg("math/poly.floatMulAddCmplxTo", acc(1, smul))
	reg("math/poly.floatMulSubCmplxTo", acc(-1, smul))
	reg("math/poly.cmplxMulCmplxTo", smul)
	reg("math/poly.cmplxMulAddCmplxTo", acc(1, smul))
	reg("math/poly.cmplxMulSubCmplxTo", acc(-1, smul))
	reg("math/poly.mulCmplxTo", mul)
	reg("math/poly.mulAddCmplxTo", acc(1, mul))
	reg("math/poly.mulSubCmplxTo", acc(-1, mul))
	return m
}

// transform: output element j is the j-th element of a linear transform of
// the vector in parameter src.
func transform(name string, src int, acc int64) intrinsic {
	return func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(0) || len(r.steps) != 1 || r.steps[0].kind != 'e' {
			return nil
		}
		v := freshVar()
		t := xLinear(name, []*Lin{r.steps[0].lo}, v, xMem(Path{root: paramRoot(src), steps: []Step{{kind: 'e', lo: linSym(v)}}}))
		if acc != 0 {
			return xMem(r).add(t.scale(acc))
		}
		return t
	}
}

func stdIntrinsics() map[string]intrinsic {
	m := elementKernels()
	m["math/poly.fwdFFTInPlace"] = transform("fft", 0, 0)
	m["math/poly.invFFTInPlace"] = transform("ifft", 0, 0)
	m["math/poly.foldPolyTo"] = transform("fold", 1, 0)
	m["math/poly.unfoldPolyTo"] = transform("unfold", 1, 0)
	m["math/poly.unfoldPolyAddTo"] = transform("unfold", 1, 1)
	m["math/poly.unfoldPolySubTo"] = transform("unfold", 1, -1)
	m["tfhe.(*Decomposer).DecomposeScalarTo"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(1) || len(r.steps) != 1 {
			return nil
		}
		return digit(xMem(Path{root: paramRoot(2)}), r.steps[0].lo, paramRoot(3))
	}
	m["tfhe.(*Decomposer).DecomposePolyTo"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(1) || len(r.steps) != 3 {
			return nil
		}
		return digit(xMem(Path{root: paramRoot(2), steps: r.steps[1:]}), r.steps[0].lo, paramRoot(3))
	}
	m["tfhe.decomposePolyTo"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(0) || len(r.steps) != 3 {
			return nil
		}
		return digit(xMem(Path{root: paramRoot(1), steps: r.steps[1:]}), r.steps[0].lo, paramRoot(2))
	}
	for k, f := range samplerIntrinsics() {
		m[k] = f
	}
	for k, f := range permIntrinsics() {
		m[k] = f
	}
	m["math/poly.floatModQInPlace"] = func(e *Eng, fn *ssa.Function, r Path) *Expr { return nil }
	return m
}

func stdPtrs() map[string]func(fn *ssa.Function) Path {
	buf := func(f string) func(fn *ssa.Function) Path {
		return func(fn *ssa.Function) Path {
			return Path{root: paramRoot(0)}.field("buf").field(f)
		}
	}
	return map[string]func(fn *ssa.Function) Path{
		"tfhe.(*Encryptor).DefaultLWESecretKey": func(fn *ssa.Function) Path {
			return Path{root: paramRoot(0)}.field("SecretKey").field(defaultKey)
		},
		"tfhe.(*Decomposer).ScalarBuffer":  buf("cDcmp"),
		"tfhe.(*Decomposer).PolyBuffer":    buf("pDcmp"),
		"tfhe.(*Decomposer).FFTPolyBuffer": buf("fpDcmp"),
	}
}

// digit is the i-th gadget digit of x.
func digit(x *Expr, i *Lin, gp *Root) *Expr {
	g := Path{root: gp}
	return xOp("digit", x, fromLin(i), xMem(g.field("base")), xMem(g.field("level")))
}

// sampled: the sampler puts a fresh value of the given kind at each place of
// its output (parameter 1); acc adds it instead.
func sampled(kind string, acc int64, args ...int) intrinsic {
	return func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(1) {
			return nil
		}
		var as []*Expr
		for _, i := range args {
			as = append(as, xMem(Path{root: paramRoot(i)}))
		}
		n := xNoise(kind, r, as...)
		if acc != 0 {
			return xMem(r).add(n.scale(acc))
		}
		return n
	}
}

// xProd is a bilinear product of two vectors.
func xProd(op string, idx []*Lin, a, b func(v *Sym) *Expr) *Expr {
	v, w := freshVar(), freshVar()
	return xLinear(op, idx, v, xLinear(op+"'", []*Lin{linSym(v)}, w, a(v).mul(b(w))))
}

func samplerIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	for _, f := range []string{"Vec", "Poly"} {
		m["math/csprng.(*UniformSampler).Sample"+f+"To"] = sampled("uniform", 0)
		m["math/csprng.(*BinarySampler).Sample"+f+"To"] = sampled("binary", 0)
		m["math/csprng.(*BinarySampler).SampleBlock"+f+"To"] = sampled("block", 0, 2)
		m["math/csprng.(*GaussianSampler).Sample"+f+"To"] = sampled("gauss", 0, 2)
		m["math/csprng.(*GaussianSampler).Sample"+f+"AddTo"] = sampled("gauss", 1, 2)
		m["math/csprng.(*GaussianSampler).Sample"+f+"SubTo"] = sampled("gauss", -1, 2)
	}
	return m
}

// scalarSamplers: functions returning one fresh value.
var scalarSamplers = map[string]string{
	"math/csprng.(*UniformSampler).Sample":     "uniform",
	"math/csprng.(*UniformSampler).SampleN":    "uniformN",
	"math/csprng.(*BinarySampler).Sample":      "binary",
	"math/csprng.(*GaussianSampler).Sample":    "gauss",
	"math/csprng.(*GaussianSampler).normFloat": "normal",
}

// permIntrinsics: permutations of coefficients, as linear transforms of the
// polynomial that depend on the exponent only.
func permIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	perm := func(name string, src int, acc int64) intrinsic {
		return func(e *Eng, fn *ssa.Function, r Path) *Expr {
			if r.root != paramRoot(1) || len(r.steps) != 2 {
				return nil
			}
			v := freshVar()
			d := src + 1
			t := xLinear(name, []*Lin{r.steps[1].lo}, v, xMem(Path{root: paramRoot(src)}.with(r.steps[0]).with(Step{kind: 'e', lo: linSym(v)})), xMem(Path{root: paramRoot(d)}))
			if acc != 0 {
				return xMem(r).add(t.scale(acc))
			}
			return t
		}
	}
	mono := func(c int64) intrinsic {
		return func(e *Eng, fn *ssa.Function, r Path) *Expr {
			if r.root != paramRoot(1) || len(r.steps) != 2 || r.steps[1].kind != 'e' {
				return nil
			}
			return xOp("monofft", xMem(Path{root: paramRoot(2)}), fromLin(r.steps[1].lo)).addc(-c)
		}
	}
	m["math/poly.(*Evaluator).MonomialFwdFFTTo"] = mono(0)
	m["math/poly.(*Evaluator).MonomialSubOneFwdFFTTo"] = mono(1)
	m["math/poly.(*Evaluator).MonomialMulPolyInPlace"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
		// as MonomialMulPolyTo with the polynomial as input
		to := e.a.P.ByName["math/poly.(*Evaluator).MonomialMulPolyTo"]
		if to == nil || r.root != paramRoot(1) {
			return nil
		}
		v := e.calleeExit(to, r, false)
		if v.e == nil {
			return xUnknown("monomial")
		}
		return v.e.subst(func(s *Sym) *Lin {
			if s.kind == 'p' && s.path.root == paramRoot(3) && len(s.path.steps) == 0 {
				return linSym(internSym(&Sym{key: "P2", kind: 'p', path: Path{root: paramRoot(2)}}))
			}
			if s.kind == 'l' && s.path.root == paramRoot(2) {
				return linSym(internSym(&Sym{key: "len(P1" + strings.TrimPrefix(s.path.key(), "P2") + ")", kind: 'l', path: Path{root: paramRoot(1), steps: s.path.steps}}))
			}
			return nil
		}, func(a *Atom) *Expr {
			if a.kind == 'm' && a.path.root == paramRoot(2) {
				return xMem(Path{root: paramRoot(1), steps: a.path.steps})
			}
			if a.kind == 'm' && a.path.root == paramRoot(3) {
				return xMem(Path{root: paramRoot(2), steps: a.path.steps})
			}
			return nil
		})
	}
	for name, acc := range map[string]int64{"MulPolyTo": 0, "MulAddPolyTo": 1, "MulSubPolyTo": -1} {
		acc := acc
		m["math/poly.(*Evaluator)."+name] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
			if r.root != paramRoot(1) || len(r.steps) != 2 {
				return nil
			}
			t := xProd("mulpoly", []*Lin{r.steps[1].lo}, func(v *Sym) *Expr {
				return xMem(Path{root: paramRoot(2)}.with(r.steps[0]).with(Step{kind: 'e', lo: linSym(v)}))
			}, func(v *Sym) *Expr {
				return xMem(Path{root: paramRoot(3)}.with(r.steps[0]).with(Step{kind: 'e', lo: linSym(v)}))
			})
			if acc != 0 {
				return xMem(r).add(t.scale(acc))
			}
			return t
		}
	}
	for _, k := range []string{"Poly", "FFTPoly"} {
		m["math/poly.(*Evaluator).Permute"+k+"To"] = perm("permute"+k, 2, 0)
		m["math/poly.(*Evaluator).Permute"+k+"InPlace"] = perm("permute"+k, 1, 0)
		m["math/poly.(*Evaluator).PermuteAdd"+k+"To"] = perm("permute"+k, 2, 1)
		m["math/poly.(*Evaluator).PermuteSub"+k+"To"] = perm("permute"+k, 2, -1)
	}
	return m
}
