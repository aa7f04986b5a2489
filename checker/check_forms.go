package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C23: an operation that allocates its result computes what its "...To" form
// computes.
// ---------------------------------------------------------------------------

// callAtom is what a call of fn leaves at place r, as an uninterpreted
// function of the call's arguments: scalars by value, everything else either
// by reference or (content) by what the call reads of it.
// With out < 0 it stands for the results, with out == anyOut for everything fn
// writes.
const anyOut = 1000

// callOps names the function behind an operator.
var callOps = map[string]string{}

func callAtom(a *Analysis, fn *ssa.Function, out int, content bool) intrinsic {
	return callAtomOn(a, fn, out, content, nil)
}

// callAtomOn: of the parameters in same only what is at the place asked for
// is taken as an argument.
func callAtomOn(a *Analysis, fn *ssa.Function, out int, content bool, same map[int]bool) intrinsic {
	return func(e *Eng, _ *ssa.Function, r Path) *Expr {
		switch {
		case out == anyOut && (r.root.kind == 'P' || r.root.kind == 'R'):
		case out >= 0 && r.root != paramRoot(out) || out < 0 && r.root.kind != 'R':
			return nil
		}
		op := "call " + fnName(fn)
		if out == anyOut {
			op += fmt.Sprintf(" %c%d", r.root.kind, r.root.idx)
		}
		var args []*Expr
		defer func() { callOps[op] = fnName(fn) }()
		for _, s := range r.steps {
			if s.kind == 'f' {
				op += "." + s.field
			} else {
				op += "[]"
				args = append(args, fromLin(s.lo))
			}
		}
		for i, p := range fn.Params {
			if i == out {
				continue
			}
			root := Path{root: paramRoot(i)}
			_, isFn := p.Type().Underlying().(*types.Signature)
			_, isPtr := p.Type().Underlying().(*types.Pointer)
			switch {
			case isScalar(p.Type()):
				args = append(args, xMem(root))
			case same[i]:
				args = append(args, xMem(Path{root: root.root, steps: r.steps}))
			case isFn || isPtr || !content:
				args = append(args, xNoise("ref", root))
			default:
				seen := map[string]bool{}
				for _, rd := range sortedAccs(a.summary(fn).Reads) {
					if rd.path.root != root.root || seen[rd.path.shape()] {
						continue
					}
					seen[rd.path.shape()] = true
					args = append(args, vecOf(rd.path, nil))
				}
			}
		}
		return xOp(op, args...)
	}
}

// vecOf is the content of all places of the shape of p.
func vecOf(p Path, done []Step) *Expr {
	for i := len(done); i < len(p.steps); i++ {
		s := p.steps[i]
		if s.kind == 'f' {
			done = append(done[:len(done):len(done)], s)
			continue
		}
		v := freshVar()
		return xVecOp("vec", nil, v, vecOf(p, append(done[:len(done):len(done)], Step{kind: 'e', lo: linSym(v)})))
	}
	return xMem(Path{root: p.root, steps: done})
}

// formPair: op allocates the result that to writes into its parameter out.
type formPair struct {
	op, to *ssa.Function
	out    int
	args   []int // parameter of op for each parameter of to (-1: out)
}

func formPairs(a *Analysis) []formPair {
	var res []formPair
	for _, fn := range a.P.Funcs {
		if fn.Signature.Results().Len() != 1 || !fn.Object().Exported() {
			continue
		}
		to := a.P.ByName[fnName(fn)+"To"]
		if to == nil || to.Signature.Results().Len() != 0 || len(to.Params) != len(fn.Params)+1 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		pr := formPair{op: fn, to: to, out: -1}
		j := 0
		ok := true
		for i, p := range to.Params {
			if pr.out < 0 && sameTypeText(p.Type(), rt) && strings.Contains(p.Name(), "Out") {
				pr.out = i
				pr.args = append(pr.args, -1)
				continue
			}
			if j >= len(fn.Params) || !sameTypeText(p.Type(), fn.Params[j].Type()) {
				ok = false
				break
			}
			pr.args = append(pr.args, j)
			j++
		}
		if ok && pr.out >= 0 && j == len(fn.Params) {
			res = append(res, pr)
		}
	}
	return res
}

func sameTypeText(a, b types.Type) bool {
	q := func(p *types.Package) string { return p.Name() }
	return types.TypeString(a, q) == types.TypeString(b, q)
}

// rename carries a value from the frame of to over to that of op; the content
// of the fresh result is zero.
func (pr formPair) rename(x *Expr) *Expr {
	mp := func(p Path) (Path, bool) {
		if p.root == nil || p.root.kind != 'P' {
			return p, true
		}
		j := pr.args[p.root.idx]
		if j < 0 {
			return p, false
		}
		return Path{root: paramRoot(j), steps: p.steps}, true
	}
	var fs substFn
	fs = func(s *Sym) *Lin {
		if (s.kind == 'p' || s.kind == 'l') && s.path.root != nil && s.path.root.kind == 'P' {
			p, ok := mp(s.path.substIdx(fs))
			if !ok {
				return nil
			}
			if s.kind == 'l' {
				return linSym(internSym(&Sym{key: "len(" + p.key() + ")", kind: 'l', path: p}))
			}
			return linSym(internSym(&Sym{key: p.key(), kind: 'p', path: p}))
		}
		return nil
	}
	// in two steps, so that a renamed place is not renamed again
	return x.subst(func(s *Sym) *Lin { return fs(s) }, func(a *Atom) *Expr {
		switch a.kind {
		case 'm', 'N':
			p, ok := mp(a.path)
			if !ok {
				return xConst(0)
			}
			if a.kind == 'N' {
				return xNoise(a.op, p, a.args...)
			}
			return xMem(p)
		}
		return nil
	})
}

// oneArgument: got and want are the results of one uninterpreted function for
// lists of arguments that differ in one place only.
func oneArgument(fn *ssa.Function, got, want *Expr, l leaf) bool {
	sole := func(x *Expr) *Atom {
		if x.unk || len(x.ms) != 1 || x.ms[0].co != 1 || len(x.ms[0].as) != 1 {
			return nil
		}
		if a := x.ms[0].as[0]; a.kind == 'o' && strings.HasPrefix(a.op, "call ") {
			return a
		}
		return nil
	}
	a, b := sole(got), sole(want)
	if a == nil || b == nil || a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	n := 0
	for i := range a.args {
		if a.args[i] == b.args[i] {
			continue
		}
		if d, _, err := differ(fn, a.args[i].absorb(), b.args[i].absorb(), l); err == nil && d {
			n++
		} else if err != nil {
			return false
		}
	}
	return n == 1
}

// sharedCallees are the functions of the module that both a and b call
// directly.
func sharedCallees(an *Analysis, a, b *ssa.Function) []*ssa.Function {
	callees := func(fn *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						if o := f.Origin(); o != nil {
							f = o
						}
						m[f] = true
					}
				}
			}
		}
		return m
	}
	ca, cb := callees(a), callees(b)
	var res []*ssa.Function
	for _, f := range an.P.Funcs {
		// constructors are left: their results are places, not values
		if ca[f] && cb[f] && f != a && f != b && !strings.HasPrefix(f.Name(), "New") {
			res = append(res, f)
		}
	}
	return res
}

func checkForms(c *Ctx) {
	const rule = "same-as-To"
	a := c.As[1]
	var undecided []string
	pairs := formPairs(a)
	isOp := map[*ssa.Function]bool{}
	for _, pr := range pairs {
		isOp[pr.op] = true
	}
	for _, pr := range pairs {
		name := fnName(pr.op)
		if only := os.Getenv("ONLY"); only != "" && !strings.Contains(name, only) {
			continue
		}
		c.Rep.Funcs[name] = true
		nd := 0
		t0 := time.Now()
		done := func() {
			if os.Getenv("DBG") != "" && time.Since(t0) > time.Second {
				fmt.Println("slow", name, time.Since(t0))
			}
		}
		for _, l := range results(pr.op, 0) {
			toLeaf := leaf{p: Path{root: paramRoot(pr.out), steps: l.p.steps}, res: -1, vars: l.vars, t: l.t}
			writes := false
			for _, w := range newEng(a, engType).outputs(pr.to) {
				writes = writes || w.p.shape() == toLeaf.p.shape()
			}
			if !writes {
				continue
			}
			eval := func(level int, strict bool) (*Expr, *Expr) {
				e := newEng(a, engType)
				e.strict = strict
				var want *Expr
				switch level {
				case 0: // the To form itself uninterpreted
					f := callAtom(a, pr.to, pr.out, false)
					e.intr[fnName(pr.to)] = f
					want = f(e, pr.to, toLeaf.p)
				default:
					e2 := newEng(a, engType)
					e2.strict = strict
					if level == 2 {
						e.budget, e2.budget = 50000, 50000
					}
					if level == 1 { // what both call uninterpreted
						for _, f := range sharedCallees(a, pr.op, pr.to) {
							if isOp[f] {
								continue
							}
							g := callAtom(a, f, anyOut, true)
							e.intr[fnName(f)], e2.intr[fnName(f)] = g, g
						}
						for _, o := range pairs {
							if o.to != pr.to && o.op != pr.op {
								g := callAtom(a, o.to, o.out, true)
								e.intr[fnName(o.to)], e2.intr[fnName(o.to)] = g, g
							}
						}
					}
					want = e2.valueAt(pr.to, toLeaf)
				}
				return e.valueAt(pr.op, l), pr.rename(want)
			}
			st := "undecided"
			var got, want *Expr
			if !withFuel(4000000, func() {
				got, want = eval(0, false)
				if !got.unk && got == want {
					st = "equal"
				} else if got, want = eval(1, false); !got.unk && got == want {
					st = "equal"
				} else if g, w := eval(1, true); oneArgument(pr.op, got, want, l) && oneArgument(pr.op, g, w, l) {
					st = "different"
				} else {
					got, want = eval(2, false)
					if !got.unk && !want.unk {
						st = "equal"
						if g, w := got.absorb(), want.absorb(); g != w {
							d, _, err := differ(pr.op, g, w, l)
							if err != nil {
								st = "undecided"
							} else if d {
								// with all conditions kept, too
								st = "undecided"
								if got, want = eval(2, true); !got.unk && !want.unk {
									if d, _, err := differ(pr.op, got.absorb(), want.absorb(), l); err == nil && d {
										st = "different"
									}
								}
							}
						}
					}
				}
			}) {
				st = "undecided"
			}
			if os.Getenv("DBG") != "" && lastFuel < 3800000 {
				fmt.Println("fuel used", name, 4000000-lastFuel)
			}
			switch st {
			case "undecided":
				undecided = append(undecided, name+" "+l.p.key())
			case "equal":
				c.Rep.ob(rule, name+" "+l.p.key())
			default:
				c.Rep.ob(rule, name+" "+l.p.key())
				nd++
				if nd == 1 {
					c.Rep.fail(rule, name+"|"+l.p.shape(), a.P.posStr(pr.op.Pos()), "%s returns a value other than what %s computes for the same arguments:\n   returned %s\n   computed %s",
						name, fnName(pr.to), clip(got.String()), clip(want.String()))
				}
			}
		}
		done()
	}
	c.Rep.Extra["undecided"] = clipList(undecided)
	c.Rep.Extra["undecided_count"] = len(undecided)
	if os.Getenv("DBG") != "" {
		for _, u := range undecided {
			fmt.Println("undecided", u)
		}
	}
}

func init() {
	register("C23", checkForms)
	register("C26", func(c *Ctx) { checkSpecs(c, "C26", "encode", 0, nil) })
	register("C15", func(c *Ctx) { checkSpecs(c, "C15", "encryption", 0, products) })
	register("C17", func(c *Ctx) {
		checkSpecs(c, "C17", "bootstrap", 0, opaque([]string{
			"tfhe.(*Evaluator).blindRotateExtendedTo", "tfhe.(*Evaluator).blindRotateBlockTo", "tfhe.(*Evaluator).blindRotateOriginalTo",
			"mktfhe.(*Evaluator).BlindRotateTo", "mktfhe.(*Evaluator).BlindRotateParallelTo",
			"tfhe.(*Evaluator).DefaultKeySwitchTo", "mktfhe.(*Evaluator).DefaultKeySwitchTo",
			"tfhe.(*Evaluator).BlindRotateTo", "tfhe.(*Evaluator).GenLUTTo", "tfhe.(*Evaluator).GenLUTCustomTo", "tfhe.(*Evaluator).GenLUTCustomFullTo",
			"tfhe.(*Evaluator).BootstrapLUTTo", "mktfhe.(*Evaluator).BootstrapLUTTo", "mktfhe.(*Evaluator).BootstrapLUTParallelTo"}, reverse))
	})
	register("C18", func(c *Ctx) {
		checkSpecs(c, "C18", "gates", 0, opaque([]string{"tfhe.(*Evaluator).BootstrapLUTTo", "mktfhe.(*Evaluator).BootstrapLUTTo", "mktfhe.(*Evaluator).BootstrapLUTParallelTo",
			"tfhe.(*Encryptor).EncryptLWEPlaintextTo", "tfhe.(*PublicEncryptor).EncryptLWEPlaintextTo"}))
	})
	register("C03", func(c *Ctx) { checkSpecs(c, "C03", "parallel", 0, sameParallel) })
	register("C27", func(c *Ctx) { checkSpecs(c, "C27", "products", 0, products) })
}

// parallelPairs are the parallel forms with their sequential ones.
func parallelPairs(a *Analysis) (out []specPair) {
	for _, fn := range a.P.Funcs {
		n := fnName(fn)
		i := strings.LastIndex(n, "Parallel")
		if i < 0 || !fn.Object().Exported() {
			continue
		}
		if seq := a.P.ByName[n[:i]+n[i+len("Parallel"):]]; seq != nil && len(seq.Params) == len(fn.Params) {
			out = append(out, specPair{spec: seq, impl: fn})
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i].impl) < fnName(out[j].impl) })
	return
}

// sameParallel takes the big steps as operators, the same one for the parallel
// and the sequential form.
func sameParallel(e *Eng) {
	opaque([]string{"tfhe.(*Evaluator).BlindRotateTo", "tfhe.(*Evaluator).FwdFFTGLWECiphertextTo", "tfhe.(*Evaluator).DefaultKeySwitchTo",
		"mktfhe.(*Evaluator).DefaultKeySwitchTo", "tfhe.(*Evaluator).GenLUTTo"}, products, monomials)(e)
	// a round of the accumulation, coefficient by coefficient: which factors
	// meet in which order is what counts
	if fn := e.a.P.ByName["mktfhe.(*Evaluator).ExternalProdGLWETo"]; fn != nil && len(fn.Params) == 5 {
		e.intr[fnName(fn)] = callAtomOn(e.a, fn, outParam(fn), true, map[int]bool{3: true})
	}
	for _, pr := range parallelPairs(e.a) {
		if len(pr.spec.Params) > 1 && pr.spec.Signature.Results().Len() == 0 {
			op := callAtom(e.a, pr.spec, 1, true)
			e.intr[fnName(pr.spec)], e.intr[fnName(pr.impl)] = op, op
		}
	}
}

// monomials takes the product with a monomial as an operator; C22 compares it
// with its definition.
func monomials(e *Eng) {
	for name, in := range map[string]int{"MonomialMulPolyTo": 2, "MonomialMulPolyInPlace": 1} {
		in := in
		e.intr["math/poly.(*Evaluator)."+name] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
			if r.root != paramRoot(1) || len(r.steps) != 2 {
				return nil
			}
			p := Path{root: paramRoot(in)}.field("Coeffs").with(Step{kind: 'e', lo: linSym(freshVar())})
			return xOp("call monomial", fromLin(r.steps[1].lo), vecOf(p, nil), xMem(Path{root: paramRoot(in + 1)}))
		}
	}
}

// outParam is the parameter fn leaves its result in.
func outParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if i > 1 && strings.HasSuffix(p.Name(), "Out") {
			return i
		}
	}
	return 1
}

// opaque takes functions as uninterpreted ones of what they are given, which
// determines what they write to their first argument.
func opaque(names []string, more ...func(*Eng)) func(*Eng) {
	return func(e *Eng) {
		for _, name := range names {
			if fn := e.a.P.ByName[name]; fn != nil {
				e.intr[name] = callAtom(e.a, fn, outParam(fn), true)
			}
		}
		for _, f := range more {
			f(e)
		}
	}
}

// products takes the products of a polynomial and a transformed one as
// bilinear operators; C22 compares them with their definition.
func products(e *Eng) {
	reverse(e)
	for name, acc := range map[string]int64{"": 0, "Add": 1, "Sub": -1} {
		acc := acc
		for _, kind := range []string{"Short", ""} {
			op := "mul" + kind
			e.intr["math/poly.(*Evaluator)."+kind+"FFTPolyMul"+name+"PolyTo"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
				if r.root != paramRoot(1) || len(r.steps) != 2 {
					return nil
				}
				at := func(i int) func(v *Sym) *Expr {
					return func(v *Sym) *Expr {
						return xMem(Path{root: paramRoot(i)}.field("Coeffs").with(Step{kind: 'e', lo: linSym(v)}))
					}
				}
				t := xProd(op, []*Lin{r.steps[1].lo}, at(2), at(3))
				if acc != 0 {
					return xMem(r).add(t.scale(acc))
				}
				return t
			}
		}
	}
}

// reverse has the closed form of the exchange of two runs of indices.
func reverse(e *Eng) {
	e.intr["math/vec.ReverseInPlace"] = func(e *Eng, fn *ssa.Function, r Path) *Expr {
		if r.root != paramRoot(0) || len(r.steps) != 1 || r.steps[0].kind != 'e' {
			return nil
		}
		i := linLen(Path{root: paramRoot(0)}).addc(-1).sub(r.steps[0].lo)
		return xMem(Path{root: paramRoot(0), steps: []Step{{kind: 'e', lo: i}}})
	}
}
