package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", checkInputs)
}

// apiFuncs lists the functions users call: exported functions, and exported
// methods of exported types.
func (a *Analysis) apiFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range a.P.Funcs {
		if !exported(f) || len(f.Blocks) == 0 {
			continue
		}
		if n := recvNamed(f); n != nil && !n.Obj().Exported() {
			continue
		}
		out = append(out, f)
	}
	return out
}

func isOutName(n string) bool { return strings.HasSuffix(n, "Out") || n == "out" }

var reOutWord = regexp.MustCompile(`To($|[A-Z])`)

// outParams returns the indices of output parameters (by naming convention).
func outParams(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	base := 0
	if f.Signature.Recv() != nil {
		base = 1
	}
	for i := base; i < len(f.Params); i++ {
		if isOutName(f.Params[i].Name()) {
			out[i] = true
		}
	}
	return out
}

// mutated lists, by documented purpose, arguments an operation modifies
// although they are not named as outputs.
func mutated(f *ssa.Function, i int) bool {
	n := f.Name()
	first := firstParam(f)
	isRecv := f.Signature.Recv() != nil && i == 0
	switch {
	case strings.HasSuffix(n, "InPlace"): // "...InPlace(x) modifies x"
		return i == first || isRecv && !workerType(recvNamed(f))
	case strings.HasPrefix(n, "InvFFT") && strings.HasSuffix(n, "Unsafe"): // documented: "modifies fp"
		return f.Params[i].Name() == "fp"
	case isRecv && (strings.HasPrefix(n, "CopyFrom") || n == "Clear" || n == "ReadFrom" || n == "UnmarshalBinary"):
		return true
	case strings.HasPrefix(n, "Encrypt") && strings.HasSuffix(n, "Body"): // documented: encrypts the value in the body of ct, overwriting ct
		return i == first
	case n == "Fill" && f.Signature.Recv() == nil: // vec.Fill(v, x)
		return i == first
	}
	return false
}

// stateful receivers: objects that own scratch memory or a random stream.
func workerType(n *types.Named) bool {
	if n == nil {
		return false
	}
	for _, s := range []string{"Evaluator", "Encryptor", "Decryptor", "Encoder", "Decomposer", "Sampler", "KeyGenerator", "Transformer", "Rerandomizer", "Sanitizer", "Bootstrapper", "KeySwitcher"} {
		if strings.Contains(n.Obj().Name(), s) {
			return true
		}
	}
	return false
}

// C06: the operands of every operation are left as they were.
func checkInputs(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules, "[input-unmodified] no path of an exported operation writes memory reachable from an argument that is not its output, nor from a value receiver.")
	r.Rules = append(r.Rules, "[worker-writes-own-scratch] a worker object modifies only its own unexported scratch structure or random stream (and, when documented, its table of registered keys).",
		"[package-state-unmodified] no function writes package-level memory once the program runs (outside package initialisation).")
	r.floor("input-unmodified", 1000)
	r.floor("worker-writes-own-scratch", 300)
	r.floor("package-state-unmodified", 800)
	for _, a := range c.As {
		for _, f := range a.P.Funcs {
			if len(f.Blocks) == 0 || f.Synthetic != "" || strings.HasPrefix(f.Name(), "init") {
				continue
			}
			key := fnName(f)
			r.ob("package-state-unmodified", key)
			for _, w := range sortedAccs(a.summary(f).Writes) {
				if w.path.root.kind == 'G' && w.fn == f {
					r.fail("package-state-unmodified", key+" "+w.path.shape(), a.P.posStr(w.pos), "%s writes package-level memory %s", key, w.path.key())
				}
			}
		}
	}
	for _, a := range c.As {
		for _, f := range a.apiFuncs() {
			r.Funcs[fnName(f)] = true
			s := a.summary(f)
			outs := outParams(f)
			recv := -1
			if f.Signature.Recv() != nil {
				recv = 0
			}
			for i, p := range f.Params {
				if outs[i] || isScalar(p.Type()) || !pointerful(p.Type()) || mutated(f, i) {
					continue
				}
				if i == recv && workerType(recvNamed(f)) {
					r.ob("worker-writes-own-scratch", fnName(f))
					for _, w := range sortedAccs(s.Writes) {
						if w.path.root.kind == 'P' && w.path.root.idx == i && !ownScratch(f, w.path) && !registers(f) {
							r.fail("worker-writes-own-scratch", fnName(f)+" "+w.path.shape(), a.P.posStr(w.pos),
								"%s modifies %s, which is not its scratch memory or random stream (in %s)", fnName(f), showPath(f, w.path), fnName(w.fn))
						}
					}
					continue
				}
				r.ob("input-unmodified", fnName(f)+" "+p.Name())
				for _, w := range sortedAccs(s.Writes) {
					if w.path.root.kind == 'P' && w.path.root.idx == i {
						r.fail("input-unmodified", fmt.Sprintf("%s argument %s", fnName(f), p.Name()), a.P.posStr(w.pos),
							"%s writes %s of its input %q (in %s)", fnName(f), showPath(f, w.path), p.Name(), fnName(w.fn))
					}
				}
			}
		}
	}
}

// registers: the documented operations that add a party's key.
func registers(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Add") && strings.HasSuffix(f.Name(), "Party") || f.Name() == "AddEvaluationKey" || f.Name() == "AddSecretKey"
}

// ownScratch: the path goes through an unexported scratch structure of a
// worker object, or is the private state of a sampler of csprng-like streams.
func ownScratch(f *ssa.Function, p Path) bool {
	for i, s := range p.steps {
		if s.kind != 'f' || types.NewVar(0, nil, s.field, nil).Exported() {
			continue
		}
		owner := namedOf(typeAt(f, p, i))
		if owner == nil || !workerType(owner) {
			return false
		}
		ft := namedOf(typeAt(f, p, i+1))
		if ft != nil && strings.HasSuffix(strings.ToLower(ft.Obj().Name()), "buffer") {
			return true
		}
		if strings.HasSuffix(owner.Obj().Name(), "Sampler") {
			return true
		}
		if _, ok := types.Unalias(typeAt(f, p, i+1)).Underlying().(*types.Struct); ok && ft != nil && workerType(ft) {
			continue
		}
		return false
	}
	return false
}

func firstParam(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		return 1
	}
	return 0
}

// showPath renders a path with parameter names and without index expressions.
func showPath(f *ssa.Function, p Path) string {
	var b strings.Builder
	switch {
	case p.root.kind == 'P' && p.root.idx < len(f.Params):
		b.WriteString(f.Params[p.root.idx].Name())
	case p.root.kind == 'F' && p.root.idx < len(f.FreeVars):
		b.WriteString(f.FreeVars[p.root.idx].Name())
	default:
		b.WriteString(p.root.key)
	}
	for _, s := range p.steps {
		if s.kind == 'f' {
			b.WriteString("." + s.field)
		} else {
			b.WriteString("[]")
		}
	}
	return b.String()
}

var _ = sort.Strings
