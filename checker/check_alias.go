package main

import (
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", checkOverlap)
}

var reNoOverlap = regexp.MustCompile(`(?is)(should|must|can|may)\s*not\s+overlap|cannot\s+overlap`)

// differentDims: operations whose output has another dimension than the
// operand of the same type, so that the two are never the same object.
var differentDims = map[string]string{
	"DefaultKeySwitchTo": "the operand has the dimension of the large LWE key, the output that of the small one",
	"KeySwitchLWETo":     "the operand has the dimension of the input key, the output that of the output key",
	"KeySwitchGLWETo":    "the operand has the rank of the input key, the output that of the output key",
	"RelinearizeTo":      "the operand is a tensor product with more components than the output",
}

func (a *Analysis) overlapDocumented(f *ssa.Function) bool {
	return reNoOverlap.MatchString(a.P.docOf(f))
}

// C08: an output may be the same object as an input.
func checkOverlap(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[output-may-be-input] unless the documentation forbids overlap, an operation never reads an element of an operand after the element of the output at the same position (of an operand of the output's type) may have been written.",
		"[no-internal-overlap] no operation passes one object as output and operand to an operation that reads the operand after writing the output.")
	r.floor("output-may-be-input", 400)
	r.floor("no-internal-overlap", 1500)
	for _, a := range c.As {
		for _, f := range a.apiFuncs() {
			r.Funcs[fnName(f)] = true
			s := a.summary(f)
			outs := outParams(f)
			if a.overlapDocumented(f) || differentDims[f.Name()] != "" {
				continue
			}
			for o := range outs {
				for i, p := range f.Params {
					if outs[i] || i == o || i == 0 && f.Signature.Recv() != nil {
						continue
					}
					if isScalar(p.Type()) || !sameObjType(f.Params[o].Type(), p.Type()) {
						continue
					}
					key := fnName(f) + " " + f.Params[o].Name() + "=" + p.Name()
					r.ob("output-may-be-input", key)
					for _, h := range s.Haz {
						if len(h.wp.steps) == 0 && len(h.rp.steps) == 0 && h.wp.root.kind == 'P' && h.wp.root.idx == o && h.rp.root.kind == 'P' && h.rp.root.idx == i {
							r.fail("output-may-be-input", key, a.P.posStr(h.w.pos),
								"%s writes %s (in %s) before it reads %s (in %s, %s): the result is wrong when %s is %s, which its documentation does not exclude",
								fnName(f), showPath(f, h.w.path), fnName(h.w.fn), showPath(f, h.r.path), fnName(h.r.fn), a.P.posStr(h.r.pos), f.Params[o].Name(), p.Name())
						}
					}
				}
			}
		}
		for _, f := range a.P.Funcs {
			if len(f.Blocks) == 0 {
				continue
			}
			s := a.summary(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(ssa.CallInstruction); ok {
						r.Oblig["no-internal-overlap"]++
					}
				}
			}
			var ks []string
			for k := range s.CallHaz {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				h := s.CallHaz[k]
				r.fail("no-internal-overlap", fnName(f)+" calls "+strings.Fields(k)[0], a.P.posStr(h.w.pos),
					"%s passes %s to %s as output and as operand, but the operand is read (%s) after the output is written", fnName(f), showPath(f, h.w.path), strings.Fields(k)[0], a.P.posStr(h.r.pos))
			}
		}
	}
}
