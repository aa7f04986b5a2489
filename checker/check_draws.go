package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Freshness of randomness: in a result that holds several ciphertexts, two of
// them never contain the same draw of a sampler. A draw is identified by the
// place it was put at and the rounds of the loops around the call.
// ---------------------------------------------------------------------------

var cipherTypes = map[string]bool{"LWECiphertext": true, "GLWECiphertext": true, "FFTGLWECiphertext": true}

// containerVars are the index variables of l that tell ciphertexts apart.
func containerVars(fn *ssa.Function, l leaf) []*Sym {
	var t types.Type
	if l.res >= 0 {
		t = fn.Signature.Results().At(l.res).Type()
	} else {
		t = fn.Params[l.p.root.idx].Type()
	}
	var out []*Sym
	for _, s := range l.p.steps {
		t = types.Unalias(t)
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok && cipherTypes[n.Obj().Name()] {
			return out
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = nil
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == s.field {
					t = u.Field(i).Type()
				}
			}
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		default:
			t = nil
		}
		if t == nil {
			return nil
		}
		if s.kind == 'e' && len(s.lo.t) == 1 && s.lo.c == 0 {
			out = append(out, s.lo.t[0].s)
		}
	}
	return nil
}

// drawsAt: the draws in the value of leaf l at the given indices.
func drawsAt(fn *ssa.Function, v *Expr, l leaf, at map[*Sym]int64, seed int) (d map[string]bool, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	ip := newInterp(fn, seed)
	ip.n = 4
	ip.draws = map[string]bool{}
	for q, x := range at {
		ip.vars[q] = x
	}
	ip.expr(v)
	return ip.draws, nil
}

func drawsOf(d map[string]bool, op string) []string {
	var out []string
	for k := range d {
		if strings.HasPrefix(k, op) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// sharedDraw finds two ciphertexts of the result with the same draws of a
// sampler.
func sharedDraw(fn *ssa.Function, l leaf, v *Expr) string {
	cv := containerVars(fn, l)
	for _, c := range cv {
		for seed := 1; seed <= 6; seed++ {
			at, bt := map[*Sym]int64{}, map[*Sym]int64{}
			for i, q := range l.vars {
				x := int64((seed + i) % 2)
				at[q], bt[q] = x, x
			}
			at[c], bt[c] = 0, 1
			a, err1 := drawsAt(fn, v, l, at, seed)
			b, err2 := drawsAt(fn, v, l, bt, seed)
			if err1 != nil || err2 != nil {
				if os.Getenv("DBG") != "" {
					fmt.Println("draws not interpreted", fnName(fn), l.p.key(), err1, err2)
				}
				continue
			}
			// the draws of one sampler are the same ones for both ciphertexts
			for op := range sampleOps {
				x, y := drawsOf(a, op), drawsOf(b, op)
				if len(x) > 0 && strings.Join(x, "|") == strings.Join(y, "|") {
					return x[0]
				}
			}
		}
	}
	return ""
}

// checkDraws applies the rule to the functions that have a definition for prop.
func checkDraws(c *Ctx, a *Analysis, pairs []specPair, tune func(*Eng)) {
	n := 0
	for _, pr := range pairs {
		fn := pr.impl
		name := fnName(fn)
		if only := os.Getenv("ONLY"); only != "" && !strings.Contains(name, only) {
			continue
		}
		for _, l := range valOutputs(a, pr.spec) {
			if len(containerVars(fn, l)) == 0 {
				continue
			}
			e := newEng(a, engType)
			if tune != nil {
				tune(e)
			}
			delete(e.intr, name)
			e.strict = true
			v := &Expr{unk: true}
			withFuel(specFuel, func() { v = e.valueAt(fn, l) })
			if v.unk {
				continue
			}
			n++
			ob := name + ": " + l.p.key()
			c.Rep.ob("fresh-draws", ob)
			if d := sharedDraw(fn, l, v); d != "" {
				c.Rep.fail("fresh-draws", name+"|"+l.p.shape(), a.P.posStr(fn.Pos()),
					"%s puts the same random draw (%s) into two ciphertexts of its result, at %s for different indices", name, clip(d), placeName(fn, l))
			}
		}
	}
	c.Rep.Extra["results_with_fresh_draws"] = n
}
