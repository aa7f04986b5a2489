package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", checkFresh)
}

// accumulates: operations documented to add to (or work in) their output.
func accumulates(f *ssa.Function) bool {
	n := f.Name()
	return reAccum.MatchString(n) && !strings.HasPrefix(n, "Copy") && !strings.Contains(n, "SubOne")
}

var reAccum = regexp.MustCompile(`[a-zT](Add|Sub)`)

// streamState: the private state of a sampler, which is meant to be carried
// from one call to the next.
func streamState(f *ssa.Function, p Path) bool {
	for i, s := range p.steps {
		if s.kind != 'f' {
			continue
		}
		owner := namedOf(typeAt(f, p, i))
		if owner != nil && strings.HasSuffix(owner.Obj().Name(), "Sampler") {
			return true
		}
	}
	return false
}

// configPart: the path ends in a parameter structure held by the object.
func configPart(f *ssa.Function, p Path) bool {
	for i := range p.steps {
		if n := namedOf(typeAt(f, p, i)); n != nil && strings.HasSuffix(n.Obj().Name(), "Parameters") {
			return true
		}
	}
	return false
}

// C07: results do not depend on what the output or the scratch memory held.
func checkFresh(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[output-not-read] an operation that is not documented to accumulate never reads a part of its output that no write can have reached before.",
		"[scratch-not-read] no exported operation reads a part of its object's scratch memory that no write of the same call can have reached before (ranges are tried at their first and last position).",
		"[output-written] every exported operation with an output parameter may write every slice-typed part of it, and no may-write set is visibly short of its first or last position.")
	r.Rules = append(r.Rules, "[output-written-on-paths] no path through an operation ends without having written its output, and what is written is not only a window picked by an integer argument.")
	for _, a := range c.As {
		for _, f := range a.apiFuncs() {
			r.Funcs[fnName(f)] = true
			s := a.summary(f)
			outs := outParams(f)
			for i := range outs {
				if !accumulates(f) && pointerful(f.Params[i].Type()) {
					r.ob("output-not-read", fnName(f)+" "+f.Params[i].Name())
				}
			}
			if f.Signature.Recv() != nil && workerType(recvNamed(f)) {
				r.ob("scratch-not-read", fnName(f))
			}
			for _, x := range sortedAccs(s.Def) {
				p := x.path
				if p.root.kind != 'P' || p.root.idx >= len(f.Params) {
					continue
				}
				i := p.root.idx
				if outs[i] && !accumulates(f) {
					if isDimPath(p) || configPart(f, p) {
						continue
					}
					r.fail("output-not-read", fmt.Sprintf("%s output %s", fnName(f), f.Params[i].Name())+" "+p.shape(), a.P.posStr(x.pos), "%s reads %s before writing it (in %s)", fnName(f), showPath(f, p), fnName(x.fn))
				}
				if i == 0 && f.Signature.Recv() != nil && workerType(recvNamed(f)) && ownScratch(f, p) && !streamState(f, p) && !configPart(f, p) {
					r.fail("scratch-not-read", fnName(f)+" "+p.shape(), a.P.posStr(x.pos), "%s reads scratch %s before writing it (in %s)", fnName(f), showPath(f, p), fnName(x.fn))
				}
			}
			for i := range outs {
				a.outputWritten(r, f, i, s)
			}
			if len(outs) == 0 && f.Signature.Recv() != nil && mutated(f, 0) && strings.HasPrefix(f.Name(), "CopyFrom") {
				outs = map[int]bool{0: true}
			}
			if !accumulates(f) {
				for i := range outs {
					a.outputOnPaths(r, f, i, s)
				}
			}
		}
	}
}

// outputOnPaths: parts of the output that a whole path, or every call with
// some value of an integer argument, leaves as they were.
func (a *Analysis) outputOnPaths(r *Report, f *ssa.Function, i int, s *Summary) {
	p := f.Params[i]
	if !pointerful(p.Type()) || len(f.Blocks) == 0 {
		return
	}
	fi := a.fnInfo(f)
	root := paramRoot(i)
	for _, l := range leaves(Path{root: root}, p.Type(), 0) {
		if len(l.steps) == 0 {
			continue
		}
		key := fnName(f) + " " + showPath(f, l)
		r.ob("output-written-on-paths", key)
		if s.MustW.covers(l) || a.viewOfWritten(f, i, l, s) {
			continue
		}
		if ret := a.pathWithoutWrite(fi, l); ret != nil {
			r.fail("output-written-on-paths", key, a.P.posStr(instrPos(ret)), "a path through %s ends without writing any of %s", fnName(f), showPath(f, l))
			continue
		}
		if at, what := a.loopLeavesOut(fi, l); at != nil {
			r.fail("output-written-on-paths", key, a.P.posStr(instrPos(at)), "%s %s", fnName(f), fmt.Sprintf(what, showPath(f, l)))
			continue
		}
		// windows that move with an integer argument
		var ws []Acc
		for _, w := range s.Writes {
			if w.path.root == root && overlapSteps(w.path.steps, l.steps) {
				ws = append(ws, w)
			}
		}
		for j, st := range l.steps {
			if st.kind != 'r' || len(ws) == 0 {
				continue
			}
			moving, other := false, false
			for _, w := range ws {
				if j >= len(w.path.steps) {
					other = true
					continue
				}
				x := w.path.steps[j]
				switch {
				case x.kind == 'e' && x.lo.isConst():
				case x.kind == 'e' && onArg(f, x.lo):
					moving = true
				case x.kind == 'r' && x.hi != nil && onArg(f, x.lo) && onArg(f, x.hi):
					moving = true
				default:
					other = true
				}
			}
			if moving && !other {
				r.fail("output-written-on-paths", key, a.P.posStr(f.Pos()), "%s writes only the part of %s that an argument picks, and leaves the rest as it was", fnName(f), showPath(f, l))
				break
			}
		}
	}
}

// viewOfWritten: by construction of its type, the part l of the argument is
// the same memory as another part that the operation writes.
func (a *Analysis) viewOfWritten(f *ssa.Function, i int, l Path, s *Summary) bool {
	return a.viewOf(f, i, l, s.MustW.covers)
}

// viewOf: by construction of its type, the part l of argument i is the same
// memory as another part for which ok holds.
func (a *Analysis) viewOf(f *ssa.Function, i int, l Path, ok func(Path) bool) bool {
	n := namedOf(f.Params[i].Type())
	if n == nil {
		return false
	}
	for _, c := range a.constructorsOf(n) {
		fi := a.fnInfo(c)
		for _, p := range a.returns(c, 0) {
			roots := func(q Path) map[*Root]bool {
				out := map[*Root]bool{}
				for _, x := range fi.extend(p, eraseIdx(q.steps), 0) {
					out[x.root] = true
				}
				return out
			}
			mine := roots(l)
			for _, o := range leaves(Path{root: l.root}, f.Params[i].Type(), 0) {
				if o.shape() == l.shape() || !ok(o) {
					continue
				}
				for x := range roots(o) {
					if mine[x] && x.kind != 'P' {
						return true
					}
				}
			}
		}
	}
	return false
}

// onArg: the position moves with an integer argument.
func onArg(f *ssa.Function, l *Lin) bool {
	for _, t := range l.t {
		hit := false
		linSym(t.s).subst(func(y *Sym) *Lin {
			if y.kind == 'p' && len(y.path.steps) == 0 && y.path.root.kind == 'P' && y.path.root.idx < len(f.Params) && isInt(f.Params[y.path.root.idx].Type()) {
				hit = true
			}
			return nil
		})
		if hit {
			return true
		}
	}
	return false
}

// mayWrite tells which blocks may write l.
func (a *Analysis) mayWrite(fi *FnInfo, l Path) map[*ssa.BasicBlock]bool {
	dummy := newSummary(fi.fn)
	memo := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.fn.Blocks {
		for _, in := range b.Instrs {
			it := a.itemOf(fi, in, dummy)
			if it == nil {
				continue
			}
			for _, w := range it.writes {
				if w.path.root == l.root && overlapSteps(w.path.steps, l.steps) {
					memo[b] = true
				}
			}
		}
	}
	return memo
}

func (a *Analysis) writesIn(fi *FnInfo, b *ssa.BasicBlock, l Path) []Path {
	dummy := newSummary(fi.fn)
	var out []Path
	for _, in := range b.Instrs {
		it := a.itemOf(fi, in, dummy)
		if it == nil {
			continue
		}
		for _, w := range it.writes {
			if w.path.root == l.root && overlapSteps(w.path.steps, l.steps) {
				out = append(out, w.path)
			}
		}
	}
	return out
}

// loopLeavesOut: a loop that writes the output is left from the middle, or
// has a way through an iteration that writes nothing.
func (a *Analysis) loopLeavesOut(fi *FnInfo, l Path) (ssa.Instruction, string) {
	memo := a.mayWrite(fi, l)
	for _, lp := range fi.loops {
		writes := false
		for b := range lp.blocks {
			if memo[b] {
				writes = true
			}
		}
		if !writes {
			continue
		}
		for b := range lp.blocks {
			if b == lp.header {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return b.Instrs[len(b.Instrs)-1], "returns from the middle of the loop that writes %s"
			}
			for _, n := range b.Succs {
				if lp.blocks[n] || panics(n) {
					continue
				}
				return b.Instrs[len(b.Instrs)-1], "leaves the loop that writes %s before its end"
			}
		}
	}
	// a way through an iteration without any write
	dead := fi.deadEdges()
	for _, lp := range fi.loops {
		var ws []Path
		for b := range lp.blocks {
			if memo[b] {
				ws = append(ws, a.writesIn(fi, b, l)...)
			}
		}
		if len(ws) == 0 {
			continue
		}
		// written before or after the loop as well
		before := false
		for _, b := range fi.fn.Blocks {
			if !memo[b] || lp.blocks[b] {
				continue
			}
			for _, p := range a.writesIn(fi, b, l) {
				for _, q := range ws {
					before = before || overlapSteps(p.steps, q.steps)
				}
			}
		}
		if before {
			continue
		}
		inner := func(b *ssa.BasicBlock) bool {
			for _, l2 := range fi.loops {
				if l2 != lp && l2.header == b && lp.blocks[b] {
					for c := range l2.blocks {
						if memo[c] {
							return true
						}
					}
				}
			}
			return false
		}
		latch := map[*ssa.BasicBlock]bool{}
		for _, b := range lp.latches {
			latch[b] = true
		}
		var found *ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		var visit func(b *ssa.BasicBlock)
		visit = func(b *ssa.BasicBlock) {
			if seen[b] || found != nil || memo[b] || inner(b) || !lp.blocks[b] {
				return
			}
			seen[b] = true
			if latch[b] {
				found = b
				return
			}
			for _, n := range b.Succs {
				if !dead[[2]*ssa.BasicBlock{b, n}] {
					visit(n)
				}
			}
		}
		visit(lp.header)
		if found != nil {
			return found.Instrs[len(found.Instrs)-1], "may skip an iteration of the loop that writes %s"
		}
	}
	return nil, ""
}

func panics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// pathWithoutWrite finds a return reached without any instruction that may
// write l. A loop that may write it counts as writing it.
func (a *Analysis) pathWithoutWrite(fi *FnInfo, l Path) ssa.Instruction {
	memo := a.mayWrite(fi, l)
	loopWrites := map[*Loop]bool{}
	for _, lp := range fi.loops {
		for b := range lp.blocks {
			if memo[b] {
				loopWrites[lp] = true
			}
		}
	}
	var res ssa.Instruction
	fi.feasiblePaths(func(b *ssa.BasicBlock) bool {
		if memo[b] {
			return true
		}
		for _, lp := range fi.loops {
			if lp.header == b && loopWrites[lp] {
				return true
			}
		}
		return false
	}, func(ret *ssa.Return, _ *facts) { res = ret })
	return res
}

// leaves lists the scalar-slice parts of a type, as paths of whole ranges.
func leaves(p Path, t types.Type, depth int) []Path {
	if depth > 16 {
		return nil
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return leaves(p, u.Elem(), depth+1)
	case *types.Slice:
		return leaves(p.with(Step{kind: 'r', lo: linConst(0)}), u.Elem(), depth+1)
	case *types.Array:
		return leaves(p.with(Step{kind: 'r', lo: linConst(0), hi: linConst(u.Len())}), u.Elem(), depth+1)
	case *types.Struct:
		var out []Path
		for i := 0; i < u.NumFields(); i++ {
			if n := namedOf(u.Field(i).Type()); n != nil && strings.HasSuffix(n.Obj().Name(), "Parameters") {
				continue
			}
			out = append(out, leaves(p.field(u.Field(i).Name()), u.Field(i).Type(), depth+1)...)
		}
		return out
	case *types.Basic:
		return []Path{p}
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return []Path{p}
		}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return []Path{p}
	}
	return nil
}

func (a *Analysis) outputWritten(r *Report, f *ssa.Function, i int, s *Summary) {
	p := f.Params[i]
	if !pointerful(p.Type()) {
		return
	}
	root := paramRoot(i)
	for _, l := range leaves(Path{root: root}, p.Type(), 0) {
		if len(l.steps) == 0 {
			continue
		}
		r.ob("output-written", fnName(f)+" "+showPath(f, l))
		var ws []Acc
		for _, w := range sortedAccs(s.Writes) {
			if w.path.root == root {
				ws = append(ws, w)
			}
		}
		probesL := []Path{l}
		// the first position of every range, one at a time
		for j, st := range l.steps {
			if st.kind == 'r' {
				n := append([]Step(nil), l.steps...)
				n[j] = Step{kind: 'e', lo: linConst(0)}
				probesL = append(probesL, Path{root: root, steps: n})
			}
		}
		first := len(probesL)
		if pp, pt, ok := paramsOf(f); ok {
			if sh := a.typeShape(p.Type(), pp, pt); sh != nil {
				cur := sh
				for j, st := range l.steps {
					if cur == nil {
						break
					}
					if st.kind == 'f' {
						cur = cur.Fields[st.field]
						continue
					}
					if cur.Len == nil {
						break
					}
					n := append([]Step(nil), l.steps...)
					n[j] = Step{kind: 'e', lo: cur.Len.addc(-1)}
					probesL = append(probesL, Path{root: root, steps: n})
					r.ob("output-written-last", fnName(f)+" "+showPath(f, l))
					cur = cur.Elem
				}
			}
		}
		for pi, q := range probesL {
			hit := false
			for _, w := range ws {
				if overlapSteps(w.path.steps, q.steps) {
					hit = true
				}
			}
			if hit && !accumulates(f) && len(s.AbsW) > 0 {
				r.ob("output-written-absent", fnName(f)+" "+q.key())
				ok := false
				for _, w := range sortedAccs(s.AbsW) {
					if w.path.root == root && overlapSteps(w.path.steps, q.steps) {
						ok = true
					}
				}
				if !ok {
					r.fail("output-written-absent", fnName(f)+" "+q.shape(), a.P.posStr(f.Pos()), "%s does not write %s (%s) of absent parties", fnName(f), showPath(f, l), q.key())
					break
				}
			}
			if !hit {
				what := "no part"
				if pi > 0 {
					what = "never the first position"
				}
				if pi >= first {
					what = "never the last position"
				}
				r.fail("output-written", fnName(f)+" "+q.shape(), a.P.posStr(f.Pos()), "%s writes %s of %s (%s)", fnName(f), what, showPath(f, l), q.key())
				break
			}
		}
	}
}
