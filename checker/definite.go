package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// definiteReads records the reads of argument memory that no write of the
// function can have reached before: whatever the schedule of branches, they
// see what was in memory before the call. A read of a range is also tried at
// its first and its last position, so that a range written only in part is
// found when the missing position is certain.
func (a *Analysis) definiteReads(fi *FnInfo, items map[*ssa.BasicBlock][]*item, out map[*ssa.BasicBlock]*PathSet, s *Summary) {
	type wr struct {
		b   *ssa.BasicBlock
		idx int
		p   Path
		it  *item
	}
	writes := map[*Root][]wr{}
	for _, b := range fi.order {
		if out[b] == nil {
			continue
		}
		for i, it := range items[b] {
			for _, w := range it.writes {
				if w.path.root.kind == 'A' || w.path.root.kind == 'C' || w.ptr {
					continue
				}
				if w.path.root.kind == 'U' {
					return // a write somewhere: nothing is certain
				}
				p := w.path
				for _, l := range fi.loopsOf(b) {
					p, _ = exportPath(p, l, false)
				}
				writes[p.root] = append(writes[p.root], wr{b, i, widen(p), it})
			}
		}
	}
	reach := fi.cyclicReach()
	defer compress(s.Def)
	for _, b := range fi.order {
		if out[b] == nil {
			continue
		}
		for i, it := range items[b] {
			xs := it.exposed
			if it.defsSet {
				xs = it.defs
			}
			for _, x := range xs {
				r := x.path.root
				if r.kind != 'P' && r.kind != 'F' || !scratchOrData(fi.fn, x.path) {
					continue
				}
				p := x.path
				for _, l := range fi.loopsOf(b) {
					p, _ = exportPath(p, l, false)
				}
				p = widen(p)
				for _, probe := range probes(p) {
					hit := false
					for _, w := range writes[r] {
						if w.it == it {
							// the callee accounts for its own order, unless it
							// runs again in a loop
							continue
						}
						if w.b == b && w.idx > i || w.b != b && b.Dominates(w.b) {
							continue
						}
						if w.b != b && !reach[[2]int{w.b.Index, b.Index}] {
							continue
						}
						if overlapSteps(w.p.steps, probe.steps) {
							hit = true
							break
						}
					}
					if hit {
						continue
					}
					y := x
					y.path = probe
					k := probe.key()
					if _, ok := s.Def[k]; !ok && len(s.Def) < maxAcc {
						s.Def[k] = y
					}
				}
			}
		}
	}
}

// scratchOrData: memory whose content matters here: what an argument holds,
// or, for the object an operation is called on, its scratch memory.
func scratchOrData(f *ssa.Function, p Path) bool {
	if p.root.kind == 'F' {
		return true
	}
	for i, s := range p.steps {
		if s.kind != 'f' {
			continue
		}
		t := typeAt(f, p, i+1)
		if n := namedOf(t); n != nil && strings.HasSuffix(strings.ToLower(n.Obj().Name()), "buffer") {
			return true
		}
	}
	t := typeAt(f, p, 0)
	return !workerType(namedOf(t))
}

// probes: the path itself, or its narrowings to a first or last position.
func probes(p Path) []Path {
	for _, s := range p.steps {
		// positions that cannot exist (branches that never run)
		if s.kind == 'e' && s.lo.scale(-1).addc(-1).nonNeg() || s.kind == 'r' && s.hi != nil && (s.hi.scale(-1).nonNeg() || s.lo.sub(s.hi).nonNeg()) {
			return nil
		}
	}
	out := []Path{p}
	for i, s := range p.steps {
		if s.kind != 'r' || s.lo == nil {
			continue
		}
		if i > 0 && p.steps[i-1].kind == 'f' && p.steps[i-1].field == "Coeffs" && i == len(p.steps)-1 && s.lo != nil && s.lo.isConst() && s.hi == nil {
			continue
		}
		at := func(l *Lin) {
			st := append([]Step(nil), p.steps...)
			st[i] = Step{kind: 'e', lo: l}
			out = append(out, Path{root: p.root, steps: st})
		}
		if s.hi == nil {
			if s.lo.nonNeg() {
				at(s.lo)
			}
			continue
		}
		if s.lo.nonNeg() && s.hi.sub(s.lo).addc(-1).nonNeg() {
			at(s.lo)
			at(s.hi.addc(-1))
		}
	}
	return out
}

func (fi *FnInfo) cyclicReach() map[[2]int]bool {
	n := len(fi.fn.Blocks)
	reach := map[[2]int]bool{}
	for _, b := range fi.fn.Blocks {
		seen := make([]bool, n)
		st := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x.Index] {
				continue
			}
			seen[x.Index] = true
			reach[[2]int{b.Index, x.Index}] = true
			st = append(st, x.Succs...)
		}
	}
	return reach
}
