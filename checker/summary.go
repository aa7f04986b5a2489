package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analysis holds the memoised facts of one program variant.
type Analysis struct {
	ioMemo  map[string][]ioOut
	growTab map[string]bool
	shapes  map[string]*Shape
	P       *Prog
	infos   map[*ssa.Function]*FnInfo
	sums    map[*ssa.Function]*Summary
	busy    map[*ssa.Function]bool
	rbusy   map[string]bool
	rets    map[string][]Path
	retl    map[string]*Lin
	asm     map[string]*AsmFunc
	unkExt  map[string]int // external callees treated with the default model
	nCalls  int
}

func newAnalysis(p *Prog) (*Analysis, error) {
	a := &Analysis{P: p, infos: map[*ssa.Function]*FnInfo{}, sums: map[*ssa.Function]*Summary{}, busy: map[*ssa.Function]bool{},
		rbusy: map[string]bool{}, rets: map[string][]Path{}, retl: map[string]*Lin{}, unkExt: map[string]int{}}
	asm, err := parseAsm(p)
	if err != nil {
		return nil, err
	}
	a.asm = asm
	return a, nil
}

// callee resolves the function called, or nil.
func (a *Analysis) callee(c ssa.CallInstruction) *ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		return nil
	}
	if f := com.StaticCallee(); f != nil {
		return origin(f)
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	fi := a.fnInfo(c.Parent())
	if mc := fi.closureOf(c); mc != nil {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

func returnsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// returns lists the objects result idx of fn can refer to, in fn's frame.
func (a *Analysis) returns(fn *ssa.Function, idx int) []Path {
	k := fmt.Sprintf("%p/%d", fn, idx)
	if ps, ok := a.rets[k]; ok {
		return ps
	}
	if a.rbusy[k] {
		return nil
	}
	a.rbusy[k] = true
	fi := a.fnInfo(fn)
	var out []Path
	for _, r := range returnsOf(fn) {
		if idx < len(r.Results) {
			out = append(out, fi.paths(r.Results[idx])...)
		}
	}
	out = dedupPaths(out)
	delete(a.rbusy, k)
	a.rets[k] = out
	return out
}

// retLin is the closed form of an integer result over parameters only, or nil.
func (a *Analysis) retLin(fn *ssa.Function, idx int) *Lin {
	k := fmt.Sprintf("%p/%d", fn, idx)
	if l, ok := a.retl[k]; ok {
		return l
	}
	a.retl[k] = nil
	fi := a.fnInfo(fn)
	var res *Lin
	for _, r := range returnsOf(fn) {
		if idx >= len(r.Results) || !isScalar(r.Results[idx].Type()) {
			return nil
		}
		l := fi.lin(r.Results[idx])
		if res != nil && !res.eq(l) {
			return nil
		}
		res = l
	}
	if res == nil || !closedForm(res) {
		return nil
	}
	a.retl[k] = res
	return res
}

func closedForm(l *Lin) bool {
	for _, t := range l.t {
		switch t.s.kind {
		case 'k', 'v':
			return false
		case 'o':
			for _, x := range t.s.args {
				if !closedForm(x) {
					return false
				}
			}
		case 'p', 'l':
			if t.s.path.root.kind != 'P' && t.s.path.root.kind != 'G' && t.s.path.root.kind != 'F' {
				return false
			}
			for _, st := range t.s.path.steps {
				if st.lo != nil && !closedForm(st.lo) || st.hi != nil && !closedForm(st.hi) {
					return false
				}
			}
		}
	}
	return true
}

var purePkgs = map[string]bool{"math": true, "math/bits": true, "math/cmplx": true}

func (a *Analysis) isPure(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	if purePkgs[fn.Pkg.Pkg.Path()] {
		return true
	}
	if inModule(fn) && fn.Signature.Recv() == nil {
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if !isScalar(fn.Signature.Params().At(i).Type()) {
				return false
			}
		}
		return strings.HasSuffix(fn.Pkg.Pkg.Path(), "/math/num")
	}
	if inModule(fn) && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 1 && isScalar(fn.Signature.Results().At(0).Type()) {
		return a.effectFree(fn, 0)
	}
	return false
}

// effectFree: a shallow syntactic check that fn only reads.
func (a *Analysis) effectFree(fn *ssa.Function, d int) bool {
	if d > 4 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fi := a.fnInfo(fn)
				for _, p := range fi.paths(x.Addr) {
					if p.root.kind != 'A' {
						return false
					}
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "delete" {
						return false
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil {
					return false
				}
				f = origin(f)
				if f.Pkg != nil && purePkgs[f.Pkg.Pkg.Path()] {
					continue
				}
				if !inModule(f) || !a.effectFree(f, d+1) {
					return false
				}
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Effects
// ---------------------------------------------------------------------------

// Acc is one access, in the frame of the function that holds it.
type Acc struct {
	path   Path
	copyOf *Path // the write stores exactly what is at this path
	fn     *ssa.Function
	pos    token.Pos
	via    string // first callee on the way, for diagnostics
	ptr    bool   // the write replaces a slice header or pointer
	guard  bool   // happens only for slots whose presence flag is set
}

// Haz: memory under w may be written before memory under r is read, at
// overlapping positions, if the objects at wp and rp are the same.
type Haz struct {
	wp, rp Path // prefixes
	w, r   Acc
}

// StorePtr records that non-local memory at dst is made to refer to src.
type StorePtr struct {
	dst, src Path
	fn       *ssa.Function
	pos      token.Pos
}

type Summary struct {
	fn      *ssa.Function
	Reads   map[string]Acc
	Writes  map[string]Acc
	MustW   *PathSet
	MustG   *PathSet // as MustW, for executions in which every presence flag is set
	Exposed map[string]Acc
	Def     map[string]Acc // reads of what was in memory before the call, for certain
	AbsW    map[string]Acc // writes when no presence flag is set
	Haz     map[string]Haz
	CallHaz map[string]Haz // hazards that actually occur at an internal call
	Ptrs    []StorePtr
	Unknown []Acc // writes through unresolved addresses
	Dyn     []string
	NoRet   bool
}

func newSummary(fn *ssa.Function) *Summary {
	return &Summary{fn: fn, Reads: map[string]Acc{}, Writes: map[string]Acc{}, MustW: newPathSet(), MustG: newPathSet(), Exposed: map[string]Acc{}, Def: map[string]Acc{}, AbsW: map[string]Acc{}, Haz: map[string]Haz{}, CallHaz: map[string]Haz{}}
}

type hazAt struct {
	wp, rp Path
	w, r   Acc
}

// item is the effect of one instruction.
type item struct {
	in      ssa.Instruction
	reads   []Acc
	exposed []Acc
	defs    []Acc // reads that no earlier write can have reached
	defsSet bool
	writes  []Acc
	abs     []Acc // writes when no presence flag is set
	absSet  bool
	must    []Path
	mustG   []Path
	haz     []hazAt
	call    *ssa.Function
}

const maxAcc = 4000

func (a *Analysis) summary(fn *ssa.Function) *Summary {
	fn = origin(fn)
	if s := a.sums[fn]; s != nil {
		return s
	}
	if a.busy[fn] {
		s := newSummary(fn)
		s.Dyn = append(s.Dyn, "recursion")
		return s
	}
	a.busy[fn] = true
	s := a.summarise(fn)
	delete(a.busy, fn)
	a.sums[fn] = s
	return s
}

func (a *Analysis) summarise(fn *ssa.Function) *Summary {
	s := newSummary(fn)
	if len(fn.Blocks) == 0 {
		a.asmSummary(fn, s)
		return s
	}
	fi := a.fnInfo(fn)
	items := map[*ssa.BasicBlock][]*item{}
	for _, b := range fi.order {
		for _, in := range b.Instrs {
			if it := a.itemOf(fi, in, s); it != nil {
				items[b] = append(items[b], it)
			}
		}
	}
	// forward must-write analysis: once for all executions, once assuming that
	// per-slot presence flags (elements of []bool) that guard work are set
	dead := fi.deadEdges()
	guarded, absent := fi.guardEdges(dead)
	out, ret := a.forward(fi, items, dead, false, nil)
	inG := map[*item]*PathSet{}
	outG, retG := a.forward(fi, items, absent, true, inG)
	_ = outG
	if retG == nil {
		retG = ret
	}
	a.exposedReads(fi, items, dead, absent, inG, guarded, s)
	if ret == nil {
		s.NoRet = true
		ret = newPathSet()
	}
	for _, p := range ret.list() {
		if p.root.kind == 'P' || p.root.kind == 'F' || p.root.kind == 'G' {
			s.MustW.add(p)
		}
	}
	if retG != nil {
		for _, p := range retG.list() {
			if p.root.kind == 'P' || p.root.kind == 'F' || p.root.kind == 'G' {
				s.MustG.add(p)
			}
		}
	}
	// may effects
	for _, b := range fi.order {
		if out[b] == nil {
			continue
		}
		var brs, bws []Acc
		for _, it := range items[b] {
			brs = append(brs, it.reads...)
			for _, w := range it.writes {
				if w.path.root.kind == 'U' {
					s.Unknown = append(s.Unknown, w)
				}
				bws = append(bws, w)
			}
		}
		for _, r := range mergeAccs(brs) {
			a.export(fi, b, r, s.Reads)
		}
		for _, w := range mergeAccs(bws) {
			a.export(fi, b, w, s.Writes)
		}
	}
	live := fi.absentBlocks(dead)
	for _, b := range fi.order {
		if out[b] == nil || !live[b] {
			continue
		}
		var bws []Acc
		for _, it := range items[b] {
			if it.absSet {
				bws = append(bws, it.abs...)
			} else {
				bws = append(bws, it.writes...)
			}
		}
		for _, w := range mergeAccs(bws) {
			a.export(fi, b, w, s.AbsW)
		}
	}
	compress(s.AbsW)
	compress(s.Reads)
	compress(s.Writes)
	compress(s.Exposed)
	a.definiteReads(fi, items, out, s)
	a.hazards(fi, items, out, s)
	return s
}

// forward runs the must-write dataflow; before, when given, receives the facts
// that hold before each item.
func (a *Analysis) forward(fi *FnInfo, items map[*ssa.BasicBlock][]*item, dead map[[2]*ssa.BasicBlock]bool, g bool, before map[*item]*PathSet) (map[*ssa.BasicBlock]*PathSet, *PathSet) {
	fn := fi.fn
	out := map[*ssa.BasicBlock]*PathSet{}
	latch := map[*Loop]*PathSet{}
	var ret *PathSet
	for _, b := range fi.order {
		var st *PathSet
		meet := func(x *PathSet) {
			if st == nil {
				st = x.clone()
			} else {
				st = st.intersect(x)
			}
		}
		for _, p := range b.Preds {
			if b.Dominates(p) || dead[[2]*ssa.BasicBlock{p, b}] {
				continue
			}
			o := out[p]
			if o == nil {
				continue
			}
			es := o
			for l := fi.loopOf[p]; l != nil; l = l.parent {
				if l.blocks[b] {
					break
				}
				n := newPathSet()
				for _, f := range es.list() {
					if !f.dependsOn(l) {
						n.add(f)
					}
				}
				if p == l.header || l.exitIsHeader(p, b) {
					if lf := a.latchFacts(fi, l, dead, out, latch); lf != nil {
						for _, f := range lf.list() {
							if g, ok := exportPath(f, l, true); ok {
								n.add(g)
							}
						}
					}
				}
				es = n
			}
			meet(es)
		}
		if st == nil {
			if b == fn.Blocks[0] {
				st = newPathSet()
			} else {
				continue // unreachable
			}
		}
		for _, it := range items[b] {
			if before != nil && len(it.exposed) > 0 {
				before[it] = st.clone()
			}
			must := it.must
			if g {
				must = append(append([]Path(nil), must...), it.mustG...)
			}
			for _, m := range must {
				st.add(m)
			}
		}
		out[b] = st
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ret == nil {
				ret = st.clone()
			} else {
				ret = ret.intersect(st)
			}
		}
	}
	return out, ret
}

// exposedReads records the reads that may see what was in memory before the call.
func (a *Analysis) exposedReads(fi *FnInfo, items map[*ssa.BasicBlock][]*item, dead, absent map[[2]*ssa.BasicBlock]bool, inG map[*item]*PathSet, guarded map[*ssa.BasicBlock]bool, s *Summary) {
	inA := map[*item]*PathSet{}
	a.forward(fi, items, dead, false, inA)
	for _, b := range fi.order {
		var bxs []Acc
		for _, it := range items[b] {
			sa, sg := inA[it], inG[it]
			if sa == nil {
				continue
			}
			if sg == nil {
				sg = sa
			}
			for _, e := range it.exposed {
				if guarded[b] || len(absent) > len(dead) && slotOf(e.path) {
					e.guard = true
				}
				st := sa
				if e.guard {
					st = sg
				}
				if !st.covers(e.path) {
					bxs = append(bxs, e)
				}
			}
		}
		for _, e := range mergeAccs(bxs) {
			a.export(fi, b, e, s.Exposed)
		}
	}
}

// slotOf: the path selects an element by an integer argument (the slot of a
// given party, which the caller says is present).
func slotOf(p Path) bool {
	for _, s := range p.steps {
		if s.kind != 'e' {
			continue
		}
		for _, t := range s.lo.t {
			if t.s.kind == 'p' && t.s.path.root.kind == 'P' && len(t.s.path.steps) == 0 {
				return true
			}
		}
	}
	return false
}

// guardEdges finds branches on per-slot presence flags: loads of elements of
// a []bool. It returns the blocks that run only if such a flag is set, and the
// dead edges extended by the flag-not-set edges.
func (fi *FnInfo) guardEdges(dead map[[2]*ssa.BasicBlock]bool) (map[*ssa.BasicBlock]bool, map[[2]*ssa.BasicBlock]bool) {
	guarded := map[*ssa.BasicBlock]bool{}
	ext := map[[2]*ssa.BasicBlock]bool{}
	for k := range dead {
		ext[k] = true
	}
	for _, b := range fi.fn.Blocks {
		set, unset := flagBranch(b)
		if set == nil {
			continue
		}
		ext[[2]*ssa.BasicBlock{b, unset}] = true
		if len(set.Preds) == 1 {
			for _, x := range fi.fn.Blocks {
				if set.Dominates(x) {
					guarded[x] = true
				}
			}
		}
	}
	return guarded, ext
}

// absentBlocks: the blocks that can run when no presence flag is set.
func (fi *FnInfo) absentBlocks(dead map[[2]*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{fi.fn.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if live[b] {
			continue
		}
		live[b] = true
		set, _ := flagBranch(b)
		for _, x := range b.Succs {
			if x == set || dead[[2]*ssa.BasicBlock{b, x}] {
				continue
			}
			st = append(st, x)
		}
	}
	return live
}

// flagBranch: the successors of a branch on a per-slot presence flag.
func flagBranch(b *ssa.BasicBlock) (set, unset *ssa.BasicBlock) {
	if len(b.Instrs) == 0 {
		return nil, nil
	}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil
	}
	cond, pol := ifi.Cond, 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, pol = u.X, 1-pol
	}
	u, ok := cond.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	if _, ok := u.X.(*ssa.IndexAddr); !ok {
		return nil, nil
	}
	return b.Succs[pol], b.Succs[1-pol]
}

// mergeAccs unites adjacent elementwise accesses of one block (unrolled code).
func mergeAccs(in []Acc) []Acc {
	if len(in) < 2 {
		return in
	}
	var out []Acc
	seen := map[string]bool{}
	for _, x := range in {
		k := x.path.key()
		if x.copyOf != nil {
			k += "=" + x.copyOf.key()
		}
		if x.ptr {
			k += "!"
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		merged := false
		if n := len(x.path.steps); n > 0 && x.path.steps[n-1].kind == 'e' && x.copyOf == nil && !x.ptr {
			for i := len(out) - 1; i >= 0 && i >= len(out)-16; i-- {
				o := out[i]
				if o.copyOf != nil || o.ptr || o.path.root != x.path.root || len(o.path.steps) != n ||
					stepsKey(o.path.steps[:n-1]) != stepsKey(x.path.steps[:n-1]) {
					continue
				}
				if m, ok := mergeStep(o.path.steps[n-1], x.path.steps[n-1]); ok {
					st := append([]Step(nil), x.path.steps...)
					st[n-1] = m
					out[i].path = Path{root: x.path.root, steps: st}
					merged = true
					break
				}
			}
		}
		if !merged {
			out = append(out, x)
		}
	}
	return out
}

// includes: every location of b is certainly one of a's.
func includes(a, b Path) bool {
	if a.root != b.root || len(a.steps) > len(b.steps) {
		return false
	}
	for i := range a.steps {
		x, y := a.steps[i], b.steps[i]
		if x.kind == 'f' || y.kind == 'f' {
			if x.kind != y.kind || x.field != y.field {
				return false
			}
			continue
		}
		if x.kind == 'u' || x.kind == 'r' && x.hi == nil && x.lo.isConst() && x.lo.c == 0 {
			continue
		}
		if x.key() != y.key() {
			return false
		}
	}
	return true
}

// compress drops accesses included in a wider one of the same kind.
func compress(m map[string]Acc) {
	byRoot := map[*Root][]string{}
	for k, x := range m {
		byRoot[x.path.root] = append(byRoot[x.path.root], k)
	}
	for _, ks := range byRoot {
		sort.Strings(ks)
		for _, k := range ks {
			x := m[k]
			for _, k2 := range ks {
				if k2 == k {
					continue
				}
				y, ok := m[k2]
				if !ok || y.copyOf != nil || y.ptr != x.ptr || len(y.path.steps) != len(x.path.steps) {
					continue
				}
				if includes(y.path, x.path) {
					delete(m, k)
					break
				}
			}
		}
	}
}

// exitIsHeader: the edge p->b leaves l at its header-equivalent test (only the
// header itself here; rotated loops test at the latch).
func (l *Loop) exitIsHeader(p, b *ssa.BasicBlock) bool { return false }

func (a *Analysis) latchFacts(fi *FnInfo, l *Loop, dead map[[2]*ssa.BasicBlock]bool, out map[*ssa.BasicBlock]*PathSet, memo map[*Loop]*PathSet) *PathSet {
	if s, ok := memo[l]; ok {
		return s
	}
	var st *PathSet
	for _, x := range l.latches {
		o := out[x]
		if o == nil || dead[[2]*ssa.BasicBlock{x, l.header}] {
			continue
		}
		if st == nil {
			st = o.clone()
		} else {
			st = st.intersect(o)
		}
	}
	memo[l] = st
	return st
}

// deadEdges finds edges that cannot be taken: the fall-through of an
// exhaustive switch over an enumeration type.
func (fi *FnInfo) deadEdges() map[[2]*ssa.BasicBlock]bool {
	dead := map[[2]*ssa.BasicBlock]bool{}
	for _, b := range fi.fn.Blocks {
		vals := map[int64]bool{}
		x := b
		var key string
		var named *types.Named
		for {
			ifi, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok {
				break
			}
			cmp, ok := ifi.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				break
			}
			c, ok := constInt(cmp.Y)
			if !ok {
				break
			}
			n, _ := types.Unalias(cmp.X.Type()).(*types.Named)
			if n == nil {
				break
			}
			k := fi.lin(cmp.X).key()
			if key == "" {
				key, named = k, n
			} else if k != key {
				break
			}
			vals[c] = true
			if len(x.Preds) != 1 {
				break
			}
			p := x.Preds[0]
			if len(p.Succs) != 2 || p.Succs[1] != x {
				break
			}
			x = p
		}
		if named == nil {
			continue
		}
		if all := enumValues(named); len(all) > 1 && len(vals) == len(all) {
			dead[[2]*ssa.BasicBlock{b, b.Succs[1]}] = true
		}
	}
	return dead
}

// enumValues lists the constants of a named integer type declared in its package.
func enumValues(n *types.Named) map[int64]bool {
	out := map[int64]bool{}
	if n.Obj().Pkg() == nil {
		return out
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if v, ok := constVal(c); ok {
				out[v] = true
			}
		}
	}
	return out
}

// export generalises an access over the loops around b and records it.
func (a *Analysis) export(fi *FnInfo, b *ssa.BasicBlock, x Acc, m map[string]Acc) {
	if x.path.root.kind == 'A' || x.path.root.kind == 'C' || x.path.root.kind == 'U' {
		return
	}
	for _, l := range fi.loopsOf(b) {
		p, _ := exportPath(x.path, l, false)
		x.path = p
		if x.copyOf != nil {
			q, _ := exportPath(*x.copyOf, l, false)
			x.copyOf = &q
		}
	}
	x.path = widen(x.path)
	k := x.path.key()
	if x.ptr {
		k += "!"
	}
	if x.guard {
		k += "?"
	}
	if o, ok := m[k]; ok {
		if o.copyOf != nil && (x.copyOf == nil || x.copyOf.key() != o.copyOf.key()) {
			o.copyOf = nil
			m[k] = o
		}
		return
	}
	if len(m) > maxAcc {
		return
	}
	m[k] = x
}

// widen erases index symbols that belong to the function's own frame.
func widen(p Path) Path {
	ch := false
	n := make([]Step, len(p.steps))
	for i, s := range p.steps {
		n[i] = s
		if s.kind == 'e' && !closedForm(s.lo) {
			n[i] = Step{kind: 'u'}
			ch = true
		}
		if s.kind == 'r' && (!closedForm(s.lo) || s.hi != nil && !closedForm(s.hi)) {
			n[i] = Step{kind: 'u'}
			ch = true
		}
	}
	if !ch {
		return p
	}
	return Path{root: p.root, steps: n}
}

func substLoop(l *Loop, by *Lin) substFn {
	return func(s *Sym) *Lin {
		if s.kind == 'k' && s.loop == l {
			return by
		}
		return nil
	}
}

// exportPath describes the union of p over all iterations of l. For must
// facts, ok is false unless the union is certainly covered.
func exportPath(p Path, l *Loop, must bool) (Path, bool) {
	if !p.dependsOn(l) {
		if must {
			return p, l.trip != nil && l.trip.nonNeg()
		}
		return p, true
	}
	ksym := linSym(l.sym())
	next := substLoop(l, ksym.addc(1))
	first := substLoop(l, linConst(0))
	var last substFn
	if l.trip != nil {
		last = substLoop(l, l.trip.addc(-1))
	}
	n := make([]Step, len(p.steps))
	dep := 0
	ok := true
	for i, s := range p.steps {
		n[i] = s
		d := s.lo != nil && s.lo.dependsOn(l) || s.hi != nil && s.hi.dependsOn(l)
		if !d {
			continue
		}
		dep++
		lo := s.lo
		hi := s.hi
		if s.kind == 'e' {
			hi = lo.addc(1)
		}
		// anything opaque inside the loop
		if opaqueIn(lo, l) || (hi != nil && opaqueIn(hi, l)) {
			n[i] = Step{kind: 'u'}
			ok = false
			continue
		}
		dlo := lo.subst(next).sub(lo)
		if hi == nil {
			if dlo.nonNeg() {
				n[i] = Step{kind: 'r', lo: lo.subst(first)}
			} else {
				n[i] = Step{kind: 'u'}
				ok = false
			}
			continue
		}
		dhi := hi.subst(next).sub(hi)
		switch {
		case last == nil:
			ok = false
			if dlo.nonNeg() {
				n[i] = Step{kind: 'r', lo: lo.subst(first)}
			} else {
				n[i] = Step{kind: 'u'}
			}
		case lo.subst(next).eq(hi) || (dlo.nonNeg() && hi.sub(lo.subst(next)).nonNeg() && dhi.nonNeg()):
			n[i] = Step{kind: 'r', lo: lo.subst(first), hi: hi.subst(last)}
		case hi.subst(next).eq(lo) || (dlo.scale(-1).nonNeg() && hi.subst(next).sub(lo).nonNeg() && dhi.scale(-1).nonNeg()):
			n[i] = Step{kind: 'r', lo: lo.subst(last), hi: hi.subst(first)}
		case dlo.nonNeg() && dhi.nonNeg():
			ok = false
			n[i] = Step{kind: 'r', lo: lo.subst(first), hi: hi.subst(last)}
		case dlo.scale(-1).nonNeg() && dhi.scale(-1).nonNeg():
			ok = false
			n[i] = Step{kind: 'r', lo: lo.subst(last), hi: hi.subst(first)}
		default:
			ok = false
			n[i] = Step{kind: 'u'}
		}
	}
	if dep > 1 {
		ok = false
	}
	return normLen(Path{root: p.root, steps: n}), ok
}

// opaqueIn: l contains a loop-variant symbol other than the loop's counter.
func opaqueIn(x *Lin, l *Loop) bool {
	for _, t := range x.t {
		if opaqueSym(t.s, l) {
			return true
		}
	}
	return false
}

func opaqueSym(s *Sym, l *Loop) bool {
	switch s.kind {
	case 'v':
		return s.dependsOn(l) || s.v == nil
	case 'o':
		for _, a := range s.args {
			if opaqueIn(a, l) {
				return true
			}
		}
	case 'p', 'l':
		for _, st := range s.path.steps {
			if st.lo != nil && opaqueIn(st.lo, l) || st.hi != nil && opaqueIn(st.hi, l) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Instruction effects
// ---------------------------------------------------------------------------

func (a *Analysis) itemOf(fi *FnInfo, in ssa.Instruction, s *Summary) *item {
	fn := fi.fn
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		it := &item{in: in}
		for _, p := range fi.paths(x.X) {
			for _, q := range scalarParts(p, x.Type(), true) {
				acc := Acc{path: q, fn: fn, pos: instrPos(in)}
				it.reads = append(it.reads, acc)
			}
		}
		if len(it.reads) == 0 {
			return nil
		}
		it.exposed = it.reads
		return it
	case *ssa.Store:
		it := &item{in: in}
		ps := fi.paths(x.Addr)
		for _, p := range ps {
			if p.root.kind == 'A' {
				if al, ok := p.root.v.(*ssa.Alloc); ok && !al.Heap {
					continue
				}
			}
			a.storeEffects(fi, p, x.Val, x.Val.Type(), in, it, s, len(ps) == 1)
		}
		return it
	case *ssa.MapUpdate:
		it := &item{in: in}
		for _, p := range fi.paths(x.Map) {
			q := p.with(Step{kind: 'u'})
			it.writes = append(it.writes, Acc{path: q, fn: fn, pos: instrPos(in)})
			if pointerful(x.Value.Type()) && (p.root.kind == 'P' || p.root.kind == 'F' || p.root.kind == 'G') {
				for _, v := range fi.paths(x.Value) {
					s.Ptrs = append(s.Ptrs, StorePtr{q, v, fn, instrPos(in)})
				}
			}
		}
		return it
	case *ssa.Lookup:
		it := &item{in: in}
		if isScalar(x.Type()) {
			for _, p := range fi.paths(x.X) {
				it.reads = append(it.reads, Acc{path: p.with(Step{kind: 'u'}), fn: fn, pos: instrPos(in)})
			}
			it.exposed = it.reads
		}
		return it
	case ssa.CallInstruction:
		return a.callItem(fi, x, s)
	}
	return nil
}

// scalarParts lists the scalar memory read by loading a value of type t at p.
func scalarParts(p Path, t types.Type, load bool) []Path {
	t = types.Unalias(t)
	if isScalar(t) {
		return []Path{p}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			if isScalar(u.Field(i).Type()) {
				n++
			}
		}
		if n > 4 {
			return []Path{p}
		}
		var out []Path
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, scalarParts(p.field(u.Field(i).Name()), u.Field(i).Type(), load)...)
		}
		return out
	case *types.Array:
		if sub := scalarParts(p.all(), u.Elem(), load); len(sub) > 0 {
			return sub
		}
	}
	return nil
}

// storeEffects records the effect of storing val (of type t) at p.
func (a *Analysis) storeEffects(fi *FnInfo, p Path, val ssa.Value, t types.Type, in ssa.Instruction, it *item, s *Summary, unique bool) {
	acc := Acc{path: p, fn: fi.fn, pos: instrPos(in)}
	t = types.Unalias(t)
	switch {
	case isScalar(t):
		if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
			if qs := fi.paths(u.X); len(qs) == 1 {
				q := qs[0]
				acc.copyOf = &q
			}
		}
	default:
		acc.ptr = pointerful(t)
		if src := loadedFrom(val); src != nil {
			if qs := fi.paths(src); len(qs) == 1 {
				q := qs[0]
				acc.copyOf = &q
			}
		}
		if p.root.kind != 'A' && p.root.kind != 'C' {
			a.ptrStores(fi, p, val, in, s)
		}
	}
	it.writes = append(it.writes, acc)
	if unique && p.root.kind != 'U' && !hasUnknown(p) {
		it.must = append(it.must, p)
	}
}

func loadedFrom(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return nil
}

func hasUnknown(p Path) bool {
	for _, s := range p.steps {
		if s.kind == 'u' {
			return true
		}
	}
	return false
}

// ptrStores records which objects the pointers inside val refer to.
func (a *Analysis) ptrStores(fi *FnInfo, p Path, val ssa.Value, in ssa.Instruction, s *Summary) {
	t := types.Unalias(val.Type())
	if !pointerful(t) {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for _, v := range fi.paths(val) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !pointerful(f.Type()) {
					continue
				}
				for _, q := range fi.extend(v, []Step{{kind: 'f', field: f.Name()}}, 0) {
					s.Ptrs = append(s.Ptrs, StorePtr{p.field(f.Name()), q, fi.fn, instrPos(in)})
				}
			}
		}
		return
	}
	for _, v := range fi.paths(val) {
		s.Ptrs = append(s.Ptrs, StorePtr{p, v, fi.fn, instrPos(in)})
	}
}

// extModel describes an external function: indices of written arguments.
var extWrites = map[string][]int{
	"io.ReadFull":                              {1},
	"io.ReadAtLeast":                           {1},
	"crypto/rand.Read":                         {0},
	"encoding/binary.(bigEndian).PutUint64":    {1},
	"encoding/binary.(bigEndian).PutUint32":    {1},
	"encoding/binary.(bigEndian).PutUint16":    {1},
	"encoding/binary.(littleEndian).PutUint64": {1},
	"encoding/binary.(littleEndian).PutUint32": {1},
	"encoding/binary.(littleEndian).PutUint16": {1},
}

func (a *Analysis) callItem(fi *FnInfo, c ssa.CallInstruction, s *Summary) *item {
	a.nCalls++
	fn := fi.fn
	com := c.Common()
	it := &item{in: c}
	pos := c.Pos()
	if !pos.IsValid() {
		pos = instrPos(c)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			dst, src := com.Args[0], com.Args[1]
			et := elemType(dst.Type())
			var srcs []Path
			for _, q := range fi.paths(src) {
				srcs = append(srcs, q.all())
				if et == nil || !pointerful(et) {
					it.reads = append(it.reads, Acc{path: q.all(), fn: fn, pos: pos})
				}
			}
			it.exposed = it.reads
			ds := fi.paths(dst)
			for _, p := range ds {
				acc := Acc{path: p.all(), fn: fn, pos: pos, ptr: et != nil && pointerful(et)}
				if len(srcs) == 1 {
					q := srcs[0]
					acc.copyOf = &q
				}
				it.writes = append(it.writes, acc)
				if et != nil && pointerful(et) && p.root.kind != 'A' && p.root.kind != 'C' {
					for _, q := range srcs {
						s.Ptrs = append(s.Ptrs, StorePtr{p.all(), q, fn, pos})
					}
				}
			}
			var da []Path
			for _, p := range ds {
				da = append(da, p.all())
			}
			it.must = append(it.must, mustOf(da)...)
		case "append":
			// only appending to a shortened slice can overwrite visible elements
			if sl, ok := com.Args[0].(*ssa.Slice); ok && sl.High != nil {
				for _, p := range fi.paths(sl.X) {
					it.writes = append(it.writes, Acc{path: p.with(Step{kind: 'u'}), fn: fn, pos: pos})
				}
			}
			if len(com.Args) == 2 {
				et := elemType(com.Args[1].Type())
				if et != nil && !pointerful(et) {
					for _, q := range fi.paths(com.Args[1]) {
						it.reads = append(it.reads, Acc{path: q.all(), fn: fn, pos: pos})
					}
					it.exposed = it.reads
				}
			}
		case "clear":
			for _, p := range fi.paths(com.Args[0]) {
				it.writes = append(it.writes, Acc{path: p.all(), fn: fn, pos: pos})
				it.must = append(it.must, p.all())
			}
		}
		return it
	}
	callee := a.callee(c)
	if callee == nil || (!inModule(callee) && callee.Parent() == nil) {
		a.externalItem(fi, c, callee, it, pos)
	} else {
		it.call = callee
		a.applyCallee(fi, c, callee, it, s, pos)
	}
	// closures handed to the callee may run during the call
	for _, arg := range com.Args {
		for _, f := range closuresIn(arg) {
			if f.Fn.(*ssa.Function) == callee {
				continue
			}
			a.applyClosure(fi, f, it, s, pos)
		}
	}
	return it
}

func closuresIn(v ssa.Value) []*ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.MakeClosure{x}
	case *ssa.ChangeType:
		return closuresIn(x.X)
	case *ssa.Phi:
		return nil
	}
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func extName(c ssa.CallInstruction, callee *ssa.Function) string {
	com := c.Common()
	if com.IsInvoke() {
		n := namedOf(com.Value.Type())
		if n != nil && n.Obj().Pkg() != nil {
			return fmt.Sprintf("%s.%s.%s", n.Obj().Pkg().Path(), n.Obj().Name(), com.Method.Name())
		}
		return "?." + com.Method.Name()
	}
	if callee == nil {
		return "dynamic"
	}
	pk := ""
	if callee.Pkg != nil {
		pk = callee.Pkg.Pkg.Path()
	} else if o := callee.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if n := recvNamed(callee); n != nil {
		return fmt.Sprintf("%s.(%s).%s", pk, n.Obj().Name(), callee.Name())
	}
	return pk + "." + callee.Name()
}

func (a *Analysis) externalItem(fi *FnInfo, c ssa.CallInstruction, callee *ssa.Function, it *item, pos token.Pos) {
	name := extName(c, callee)
	com := c.Common()
	wr := map[int]bool{}
	must := false
	switch {
	case name == "crypto/cipher.Stream.XORKeyStream":
		wr[0] = true
		must = true
	case extWrites[name] != nil:
		for _, i := range extWrites[name] {
			wr[i] = true
		}
		must = true
	default:
		a.unkExt[name]++
	}
	for i, arg := range com.Args {
		if isScalar(arg.Type()) {
			continue
		}
		for _, p := range fi.paths(arg) {
			if elemType(arg.Type()) == nil {
				// opaque objects (readers, wait groups): their own state
				continue
			}
			if wr[i] {
				it.writes = append(it.writes, Acc{path: p.all(), fn: fi.fn, pos: pos, via: name})
				if must {
					it.must = append(it.must, p.all())
				}
			} else {
				acc := Acc{path: p.all(), fn: fi.fn, pos: pos, via: name}
				it.reads = append(it.reads, acc)
				it.exposed = append(it.exposed, acc)
			}
		}
	}
}

// mapAcc moves an access from the callee's frame into the caller's.
func (a *Analysis) mapAcc(fi *FnInfo, c ssa.CallInstruction, callee *ssa.Function, x Acc) []Acc {
	var out []Acc
	ps := fi.mapPath(c, callee, x.path)
	for _, p := range ps {
		if len(callee.Blocks) == 0 {
			p = normTyped(fi.fn, p)
		}
		y := x
		y.path = p
		y.via = fnName(callee)
		if x.copyOf != nil {
			y.copyOf = nil
			if len(ps) == 1 {
				if qs := fi.mapPath(c, callee, *x.copyOf); len(qs) == 1 {
					q := qs[0]
					y.copyOf = &q
				}
			}
		}
		out = append(out, y)
	}
	return out
}

// normTyped inserts the field step where a slice of one-field structs was
// reinterpreted as a slice of slices.
func normTyped(fn *ssa.Function, p Path) Path {
	for i := 0; i < len(p.steps); i++ {
		if p.steps[i].kind == 'f' && p.steps[i].field == "*" {
			t := typeAt(fn, p, i)
			n := append([]Step(nil), p.steps[:i]...)
			if t != nil {
				if st, ok := types.Unalias(t).Underlying().(*types.Struct); ok && st.NumFields() == 1 {
					n = append(n, Step{kind: 'f', field: st.Field(0).Name()})
				}
			}
			n = append(n, p.steps[i+1:]...)
			return Path{root: p.root, steps: n}
		}
		if p.steps[i].kind == 'f' {
			continue
		}
		t := typeAt(fn, p, i)
		if t == nil {
			continue
		}
		if st, ok := types.Unalias(t).Underlying().(*types.Struct); ok && st.NumFields() == 1 {
			n := append([]Step(nil), p.steps[:i]...)
			n = append(n, Step{kind: 'f', field: st.Field(0).Name()})
			n = append(n, p.steps[i:]...)
			return normTyped(fn, Path{root: p.root, steps: n})
		}
	}
	return p
}

func sortedAccs(m map[string]Acc) []Acc {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Acc, len(ks))
	for i, k := range ks {
		out[i] = m[k]
	}
	return out
}

func (a *Analysis) applyCallee(fi *FnInfo, c ssa.CallInstruction, callee *ssa.Function, it *item, s *Summary, pos token.Pos) {
	cs := a.summary(callee)
	for _, x := range sortedAccs(cs.Reads) {
		it.reads = append(it.reads, a.mapAcc(fi, c, callee, x)...)
	}
	for _, x := range sortedAccs(cs.Exposed) {
		it.exposed = append(it.exposed, a.mapAcc(fi, c, callee, x)...)
	}
	it.defsSet, it.absSet = true, true
	for _, x := range sortedAccs(cs.AbsW) {
		it.abs = append(it.abs, a.mapAcc(fi, c, callee, x)...)
	}
	for _, x := range sortedAccs(cs.Def) {
		it.defs = append(it.defs, a.mapAcc(fi, c, callee, x)...)
	}
	for _, x := range sortedAccs(cs.Writes) {
		it.writes = append(it.writes, a.mapAcc(fi, c, callee, x)...)
	}
	for _, p := range cs.MustG.list() {
		if !cs.MustW.covers(p) {
			it.mustG = append(it.mustG, mustOf(fi.mapPath(c, callee, p))...)
		}
	}
	for _, p := range cs.MustW.list() {
		if len(callee.Blocks) == 0 {
			var nps []Path
			for _, q := range fi.mapPath(c, callee, p) {
				nps = append(nps, normTyped(fi.fn, q))
			}
			it.must = append(it.must, mustOf(nps)...)
			continue
		}
		it.must = append(it.must, mustOf(fi.mapPath(c, callee, p))...)
	}
	for _, h := range cs.Ptrs {
		for _, d := range fi.mapPath(c, callee, h.dst) {
			if d.root.kind == 'A' || d.root.kind == 'C' {
				continue
			}
			for _, q := range fi.mapPath(c, callee, h.src) {
				s.Ptrs = append(s.Ptrs, StorePtr{d, q, h.fn, h.pos})
			}
		}
	}
	s.Dyn = append(s.Dyn, cs.Dyn...)
	var hk []string
	for k := range cs.Haz {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		h := cs.Haz[k]
		for _, wp := range fi.mapPath(c, callee, h.wp) {
			for _, rp := range fi.mapPath(c, callee, h.rp) {
				it.haz = append(it.haz, hazAt{wp, rp, h.w, h.r})
			}
		}
	}
}

func (a *Analysis) applyClosure(fi *FnInfo, mc *ssa.MakeClosure, it *item, s *Summary, pos token.Pos) {
	f := mc.Fn.(*ssa.Function)
	cs := a.summary(f)
	mp := func(p Path) []Path {
		if p.root.kind == 'G' {
			return []Path{p}
		}
		if p.root.kind != 'F' || p.root.idx >= len(mc.Bindings) {
			return nil
		}
		var out []Path
		for _, b := range fi.paths(mc.Bindings[p.root.idx]) {
			for _, b2 := range fi.content(b, 0) {
				out = append(out, fi.extend(b2, eraseIdx(p.steps), 0)...)
			}
		}
		return out
	}
	for _, x := range sortedAccs(cs.Reads) {
		for _, p := range mp(x.path) {
			y := x
			y.path = p
			it.reads = append(it.reads, y)
		}
	}
	for _, x := range sortedAccs(cs.Exposed) {
		for _, p := range mp(x.path) {
			y := x
			y.path = p
			it.exposed = append(it.exposed, y)
		}
	}
	it.defsSet = true
	for _, x := range sortedAccs(cs.Def) {
		for _, p := range mp(x.path) {
			y := x
			y.path = p
			it.defs = append(it.defs, y)
		}
	}
	for _, x := range sortedAccs(cs.Writes) {
		for _, p := range mp(x.path) {
			y := x
			y.path = p
			y.copyOf = nil
			it.writes = append(it.writes, y)
		}
	}
	it.absSet = true
	for _, x := range sortedAccs(cs.AbsW) {
		for _, p := range mp(x.path) {
			y := x
			y.path = p
			y.copyOf = nil
			it.abs = append(it.abs, y)
		}
	}
}

// ---------------------------------------------------------------------------
// Write-then-read hazards under aliasing
// ---------------------------------------------------------------------------

// typeAt is the type of the object at a path rooted in a parameter.
func typeAt(fn *ssa.Function, p Path, n int) types.Type {
	var t types.Type
	switch p.root.kind {
	case 'P':
		if p.root.idx >= len(fn.Params) {
			return nil
		}
		t = fn.Params[p.root.idx].Type()
	case 'F':
		if p.root.idx >= len(fn.FreeVars) {
			return nil
		}
		t = fn.FreeVars[p.root.idx].Type()
	case 'A':
		t = p.root.v.Type()
	default:
		return nil
	}
	for i, s := range p.steps[:n] {
		t = types.Unalias(t)
		for {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = types.Unalias(pt.Elem())
				continue
			}
			break
		}
		switch s.kind {
		case 'f':
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == s.field {
					t = st.Field(i).Type()
				}
			}
			if t == nil {
				return nil
			}
		case 'e', 'u':
			t = elemType(t)
			if t == nil {
				return nil
			}
		case 'r':
			// a view has the slice's type
			e := elemType(t)
			if e == nil {
				return nil
			}
			if i+1 < len(p.steps) { // followed by a step into the elements
				t = e
			}
		}
	}
	for {
		t = types.Unalias(t)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			continue
		}
		return t
	}
}

func sameObjType(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	if types.Identical(a, b) {
		return true
	}
	na, nb := namedOf(a), namedOf(b)
	if na != nil && nb != nil && na == nb {
		return true
	}
	if na == nil && nb == nil {
		sa, ok1 := types.Unalias(a).Underlying().(*types.Slice)
		sb, ok2 := types.Unalias(b).Underlying().(*types.Slice)
		if ok1 && ok2 {
			return sameObjType(sa.Elem(), sb.Elem())
		}
		_, ok3 := types.Unalias(a).(*types.TypeParam)
		_, ok4 := types.Unalias(b).(*types.TypeParam)
		return ok3 && ok4
	}
	return false
}

type locAcc struct {
	Acc
	b   *ssa.BasicBlock
	idx int // position in block
	it  *item
}

func (a *Analysis) hazards(fi *FnInfo, items map[*ssa.BasicBlock][]*item, out map[*ssa.BasicBlock]*PathSet, s *Summary) {
	var ws, rs []locAcc
	seenW := map[string]bool{}
	seenR := map[string]bool{}
	for _, b := range fi.order {
		if out[b] == nil {
			continue
		}
		for i, it := range items[b] {
			for _, w := range it.writes {
				if w.path.root.kind != 'P' && w.path.root.kind != 'F' {
					continue
				}
				k := fmt.Sprintf("%d/%d/%s", b.Index, i, w.path.key())
				if w.copyOf != nil {
					k += "=" + w.copyOf.key()
				}
				if !seenW[k] && !w.ptr {
					seenW[k] = true
					ws = append(ws, locAcc{w, b, i, it})
				}
			}
			for _, r := range it.reads {
				if r.path.root.kind != 'P' && r.path.root.kind != 'F' {
					continue
				}
				k := fmt.Sprintf("%d/%d/%s", b.Index, i, r.path.key())
				if !seenR[k] {
					seenR[k] = true
					rs = append(rs, locAcc{r, b, i, it})
				}
			}
			// hazards inside callees
			for _, h := range it.haz {
				a.calleeHaz(fi, b, it, h, s)
			}
		}
	}
	reach := fi.acyclicReach()
	for _, w := range ws {
		for _, r := range rs {
			if w.path.root == r.path.root {
				continue
			}
			// hypotheses: the object at a prefix of one path is the other's root
			if typesMatch := sameObjType(typeAt(fi.fn, w.path, 0), typeAt(fi.fn, r.path, 0)); typesMatch {
				a.tryHaz(fi, s, w, r, 0, 0, reach)
			} else {
				for i := 1; i <= len(w.path.steps); i++ {
					if sameObjType(typeAt(fi.fn, w.path, i), typeAt(fi.fn, r.path, 0)) {
						a.tryHaz(fi, s, w, r, i, 0, reach)
						break
					}
				}
				for i := 1; i <= len(r.path.steps); i++ {
					if sameObjType(typeAt(fi.fn, r.path, i), typeAt(fi.fn, w.path, 0)) {
						a.tryHaz(fi, s, w, r, 0, i, reach)
						break
					}
				}
			}
		}
	}
}

func (fi *FnInfo) acyclicReach() map[[2]int]bool {
	n := len(fi.fn.Blocks)
	reach := map[[2]int]bool{}
	for i := len(fi.order) - 1; i >= 0; i-- {
		b := fi.order[i]
		for _, t := range b.Succs {
			if t.Dominates(b) {
				continue
			}
			reach[[2]int{b.Index, t.Index}] = true
			for j := 0; j < n; j++ {
				if reach[[2]int{t.Index, j}] {
					reach[[2]int{b.Index, j}] = true
				}
			}
		}
	}
	return reach
}

func (a *Analysis) tryHaz(fi *FnInfo, s *Summary, w, r locAcc, wi, ri int, reach map[[2]int]bool) {
	wsteps, rsteps := w.path.steps[wi:], r.path.steps[ri:]
	wp := Path{root: w.path.root, steps: w.path.steps[:wi]}
	rp := Path{root: r.path.root, steps: r.path.steps[:ri]}
	// a copy from the aliased object onto itself changes nothing
	if w.copyOf != nil && w.copyOf.root == r.path.root && len(w.copyOf.steps) >= ri &&
		stepsKey(w.copyOf.steps[:ri]) == stepsKey(rp.steps) &&
		stepsKey(w.copyOf.steps[ri:]) == stepsKey(wsteps) {
		return
	}
	hit := false
	// same iteration of all common loops
	before := w.b == r.b && w.idx < r.idx || w.b != r.b && reach[[2]int{w.b.Index, r.b.Index}]
	if before && overlapSteps(wsteps, rsteps) {
		hit = true
	}
	if !hit {
		var common []*Loop
		for _, l := range fi.loopsOf(w.b) {
			if l.blocks[r.b] {
				common = append([]*Loop{l}, common...) // outermost first
			}
		}
		for lv := range common {
			repl := map[*Loop]*Lin{}
			repl[common[lv]] = linSym(common[lv].sym()).addc(1).add(freshCounter())
			for _, in := range common[lv+1:] {
				repl[in] = freshCounter()
			}
			f := func(sy *Sym) *Lin {
				if sy.kind == 'k' {
					return repl[sy.loop]
				}
				return nil
			}
			rs2 := (Path{root: r.path.root, steps: rsteps}).substIdx(f).steps
			if overlapSteps(wsteps, rs2) {
				hit = true
				break
			}
		}
	}
	if !hit {
		return
	}
	a.addHaz(fi, s, wp, rp, w.Acc, r.Acc)
}

var freshN int

func freshCounter() *Lin {
	freshN++
	return linSym(internSym(&Sym{key: fmt.Sprintf("j%d", freshN), kind: 'k'}))
}

func stepsKey(st []Step) string {
	var b strings.Builder
	for _, s := range st {
		b.WriteString(s.key())
	}
	return b.String()
}

func (a *Analysis) addHaz(fi *FnInfo, s *Summary, wp, rp Path, w, r Acc) {
	wp, rp = widen2(fi, wp), widen2(fi, rp)
	k := wp.key() + " | " + rp.key()
	if _, ok := s.Haz[k]; ok {
		return
	}
	s.Haz[k] = Haz{wp, rp, w, r}
}

// widen2 generalises a path over every loop of the function.
func widen2(fi *FnInfo, p Path) Path {
	for _, l := range fi.loops {
		p, _ = exportPath(p, l, false)
	}
	return widen(p)
}

// calleeHaz maps a callee's hazard to this frame.
func (a *Analysis) calleeHaz(fi *FnInfo, b *ssa.BasicBlock, it *item, h hazAt, s *Summary) {
	w, r := h.wp, h.rp
	if w.root == r.root {
		// the aliasing actually happens
		if overlapSteps(w.steps, r.steps) {
			k := fnName(it.call) + " " + w.shape() + " | " + r.shape()
			if _, ok := s.CallHaz[k]; !ok {
				wa, ra := h.w, h.r
				wa.path, ra.path = w, r
				wa.pos = instrPos(it.in)
				s.CallHaz[k] = Haz{w, r, wa, ra}
			}
		}
		return
	}
	if local(w.root) || local(r.root) || w.root.kind == 'U' || r.root.kind == 'U' {
		return
	}
	// hypotheses in this frame: whole-object aliasing of roots, or of a root
	// with an object inside the other
	try := func(wi, ri int) {
		if overlapSteps(w.steps[wi:], r.steps[ri:]) {
			a.addHaz(fi, s, Path{root: w.root, steps: w.steps[:wi]}, Path{root: r.root, steps: r.steps[:ri]}, h.w, h.r)
		}
	}
	if sameObjType(typeAt(fi.fn, w, 0), typeAt(fi.fn, r, 0)) {
		try(0, 0)
		return
	}
	for i := 1; i <= len(w.steps); i++ {
		if sameObjType(typeAt(fi.fn, w, i), typeAt(fi.fn, r, 0)) {
			try(i, 0)
			break
		}
	}
	for i := 1; i <= len(r.steps); i++ {
		if sameObjType(typeAt(fi.fn, r, i), typeAt(fi.fn, w, 0)) {
			try(0, i)
			break
		}
	}
}

// mustOf: what is certainly written when one of ps is, without knowing which.
func mustOf(ps []Path) []Path {
	if len(ps) == 0 {
		return nil
	}
	for _, p := range ps {
		if p.root.kind == 'U' || hasUnknown(p) {
			return nil
		}
	}
	if len(ps) == 1 {
		return ps
	}
	for _, q := range ps {
		all := true
		for _, p := range ps {
			if !covers(p, q) {
				all = false
			}
		}
		if all {
			return []Path{q}
		}
	}
	return nil
}
