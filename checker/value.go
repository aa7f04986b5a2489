package main

import (
	"os"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Value-number engine: what a function leaves at a place, as a normal form
// over what was in memory when it was called. Memory is read backwards through
// the effects of the instructions; loops are summarised by solving the index
// of the iteration that wrote a place, or, for a place written in every
// iteration, by the closed form of its recurrence; calls are instantiated
// from the callee's own result.
// ---------------------------------------------------------------------------

type frame struct {
	fi  *FnInfo
	env map[*Loop]*Lin
	k   string
}

func (fr *frame) key() string {
	if fr.k == "" {
		var parts []string
		for l, v := range fr.env {
			parts = append(parts, fmt.Sprintf("%d=%s", l.id, v.key()))
		}
		sort.Strings(parts)
		fr.k = fmt.Sprintf("%d{%s}", vid(fr.fi.fn), strings.Join(parts, ","))
	}
	return fr.k
}

func (fr *frame) with(l *Loop, v *Lin) *frame {
	n := &frame{fi: fr.fi, env: map[*Loop]*Lin{}}
	for x, y := range fr.env {
		n.env[x] = y
	}
	n.env[l] = v
	return n
}

// in restricts the environment to the loops around b.
func (fr *frame) in(b *ssa.BasicBlock) *frame {
	ok := true
	for l := range fr.env {
		if !l.blocks[b] {
			ok = false
		}
	}
	if ok {
		return fr
	}
	n := &frame{fi: fr.fi, env: map[*Loop]*Lin{}}
	for x, y := range fr.env {
		if x.blocks[b] {
			n.env[x] = y
		}
	}
	return n
}

func (fr *frame) sub(s *Sym) *Lin {
	if s.kind == 'k' {
		if v, ok := fr.env[s.loop]; ok {
			return v
		}
	}
	return nil
}

func (fr *frame) lin(v ssa.Value) *Lin { return fr.fi.lin(v).subst(fr.sub) }

// val is what a place holds: a number, a reference, or nothing (unreachable).
type val struct {
	e   *Expr
	p   *Path
	bot bool
}

func vUnk(ptr bool, why string) val {
	e := xUnknown(why)
	if ptr {
		return val{p: &Path{root: noRoot}}
	}
	return val{e: e}
}

var noRoot = internRoot(&Root{kind: 'U', key: "U?"})

func (v val) unknown() bool {
	if v.bot {
		return false
	}
	if v.p != nil {
		return v.p.root.kind == 'U'
	}
	return v.e == nil || v.e.unk
}

func same(a, b val) bool {
	if a.bot || b.bot {
		return a.bot == b.bot
	}
	if a.p != nil && b.p != nil {
		return a.p.key() == b.p.key()
	}
	return a.p == nil && b.p == nil && a.e == b.e
}

// intrinsic gives the value a function leaves at a place of its own frame
// (nil: not written), in terms of its own frame's memory at entry.
type intrinsic func(e *Eng, fn *ssa.Function, r Path) *Expr

type Eng struct {
	solveSub substFn // of the frame being solved in
	a        *Analysis
	T        string
	facts    []*Lin
	memo     map[string]val
	busy     map[string]bool
	acc      map[string]*Expr
	accOn    map[string]bool
	pats     map[string][]wpat
	patOn    map[string]bool
	idx      map[ssa.Instruction]int
	intr     map[string]intrinsic
	ptrs     map[string]func(fn *ssa.Function) Path // functions returning a fixed view of a parameter
	steps    int
	budget   int
	nFuncs   map[*ssa.Function]bool
	depth    int
	strict   bool // keep the condition that an index is in range of a loop
}

func newEng(a *Analysis, T string) *Eng {
	e := &Eng{a: a, T: T, memo: map[string]val{}, busy: map[string]bool{}, acc: map[string]*Expr{}, accOn: map[string]bool{},
		pats: map[string][]wpat{}, patOn: map[string]bool{}, idx: map[ssa.Instruction]int{}, budget: 400000, nFuncs: map[*ssa.Function]bool{}}
	e.intr = stdIntrinsics()
	e.ptrs = stdPtrs()
	return e
}

func (e *Eng) index(in ssa.Instruction) int {
	if i, ok := e.idx[in]; ok {
		return i
	}
	for i, x := range in.Block().Instrs {
		e.idx[x] = i
	}
	return e.idx[in]
}

func zeroVal(ptr bool) val {
	if ptr {
		return val{bot: true}
	}
	return val{e: xConst(0)}
}

// get reads the place r in the state before instruction i of block b.
func (e *Eng) get(fr *frame, b *ssa.BasicBlock, i int, r Path, ptr bool) val {
	fr = fr.in(b)
	if r.root.kind == 'U' {
		return vUnk(ptr, "unresolved place")
	}
	if e.steps++; e.steps > e.budget {
		return vUnk(ptr, "budget")
	}
	if ptr && r.root.kind != 'A' && r.root.kind != 'C' && !e.hasPtrStores(fr.fi, r) {
		return val{p: &r}
	}
	key := fmt.Sprintf("%v|%s|%d.%d|%s", ptr, fr.key(), b.Index, i, r.key())
	if v, ok := e.memo[key]; ok {
		return v
	}
	if e.busy[key] || e.depth > 400 {
		return vUnk(ptr, "cycle")
	}
	e.busy[key] = true
	e.depth++
	v := e.get1(fr, b, i, r, ptr)
	e.depth--
	delete(e.busy, key)
	e.memo[key] = v
	return v
}

// growing lists the fields that hold a buffer which is only ever made longer.
func (a *Analysis) growing() map[string]bool {
	if a.growTab != nil {
		return a.growTab
	}
	a.growTab = map[string]bool{}
	other := map[string]bool{}
	for _, fn := range a.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				name := fieldName(fa.X.Type(), fa.Field)
				if c, ok := st.Val.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok {
							if fb, ok := ld.X.(*ssa.FieldAddr); ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
								a.growTab[name] = true
								continue
							}
						}
					}
				}
				base := fa.X
				for {
					f, ok := base.(*ssa.FieldAddr)
					if !ok {
						break
					}
					base = f.X
				}
				if _, ok := base.(*ssa.Alloc); !ok {
					other[name] = true
				}
			}
		}
	}
	for f := range other {
		delete(a.growTab, f)
	}
	return a.growTab
}

// grows: the store makes a growing buffer longer or fills its new elements.
// The buffer is taken to have been that long.
func (a *Analysis) grows(st StorePtr) bool {
	g := a.growing()
	within := func(p Path) bool {
		for _, s := range p.steps {
			if s.kind == 'f' && g[s.field] {
				return true
			}
		}
		return false
	}
	return within(st.dst) && st.src.root != nil && (st.src.root.kind == 'A' || st.src.root.kind == 'C' || within(st.src))
}

// hasPtrStores: something below the function may store a reference at r.
func (e *Eng) hasPtrStores(fi *FnInfo, r Path) bool {
	for _, st := range e.a.summary(fi.fn).Ptrs {
		if e.a.grows(st) {
			continue
		}
		f := lastField(st.dst)
		if f == "" {
			return true
		}
		for _, x := range r.steps {
			if x.kind == 'f' && x.field == f {
				return true
			}
		}
	}
	return false
}

func (e *Eng) get1(fr *frame, b *ssa.BasicBlock, i int, r Path, ptr bool) val {
	for j := i - 1; j >= 0; j-- {
		v, hit := e.effect(fr, b, j, r, ptr)
		if hit {
			return v
		}
	}
	return e.atStart(fr, b, r, ptr)
}

func (e *Eng) atStart(fr *frame, b *ssa.BasicBlock, r Path, ptr bool) val {
	if b == fr.fi.fn.Blocks[0] {
		return e.entry(fr, r, ptr)
	}
	for _, l := range fr.fi.loops {
		if l.header == b {
			return e.head(fr, l, r, ptr)
		}
	}
	if len(b.Preds) == 1 {
		return e.edge(fr, b.Preds[0], b, r, ptr)
	}
	if d := b.Idom(); d != nil && !e.regionWrites(fr, d, b, r, ptr) && e.loopEq(fr.fi, d, b) {
		return e.get(fr, d, len(d.Instrs), r, ptr)
	}
	return e.gate(fr, b, ptr, func(p *ssa.BasicBlock) val { return e.edge(fr, p, b, r, ptr) })
}

func (e *Eng) loopEq(fi *FnInfo, a, b *ssa.BasicBlock) bool { return fi.loopOf[a] == fi.loopOf[b] }

func (e *Eng) entry(fr *frame, r Path, ptr bool) val {
	switch r.root.kind {
	case 'A', 'C':
		return zeroVal(ptr)
	case 'U':
		return vUnk(ptr, "unresolved place")
	}
	if ptr {
		return val{p: &r}
	}
	return val{e: xMem(r)}
}

// edge reads at the end of p on the way to b.
func (e *Eng) edge(fr *frame, p, b *ssa.BasicBlock, r Path, ptr bool) val {
	l := fr.fi.loopOf[p]
	if l == nil || l.blocks[b] {
		return e.get(fr, p, len(p.Instrs), r, ptr)
	}
	if l.header == p && l.trip != nil && (l.parent == nil || l.parent.blocks[b]) && !e.multiExit(l) {
		return e.get(fr.with(l, l.trip.subst(fr.sub)), p, len(p.Instrs), r, ptr)
	}
	// left early: fine when no loop left writes the place
	out := l
	for out.parent != nil && !out.parent.blocks[b] {
		out = out.parent
	}
	if os.Getenv("LL") != "" { fmt.Fprintln(os.Stderr, "LEFT", fr.fi.fn, l.header, p, b, l.trip, e.multiExit(l)) }
	if ps := e.overlapping(fr, out, r, ptr); len(ps) == 0 {
		return e.beforeLoop(fr, out, r, ptr)
	}
	return vUnk(ptr, "loop left early")
}

// multiExit: the loop can be left other than through its header (and not by
// panicking).
func (e *Eng) multiExit(l *Loop) bool {
	for b := range l.blocks {
		if b == l.header {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range b.Succs {
			if !l.blocks[s] && !endsInPanic(s, 0) {
				return true
			}
		}
	}
	return false
}

// endsInPanic: every path from b ends in a panic.
func endsInPanic(b *ssa.BasicBlock, d int) bool {
	if d > 6 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return false
	}
	for _, s := range b.Succs {
		if s.Dominates(b) || !endsInPanic(s, d+1) {
			return false
		}
	}
	return len(b.Succs) > 0
}

func (e *Eng) beforeLoop(fr *frame, l *Loop, r Path, ptr bool) val {
	var pre []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if !l.blocks[p] {
			pre = append(pre, p)
		}
	}
	if len(pre) == 1 {
		return e.edge(fr, pre[0], l.header, r, ptr)
	}
	if d := l.header.Idom(); d != nil {
		if !e.regionWrites(fr, d, l.header, r, ptr) && fr.fi.loopOf[d] == l.parent {
			return e.get(fr, d, len(d.Instrs), r, ptr)
		}
		return e.gate(fr.in(d), l.header, ptr, func(p *ssa.BasicBlock) val { return e.edge(fr, p, l.header, r, ptr) })
	}
	return vUnk(ptr, "loop entry")
}

// regionWrites: some instruction between d and b may write r.
func (e *Eng) regionWrites(fr *frame, d, b *ssa.BasicBlock, r Path, ptr bool) bool {
	seen := map[*ssa.BasicBlock]bool{d: true}
	var stack []*ssa.BasicBlock
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, in := range x.Instrs {
			for _, w := range e.writesOf(e.patFrame(fr, x), in, ptr) {
				if mayOverlap(w, r) {
					return true
				}
			}
		}
		stack = append(stack, x.Preds...)
	}
	return false
}

// patFrame extends fr with pattern variables for the loops around b it lacks.
func (e *Eng) patFrame(fr *frame, b *ssa.BasicBlock) *frame {
	for l := fr.fi.loopOf[b]; l != nil; l = l.parent {
		if _, ok := fr.env[l]; !ok {
			fr = fr.with(l, linSym(patVar(l)))
		}
	}
	return fr.in(b)
}

func patVar(l *Loop) *Sym {
	return internSym(&Sym{key: fmt.Sprintf("π%d", l.id), kind: 'b', loop: l})
}

// mayOverlap compares shapes, ignoring indices.
func mayOverlap(w, r Path) bool {
	if w.root.kind == 'U' {
		return true
	}
	if w.root != r.root {
		return false
	}
	if len(w.steps) > len(r.steps) {
		return false // beyond the reference or number at r
	}
	for i := range w.steps {
		a, b := w.steps[i], r.steps[i]
		if (a.kind == 'f') != (b.kind == 'f') {
			return true
		}
		if a.kind == 'f' && a.field != b.field {
			return false
		}
		if a.kind == 'e' && b.kind == 'e' && a.lo.isConst() && b.lo.isConst() && a.lo.c != b.lo.c {
			return false
		}
	}
	return true
}

// gate merges what arrives at b from its predecessors by the conditions of
// the branches between its immediate dominator and b.
func (e *Eng) gate(fr *frame, b *ssa.BasicBlock, ptr bool, leaf func(p *ssa.BasicBlock) val) val {
	d := b.Idom()
	if d == nil {
		return vUnk(ptr, "join")
	}
	return e.walk(fr, d, b, ptr, leaf, map[*ssa.BasicBlock]val{}, map[*ssa.BasicBlock]bool{})
}

func (e *Eng) walk(fr *frame, x, b *ssa.BasicBlock, ptr bool, leaf func(p *ssa.BasicBlock) val, memo map[*ssa.BasicBlock]val, on map[*ssa.BasicBlock]bool) val {
	if v, ok := memo[x]; ok {
		return v
	}
	if on[x] {
		return vUnk(ptr, "irreducible")
	}
	on[x] = true
	defer delete(on, x)
	var v val
	edge := func(s *ssa.BasicBlock) val {
		if s == b {
			return leaf(x)
		}
		for _, l := range fr.fi.loops {
			if l.header == s && !l.blocks[x] {
				if b != nil && l.blocks[b] {
					break
				}
				if e.multiExit(l) {
					return vUnk(ptr, "loop left early")
				}
				for _, q := range s.Succs {
					if !l.blocks[q] {
						if q == b {
							return leaf(s)
						}
						return e.walk(fr, q, b, ptr, leaf, memo, on)
					}
				}
				return vUnk(ptr, "endless loop")
			}
		}
		return e.walk(fr, s, b, ptr, leaf, memo, on)
	}
	switch t := x.Instrs[len(x.Instrs)-1].(type) {
	case *ssa.If:
		lp := fr.fi.loopOf[x]
		if lp != nil && lp.header == x && (b == nil || !lp.blocks[b]) {
			// x is a loop header: leave it
			for _, q := range x.Succs {
				if !lp.blocks[q] {
					v = edge(q)
				}
			}
			break
		}
		c := e.eval(fr, t.Cond)
		if k, ok := c.constant(); ok {
			if k != 0 {
				v = edge(x.Succs[0])
			} else {
				v = edge(x.Succs[1])
			}
			break
		}
		p, q := edge(x.Succs[0]), edge(x.Succs[1])
		switch {
		case p.bot:
			v = q
		case q.bot || same(p, q):
			v = p
		case p.p != nil || q.p != nil || ptr:
			v = vUnk(true, "reference depends on a condition")
		default:
			v = val{e: xIte(c, p.e, q.e)}
		}
	case *ssa.Jump:
		v = edge(x.Succs[0])
	case *ssa.Return:
		if b == nil {
			v = leaf(x)
		} else {
			v = val{bot: true}
		}
	default:
		v = val{bot: true}
	}
	memo[x] = v
	return v
}

// atExit reads r when the function returns.
func (e *Eng) atExit(fn *ssa.Function, r Path, ptr bool) val {
	fi := e.a.fnInfo(fn)
	e.nFuncs[fn] = true
	fr := &frame{fi: fi, env: map[*Loop]*Lin{}}
	return e.exits(fr, ptr, func(b *ssa.BasicBlock) val { return e.get(fr, b, len(b.Instrs), r, ptr) })
}

func (e *Eng) exits(fr *frame, ptr bool, leaf func(b *ssa.BasicBlock) val) val {
	if len(fr.fi.fn.Blocks) == 0 {
		return vUnk(ptr, "no body")
	}
	// a single return is read directly
	var rets []*ssa.BasicBlock
	for _, b := range fr.fi.fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, b)
		}
	}
	if len(rets) == 0 {
		return val{bot: true}
	}
	if len(rets) == 1 && fr.fi.loopOf[rets[0]] == nil {
		return leaf(rets[0])
	}
	for _, b := range rets {
		if fr.fi.loopOf[b] != nil {
			return vUnk(ptr, "return inside a loop")
		}
	}
	return e.walk(fr, fr.fi.fn.Blocks[0], nil, ptr, leaf, map[*ssa.BasicBlock]val{}, map[*ssa.BasicBlock]bool{})
}

// ---------------------------------------------------------------------------
// Effects of one instruction
// ---------------------------------------------------------------------------

// elsewhere: w is a field of an unresolved object, and r does not lead through
// a field of that name.
func elsewhere(w, r Path) bool {
	if w.root == nil || w.root.kind != 'U' || len(w.steps) == 0 {
		return false
	}
	tail := w.steps
	for i, s := range w.steps {
		if s.kind != 'f' {
			tail = w.steps[i+1:]
		}
	}
	if len(tail) == 0 {
		return false
	}
	for i := 0; i+len(tail) <= len(r.steps); i++ {
		same := true
		for j, s := range tail {
			same = same && r.steps[i+j].kind == 'f' && r.steps[i+j].field == s.field
		}
		if same {
			return false
		}
	}
	return r.root.kind != 'U'
}

// rel compares a written place with the one asked for. cond is the condition
// under which they are the same (nil: always).
func (e *Eng) rel(w, r Path) (disjoint, prefix, unknown bool, cond *Expr) {
	if w.root.kind == 'U' {
		return elsewhere(w, r), false, true, nil
	}
	if w.root != r.root {
		return true, false, false, nil
	}
	if len(w.steps) > len(r.steps) {
		return true, false, false, nil
	}
	for i := range w.steps {
		a, b := w.steps[i], r.steps[i]
		if a.kind == 'f' || b.kind == 'f' {
			if a.kind != b.kind {
				return false, false, true, nil
			}
			if a.field != b.field {
				return true, false, false, nil
			}
			continue
		}
		if a.kind != 'e' || b.kind != 'e' {
			return false, false, true, nil
		}
		d := a.lo.sub(b.lo)
		if d.isConst() {
			if d.c != 0 {
				return true, false, false, nil
			}
			continue
		}
		if e.never(d, d.scale(-1)) {
			return true, false, false, nil
		}
		if a.lo.isConst() && i == len(w.steps)-1 && w.root.kind == 'A' {
			// the last element of an array of constant length
			if n := arrayLen(w.root.v); n > 0 && a.lo.c == n-1 && e.never(linConst(n-2).sub(b.lo)) {
				continue
			}
		}
		c := xCmp("==", fromLin(a.lo), fromLin(b.lo))
		if cond == nil {
			cond = c
		} else {
			cond = cond.mul(c)
		}
	}
	return false, len(w.steps) < len(r.steps), false, cond
}

// never: the inequalities (all >= 0) cannot hold together with the facts.
func (e *Eng) never(ls ...*Lin) bool {
	ge := append(append(append([]*Lin(nil), e.facts...), bound...), ls...)
	ks := make([]string, len(ge))
	for i, g := range ge {
		ks[i] = g.key()
	}
	sort.Strings(ks)
	k := strings.Join(ks, ";")
	r, ok := neverTab[k]
	if !ok {
		r = (&facts{ge: ge}).contradictory()
		neverTab[k] = r
	}
	return r
}

var neverTab = map[string]bool{}

// arrayLen is the length of an allocated array.
func arrayLen(v ssa.Value) int64 {
	if v == nil {
		return 0
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if t, ok := p.Elem().Underlying().(*types.Array); ok {
			return t.Len()
		}
	}
	return 0
}

func (e *Eng) effect(fr *frame, b *ssa.BasicBlock, j int, r Path, ptr bool) (val, bool) {
	switch x := b.Instrs[j].(type) {
	case *ssa.Store:
		if !e.storeShape(fr, x, r, ptr) {
			return val{}, false
		}
		w := e.ptrOf(fr, x.Addr)
		dis, pre, unk, cond := e.rel(w, r)
		if dis {
			return val{}, false
		}
		if unk {
			return vUnk(ptr, "store to an unresolved place"), true
		}
		var v val
		if pre {
			v = e.comp(fr, x.Val, r.steps[len(w.steps):], ptr)
		} else {
			v = e.comp(fr, x.Val, nil, ptr)
		}
		return e.under(fr, b, j, r, ptr, cond, v), true
	case *ssa.Alloc:
		if r.root.kind == 'A' && r.root.v == ssa.Value(x) && e.sameInst(fr, b, r) {
			return zeroVal(ptr), true
		}
	case *ssa.MakeSlice:
		if r.root.kind == 'A' && r.root.v == ssa.Value(x) && e.sameInst(fr, b, r) {
			return zeroVal(ptr), true
		}
	case *ssa.Call:
		return e.callEffect(fr, b, j, x, r, ptr)
	case *ssa.Go, *ssa.Defer:
		for _, w := range e.writesOf(fr, b.Instrs[j], ptr) {
			if mayOverlap(w, r) {
				return vUnk(ptr, "concurrent write"), true
			}
		}
	}
	return val{}, false
}

// sameInst: the allocation seen now is the instance r refers to.
func (e *Eng) sameInst(fr *frame, b *ssa.BasicBlock, r Path) bool {
	ins := e.instance(fr, b)
	for i, s := range ins {
		if i >= len(r.steps) || r.steps[i].kind != 'e' || !r.steps[i].lo.eq(s.lo) {
			return false
		}
	}
	return true
}

// instance identifies the object allocated at b by the rounds of the loops
// around it.
func (e *Eng) instance(fr *frame, b *ssa.BasicBlock) []Step {
	var out []Step
	for l := fr.fi.loopOf[b]; l != nil; l = l.parent {
		v, ok := fr.env[l]
		if !ok {
			v = linSym(patVar(l))
		}
		out = append([]Step{{kind: 'e', lo: v}}, out...)
	}
	return out
}

func (e *Eng) under(fr *frame, b *ssa.BasicBlock, j int, r Path, ptr bool, cond *Expr, v val) val {
	if cond == nil {
		return v
	}
	old := e.get(fr, b, j, r, ptr)
	switch {
	case v.bot:
		return old
	case old.bot || same(v, old):
		return v
	case ptr:
		return vUnk(true, "reference depends on an index")
	}
	return val{e: xIte(cond, v.e, old.e)}
}

// storeShape is a quick filter on types: scalars are not stored by reference
// stores and the other way round.
func (e *Eng) storeShape(fr *frame, x *ssa.Store, r Path, ptr bool) bool {
	if structLike(x.Val.Type()) {
		return true
	}
	return pointerful(x.Val.Type()) == ptr
}

// comp is the component at steps of the value v.
func (e *Eng) comp(fr *frame, v ssa.Value, steps []Step, ptr bool) val {
	t := v.Type()
	if len(steps) == 0 && !structLike(t) {
		if ptr {
			p := e.ptrOf(fr, v)
			if p.root == nil {
				return val{bot: true}
			}
			return val{p: &p}
		}
		return val{e: e.eval(fr, v)}
	}
	if !structLike(t) {
		return vUnk(ptr, "component of a reference")
	}
	b := e.blockOf(v)
	if b != nil {
		fr = e.defFrame(fr, v, b)
		if fr == nil {
			return vUnk(ptr, "value from a loop that ended")
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return zeroVal(ptr)
	case *ssa.Parameter:
		for i, p := range fr.fi.fn.Params {
			if p == x {
				r := Path{root: paramRoot(i), steps: steps}
				if ptr {
					return val{p: &r}
				}
				return val{e: xMem(r)}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := e.ptrOf(fr, x.X)
			for _, s := range steps {
				p = p.with(s)
			}
			return e.get(fr, x.Block(), e.index(x), p, ptr)
		}
	case *ssa.Field:
		return e.comp(fr, x.X, append([]Step{{kind: 'f', field: fieldName(x.X.Type(), x.Field)}}, steps...), ptr)
	case *ssa.Index:
		return e.comp(fr, x.X, append([]Step{{kind: 'e', lo: fr.lin(x.Index)}}, steps...), ptr)
	case *ssa.ChangeType:
		return e.comp(fr, x.X, steps, ptr)
	case *ssa.Call:
		return e.result(fr, x, 0, steps, ptr)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.result(fr, c, x.Index, steps, ptr)
		}
	case *ssa.Phi:
		return e.phi(fr, x, ptr, func(fr *frame, v ssa.Value) val { return e.comp(fr, v, steps, ptr) })
	}
	return vUnk(ptr, "value")
}

func (e *Eng) blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// defFrame is the environment at the definition of v, when used from fr.
func (e *Eng) defFrame(fr *frame, v ssa.Value, b *ssa.BasicBlock) *frame {
	for l := fr.fi.loopOf[b]; l != nil; l = l.parent {
		if _, ok := fr.env[l]; !ok {
			if b == l.header && l.trip != nil && !e.multiExit(l) {
				fr = fr.with(l, l.trip.subst(fr.sub))
			} else {
				return nil
			}
		}
	}
	return fr.in(b)
}

// phi merges the values of a phi node.
func (e *Eng) phi(fr *frame, x *ssa.Phi, ptr bool, f func(fr *frame, v ssa.Value) val) val {
	b := x.Block()
	for _, l := range fr.fi.loops {
		if l.header == b {
			return e.carried(fr, l, x, ptr, f)
		}
	}
	used := map[*ssa.BasicBlock]int{}
	_ = used
	return e.gate(fr, b, ptr, func(p *ssa.BasicBlock) val {
		var out val
		n := 0
		for i, q := range b.Preds {
			if q == p {
				fr2 := fr
				if l := fr.fi.loopOf[p]; l != nil && !l.blocks[b] {
					if l.header == p && l.trip != nil && (l.parent == nil || l.parent.blocks[b]) && !e.multiExit(l) {
						fr2 = fr.with(l, l.trip.subst(fr.sub))
					} else {
						return vUnk(ptr, "loop left early")
					}
				}
				v := f(fr2.in(p), x.Edges[i])
				if n > 0 && !same(v, out) {
					return vUnk(ptr, "ambiguous edge")
				}
				out = v
				n++
			}
		}
		return out
	})
}

// carried is the value of a header phi that is not an induction variable.
func (e *Eng) carried(fr *frame, l *Loop, x *ssa.Phi, ptr bool, f func(fr *frame, v ssa.Value) val) val {
	kappa, ok := fr.env[l]
	if !ok {
		return vUnk(ptr, "loop value used outside")
	}
	if ptr {
		// the same reference in every round, or unknown
		on := fmt.Sprintf("phi%d", vid(x))
		if e.accOn[on] {
			return val{bot: true}
		}
		e.accOn[on] = true
		defer delete(e.accOn, on)
		out := val{bot: true}
		for i, p := range x.Block().Preds {
			fr2 := fr
			if !l.blocks[p] {
				fr2 = fr.in(p)
			}
			v := f(fr2, x.Edges[i])
			if v.bot {
				continue
			}
			if !out.bot && !same(out, v) {
				return vUnk(true, "reference changes in a loop")
			}
			out = v
		}
		return out
	}
	var init ssa.Value
	for i, p := range x.Block().Preds {
		if !l.blocks[p] {
			if init != nil && init != x.Edges[i] {
				return vUnk(ptr, "loop value")
			}
			init = x.Edges[i]
		}
	}
	return e.recur(fr, l, kappa, fmt.Sprintf("phi%d", vid(x)), func() val {
		return f(fr.in(e.preOf(l)), init)
	}, func(fr2 *frame) val {
		return e.atLatch(fr2, l, ptr, func(q *ssa.BasicBlock) val {
			out := val{bot: true}
			for i, p := range x.Block().Preds {
				if p == q {
					fr3 := fr2
					if li := fr2.fi.loopOf[q]; li != l && li != nil && li.header == q && li.trip != nil && li.parent == l && !e.multiExit(li) {
						fr3 = fr2.with(li, li.trip.subst(fr2.sub))
					}
					v := f(fr3, x.Edges[i])
					if !out.bot && !same(out, v) {
						return vUnk(ptr, "loop value")
					}
					out = v
				}
			}
			return out
		})
	})
}

func (e *Eng) preOf(l *Loop) *ssa.BasicBlock {
	for _, p := range l.header.Preds {
		if !l.blocks[p] {
			return p
		}
	}
	return nil
}

// recur solves x(0) = init, x(k+1) = step(k, x(k)) for x(kappa).
func (e *Eng) recur(fr *frame, l *Loop, kappa *Lin, what string, init func() val, step func(fr *frame) val) val {
	if kappa.isConst() && kappa.c == 0 {
		return init()
	}
	outer := fr.in(e.preOf(l))
	id := fmt.Sprintf("%d|%s|%s", l.id, what, outer.key())
	if p := e.acc[id+"|"+kappa.key()]; p != nil {
		return val{e: p}
	}
	if e.accOn[id] {
		return vUnk(false, "mutual recurrence")
	}
	e.accOn[id] = true
	beta := freshVar()
	slot := id + "|" + linSym(beta).key()
	prevAtom := internAtom("P"+slot, func() *Atom { return &Atom{kind: 'P', op: slot} })
	prev := xAtom(prevAtom)
	e.acc[slot] = prev
	nf := len(e.facts)
	e.facts = append(e.facts, linSym(beta))
	if l.trip != nil {
		e.facts = append(e.facts, l.trip.subst(fr.sub).sub(linSym(beta)).addc(-1))
	}
	v := step(fr.with(l, linSym(beta)))
	e.facts = e.facts[:nf]
	delete(e.acc, slot)
	delete(e.accOn, id)
	if v.bot || v.e == nil {
		return vUnk(false, "loop value")
	}
	if v.e.unk {
		return v
	}
	if v.e == prev {
		return init()
	}
	in := init()
	if in.bot || in.e == nil {
		return vUnk(false, "loop value")
	}
	return val{e: closeRec(v.e, prevAtom, beta, kappa, in.e)}
}

// closeRec is the closed form of x(kappa) for x(k+1) = v(k, x(k)).
func closeRec(v *Expr, prev *Atom, beta *Sym, kappa *Lin, init *Expr) *Expr {
	// v = co·prev + g
	co, g := xConst(0), xConst(0)
	for _, m := range v.ms {
		n := 0
		var rest []*Atom
		for _, a := range m.as {
			if a == prev {
				n++
			} else {
				rest = append(rest, a)
				if atomUses(a, prev) {
					return xFold(prev, beta, kappa, v, init)
				}
			}
		}
		switch n {
		case 0:
			g = g.add(mkExpr([]mono{m}))
		case 1:
			co = co.add(mkExpr([]mono{{m.co, rest}}))
		default:
			return xFold(prev, beta, kappa, v, init)
		}
	}
	at := func(x *Expr, i *Lin) *Expr { return x.swap(beta, i, nil, nil) }
	if c, ok := co.constant(); ok {
		switch c {
		case 0:
			last := at(g, kappa.addc(-1))
			if kappa.addc(-1).nonNeg() {
				return last
			}
			return xIte(xCmp("<", xConst(0), fromLin(kappa)), last, init)
		case 1:
			return init.add(xSum(beta, kappa, g))
		}
		return xFold(prev, beta, kappa, v, init)
	}
	// restarted in the first round: co = 1 - [beta = 0]
	if co == xConst(1).sub(xCmp("==", fromLin(linSym(beta)), xConst(0))) {
		r := xSum(beta, kappa, g)
		if kappa.addc(-1).nonNeg() {
			return r
		}
		return xIte(xCmp("<", xConst(0), fromLin(kappa)), r, init)
	}
	return xFold(prev, beta, kappa, v, init)
}

func atomUses(a, prev *Atom) bool {
	if a == prev {
		return true
	}
	for _, x := range a.args {
		if exprUses(x, prev) {
			return true
		}
	}
	return a.body != nil && exprUses(a.body, prev)
}

func exprUses(e *Expr, prev *Atom) bool {
	for _, m := range e.ms {
		for _, a := range m.as {
			if atomUses(a, prev) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Loops
// ---------------------------------------------------------------------------

type wpat struct {
	p  Path
	in ssa.Instruction
}

// overlapping lists the writes of loop l that may touch r, with pattern
// variables for the rounds of l and the loops inside it.
func (e *Eng) overlapping(fr *frame, l *Loop, r Path, ptr bool) []wpat {
	outer := &frame{fi: fr.fi, env: map[*Loop]*Lin{}}
	for x, v := range fr.env {
		if x != l && x.blocks[l.header] {
			outer.env[x] = v
		}
	}
	key := fmt.Sprintf("%v|%d|%s", ptr, l.id, outer.key())
	ps, ok := e.pats[key]
	if !ok {
		if e.patOn[key] {
			return nil
		}
		e.patOn[key] = true
		for _, b := range fr.fi.order {
			if !l.blocks[b] {
				continue
			}
			pf := e.patFrame(outer, b)
			for _, in := range b.Instrs {
				for _, w := range e.writesOf(pf, in, ptr) {
					ps = append(ps, wpat{w, in})
				}
			}
		}
		delete(e.patOn, key)
		e.pats[key] = ps
	}
	var out []wpat
	for _, w := range ps {
		if mayOverlap(w.p, r) {
			out = append(out, w)
		}
	}
	return out
}

// writesOf lists the places an instruction may write (ptr: references only).
func (e *Eng) writesOf(fr *frame, in ssa.Instruction, ptr bool) []Path {
	switch x := in.(type) {
	case *ssa.Store:
		if !structLike(x.Val.Type()) && pointerful(x.Val.Type()) != ptr {
			return nil
		}
		return []Path{e.ptrOf(fr, x.Addr)}
	case *ssa.Alloc:
		return []Path{{root: allocRoot(x), steps: e.instance(fr, x.Block())}}
	case *ssa.MakeSlice:
		return []Path{{root: allocRoot(x), steps: e.instance(fr, x.Block())}}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "copy" || bi.Name() == "clear" {
				if et := elemType(x.Call.Args[0].Type()); et != nil && pointerful(et) != ptr && !structLike(et) {
					return nil
				}
				return []Path{e.ptrOf(fr, x.Call.Args[0]).all()}
			}
			if bi.Name() == "append" {
				return []Path{{root: callRoot(x, nil), steps: e.instance(fr, x.Block())}}
			}
			return nil
		}
		out := e.callWrites(fr, x, ptr)
		if structLike(x.Type()) || pointerful(x.Type()) {
			for _, rt := range e.resultRoots(x) {
				out = append(out, Path{root: rt, steps: e.instance(fr, x.Block())})
			}
		}
		return out
	case *ssa.Go:
		return e.callWrites(fr, x, ptr)
	case *ssa.Defer:
		return e.callWrites(fr, x, ptr)
	case *ssa.MapUpdate:
		return nil
	}
	return nil
}

// resultRoots: the fresh objects a call may return.
func (e *Eng) resultRoots(c *ssa.Call) []*Root {
	callee := e.a.callee(c)
	if callee == nil || len(callee.Blocks) == 0 || !inModule(callee) {
		return []*Root{callRoot(c, nil)}
	}
	var out []*Root
	for _, r := range e.freshRoots(callee, 0) {
		out = append(out, callRoot(c, r))
	}
	return out
}

// freshRoots: the objects allocated by fn or below it.
func (e *Eng) freshRoots(fn *ssa.Function, d int) []*Root {
	if d > 5 {
		return nil
	}
	var out []*Root
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				out = append(out, allocRoot(x))
			case *ssa.MakeSlice:
				out = append(out, allocRoot(x))
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						out = append(out, callRoot(x, nil))
					}
					continue
				}
				if !structLike(x.Type()) && !pointerful(x.Type()) {
					continue
				}
				callee := e.a.callee(x)
				if callee == nil || len(callee.Blocks) == 0 || !inModule(callee) {
					out = append(out, callRoot(x, nil))
					continue
				}
				for _, r := range e.freshRoots(callee, d+1) {
					out = append(out, callRoot(x, r))
				}
			}
		}
	}
	return out
}

// callWrites: the places a call may write in the caller's frame.
func (e *Eng) callWrites(fr *frame, c ssa.CallInstruction, ptr bool) []Path {
	var out []Path
	for _, m := range e.calleeWrites(fr, c, ptr) {
		out = append(out, m.phys)
	}
	return out
}

type cwrite struct {
	local Path // in the callee's frame, indices replaced by vars
	phys  Path // in the caller's frame
	vars  []*Sym
}

var holeNo int

func hole(i int) *Sym { return internSym(&Sym{key: fmt.Sprintf("η%d", i), kind: 'b'}) }

// calleeWrites maps the shapes of the callee's writes into the caller's frame.
func (e *Eng) calleeWrites(fr *frame, c ssa.CallInstruction, ptr bool) []cwrite {
	callee := e.a.callee(c)
	com := c.Common()
	if callee == nil {
		if com.IsInvoke() {
			return nil
		}
		return nil
	}
	if len(callee.Blocks) == 0 || !inModule(callee) {
		if pureExternal(callee) {
			return nil
		}
		var out []cwrite
		for _, a := range callArgs(c) {
			if pointerful(a.Type()) {
				p := e.ptrOf(fr, a)
				if p.root != nil {
					out = append(out, cwrite{phys: p})
				}
			}
		}
		return out
	}
	if ptr && e.ptrs[fnName(callee)] != nil {
		return nil
	}
	shapes := map[string]Path{}
	var keys []string
	add := func(p Path) {
		if p.root.kind != 'P' && p.root.kind != 'G' && p.root.kind != 'F' {
			return
		}
		k := p.shape()
		if _, ok := shapes[k]; !ok {
			shapes[k] = p
			keys = append(keys, k)
		}
	}
	s := e.a.summary(callee)
	if ptr {
		for _, x := range s.Ptrs {
			add(x.dst)
		}
	} else {
		for _, x := range sortedAccs(s.Writes) {
			if !x.ptr {
				add(x.path)
			}
		}
	}
	sort.Strings(keys)
	var out []cwrite
	for _, k := range keys {
		p := shapes[k]
		w := cwrite{local: Path{root: p.root}}
		for _, st := range p.steps {
			if st.kind != 'f' {
				h := hole(len(w.vars))
				w.vars = append(w.vars, h)
				st = Step{kind: 'e', lo: linSym(h)}
			}
			w.local.steps = append(w.local.steps, st)
		}
		w.phys = e.mapIn(fr, c, callee, w.local)
		if w.phys.root == nil {
			continue
		}
		out = append(out, w)
	}
	return out
}

func pureExternal(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return fn.Pkg == nil && fn.Object() == nil
	}
	switch fn.Pkg.Pkg.Path() {
	case "math", "math/bits", "math/cmplx", "fmt", "runtime", "errors", "sync", "strconv", "strings":
		return true
	}
	return false
}

// mapIn translates a place of the callee's frame to the caller's, resolving
// references held in the caller's local memory as of the call. The indices in
// q are taken to be final.
func (e *Eng) mapIn(fr *frame, c ssa.CallInstruction, callee *ssa.Function, q Path) Path {
	b := c.Block()
	j := e.index(c)
	switch q.root.kind {
	case 'G':
		return q
	case 'P':
		args := callArgs(c)
		if q.root.idx >= len(args) {
			return Path{root: noRoot}
		}
		return e.reach(fr, b, j, args[q.root.idx], q.steps)
	case 'F':
		mc := fr.fi.closureOf(c)
		if mc == nil || q.root.idx >= len(mc.Bindings) {
			return Path{root: noRoot}
		}
		return e.reach(fr, b, j, mc.Bindings[q.root.idx], q.steps)
	case 'A', 'C':
		v, ok := c.(ssa.Value)
		if !ok {
			return Path{root: noRoot}
		}
		return Path{root: callRoot(v, q.root), steps: append(e.instance(fr, b), q.steps...)}
	}
	return Path{root: noRoot}
}

// reach follows steps from the value v in the state before instruction j.
// A path without root means nothing is there.
func (e *Eng) reach(fr *frame, b *ssa.BasicBlock, j int, v ssa.Value, steps []Step) Path {
	t := types.Unalias(v.Type())
	var cur Path
	var ct types.Type
	i := 0
	if structLike(t) {
		// up to the first reference inside the structure
		ct = t
		for i < len(steps) && structLike(ct) {
			ct = stepType(ct, steps[i])
			i++
		}
		if ct == nil {
			return Path{root: noRoot}
		}
		if isRef(ct) {
			r := e.comp(fr, v, steps[:i], true)
			if r.bot {
				return Path{}
			}
			if r.p == nil || r.p.root.kind == 'U' {
				return Path{root: noRoot}
			}
			cur = *r.p
			ct = refElem(ct)
		} else {
			// the place is inside the value itself
			switch x := v.(type) {
			case *ssa.Parameter:
				cur = e.ptrOf(fr, x)
				for _, s := range steps {
					cur = cur.with(s)
				}
				return cur
			}
			return Path{root: noRoot}
		}
	} else {
		cur = e.ptrOf(fr, v)
		if cur.root == nil {
			return cur
		}
		ct = refElem(t)
	}
	for ; i < len(steps); i++ {
		if cur.root.kind == 'U' {
			if ct == nil || isRef(ct) {
				cur = Path{root: cur.root}
				ct = refElem(ct)
			}
			cur = cur.with(steps[i])
			ct = stepType(ct, steps[i])
			continue
		}
		if ct != nil && isRef(ct) {
			r := e.get(fr, b, j, cur, true)
			if r.bot {
				return Path{}
			}
			cur = *r.p
			ct = refElem(ct)
		}
		cur = cur.with(steps[i])
		ct = stepType(ct, steps[i])
	}
	return cur
}

func isRef(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Slice:
		return true
	}
	return false
}

func refElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		// the elements are reached by an index step
		return types.NewArray(u.Elem(), -1)
	}
	return nil
}

func stepType(t types.Type, s Step) types.Type {
	if t == nil {
		return nil
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s.field || s.field == defaultKey && u.Field(i).Name() == "LWEKey" {
				return u.Field(i).Type()
			}
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		if s.kind == 'r' {
			return t
		}
		return u.Elem()
	case *types.Pointer:
		return stepType(u.Elem(), s)
	}
	return nil
}

// solve finds the value of pattern variable x for which pattern w is r.
// status: 'd' disjoint, 'i' independent of x, 's' solved, '?' unknown.
func (e *Eng) solve(w, r Path, x *Sym, others func(s *Sym) bool) (byte, *Lin) {
	if w.root.kind == 'U' {
		return '?', nil
	}
	if w.root != r.root {
		return 'd', nil
	}
	var sol *Lin
	if len(w.steps) > len(r.steps) {
		return 'd', nil
	}
	for i := range w.steps {
		a, b := w.steps[i], r.steps[i]
		if a.kind == 'f' || b.kind == 'f' {
			if a.kind != b.kind {
				return '?', nil
			}
			if a.field != b.field {
				return 'd', nil
			}
			continue
		}
		if b.kind != 'e' {
			return '?', nil
		}
		if a.kind == 'u' {
			continue
		}
		free := func(l *Lin) bool { return linHas(l, others) }
		if a.kind == 'r' {
			lo := a.lo
			if lo.mentions(x) || a.hi != nil && a.hi.mentions(x) {
				if s := matchTerm(lo, b.lo, x); s != nil {
					if sol != nil && !sol.eq(s) {
						return '?', nil
					}
					sol = s
					continue
				}
				return '?', nil
			}
			if !free(lo) && (a.hi == nil || !free(a.hi)) {
				if e.never(b.lo.sub(lo)) || a.hi != nil && e.never(a.hi.sub(b.lo).addc(-1)) {
					return 'd', nil
				}
			}
			continue
		}
		if a.lo.mentions(x) {
			var s *Lin
			c := int64(0)
			rest := linConst(a.lo.c)
			inOp := false
			for _, t := range a.lo.t {
				if t.s == x {
					c = t.co
				} else {
					rest = rest.addMul(linSym(t.s), t.co)
					inOp = inOp || t.s.mentions(x)
				}
			}
			if c != 0 && !inOp && !free(rest) {
				d := b.lo.sub(rest)
				q, st := exactDiv(d, c)
				if st == 'd' {
					return 'd', nil
				}
				if st == '?' {
					return '?', nil
				}
				s = q
			} else {
				s = matchTerm(a.lo, b.lo, x)
				if s == nil {
					var st byte
					if s, st = e.rowOf(a.lo, b.lo, x, others); st != 's' {
						return st, nil
					}
				}
			}
			if sol != nil && !sol.eq(s) {
				d := sol.sub(s)
				if d.isConst() || e.never(d, d.scale(-1)) {
					return 'd', nil
				}
				return '?', nil
			}
			sol = s
			continue
		}
		if free(a.lo) {
			continue
		}
		d := a.lo.sub(b.lo)
		if d.isConst() && d.c != 0 || !d.isConst() && e.never(d, d.scale(-1)) {
			return 'd', nil
		}
	}
	if sol != nil {
		return 's', sol
	}
	return 'i', nil
}

func linHas(l *Lin, f func(s *Sym) bool) bool {
	for _, t := range l.t {
		if symHas(t.s, f) {
			return true
		}
	}
	return false
}

func symHas(s *Sym, f func(s *Sym) bool) bool {
	if f(s) {
		return true
	}
	for _, a := range s.args {
		if linHas(a, f) {
			return true
		}
	}
	if s.path.root != nil {
		for _, st := range s.path.steps {
			if st.lo != nil && linHas(st.lo, f) || st.hi != nil && linHas(st.hi, f) {
				return true
			}
		}
	}
	return false
}

// exactDiv divides d by c: 's' quotient, 'd' never divisible, '?' not known.
func exactDiv(d *Lin, c int64) (*Lin, byte) {
	q := linConst(0)
	for _, t := range d.t {
		if t.co%c != 0 {
			return nil, '?'
		}
		q = q.addMul(linSym(t.s), t.co/c)
	}
	if d.c%c != 0 {
		return nil, 'd'
	}
	return q.addc(d.c / c), 's'
}

// rowOf finds x from an index x*n + h + c with one other variable h, the
// position in a row of length n.
func (e *Eng) rowOf(w, r *Lin, x *Sym, others func(s *Sym) bool) (*Lin, byte) {
	var n *Lin
	var h *Sym
	rest := linConst(w.c)
	holes := 0
	for _, t := range w.t {
		switch {
		case t.s.kind == 'o' && t.s.op == "*" && len(t.s.args) == 2 && t.co == 1 && n == nil && t.s.mentions(x):
			for i := 0; i < 2; i++ {
				f, m := t.s.args[i], t.s.args[1-i]
				if len(f.t) == 1 && f.t[0].s == x && f.t[0].co == 1 && f.c == 0 && !m.mentions(x) && !linHas(m, others) {
					n = m
				}
			}
			if n == nil {
				return nil, '?'
			}
		case others(t.s) && t.co == 1 && t.s.kind == 'b':
			holes++
			h = t.s
		case t.s.mentions(x) || symHas(t.s, others):
			return nil, '?'
		default:
			rest = rest.addMul(linSym(t.s), t.co)
		}
	}
	if n == nil || holes != 1 {
		return nil, '?'
	}
	if !rest.isConst() && h.loop != nil && h.loop.trip != nil && e.solveSub != nil {
		// the position is at the end of the row instead
		if alt := rest.add(h.loop.trip.subst(e.solveSub)).sub(n); alt.isConst() {
			rest = alt
		}
	}
	d := r.sub(rest)
	if d.isConst() && d.c < 0 || e.never(d) {
		return nil, 'd'
	}
	if d.nonNeg() || e.never(d.scale(-1).addc(-1)) {
		return linOp("/", d, n), 's'
	}
	// rounded down
	return linOp("/", d.add(n), n).addc(-1), 's'
}

// matchTerm finds x from a product term, as in x*N + y against i*N + j.
func matchTerm(w, r *Lin, x *Sym) *Lin {
	for _, t := range w.t {
		if !t.s.mentions(x) {
			continue
		}
		if t.s.kind == 'o' && t.s.op == "*" && len(t.s.args) == 2 {
			for i := 0; i < 2; i++ {
				f, n := t.s.args[i], t.s.args[1-i]
				if !(len(f.t) == 1 && f.t[0].s == x && f.t[0].co == 1 && f.c == 0) || n.mentions(x) {
					continue
				}
				// r must contain co·(something·n)
				sol := linConst(0)
				found := false
				for _, u := range r.t {
					if u.s.kind == 'o' && u.s.op == "*" && len(u.s.args) == 2 && u.co%t.co == 0 {
						for k := 0; k < 2; k++ {
							if u.s.args[k].eq(n) {
								sol = sol.add(u.s.args[1-k].scale(u.co / t.co))
								found = true
								break
							}
						}
					} else if len(n.t) == 1 && n.c == 0 && u.s == n.t[0].s && n.t[0].co == 1 && u.co%t.co == 0 {
						sol = sol.addc(u.co / t.co)
						found = true
					}
				}
				if found {
					return sol
				}
				return nil
			}
		}
	}
	return nil
}

// head reads r at the start of round env[l] of loop l.
func (e *Eng) head(fr *frame, l *Loop, r Path, ptr bool) val {
	kappa, ok := fr.env[l]
	if !ok {
		return vUnk(ptr, "loop round")
	}
	outer := fr.in(e.preOf(l))
	ws := e.overlapping(fr, l, r, ptr)
	if len(ws) == 0 || kappa.isConst() && kappa.c == 0 {
		return e.beforeLoop(outer, l, r, ptr)
	}
	x := patVar(l)
	others := func(s *Sym) bool { return s.kind == 'b' && s.loop != nil && s != x || strings.HasPrefix(s.key, "η") }
	var cands []*Lin
	inv, scan := false, false
	for _, w := range ws {
		if elsewhere(w.p, r) {
			continue
		}
		e.solveSub = fr.sub
		st, k := e.solve(w.p, r, x, others)
		e.solveSub = nil
		switch st {
		case '?':
			if ptr || w.p.root != r.root {
				return vUnk(ptr, fmt.Sprintf("write pattern %s for %s", w.p.key(), r.key()))
			}
			scan = true
		case 'i':
			inv = true
		case 's':
			dup := false
			for _, c := range cands {
				dup = dup || c.eq(k)
			}
			if in, _ := e.roundBefore(fr, l, k, kappa); in == 'n' {
				dup = true
			}
			if !dup {
				cands = append(cands, k)
			}
		}
	}
	roundEnd := func(fr *frame) val { return e.roundEnd(fr, l, r, ptr) }
	before := func() val { return e.beforeLoop(outer, l, r, ptr) }
	if !ptr && (scan || inv && len(cands) > 0) {
		// which round writes the place has no closed form: round by round
		return e.recur(fr, l, kappa, "mem"+r.key(), before, roundEnd)
	}
	if inv {
		if len(cands) > 0 {
			return vUnk(ptr, "mixed write patterns")
		}
		if ptr {
			// the last round's value, or what was there before
			on := "ptr" + fmt.Sprint(l.id) + outer.key() + r.key()
			if e.accOn[on] {
				return val{bot: true}
			}
			e.accOn[on] = true
			v := roundEnd(fr.with(l, kappa.addc(-1)))
			delete(e.accOn, on)
			if v.bot {
				return e.beforeLoop(outer, l, r, ptr)
			}
			return v
		}
		return e.recur(fr, l, kappa, "mem"+r.key(), before, roundEnd)
	}
	// latest round first
	sort.SliceStable(cands, func(i, j int) bool {
		d := cands[i].sub(cands[j])
		return d.isConst() && d.c > 0
	})
	for i := 1; i < len(cands); i++ {
		if !cands[i-1].sub(cands[i]).isConst() {
			if !ptr {
				return e.recur(fr, l, kappa, "mem"+r.key(), before, roundEnd)
			}
			return vUnk(ptr, "several write patterns")
		}
	}
	for _, k := range cands {
		switch in, c := e.roundBefore(fr, l, k, kappa); in {
		case 'n':
			continue
		case 'y':
			return roundEnd(fr.with(l, k))
		case 'c':
			a := roundEnd(fr.with(l, k))
			z := e.beforeLoop(outer, l, r, ptr)
			if len(cands) > 1 {
				if !ptr {
					return e.recur(fr, l, kappa, "mem"+r.key(), before, roundEnd)
				}
				return vUnk(ptr, "several write patterns")
			}
			if ptr {
				if a.bot {
					return z
				}
				if z.bot || same(a, z) {
					return a
				}
				return vUnk(ptr, "reference depends on an index")
			}
			if a.e == nil || z.e == nil {
				return vUnk(ptr, "value")
			}
			return val{e: xIte(c, a.e, z.e)}
		default:
			return vUnk(ptr, "order of rounds")
		}
	}
	return e.beforeLoop(outer, l, r, ptr)
}

// roundEnd reads r at the end of a round of l.
func (e *Eng) roundEnd(fr *frame, l *Loop, r Path, ptr bool) val {
	return e.atLatch(fr, l, ptr, func(p *ssa.BasicBlock) val { return e.edge(fr, p, l.header, r, ptr) })
}

// atLatch merges what leaf gives for the back edges of l.
func (e *Eng) atLatch(fr *frame, l *Loop, ptr bool, leaf func(p *ssa.BasicBlock) val) val {
	if len(l.latches) == 1 {
		return leaf(l.latches[0])
	}
	for _, s := range l.header.Succs {
		if l.blocks[s] {
			return e.walk(fr, s, l.header, ptr, leaf, map[*ssa.BasicBlock]val{}, map[*ssa.BasicBlock]bool{})
		}
	}
	return vUnk(ptr, "loop")
}

// roundBefore: is k one of the rounds 0 .. kappa-1? 'y' yes, 'n' no, 'c' under
// the condition returned.
func (e *Eng) roundBefore(fr *frame, l *Loop, k, kappa *Lin) (byte, *Expr) {
	below := kappa.sub(k).addc(-1) // >= 0 when k < kappa
	if e.never(below) || e.never(k) {
		return 'n', nil
	}
	lo := k.nonNeg() || e.never(k.scale(-1).addc(-1))
	hi := below.nonNeg() || e.never(below.scale(-1).addc(-1))
	if lo && hi {
		return 'y', nil
	}
	cond := xConst(1)
	if !lo {
		cond = cond.mul(xConst(1).sub(xCmp("<", fromLin(k), xConst(0))))
	}
	if !hi {
		if lo && e.wholeTrip(fr, l, k, kappa) {
			return 'y', nil
		}
		cond = cond.mul(xCmp("<", fromLin(k), fromLin(kappa)))
	}
	return 'c', cond
}

// wholeTrip: kappa is the loop's whole number of rounds, a length or dimension
// that is not comparable with the known bounds of k: an index in range of the
// data is taken to be in range of the loop.
func (e *Eng) wholeTrip(fr *frame, l *Loop, k, kappa *Lin) bool {
	if e.strict {
		return false
	}
	if l.trip == nil || !l.trip.subst(fr.sub).eq(kappa) {
		return false
	}
	if len(kappa.t) == 0 {
		return false
	}
	for _, t := range kappa.t {
		if t.s.kind == 'b' {
			return false
		}
	}
	// a known bound of k that differs from the trip count by a constant would
	// have decided the matter one way or the other, or is a real difference
	for _, f := range e.facts {
		// f = bound - k - 1 >= 0
		b := f.add(k).addc(1)
		if d := b.sub(kappa); d.isConst() && !linHas(b, func(s *Sym) bool { return s.kind == 'b' }) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Calls
// ---------------------------------------------------------------------------

func (e *Eng) callEffect(fr *frame, b *ssa.BasicBlock, j int, c *ssa.Call, r Path, ptr bool) (val, bool) {
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			return e.copyEffect(fr, b, j, c, r, ptr)
		case "clear":
			w := e.ptrOf(fr, c.Call.Args[0])
			if w.root == nil {
				return val{}, false
			}
			if in, _, cond, ok := e.inView(w, r); ok {
				if !in {
					return val{}, false
				}
				return e.under(fr, b, j, r, ptr, cond, zeroVal(ptr)), true
			}
			return vUnk(ptr, "clear"), true
		case "append":
			if r.root.kind == 'C' && r.root.v == ssa.Value(c) && e.sameInst(fr, b, r) {
				return e.appended(fr, b, j, c, r, ptr), true
			}
		}
		return val{}, false
	}
	if r.root.kind == 'C' && r.root.v == ssa.Value(c) && e.sameInst(fr, b, r) {
		return e.fromResult(fr, b, j, c, r, ptr), true
	}
	callee := e.a.callee(c)
	if callee == nil {
		if c.Call.IsInvoke() {
			return val{}, false
		}
		return val{}, false
	}
	var news []val
	var conds []*Expr
	for _, w := range e.calleeWrites(fr, c, ptr) {
		if !mayOverlap(w.phys, r) {
			continue
		}
		if w.local.root == nil {
			return vUnk(ptr, "external call "+callee.Name()), true
		}
		sol := map[*Sym]*Lin{}
		st, cond := e.solveAll(w.phys, r, w.vars, sol)
		if st == 'd' {
			continue
		}
		if st == '?' {
			return vUnk(ptr, "call writes "+w.phys.key()+" against "+r.key()), true
		}
		if e.strict && len(w.vars) > 0 && e.intr[fnName(callee)] != nil {
			// what a summary says of a vector ends with the vector
			in, up := e.inArg(fr, c, w, sol)
			if !in {
				continue
			}
			if up != nil {
				cond = andCond(cond, up)
			}
		}
		q := w.local.substIdx(func(s *Sym) *Lin { return sol[s] })
		for _, s := range r.steps[len(w.phys.steps):] {
			q = q.with(s)
		}
		back := map[*Sym]*Lin{}
		q.steps = e.enter(q.steps, back)
		v := e.calleeExit(callee, q, ptr)
		if !v.bot && (!ptr && v.e == xMem(q) || ptr && v.p != nil && v.p.key() == q.key()) {
			continue // left alone
		}
		if !v.bot {
			v = e.inst(fr, b, j, c, callee, v, back)
		}
		if cond == nil {
			return v, true
		}
		news = append(news, v)
		conds = append(conds, cond)
	}
	if len(news) > 0 {
		// writes to one place only each, told apart by an index
		v := e.get(fr, b, j, r, ptr)
		for i := range news {
			n := news[i]
			switch {
			case v.bot:
				v = n
			case n.bot || same(n, v):
			case ptr || n.e == nil || v.e == nil:
				return vUnk(ptr, "reference depends on an index"), true
			default:
				v = val{e: xIte(conds[i], n.e, v.e)}
			}
		}
		return v, true
	}
	return val{}, false
}

// enter replaces what the indices in steps say in the caller's terms by
// symbols the callee knows nothing about; back undoes it.
// inArg: is the place inside the slice that is the argument?
func (e *Eng) inArg(fr *frame, c *ssa.Call, w cwrite, sol map[*Sym]*Lin) (in bool, cond *Expr) {
	if w.local.root.kind != 'P' || w.local.steps[0].kind != 'e' {
		return true, nil
	}
	args := callArgs(c)
	if w.local.root.idx >= len(args) {
		return true, nil
	}
	p := e.ptrOf(fr, args[w.local.root.idx])
	if p.root == nil || len(p.steps) == 0 {
		return true, nil
	}
	st := p.steps[len(p.steps)-1]
	s := sol[w.vars[0]]
	if st.kind != 'r' || st.hi == nil || s == nil {
		return true, nil
	}
	d := st.hi.sub(st.lo).addc(-1).sub(s)
	switch {
	case e.never(d):
		return false, nil
	case d.nonNeg() || e.never(d.scale(-1).addc(-1)):
		return true, nil
	}
	return true, xConst(1).sub(xCmp("<", fromLin(d), xConst(0)))
}

func (e *Eng) enter(steps []Step, back map[*Sym]*Lin) []Step {
	out := make([]Step, len(steps))
	for i, s := range steps {
		s.lo = enterLin(s.lo, back)
		s.hi = enterLin(s.hi, back)
		out[i] = s
	}
	return out
}

func enterLin(l *Lin, back map[*Sym]*Lin) *Lin {
	if l == nil || !linHas(l, frameSym) {
		return l
	}
	keep := linConst(l.c)
	hide := linConst(0)
	for _, t := range l.t {
		if symHas(t.s, frameSym) {
			hide = hide.addMul(linSym(t.s), t.co)
		} else {
			keep = keep.addMul(linSym(t.s), t.co)
		}
	}
	nn := ""
	if hide.nonNegIdx() {
		nn = "nn"
	}
	x := internSym(&Sym{key: "χ(" + hide.key() + ")", kind: 'b', op: nn})
	back[x] = hide
	return keep.add(linSym(x))
}

// frameSym: the symbol means something in one function only.
func frameSym(s *Sym) bool {
	return (s.kind == 'p' || s.kind == 'l') && s.path.root.kind != 'G'
}

// apart evaluates f with the facts that hold in every frame.
func (e *Eng) apart(f func() val) val {
	facts, bd := e.facts, bound
	keep := func(in []*Lin) []*Lin {
		var out []*Lin
		for _, l := range in {
			if !linHas(l, frameSym) {
				out = append(out, l)
			}
		}
		return out
	}
	e.facts, bound = keep(facts), keep(bound)
	v := f()
	e.facts, bound = facts, bd
	return v
}

// appended reads what append put into a new object.
func (e *Eng) appended(fr *frame, b *ssa.BasicBlock, j int, c *ssa.Call, r Path, ptr bool) val {
	n := len(e.instance(fr, b))
	if !isNilConst(c.Call.Args[0]) || len(r.steps) <= n || r.steps[n].kind != 'e' {
		return vUnk(ptr, "append")
	}
	src := e.ptrOf(fr, c.Call.Args[1])
	if src.root == nil {
		return zeroVal(ptr)
	}
	if src.root.kind == 'U' {
		return vUnk(ptr, "append of an unresolved place")
	}
	p := src.all()
	for _, s := range r.steps[n:] {
		p = p.with(s)
	}
	return e.get(fr, b, j, p, ptr)
}

// isNilConst: nil, or a slice without elements.
func isNilConst(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	case *ssa.Slice:
		c, ok := x.High.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	case *ssa.Const:
		return x.Value == nil
	case *ssa.ChangeType:
		return isNilConst(x.X)
	}
	return false
}

// solveAll solves every hole of the pattern; cond tells when an index the
// pattern fixes is the one asked for (nil: always).
func (e *Eng) solveAll(w, r Path, vars []*Sym, sol map[*Sym]*Lin) (st byte, cond *Expr) {
	if w.root.kind == 'U' {
		return '?', nil
	}
	if w.root != r.root {
		return 'd', nil
	}
	if len(w.steps) > len(r.steps) {
		return 'd', nil
	}
	for i := range w.steps {
		a, b := w.steps[i], r.steps[i]
		if a.kind == 'f' || b.kind == 'f' {
			if a.kind != b.kind {
				return '?', nil
			}
			if a.field != b.field {
				return 'd', nil
			}
			continue
		}
		if a.kind != 'e' || b.kind != 'e' {
			return '?', nil
		}
		var h *Sym
		rest := linConst(a.lo.c)
		for _, t := range a.lo.t {
			isHole := false
			for _, v := range vars {
				if t.s == v && t.co == 1 {
					isHole = true
					h = v
				}
			}
			if !isHole {
				rest = rest.addMul(linSym(t.s), t.co)
			}
		}
		if h == nil {
			d := rest.sub(b.lo)
			if d.isConst() && d.c == 0 {
				continue
			}
			if d.isConst() || e.never(d, d.scale(-1)) {
				return 'd', nil
			}
			if linHas(d, func(s *Sym) bool { return strings.HasPrefix(s.key, "η") || s.kind == 'b' && s.loop != nil }) {
				return '?', nil
			}
			cond = andCond(cond, xCmp("==", fromLin(rest), fromLin(b.lo)))
			continue
		}
		s := b.lo.sub(rest)
		if o := sol[h]; o != nil && !o.eq(s) {
			d := o.sub(s)
			if d.isConst() || e.never(d, d.scale(-1)) {
				return 'd', nil
			}
			return '?', nil
		}
		if s.isConst() && s.c < 0 || e.never(s) {
			return 'd', nil
		}
		if e.strict && !s.nonNeg() && !e.never(s.scale(-1).addc(-1)) {
			cond = andCond(cond, xConst(1).sub(xCmp("<", fromLin(s), xConst(0))))
		}
		sol[h] = s
	}
	for _, v := range vars {
		if sol[v] == nil {
			return '?', nil
		}
	}
	return 's', cond
}

// calleeExit is what the callee leaves at q, in its own frame.
func (e *Eng) calleeExit(fn *ssa.Function, q Path, ptr bool) val {
	if f := e.intr[fnName(fn)]; f != nil && !ptr {
		if x := f(e, fn, q); x != nil {
			return val{e: x}
		}
		return val{e: xMem(q)}
	}
	if ptr && e.ptrs[fnName(fn)] != nil {
		return val{p: &q}
	}
	key := fmt.Sprintf("exit|%v|%d|%s", ptr, vid(fn), q.key())
	if v, ok := e.memo[key]; ok {
		return v
	}
	if e.busy[key] {
		return vUnk(ptr, "recursion")
	}
	e.busy[key] = true
	v := e.apart(func() val { return e.atExit(fn, q, ptr) })
	delete(e.busy, key)
	e.memo[key] = v
	return v
}

// inst carries a value of the callee's frame over to the caller's, before
// instruction j.
func (e *Eng) inst(fr *frame, b *ssa.BasicBlock, j int, c ssa.CallInstruction, callee *ssa.Function, v val, back map[*Sym]*Lin) val {
	if v.bot {
		return v
	}
	cs := fr.fi.callSubst(c, callee)
	fs := func(s *Sym) *Lin {
		if l := back[s]; l != nil {
			return l
		}
		l := cs(s)
		if l == nil {
			return nil
		}
		return l.subst(fr.sub)
	}
	if v.p != nil {
		if v.p.root.kind == 'U' {
			return v
		}
		p := e.mapIn(fr, c, callee, v.p.substIdx(fs))
		if p.root == nil {
			return val{bot: true}
		}
		return val{p: &p}
	}
	x := v.e.subst(fs, func(a *Atom) *Expr {
		if a.kind == 'N' {
			if a.path.root == nil {
				args := a.args
				for _, s := range e.instance(fr, b) {
					args = append(append([]*Expr(nil), args...), xOp("round", fromLin(s.lo)))
				}
				return xNoise(a.op, a.path, args...)
			}
			if a.op == "apply" {
				if as := callArgs(c); a.path.root.kind == 'P' && a.path.root.idx < len(as) {
					for i, q := range fr.fi.fn.Params {
						if as[a.path.root.idx] == ssa.Value(q) {
							return xNoise(a.op, Path{root: paramRoot(i)}, a.args...)
						}
					}
				}
				return xUnknown("function argument")
			}
			p := e.mapIn(fr, c, callee, a.path)
			if p.root == nil || p.root.kind == 'U' {
				return xUnknown("place of a sample")
			}
			args := a.args
			// drawn anew in every round around the call
			for _, s := range e.instance(fr, b) {
				args = append(append([]*Expr(nil), args...), xOp("round", fromLin(s.lo)))
			}
			return xNoise(a.op, p, args...)
		}
		if a.kind != 'm' {
			return nil
		}
		return e.argMem(fr, b, j, c, callee, a.path)
	})
	return val{e: x}
}

// argMem is the content, before the call, of a place of the callee's frame.
func (e *Eng) argMem(fr *frame, b *ssa.BasicBlock, j int, c ssa.CallInstruction, callee *ssa.Function, q Path) *Expr {
	switch q.root.kind {
	case 'P':
		args := callArgs(c)
		if q.root.idx >= len(args) {
			return xUnknown("argument")
		}
		a := args[q.root.idx]
		if len(q.steps) == 0 {
			return e.eval(fr, a)
		}
		if structLike(a.Type()) {
			ct := types.Type(a.Type())
			i := 0
			for i < len(q.steps) && structLike(ct) {
				ct = stepType(ct, q.steps[i])
				i++
				if ct == nil {
					return xUnknown("argument")
				}
			}
			if i == len(q.steps) {
				v := e.comp(fr, a, q.steps, false)
				if v.e == nil {
					return xUnknown("argument")
				}
				return v.e
			}
		}
	case 'G', 'F':
	default:
		return xUnknown("local memory of the callee")
	}
	p := e.mapIn(fr, c, callee, q)
	if p.root == nil {
		return xConst(0)
	}
	v := e.get(fr, b, j, p, false)
	if v.e == nil {
		if v.bot {
			return xConst(0)
		}
		return xUnknown("argument")
	}
	return v.e
}

// fromResult reads memory that belongs to the result of call c.
func (e *Eng) fromResult(fr *frame, b *ssa.BasicBlock, j int, c *ssa.Call, r Path, ptr bool) val {
	callee := e.a.callee(c)
	if callee == nil || r.root.inner == nil {
		if callee != nil && pureExternal(callee) {
			return vUnk(ptr, "external result")
		}
		return vUnk(ptr, "result of an external call")
	}
	n := len(e.instance(fr, b))
	back := map[*Sym]*Lin{}
	q := Path{root: r.root.inner, steps: e.enter(r.steps[n:], back)}
	v := e.calleeExit(callee, q, ptr)
	if v.bot {
		return v
	}
	return e.inst(fr, b, j, c, callee, v, back)
}

// result is the component of a call's idx-th result.
func (e *Eng) result(fr *frame, c *ssa.Call, idx int, steps []Step, ptr bool) val {
	b := c.Block()
	fr = e.defFrame(fr, c, b)
	if fr == nil {
		return vUnk(ptr, "value from a loop that ended")
	}
	j := e.index(c)
	callee := e.a.callee(c)
	if callee == nil || len(callee.Blocks) == 0 || !inModule(callee) {
		return vUnk(ptr, "result of an external call")
	}
	back := map[*Sym]*Lin{}
	steps = e.enter(steps, back)
	if f := e.ptrs[fnName(callee)]; f != nil && ptr {
		p := f(callee)
		for _, s := range steps {
			p = p.with(s)
		}
		return e.inst(fr, b, j, c, callee, val{p: &p}, back)
	}
	v := e.retComp(callee, idx, steps, ptr)
	return e.inst(fr, b, j, c, callee, v, back)
}

// retComp is the component of a function's result, in its own frame.
func (e *Eng) retComp(fn *ssa.Function, idx int, steps []Step, ptr bool) val {
	key := fmt.Sprintf("ret|%v|%d|%d|%s", ptr, vid(fn), idx, stepsKey(steps))
	if v, ok := e.memo[key]; ok {
		return v
	}
	if e.busy[key] {
		return vUnk(ptr, "recursion")
	}
	e.busy[key] = true
	e.nFuncs[fn] = true
	fr := &frame{fi: e.a.fnInfo(fn), env: map[*Loop]*Lin{}}
	v := e.apart(func() val {
		return e.exits(fr, ptr, func(b *ssa.BasicBlock) val {
			ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if idx >= len(ret.Results) {
				return vUnk(ptr, "result")
			}
			return e.comp(fr, ret.Results[idx], steps, ptr)
		})
	})
	delete(e.busy, key)
	e.memo[key] = v
	return v
}

// inView: r lies in the view w. rest are the steps of r from the element on,
// relative to the view's start.
func (e *Eng) inView(w, r Path) (in bool, rest []Step, cond *Expr, ok bool) {
	if w.root.kind == 'U' {
		return false, nil, nil, false
	}
	v := w.all()
	n := len(v.steps) - 1
	pre := Path{root: w.root, steps: v.steps[:n]}
	if len(r.steps) <= n {
		return false, nil, nil, w.root != r.root
	}
	dis, _, unk, c := e.rel(pre, r)
	if dis {
		return false, nil, nil, true
	}
	if unk || r.steps[n].kind != 'e' {
		return false, nil, nil, false
	}
	view := v.steps[n]
	off := r.steps[n].lo.sub(view.lo)
	if e.never(off) {
		return false, nil, nil, true
	}
	if !off.nonNeg() && !e.never(off.scale(-1).addc(-1)) {
		k := xConst(1).sub(xCmp("<", fromLin(off), xConst(0)))
		c = andCond(c, k)
	}
	if view.hi != nil {
		d := view.hi.sub(r.steps[n].lo).addc(-1)
		if e.never(d) {
			return false, nil, nil, true
		}
		if !d.nonNeg() && !e.never(d.scale(-1).addc(-1)) && e.comparable(view.hi, r.steps[n].lo) {
			c = andCond(c, xCmp("<", fromLin(r.steps[n].lo), fromLin(view.hi)))
		}
	}
	return true, append([]Step{{kind: 'e', lo: off}}, r.steps[n+1:]...), c, true
}

func andCond(a, b *Expr) *Expr {
	if a == nil {
		return b
	}
	return a.mul(b)
}

// comparable: some fact bounds k by something that differs from n by a
// constant, so that being unable to decide k < n is a real difference.
func (e *Eng) comparable(n, k *Lin) bool {
	for _, f := range e.facts {
		if d := f.add(k).addc(1).sub(n); d.isConst() {
			return true
		}
	}
	return n.isConst() || k.isConst()
}

func (e *Eng) copyEffect(fr *frame, b *ssa.BasicBlock, j int, c *ssa.Call, r Path, ptr bool) (val, bool) {
	et := elemType(c.Call.Args[0].Type())
	if et != nil && !structLike(et) && pointerful(et) != ptr {
		return val{}, false
	}
	w := e.ptrOf(fr, c.Call.Args[0])
	if w.root == nil {
		return val{}, false
	}
	in, rest, cond, ok := e.inView(w, r)
	if !ok {
		return vUnk(ptr, "copy"), true
	}
	if !in {
		return val{}, false
	}
	src := e.ptrOf(fr, c.Call.Args[1])
	if src.root == nil {
		return val{}, false
	}
	if src.root.kind == 'U' {
		return vUnk(ptr, "copy from an unresolved place"), true
	}
	// a shorter source limits the copy
	if st := src.all().steps; len(st) > 0 {
		last := st[len(st)-1]
		if last.hi != nil {
			n := last.hi.sub(last.lo)
			d := n.sub(rest[0].lo).addc(-1)
			if e.never(d) {
				return val{}, false
			}
			if !d.nonNeg() && !e.never(d.scale(-1).addc(-1)) && e.comparable(n, rest[0].lo) {
				cond = andCond(cond, xCmp("<", fromLin(rest[0].lo), fromLin(n)))
			}
		}
	}
	p := src.all()
	for _, s := range rest {
		p = p.with(s)
	}
	v := e.get(fr, b, j, p, ptr)
	return e.under(fr, b, j, r, ptr, cond, v), true
}

// ---------------------------------------------------------------------------
// References and scalars
// ---------------------------------------------------------------------------

// ptrOf is the place a reference refers to (for a slice: the viewed elements).
// The zero Path stands for nil.
func (e *Eng) ptrOf(fr *frame, v ssa.Value) Path {
	key := fmt.Sprintf("ptr|%s|%d", fr.key(), vid(v))
	if x, ok := e.memo[key]; ok {
		return *x.p
	}
	if e.busy[key] {
		return Path{root: noRoot}
	}
	e.busy[key] = true
	p := e.ptrOf1(fr, v)
	delete(e.busy, key)
	if len(e.accOn) == 0 {
		e.memo[key] = val{p: &p}
	}
	return p
}

func (e *Eng) ptrOf1(fr *frame, v ssa.Value) Path {
	none := Path{root: noRoot}
	if b := e.blockOf(v); b != nil {
		fr = e.defFrame(fr, v, b)
		if fr == nil {
			return none
		}
	}
	step := func(base ssa.Value, s Step) Path {
		p := e.ptrOf(fr, base)
		if p.root == nil || p.root.kind == 'U' {
			return none
		}
		return p.with(s)
	}
	fromVal := func(x val) Path {
		if x.bot {
			return Path{}
		}
		if x.p == nil {
			return none
		}
		return *x.p
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fr.fi.fn.Params {
			if p == x {
				return Path{root: paramRoot(i)}
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fi.fn.FreeVars {
			if p == x {
				return Path{root: freeRoot(i)}
			}
		}
	case *ssa.Alloc, *ssa.MakeSlice:
		return Path{root: allocRoot(v), steps: e.instance(fr, e.blockOf(v))}
	case *ssa.Global:
		return Path{root: globalRoot(x)}
	case *ssa.FieldAddr:
		return step(x.X, Step{kind: 'f', field: fieldName(x.X.Type(), x.Field)})
	case *ssa.IndexAddr:
		return step(x.X, Step{kind: 'e', lo: fr.lin(x.Index)})
	case *ssa.UnOp:
		if x.Op == token.MUL && isRef(x.Type()) {
			p := e.ptrOf(fr, x.X)
			if p.root == nil {
				return p
			}
			return fromVal(e.get(fr, x.Block(), e.index(x), p, true))
		}
	case *ssa.Field:
		return fromVal(e.comp(fr, x.X, []Step{{kind: 'f', field: fieldName(x.X.Type(), x.Field)}}, true))
	case *ssa.Index:
		return fromVal(e.comp(fr, x.X, []Step{{kind: 'e', lo: fr.lin(x.Index)}}, true))
	case *ssa.Slice:
		p := e.ptrOf(fr, x.X)
		if p.root == nil || p.root.kind == 'U' {
			return p
		}
		if x.Low == nil && x.High == nil {
			return p
		}
		lo := linConst(0)
		var hi *Lin
		if x.Low != nil {
			lo = fr.lin(x.Low)
		}
		if x.High != nil {
			hi = fr.lin(x.High)
		}
		return p.with(Step{kind: 'r', lo: lo, hi: hi})
	case *ssa.Phi:
		return fromVal(e.phi(fr, x, true, func(fr *frame, v ssa.Value) val {
			p := e.ptrOf(fr, v)
			if p.root == nil {
				return val{bot: true}
			}
			return val{p: &p}
		}))
	case *ssa.ChangeType:
		return e.ptrOf(fr, x.X)
	case *ssa.MultiConvert:
		return e.ptrOf(fr, x.X)
	case *ssa.Convert:
		p := e.ptrOf(fr, x.X)
		if p.root == nil || p.root.kind == 'U' {
			return p
		}
		if pt, ok := types.Unalias(x.Type()).Underlying().(*types.Pointer); ok {
			return fr.fi.castPath(p, types.Unalias(pt.Elem()))
		}
		return p
	case *ssa.MakeInterface:
		return e.ptrOf(fr, x.X)
	case *ssa.TypeAssert:
		return e.ptrOf(fr, x.X)
	case *ssa.SliceToArrayPointer:
		return e.ptrOf(fr, x.X)
	case *ssa.Const:
		return Path{}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fromVal(e.result(fr, c, x.Index, nil, true))
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return e.ptrOf(fr, ta.X)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "Add":
				p := e.ptrOf(fr, x.Call.Args[0])
				if p.root == nil || p.root.kind == 'U' {
					return none
				}
				off := fr.lin(x.Call.Args[1])
				n := len(p.steps)
				st := append([]Step(nil), p.steps...)
				if n > 0 && st[n-1].kind == 'b' {
					st[n-1].lo = st[n-1].lo.add(off)
				} else {
					st = append(st, Step{kind: 'b', field: "#", lo: off})
				}
				return Path{root: p.root, steps: st}
			case "SliceData":
				return e.ptrOf(fr, x.Call.Args[0]).with(Step{kind: 'e', lo: linConst(0)})
			case "append":
				if isNilConst(x.Call.Args[0]) {
					return Path{root: callRoot(x, nil), steps: e.instance(fr, x.Block())}
				}
			}
			return none
		}
		return fromVal(e.result(fr, x, 0, nil, true))
	}
	return none
}

// eval is the number (or truth value) of a scalar.
func (e *Eng) eval(fr *frame, v ssa.Value) *Expr {
	if e.steps++; e.steps > e.budget {
		return xUnknown("budget")
	}
	key := fmt.Sprintf("ev|%s|%d", fr.key(), vid(v))
	if x, ok := e.memo[key]; ok {
		return x.e
	}
	if e.busy[key] {
		return xUnknown("cycle")
	}
	e.busy[key] = true
	x := e.eval1(fr, v)
	delete(e.busy, key)
	e.memo[key] = val{e: x}
	return x
}

func (e *Eng) eval1(fr *frame, v ssa.Value) *Expr {
	if b := e.blockOf(v); b != nil {
		fr = e.defFrame(fr, v, b)
		if fr == nil {
			return xUnknown("value from a loop that ended")
		}
	}
	scalar := func(x val) *Expr {
		if x.e == nil {
			return xUnknown("value")
		}
		return x.e
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return xConst(0)
		}
		switch x.Value.Kind() {
		case constant.Int:
			if c, ok := constant.Int64Val(x.Value); ok {
				return xConst(c)
			}
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return xConst(1)
			}
			return xConst(0)
		case constant.Float:
			if c, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return xConst(c)
			}
		}
		k := x.Value.ExactString()
		return xAtom(internAtom("c"+k, func() *Atom { return &Atom{kind: 'c', op: k} }))
	case *ssa.Parameter:
		for i, p := range fr.fi.fn.Params {
			if p == x {
				return xMem(Path{root: paramRoot(i)})
			}
		}
	case *ssa.Phi:
		if iv := fr.fi.ivs[x]; iv != nil {
			k, ok := fr.env[iv.loop]
			if !ok {
				return xUnknown("loop round")
			}
			return e.eval(fr, iv.init).add(fromLin(k.scale(iv.step)))
		}
		return scalar(e.phi(fr, x, false, func(fr *frame, v ssa.Value) val { return val{e: e.eval(fr, v)} }))
	case *ssa.BinOp:
		return e.binop(fr, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := e.ptrOf(fr, x.X)
			if p.root == nil {
				return xUnknown("nil")
			}
			return scalar(e.get(fr, x.Block(), e.index(x), p, false))
		case token.SUB:
			return e.eval(fr, x.X).scale(-1)
		case token.NOT:
			return xConst(1).sub(e.eval(fr, x.X))
		case token.XOR:
			return e.eval(fr, x.X).scale(-1).addc(-1)
		}
	case *ssa.Convert:
		return e.convert(fr, x.X, x.Type())
	case *ssa.MultiConvert:
		return e.convert(fr, x.X, x.Type())
	case *ssa.ChangeType:
		return e.eval(fr, x.X)
	case *ssa.Field, *ssa.Index:
		switch y := v.(type) {
		case *ssa.Field:
			return scalar(e.comp(fr, y.X, []Step{{kind: 'f', field: fieldName(y.X.Type(), y.Field)}}, false))
		case *ssa.Index:
			return scalar(e.comp(fr, y.X, []Step{{kind: 'e', lo: fr.lin(y.Index)}}, false))
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return e.callScalar(fr, t, x.Index)
		case *ssa.TypeAssert:
			if x.Index == 1 {
				return e.typeTest(t)
			}
			return e.eval(fr, t.X)
		}
	case *ssa.TypeAssert:
		return e.eval(fr, x.X)
	case *ssa.MakeInterface:
		if isScalar(x.X.Type()) {
			return e.eval(fr, x.X)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len":
				l := fr.lin(x)
				if len(l.t) == 1 && l.t[0].s.kind == 'v' {
					return xUnknown("length")
				}
				return fromLin(l)
			case "min", "max":
				var args []*Expr
				for _, a := range x.Call.Args {
					args = append(args, e.eval(fr, a))
				}
				return xOp(bi.Name(), args...)
			case "Sizeof":
				return xConst(e.sizeOf(x.Call.Args[0].Type()))
			case "real", "imag", "complex":
				var args []*Expr
				for _, a := range x.Call.Args {
					args = append(args, e.eval(fr, a))
				}
				return xOp(bi.Name(), args...)
			}
			return xUnknown("builtin " + bi.Name())
		}
		return e.callScalar(fr, x, 0)
	}
	return xUnknown(fmt.Sprintf("%T", v))
}

func (e *Expr) addc(c int64) *Expr { return e.add(xConst(c)) }

func (e *Eng) sizeOf(t types.Type) int64 {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		if e.T == "uint32" {
			return 4
		}
		return 8
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float64, types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
			return 8
		case types.Complex128:
			return 16
		case types.Float32, types.Int32, types.Uint32:
			return 4
		case types.Int16, types.Uint16:
			return 2
		}
		return 1
	}
	return 0
}

// typeTest decides v.(type) tests on the type parameter.
func (e *Eng) typeTest(t *ssa.TypeAssert) *Expr {
	mi, ok := t.X.(*ssa.MakeInterface)
	if !ok {
		return xUnknown("type test")
	}
	src := types.Unalias(mi.X.Type())
	want := types.Unalias(t.AssertedType)
	name := func(t types.Type) string {
		if _, ok := t.(*types.TypeParam); ok {
			return e.T
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		if s, ok := t.(*types.Slice); ok {
			if _, ok := types.Unalias(s.Elem()).(*types.TypeParam); ok {
				return "[]" + e.T
			}
			if b, ok := types.Unalias(s.Elem()).(*types.Basic); ok {
				return "[]" + b.Name()
			}
		}
		return ""
	}
	a, b := name(src), name(want)
	if a == "" || b == "" {
		return xUnknown("type test")
	}
	if a == b {
		return xConst(1)
	}
	return xConst(0)
}

func kindOf(t types.Type) byte {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return 'T'
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return 'i'
		case b.Info()&types.IsFloat != 0:
			return 'f'
		case b.Info()&types.IsComplex != 0:
			return 'z'
		case b.Info()&types.IsBoolean != 0:
			return 'b'
		}
	}
	return '?'
}

func isSigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (e *Eng) convert(fr *frame, v ssa.Value, to types.Type) *Expr {
	x := e.eval(fr, v)
	from := v.Type()
	a, b := kindOf(from), kindOf(to)
	intLike := func(k byte) bool { return k == 'i' || k == 'T' }
	if c, ok := x.constant(); ok && (intLike(b) || b == 'f' || b == 'z') {
		if intLike(b) && (c < 0 || e.sizeOf(to) < 8 && c >= int64(1)<<uint(8*e.sizeOf(to)-1)) {
			return xOp("conv:"+e.tname(to), x)
		}
		return x
	}
	switch {
	case intLike(a) && intLike(b):
		// machine words: same size, or widening of an unsigned
		sa, sb := e.sizeOf(from), e.sizeOf(to)
		if sb == sa || sb > sa && !(a == 'i' && isSigned(from)) {
			// the signed view of a word differs from the word in comparisons and
			// conversions to float only
			if b == 'i' && isSigned(to) && sb == sa && a == 'T' {
				return xOp("signed", x)
			}
			return x
		}
		if sb > sa {
			return x
		}
		return xOp("conv:"+e.tname(to), x)
	case a == 'f' && b == 'f', a == 'b' && b == 'b', a == 'z' && b == 'z':
		return x
	case intLike(a) && b == 'f':
		return xOp("float", x)
	case a == 'f' && intLike(b):
		if n, d := roundedRatio(x); n != nil {
			return xOp("divround", n, d)
		}
		return xOp("int:"+e.tname(to), x)
	}
	return xUnknown("conversion")
}

// roundedRatio: x is math.Round(float(n) / float(d))
func roundedRatio(x *Expr) (n, d *Expr) {
	one := func(y *Expr, op string) *Expr {
		if len(y.ms) == 1 && y.ms[0].co == 1 && len(y.ms[0].as) == 1 && y.ms[0].as[0].kind == 'o' && y.ms[0].as[0].op == op {
			return y.ms[0].as[0].args[0]
		}
		return nil
	}
	word := func(y *Expr) *Expr {
		if s := one(y, "signed"); s != nil {
			return s
		}
		return y
	}
	r := one(x, "math.Round")
	if r == nil || len(r.ms) != 1 || r.ms[0].co != 1 || len(r.ms[0].as) != 2 {
		return nil, nil
	}
	for _, at := range r.ms[0].as {
		if at.kind != 'o' {
			return nil, nil
		}
		switch at.op {
		case "float":
			n = word(at.args[0])
		case "inv":
			if f := one(at.args[0], "float"); f != nil {
				d = word(f)
			}
		}
	}
	if n == nil || d == nil {
		return nil, nil
	}
	return n, d
}

func (e *Eng) tname(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return e.T
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Name() {
		case "int":
			return "int64"
		case "uint", "uintptr":
			return "uint64"
		}
		return b.Name()
	}
	return t.String()
}

func (e *Eng) binop(fr *frame, x *ssa.BinOp) *Expr {
	a, b := e.eval(fr, x.X), e.eval(fr, x.Y)
	fl := kindOf(x.X.Type()) == 'f' || kindOf(x.X.Type()) == 'z'
	switch x.Op {
	case token.ADD:
		return a.add(b)
	case token.SUB:
		return a.sub(b)
	case token.MUL:
		return a.mul(b)
	case token.SHL:
		return xShl(a, b)
	case token.EQL, token.NEQ, token.LSS:
		return xCmp(x.Op.String(), a, b)
	case token.GTR:
		return xCmp("<", b, a)
	case token.LEQ:
		return xConst(1).sub(xCmp("<", b, a))
	case token.GEQ:
		return xConst(1).sub(xCmp("<", a, b))
	case token.QUO:
		if fl {
			if c, ok := b.constant(); ok && c == 1 {
				return a
			}
			return a.mul(xOp("inv", b))
		}
		return xOp("/", a, b)
	case token.AND_NOT:
		return xOp("&^", a, b)
	case token.REM, token.SHR, token.AND, token.OR, token.XOR:
		if kindOf(x.X.Type()) == 'b' {
			break
		}
		return xOp(x.Op.String(), a, b)
	}
	return xUnknown("operator " + x.Op.String())
}

// callScalar is the scalar result of a call.
func (e *Eng) callScalar(fr *frame, c *ssa.Call, idx int) *Expr {
	callee := e.a.callee(c)
	if callee == nil {
		if p, ok := c.Call.Value.(*ssa.Parameter); ok && !c.Call.IsInvoke() {
			// a function the caller gives, taken to be one of its arguments
			var args []*Expr
			for _, a := range c.Call.Args {
				if !isScalar(a.Type()) {
					return xUnknown("dynamic call")
				}
				args = append(args, e.eval(fr, a))
			}
			for i, q := range fr.fi.fn.Params {
				if p == q {
					return xNoise("apply", Path{root: paramRoot(i)}, args...)
				}
			}
		}
		return xUnknown("dynamic call")
	}
	b, j := c.Block(), e.index(c)
	if len(callee.Blocks) == 0 || !inModule(callee) {
		name := extName(c, callee)
		if name == "math.Float64bits" || name == "math.Float64frombits" {
			return e.eval(fr, callArgs(c)[0])
		}
		if pureExternal(callee) {
			var args []*Expr
			for _, a := range callArgs(c) {
				if !isScalar(a.Type()) {
					return xUnknown("external " + name)
				}
				args = append(args, e.eval(fr, a))
			}
			return xOp(name, args...)
		}
		return xUnknown("external " + name)
	}
	if k := scalarSamplers[fnName(callee)]; k != "" {
		// one fresh value per call, told apart by where and in which round
		var as []*Expr
		for _, a := range callArgs(c)[1:] {
			as = append(as, e.eval(fr, a))
		}
		for _, s := range e.instance(fr, b) {
			as = append(as, fromLin(s.lo))
		}
		return xNoise(fmt.Sprintf("%s#%d", k, sampleSite(fr.fi.fn, k, b, j)), Path{}, as...)
	}
	v := e.retComp(callee, idx, nil, false)
	if v.e == nil {
		return xUnknown("result")
	}
	r := e.inst(fr, b, j, c, callee, v, nil)
	if r.e == nil {
		return xUnknown("result")
	}
	return r.e
}

// sampleSite numbers the calls of samplers of kind k in fn.
func sampleSite(fn *ssa.Function, k string, b *ssa.BasicBlock, j int) int {
	n := 0
	for _, bl := range fn.DomPreorder() {
		for i, in := range bl.Instrs {
			if bl == b && i == j {
				return n
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					if o := f.Origin(); o != nil {
						f = o
					}
					if scalarSamplers[fnName(f)] == k {
						n++
					}
				}
			}
		}
	}
	return n
}
