package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop with a canonical counter starting at 0.
type Loop struct {
	id      int
	fn      *ssa.Function
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	parent  *Loop
	trip    *Lin // number of iterations when left through the header, nil if unknown
	primary *ssa.Phi
	first   *Lin // initial value of the primary induction variable (index as used)
	step    int64
}

func (l *Loop) sym() *Sym {
	return internSym(&Sym{key: fmt.Sprintf("k%d", l.id), kind: 'k', loop: l})
}

type storeRec struct {
	steps []Step
	val   ssa.Value
	instr ssa.Instruction
	elem  bool // what is stored are the elements of val (copy)
}

// FnInfo caches the intraprocedural facts of one function.
type FnInfo struct {
	a      *Analysis
	fn     *ssa.Function
	loops  []*Loop
	loopOf map[*ssa.BasicBlock]*Loop // innermost
	stores map[*Root][]storeRec
	roots  map[ssa.Value]*Root
	pmemo  map[ssa.Value][]Path
	pbusy  map[ssa.Value]bool
	lmemo  map[ssa.Value]*Lin
	lbusy  map[ssa.Value]bool
	ivs    map[*ssa.Phi]*ivInfo
	order  []*ssa.BasicBlock
}

type ivInfo struct {
	loop *Loop
	init ssa.Value
	step int64
}

var uid int

func nextID() int { uid++; return uid }

var rootTab = map[string]*Root{}

func internRoot(r *Root) *Root {
	if o := rootTab[r.key]; o != nil {
		return o
	}
	rootTab[r.key] = r
	return r
}

func paramRoot(i int) *Root { return internRoot(&Root{kind: 'P', idx: i, key: fmt.Sprintf("P%d", i)}) }
func freeRoot(i int) *Root  { return internRoot(&Root{kind: 'F', idx: i, key: fmt.Sprintf("F%d", i)}) }

var valID = map[ssa.Value]int{}

func vid(v ssa.Value) int {
	if n, ok := valID[v]; ok {
		return n
	}
	n := nextID()
	valID[v] = n
	return n
}

func allocRoot(v ssa.Value) *Root {
	return internRoot(&Root{kind: 'A', v: v, key: fmt.Sprintf("A%d", vid(v))})
}
func globalRoot(v *ssa.Global) *Root {
	return internRoot(&Root{kind: 'G', v: v, key: "G:" + v.Pkg.Pkg.Path() + "." + v.Name()})
}
func unknownRoot(v ssa.Value) *Root {
	return internRoot(&Root{kind: 'U', v: v, key: fmt.Sprintf("U%d", vid(v))})
}
func callRoot(v ssa.Value, inner *Root) *Root {
	d := 0
	k := fmt.Sprintf("C%d", vid(v))
	if inner != nil {
		d = inner.depth + 1
		if d > 8 {
			inner = nil
			k += "/*"
		} else {
			k += "/" + inner.key
		}
	}
	return internRoot(&Root{kind: 'C', v: v, inner: inner, key: k, depth: d})
}

func (a *Analysis) fnInfo(fn *ssa.Function) *FnInfo {
	if fi := a.infos[fn]; fi != nil {
		return fi
	}
	fi := &FnInfo{a: a, fn: fn,
		loopOf: map[*ssa.BasicBlock]*Loop{}, stores: map[*Root][]storeRec{}, roots: map[ssa.Value]*Root{},
		pmemo: map[ssa.Value][]Path{}, pbusy: map[ssa.Value]bool{}, lmemo: map[ssa.Value]*Lin{}, lbusy: map[ssa.Value]bool{}, ivs: map[*ssa.Phi]*ivInfo{}}
	a.infos[fn] = fi
	if len(fn.Blocks) > 0 {
		fi.findLoops()
		fi.collectStores()
		fi.findIVs()
		fi.order = fi.blockOrder()
	}
	return fi
}

// ---------------------------------------------------------------------------
// Loops
// ---------------------------------------------------------------------------

func (fi *FnInfo) findLoops() {
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fi.fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &Loop{id: nextID(), fn: fi.fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					fi.loops = append(fi.loops, l)
				}
				l.latches = append(l.latches, b)
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, b := range fi.fn.Blocks {
		var best *Loop
		for _, l := range fi.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		if best != nil {
			fi.loopOf[b] = best
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
}

// loopsOf lists the loops containing b, innermost first.
func (fi *FnInfo) loopsOf(b *ssa.BasicBlock) []*Loop {
	var out []*Loop
	for l := fi.loopOf[b]; l != nil; l = l.parent {
		out = append(out, l)
	}
	return out
}

func (fi *FnInfo) findIVs() {
	for _, l := range fi.loops {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInt(phi.Type()) {
				continue
			}
			var init ssa.Value
			var step int64
			good := true
			for i, e := range phi.Edges {
				if l.blocks[l.header.Preds[i]] {
					s, ok := stepOf(e, phi)
					if !ok || (step != 0 && step != s) {
						good = false
						break
					}
					step = s
				} else {
					if init != nil && init != e {
						good = false
						break
					}
					init = e
				}
			}
			if good && init != nil && step != 0 {
				fi.ivs[phi] = &ivInfo{loop: l, init: init, step: step}
			}
		}
	}
	for _, l := range fi.loops {
		// trip count from the header's condition
		ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		inTrue := l.blocks[l.header.Succs[0]]
		inFalse := l.blocks[l.header.Succs[1]]
		if inTrue == inFalse {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		x, y := cmp.X, cmp.Y
		if !inTrue {
			op = negateCmp(op)
		}
		// normalise to IV-expression on the left
		phi, off := fi.ivBase(x, l)
		if phi == nil {
			phi, off = fi.ivBase(y, l)
			x, y = y, x
			op = flipCmp(op)
		}
		if phi == nil || op == token.ILLEGAL {
			continue
		}
		iv := fi.ivs[phi]
		bound := fi.lin(y)
		if bound.dependsOn(l) {
			continue
		}
		init := fi.lin(iv.init)
		l.primary, l.step = phi, iv.step
		l.first = init
		switch {
		case iv.step > 0 && (op == token.LSS || op == token.LEQ || (op == token.NEQ && iv.step == 1)):
			n := bound.sub(init).addc(-off) // phi+off < bound
			if op == token.LEQ {
				n = n.addc(1)
			}
			if iv.step == 1 {
				l.trip = n
			} else {
				l.trip = ceilDiv(n, iv.step)
			}
			l.first = init.addc(off)
		case iv.step < 0 && (op == token.GEQ || op == token.GTR || (op == token.NEQ && iv.step == -1)):
			n := init.addc(off).sub(bound)
			if op == token.GEQ {
				n = n.addc(1)
			}
			if iv.step == -1 {
				l.trip = n
			} else {
				l.trip = ceilDiv(n, -iv.step)
			}
			l.first = init.addc(off)
		}
	}
}

// ceilDiv computes ceil(n/s); exact when n is known to be a multiple of s.
func ceilDiv(n *Lin, s int64) *Lin {
	div := true
	for _, t := range n.t {
		if t.co%s != 0 && !symMultiple(t.s, s) {
			div = false
		}
	}
	if div && n.c%s == 0 {
		r := linConst(n.c / s)
		for _, t := range n.t {
			if t.co%s == 0 {
				r = r.addMul(linSym(t.s), t.co/s)
			} else {
				r = r.addMul(linOp("div", linSym(t.s), linConst(s)), t.co)
			}
		}
		return r
	}
	return linOp("ceildiv", n, linConst(s))
}

// symMultiple: the symbol is certainly a multiple of s.
func symMultiple(x *Sym, s int64) bool {
	if x.kind == 'o' {
		switch x.op {
		case "<<":
			if x.args[1].isConst() && x.args[1].c < 40 {
				return (int64(1)<<uint(x.args[1].c))%s == 0
			}
		}
	}
	return false
}

func negateCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func flipCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	case token.EQL, token.NEQ:
		return op
	}
	return token.ILLEGAL
}

// ivBase recognises v = phi + const for an induction variable of l.
func (fi *FnInfo) ivBase(v ssa.Value, l *Loop) (*ssa.Phi, int64) {
	var off int64
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			if iv := fi.ivs[x]; iv != nil && iv.loop == l {
				return x, off
			}
			return nil, 0
		case *ssa.BinOp:
			if c, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if x.Op == token.ADD {
					off += c
				} else {
					off -= c
				}
				v = x.X
				continue
			}
			if c, ok := constInt(x.X); ok && x.Op == token.ADD {
				off += c
				v = x.Y
				continue
			}
			return nil, 0
		case *ssa.Convert:
			v = x.X
		default:
			return nil, 0
		}
	}
}

func stepOf(e ssa.Value, phi *ssa.Phi) (int64, bool) {
	b, ok := e.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	if b.X == phi {
		if c, ok := constInt(b.Y); ok {
			switch b.Op {
			case token.ADD:
				return c, c != 0
			case token.SUB:
				return -c, c != 0
			}
		}
	}
	if b.Y == phi && b.Op == token.ADD {
		if c, ok := constInt(b.X); ok {
			return c, c != 0
		}
	}
	return 0, false
}

func constInt(v ssa.Value) (int64, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value != nil && c.Value.Kind() == constant.Int {
			return constant.Int64Val(c.Value)
		}
	case *ssa.Convert:
		return constInt(c.X)
	}
	return 0, false
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isNumericLike: basic numeric, bool, or a type parameter.
func isScalar(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// blockOrder: a topological order in which a loop's body precedes its exits.
func (fi *FnInfo) blockOrder() []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit successors that leave the most loops first (so that they finish
		// first and come last in reverse post-order)
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		depth := func(x *ssa.BasicBlock) int {
			n := 0
			for l := fi.loopOf[b]; l != nil; l = l.parent {
				if l.blocks[x] {
					n++
				}
			}
			return n
		}
		for i := 0; i < len(succs); i++ {
			for j := i + 1; j < len(succs); j++ {
				if depth(succs[j]) < depth(succs[i]) {
					succs[i], succs[j] = succs[j], succs[i]
				}
			}
		}
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fi.fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// ---------------------------------------------------------------------------
// Local memory
// ---------------------------------------------------------------------------

func (fi *FnInfo) collectStores() {
	// Two rounds: addresses of stores may depend on other local contents.
	for round := 0; round < 2; round++ {
		ns := map[*Root][]storeRec{}
		add := func(r *Root, rec storeRec) { ns[r] = append(ns[r], rec) }
		for _, b := range fi.fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !pointerful(x.Val.Type()) && !isScalar(x.Val.Type()) {
						// plain data: no aliasing through it
						if _, isPar := x.Val.(*ssa.Parameter); !isPar && !structLike(x.Val.Type()) {
							continue
						}
					}
					for _, p := range fi.paths(x.Addr) {
						if p.root.kind == 'A' || p.root.kind == 'C' {
							add(p.root, storeRec{p.steps, x.Val, in, false})
						}
					}
				case *ssa.MapUpdate:
					if pointerful(x.Value.Type()) {
						for _, p := range fi.paths(x.Map) {
							if p.root.kind == 'A' || p.root.kind == 'C' {
								add(p.root, storeRec{p.with(Step{kind: 'u'}).steps, x.Value, in, false})
							}
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						if et := elemType(x.Call.Args[0].Type()); et != nil && pointerful(et) {
							for _, p := range fi.paths(x.Call.Args[0]) {
								if p.root.kind == 'A' || p.root.kind == 'C' {
									add(p.root, storeRec{p.with(Step{kind: 'u'}).steps, x.Call.Args[1], in, true})
								}
							}
						}
					}
				}
			}
		}
		fi.stores = ns
		fi.pmemo = map[ssa.Value][]Path{}
		fi.lmemo = map[ssa.Value]*Lin{}
	}
}

func structLike(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// pointerful: values of type t can refer to other memory.
func pointerful(t types.Type) bool { return ptrful(t, 0) }

func ptrful(t types.Type, d int) bool {
	if d > 12 {
		return true
	}
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		return false
	case *types.Named:
		return ptrful(u.Underlying(), d+1)
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return ptrful(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrful(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if ptrful(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func sameShapeStep(a, b Step) bool {
	if a.kind == 'f' || b.kind == 'f' {
		return a.kind == b.kind && a.field == b.field
	}
	return true
}

func local(r *Root) bool { return r.kind == 'A' || r.kind == 'C' }

// content resolves what is stored at p when p is in local (fresh) memory.
func (fi *FnInfo) content(p Path, depth int) []Path {
	if !local(p.root) || depth > 12 {
		return []Path{p}
	}
	var out []Path
	keepSelf := true
	recs := fi.stores[p.root]
	matched := false
	for _, r := range recs {
		n := len(r.steps)
		if n > len(p.steps) {
			continue
		}
		ok := true
		for i := 0; i < n; i++ {
			if !sameShapeStep(r.steps[i], p.steps[i]) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if c, isC := r.val.(*ssa.Const); isC && (c.Value == nil || true) {
			matched = true
			if n == len(p.steps) {
				continue
			}
			continue
		}
		if !pointerful(r.val.Type()) && !structLike(r.val.Type()) {
			continue
		}
		matched = true
		keepSelf = false
		rest := p.steps[n:]
		if r.elem {
			rest = append([]Step{{kind: 'u'}}, rest...)
		}
		for _, q := range fi.paths(r.val) {
			out = append(out, fi.extend(q, rest, depth+1)...)
		}
	}
	if p.root.kind == 'C' && p.root.inner != nil && !matched {
		if call, ok := p.root.v.(ssa.CallInstruction); ok {
			if callee := fi.a.callee(call); callee != nil && len(callee.Blocks) > 0 {
				cfi := fi.a.fnInfo(callee)
				cp := Path{root: p.root.inner, steps: eraseIdx(p.steps)}
				for _, q := range cfi.content(cp, depth+1) {
					if q.root == p.root.inner && len(q.steps) == len(p.steps) {
						continue
					}
					keepSelf = false
					out = append(out, fi.mapPath(call, callee, q)...)
				}
			}
		}
	}
	if call, ok := p.root.v.(*ssa.Call); ok && p.root.kind == 'C' && p.root.inner == nil && len(p.steps) > 0 && p.steps[0].kind != 'f' {
		if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(call.Call.Args) == 2 {
			// the appended elements are those of the second operand
			if sl, isS := types.Unalias(call.Type()).Underlying().(*types.Slice); isS && pointerful(sl.Elem()) {
				for _, src := range fi.paths(call.Call.Args[1]) {
					if src.root == p.root {
						continue
					}
					keepSelf = len(p.steps) == 1 && structLike(sl.Elem())
					out = append(out, fi.extend(src, eraseIdx(p.steps), depth+1)...)
				}
			}
		}
	}
	if !keepSelf && fi.storedBelow(p) {
		keepSelf = true // a stored structure whose fields were set afterwards
	}
	if keepSelf {
		out = append(out, p)
	}
	return dedupPaths(out)
}

// storedBelow: something is stored to a field beneath the local place p.
func (fi *FnInfo) storedBelow(p Path) bool {
	if _, ok := p.root.v.(*ssa.Alloc); !ok {
		return false
	}
	for _, r := range fi.stores[p.root] {
		n := len(p.steps)
		if len(r.steps) <= n || r.steps[n].kind != 'f' {
			continue
		}
		ok := true
		for i := 0; i < n; i++ {
			if !sameShapeStep(r.steps[i], p.steps[i]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// eraseIdx keeps the shape of steps when moving to another function's frame.
func eraseIdx(st []Step) []Step {
	out := make([]Step, len(st))
	for i, s := range st {
		if s.kind == 'f' {
			out[i] = s
		} else {
			out[i] = Step{kind: 'u'}
		}
	}
	return out
}

// extend applies steps to a path, resolving local memory on the way.
func (fi *FnInfo) extend(p Path, steps []Step, depth int) []Path {
	if !local(p.root) {
		for _, s := range steps {
			p = p.with(s)
		}
		return []Path{p}
	}
	cur := []Path{p}
	for _, s := range steps {
		var nxt []Path
		for _, q := range cur {
			q2 := q.with(s)
			if local(q2.root) && s.kind != 'r' {
				nxt = append(nxt, fi.content(q2, depth+1)...)
			} else {
				nxt = append(nxt, q2)
			}
		}
		cur = dedupPaths(nxt)
		if len(cur) > 24 {
			break
		}
	}
	return cur
}

func dedupPaths(ps []Path) []Path {
	if len(ps) < 2 {
		return ps
	}
	seen := map[string]bool{}
	out := ps[:0:0]
	for _, p := range ps {
		if !seen[p.key()] {
			seen[p.key()] = true
			out = append(out, p)
		}
	}
	return out
}

// paths returns the objects that v refers to (for a struct or array value: the
// object whose contents it is).
func (fi *FnInfo) paths(v ssa.Value) []Path {
	if ps, ok := fi.pmemo[v]; ok {
		return ps
	}
	if fi.pbusy[v] {
		return nil
	}
	fi.pbusy[v] = true
	ps := dedupPaths(fi.paths1(v))
	delete(fi.pbusy, v)
	if len(fi.pbusy) == 0 || len(ps) == 0 || !fi.hasPhiBusy() {
		fi.pmemo[v] = ps
	}
	return ps
}

func (fi *FnInfo) hasPhiBusy() bool {
	for v := range fi.pbusy {
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func (fi *FnInfo) paths1(v ssa.Value) []Path {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fi.fn.Params {
			if p == x {
				return []Path{{root: paramRoot(i)}}
			}
		}
	case *ssa.FreeVar:
		for i, p := range fi.fn.FreeVars {
			if p == x {
				return []Path{{root: freeRoot(i)}}
			}
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return []Path{{root: allocRoot(v)}}
	case *ssa.Global:
		return []Path{{root: globalRoot(x)}}
	case *ssa.FieldAddr:
		return fi.stepAll(x.X, Step{kind: 'f', field: fieldName(x.X.Type(), x.Field)}, false)
	case *ssa.Field:
		return fi.stepAll(x.X, Step{kind: 'f', field: fieldName(x.X.Type(), x.Field)}, true)
	case *ssa.IndexAddr:
		return fi.stepAll(x.X, Step{kind: 'e', lo: fi.lin(x.Index)}, false)
	case *ssa.Index:
		return fi.stepAll(x.X, Step{kind: 'e', lo: fi.lin(x.Index)}, true)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			var out []Path
			for _, p := range fi.paths(x.X) {
				out = append(out, fi.content(p, 0)...)
			}
			return out
		case token.ARROW:
			// value received from a channel
			return fi.stepAll(x.X, Step{kind: 'u'}, true)
		}
	case *ssa.Slice:
		lo := linConst(0)
		var hi *Lin
		if x.Low != nil {
			lo = fi.lin(x.Low)
		}
		if x.High != nil {
			hi = fi.lin(x.High)
		}
		if x.Low == nil && x.High == nil {
			if _, isPtr := types.Unalias(x.X.Type()).Underlying().(*types.Pointer); isPtr {
				return fi.paths(x.X) // arr[:]
			}
			return fi.paths(x.X)
		}
		return fi.stepAll(x.X, Step{kind: 'r', lo: lo, hi: hi}, false)
	case *ssa.Phi:
		var out []Path
		for _, e := range x.Edges {
			out = append(out, fi.paths(e)...)
		}
		return out
	case *ssa.ChangeType:
		return fi.paths(x.X)
	case *ssa.MultiConvert:
		return fi.paths(x.X)
	case *ssa.Convert:
		return fi.convPaths(x)
	case *ssa.ChangeInterface:
		return fi.paths(x.X)
	case *ssa.MakeInterface:
		return fi.paths(x.X)
	case *ssa.TypeAssert:
		return fi.paths(x.X)
	case *ssa.SliceToArrayPointer:
		return fi.paths(x.X)
	case *ssa.Lookup:
		return fi.stepAll(x.X, Step{kind: 'u'}, true)
	case *ssa.Next, *ssa.Range:
		if r, ok := x.(*ssa.Range); ok {
			return fi.paths(r.X)
		}
		return fi.stepAll(x.(*ssa.Next).Iter, Step{kind: 'u'}, true)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return fi.callPaths(t, x.Index)
		default:
			return fi.paths(x.Tuple)
		}
	case *ssa.Call:
		return fi.callPaths(x, 0)
	case *ssa.MakeClosure, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Const:
		return nil
	case *ssa.BinOp:
		return nil
	}
	return []Path{{root: unknownRoot(v)}}
}

func (fi *FnInfo) stepAll(base ssa.Value, s Step, load bool) []Path {
	var out []Path
	for _, p := range fi.paths(base) {
		q := p.with(s)
		if load {
			out = append(out, fi.content(q, 0)...)
		} else {
			out = append(out, q)
		}
	}
	return out
}

func fieldName(t types.Type, i int) string {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
		return st.Field(i).Name()
	}
	return fmt.Sprintf("#%d", i)
}

// convPaths handles conversions, including unsafe pointer arithmetic.
func (fi *FnInfo) convPaths(x *ssa.Convert) []Path {
	src := fi.paths(x.X)
	to := types.Unalias(x.Type()).Underlying()
	pt, ok := to.(*types.Pointer)
	if !ok {
		return src
	}
	elem := types.Unalias(pt.Elem())
	var out []Path
	for _, p := range src {
		out = append(out, fi.castPath(p, elem))
	}
	return out
}

func (fi *FnInfo) castPath(p Path, elem types.Type) Path {
	n := len(p.steps)
	off := linConst(0)
	if n > 0 && p.steps[n-1].kind == 'b' {
		off = p.steps[n-1].lo
		p = Path{root: p.root, steps: p.steps[:n-1]}
		n--
	}
	var unit types.Type
	cnt := int64(1)
	arr := false
	if a, ok := elem.Underlying().(*types.Array); ok {
		unit, cnt, arr = a.Elem(), a.Len(), true
	} else if isScalar(elem) {
		unit = elem
	} else {
		return p
	}
	if n == 0 || p.steps[n-1].kind != 'e' {
		if off.isConst() && off.c == 0 {
			return p
		}
		return Path{root: p.root, steps: append(append([]Step(nil), p.steps...), Step{kind: 'u'})}
	}
	idx := p.steps[n-1].lo
	eo, ok := divBySize(off, unit)
	base := append([]Step(nil), p.steps[:n-1]...)
	if !ok {
		return Path{root: p.root, steps: append(base, Step{kind: 'u'})}
	}
	idx = idx.add(eo)
	if arr {
		return Path{root: p.root, steps: append(base, Step{kind: 'r', lo: idx, hi: idx.addc(cnt)})}
	}
	return Path{root: p.root, steps: append(base, Step{kind: 'e', lo: idx})}
}

// divBySize divides a byte offset by the size of t.
func divBySize(off *Lin, t types.Type) (*Lin, bool) {
	if off.isConst() && off.c == 0 {
		return off, true
	}
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		r := linConst(0)
		if off.c != 0 {
			return nil, false
		}
		for _, tm := range off.t {
			q, ok := divSizeof(tm.s)
			if !ok {
				return nil, false
			}
			r = r.addMul(q, tm.co)
		}
		return r, true
	}
	var sz int64
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float64, types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
			sz = 8
		case types.Complex128:
			sz = 16
		case types.Float32, types.Int32, types.Uint32:
			sz = 4
		case types.Int16, types.Uint16:
			sz = 2
		case types.Int8, types.Uint8:
			sz = 1
		}
	}
	if sz == 0 || off.c%sz != 0 {
		return nil, false
	}
	r := linConst(off.c / sz)
	for _, tm := range off.t {
		if tm.co%sz != 0 {
			return nil, false
		}
		r = r.addMul(linSym(tm.s), tm.co/sz)
	}
	return r, true
}

func divSizeof(s *Sym) (*Lin, bool) {
	if s.kind == 'o' && s.op == "sizeof" {
		return linConst(1), true
	}
	if s.kind == 'o' && s.op == "*" && len(s.args) == 2 {
		for i := 0; i < 2; i++ {
			a := s.args[i]
			if len(a.t) == 1 && a.c == 0 && a.t[0].co == 1 {
				if q, ok := divSizeof(a.t[0].s); ok {
					return linOp("*", q, s.args[1-i]), true
				}
			}
		}
	}
	return nil, false
}

// callPaths returns what the idx-th result of a call refers to.
func (fi *FnInfo) callPaths(c *ssa.Call, idx int) []Path {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			out := append([]Path(nil), fi.paths(c.Call.Args[0])...)
			out = append(out, Path{root: callRoot(c, nil)})
			return out
		case "Add": // unsafe.Add
			off := fi.lin(c.Call.Args[1])
			var out []Path
			for _, p := range fi.paths(c.Call.Args[0]) {
				n := len(p.steps)
				if n > 0 && p.steps[n-1].kind == 'b' {
					st := append([]Step(nil), p.steps...)
					st[n-1].lo = st[n-1].lo.add(off)
					out = append(out, Path{root: p.root, steps: st})
				} else {
					out = append(out, Path{root: p.root, steps: append(append([]Step(nil), p.steps...), Step{kind: 'b', field: "#", lo: off})})
				}
			}
			return out
		case "Slice", "SliceData", "StringData", "String":
			return fi.paths(c.Call.Args[0])
		}
		return nil
	}
	var rt types.Type = c.Type()
	if tup, ok := rt.(*types.Tuple); ok {
		if idx < tup.Len() {
			rt = tup.At(idx).Type()
		}
	}
	if !pointerful(rt) && !structLike(rt) {
		return nil
	}
	callee := fi.a.callee(c)
	if callee == nil || len(callee.Blocks) == 0 || !inModule(callee) {
		return []Path{{root: callRoot(c, nil)}}
	}
	var out []Path
	for _, q := range fi.a.returns(callee, idx) {
		out = append(out, fi.mapPath(c, callee, q)...)
	}
	return out
}

// mapPath translates a path of the callee's frame into the caller's frame.
func (fi *FnInfo) mapPath(c ssa.CallInstruction, callee *ssa.Function, q Path) []Path {
	sub := fi.callSubst(c, callee)
	steps := q.steps
	if len(steps) > 0 {
		q2 := q.substIdx(sub)
		steps = q2.steps
	}
	switch q.root.kind {
	case 'P':
		args := callArgs(c)
		if q.root.idx >= len(args) {
			return nil
		}
		var out []Path
		for _, p := range fi.paths(args[q.root.idx]) {
			out = append(out, fi.extend(p, steps, 0)...)
		}
		return out
	case 'F':
		mc := fi.closureOf(c)
		if mc == nil || q.root.idx >= len(mc.Bindings) {
			return []Path{{root: unknownRoot(c.Common().Value), steps: steps}}
		}
		var out []Path
		for _, p := range fi.paths(mc.Bindings[q.root.idx]) {
			if len(steps) == 0 {
				out = append(out, p)
				continue
			}
			// the captured variable itself is read first
			for _, p2 := range fi.content(p, 0) {
				out = append(out, fi.extend(p2, steps, 0)...)
			}
		}
		return out
	case 'G':
		return []Path{{root: q.root, steps: steps}}
	case 'A', 'C', 'U':
		if v, ok := c.(ssa.Value); ok {
			return []Path{{root: callRoot(v, q.root), steps: steps}}
		}
		return []Path{{root: callRoot(c.Common().Value, q.root), steps: steps}}
	}
	return nil
}

// callArgs: actual arguments including the receiver.
func callArgs(c ssa.CallInstruction) []ssa.Value { return c.Common().Args }

func (fi *FnInfo) closureOf(c ssa.CallInstruction) *ssa.MakeClosure {
	v := c.Common().Value
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return mc
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a local function variable
		for _, p := range fi.paths(u.X) {
			for _, r := range fi.stores[p.root] {
				if mc, ok := r.val.(*ssa.MakeClosure); ok {
					return mc
				}
			}
		}
	}
	return nil
}

// callSubst maps symbols of the callee's frame to the caller's.
func (fi *FnInfo) callSubst(c ssa.CallInstruction, callee *ssa.Function) substFn {
	args := callArgs(c)
	return func(s *Sym) *Lin {
		switch s.kind {
		case 'p', 'l':
			switch s.path.root.kind {
			case 'P':
				i := s.path.root.idx
				if i >= len(args) {
					return linSym(internSym(&Sym{key: fmt.Sprintf("x%d", nextID()), kind: 'v'}))
				}
				if len(s.path.steps) == 0 && s.kind == 'p' {
					return fi.lin(args[i])
				}
				mp := fi.mapPath(c, callee, s.path)
				if len(mp) == 1 {
					if s.kind == 'l' {
						return fi.lenOf(mp[0])
					}
					return fi.scalarAt(mp[0])
				}
				return linSym(internSym(&Sym{key: fmt.Sprintf("x%d@%s", vid(c.Common().Value), s.key), kind: 'v'}))
			case 'F':
				mc := fi.closureOf(c)
				if mc != nil && s.path.root.idx < len(mc.Bindings) {
					b := mc.Bindings[s.path.root.idx]
					if len(s.path.steps) == 0 && s.kind == 'p' {
						// scalar captured by reference
						ps := fi.paths(b)
						if len(ps) == 1 {
							return fi.scalarAt(ps[0])
						}
					}
					mp := fi.mapPath(c, callee, s.path)
					if len(mp) == 1 {
						if s.kind == 'l' {
							return fi.lenOf(mp[0])
						}
						return fi.scalarAt(mp[0])
					}
				}
				return linSym(internSym(&Sym{key: fmt.Sprintf("x%d@%s", nextID(), s.key), kind: 'v'}))
			case 'A', 'C', 'U':
				return linSym(internSym(&Sym{key: fmt.Sprintf("y%d@%s", vid(c.Common().Value), s.key), kind: 'v'}))
			}
		}
		return nil
	}
}

// leafSyms are the symbols of l, those under an operator included.
func leafSyms(l *Lin) (out []*Sym) {
	for _, t := range l.t {
		if t.s.kind == 'o' {
			for _, a := range t.s.args {
				out = append(out, leafSyms(a)...)
			}
			continue
		}
		out = append(out, t.s)
	}
	return out
}

// lenOf: the length of the slice at path p.
func (fi *FnInfo) lenOf(p Path) *Lin {
	if n := len(p.steps); n > 0 && p.steps[n-1].kind == 'r' && p.steps[n-1].hi == nil {
		return fi.lenOf(p.upTo(n - 1)).sub(p.steps[n-1].lo)
	}
	if len(p.steps) == 0 && p.root.kind == 'A' {
		switch m := p.root.v.(type) {
		case *ssa.MakeSlice:
			if m.Parent() == fi.fn {
				return fi.lin(m.Len)
			}
		case *ssa.Alloc:
			if pt, ok := m.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return linConst(at.Len())
				}
			}
		}
	}
	// made in a callee, with a length its arguments determine
	if len(p.steps) == 0 && p.root.kind == 'C' && p.root.inner != nil {
		if c, ok := p.root.v.(*ssa.Call); ok && c.Parent() == fi.fn {
			if callee := fi.a.callee(c); callee != nil && len(callee.Blocks) > 0 {
				l := fi.a.fnInfo(callee).lenOf(Path{root: p.root.inner})
				known := true
				for _, s := range leafSyms(l) {
					if s.kind != 'p' && s.kind != 'l' || s.path.root.kind != 'P' {
						known = false
					}
				}
				if known {
					l = l.subst(fi.callSubst(c, callee))
					for _, s := range leafSyms(l) {
						if s.kind != 'p' && s.kind != 'l' || s.path.root.kind != 'P' {
							known = false
						}
					}
				}
				if known {
					return l
				}
			}
		}
	}
	return linLen(p)
}

// lenVal is the length of a slice value that may be one of several objects,
// where all of them have the same.
func (fi *FnInfo) lenVal(v ssa.Value, d int) *Lin {
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
			break
		}
		var hi *Lin
		if x.High != nil {
			hi = fi.lin(x.High)
		} else {
			hi = fi.lenVal(x.X, d+1)
		}
		if hi != nil && x.Low != nil {
			hi = hi.sub(fi.lin(x.Low))
		}
		return hi
	case *ssa.MakeSlice:
		return fi.lin(x.Len)
	case *ssa.ChangeType:
		return fi.lenVal(x.X, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && len(x.Call.Args) == 2 {
				m, n := fi.lenVal(x.Call.Args[0], d+1), fi.lenVal(x.Call.Args[1], d+1)
				if m != nil && n != nil {
					return m.add(n)
				}
			}
			return nil
		}
		callee := fi.a.callee(x)
		if callee == nil || len(callee.Blocks) == 0 || !inModule(callee) || callee.Signature.Results().Len() != 1 || callee == fi.fn {
			return nil
		}
		if l := fi.a.retLen(callee); l != nil {
			return l.subst(fi.callSubst(x, callee))
		}
		return nil
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		ps := fi.paths(x.X)
		if len(ps) != 1 || local(ps[0].root) {
			break
		}
		// what the function itself has put there
		var st *ssa.Store
		for _, b := range fi.fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				qs := fi.paths(s.Addr)
				if len(qs) == 1 && qs[0].key() == ps[0].key() {
					if st != nil {
						return nil
					}
					st = s
				}
			}
		}
		if st != nil && comesBefore(st, x) {
			return fi.lenVal(st.Val, d+1)
		}
		if st == nil || comesBefore(x, st) && fi.loopOf[st.Block()] == nil {
			return linLen(ps[0])
		}
		return nil
	}
	if ps := fi.paths(v); len(ps) == 1 {
		return fi.lenOf(ps[0])
	}
	return nil
}

// comesBefore: on every path to y, x has been executed.
func comesBefore(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// retLen: the length of the slice fn returns, where its arguments settle it.
func (a *Analysis) retLen(fn *ssa.Function) *Lin {
	k := fmt.Sprintf("%p/len", fn)
	if l, ok := a.retl[k]; ok {
		return l
	}
	a.retl[k] = nil
	fi := a.fnInfo(fn)
	var res *Lin
	for _, r := range returnsOf(fn) {
		if len(r.Results) != 1 {
			return nil
		}
		l := fi.lenVal(r.Results[0], 0)
		if l == nil || res != nil && !res.eq(l) {
			return nil
		}
		res = l
	}
	if res == nil || !closedForm(res) {
		return nil
	}
	a.retl[k] = res
	return res
}

// scalarAt: the integer stored at path p.
func (fi *FnInfo) scalarAt(p Path) *Lin {
	if local(p.root) {
		if qs := fi.content(p, 0); len(qs) == 1 && !local(qs[0].root) {
			return linSym(symPath(qs[0]))
		}
		// a local with a single store
		var val ssa.Value
		cnt := 0
		for _, r := range fi.stores[p.root] {
			if len(r.steps) == len(p.steps) {
				ok := true
				for i := range r.steps {
					if !sameShapeStep(r.steps[i], p.steps[i]) || (r.steps[i].kind != 'f' && r.steps[i].key() != p.steps[i].key()) {
						ok = false
					}
				}
				if ok {
					val = r.val
					cnt++
				}
			}
		}
		if cnt == 1 && isScalar(val.Type()) {
			if al, ok := p.root.v.(*ssa.Alloc); !ok || al.Parent() == fi.fn {
				return fi.lin(val)
			}
		}
		if cnt > 0 {
			return linSym(internSym(&Sym{key: fmt.Sprintf("m%d", nextID()), kind: 'v'}))
		}
	}
	return linSym(symPath(p))
}

// lin returns the canonical linear expression of an integer (or boolean) value.
func (fi *FnInfo) lin(v ssa.Value) *Lin {
	if l, ok := fi.lmemo[v]; ok {
		return l
	}
	if fi.lbusy[v] {
		return fi.opaque(v)
	}
	fi.lbusy[v] = true
	l := fi.lin1(v)
	delete(fi.lbusy, v)
	if len(fi.lbusy) == 0 {
		fi.lmemo[v] = l
	}
	return l
}

// choice: the count that one of two arms of a plain if settles
func (fi *FnInfo) choice(x *ssa.Phi) *Lin {
	b := x.Block()
	if len(x.Edges) != 2 || !isScalar(x.Type()) || kindOf(x.Type()) != 'i' {
		return nil
	}
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return nil
		}
	}
	d := b.Idom()
	if d == nil || len(d.Instrs) == 0 {
		return nil
	}
	br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
	if !ok || d.Succs[0] == d.Succs[1] {
		return nil
	}
	var arm [2]*Lin
	for i, p := range b.Preds {
		for k, s := range d.Succs {
			if p == d && s == b || p == s && s != b && len(s.Preds) == 1 && len(s.Succs) == 1 {
				arm[k] = fi.lin(x.Edges[i])
			}
		}
	}
	if arm[0] == nil || arm[1] == nil {
		return nil
	}
	return linOp("sel", fi.lin(br.Cond), arm[0], arm[1])
}

func (fi *FnInfo) opaque(v ssa.Value) *Lin {
	return linSym(internSym(&Sym{key: fmt.Sprintf("v%d", vid(v)), kind: 'v', v: v}))
}

func (fi *FnInfo) lin1(v ssa.Value) *Lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return linConst(0)
		}
		switch x.Value.Kind() {
		case constant.Int:
			if c, ok := constant.Int64Val(x.Value); ok {
				return linConst(c)
			}
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return linConst(1)
			}
			return linConst(0)
		}
		return linSym(internSym(&Sym{key: "c:" + x.Value.ExactString(), kind: 'o', op: "const " + x.Value.ExactString()}))
	case *ssa.Parameter:
		ps := fi.paths(x)
		if len(ps) == 1 {
			return linSym(symPath(ps[0]))
		}
	case *ssa.FreeVar:
		return fi.opaque(v)
	case *ssa.Phi:
		if iv := fi.ivs[x]; iv != nil {
			return fi.lin(iv.init).addMul(linSym(iv.loop.sym()), iv.step)
		}
		if l := fi.choice(x); l != nil {
			return l
		}
	case *ssa.BinOp:
		a, b := fi.lin(x.X), fi.lin(x.Y)
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
			return linOp(x.Op.String(), a, b)
		case token.EQL, token.NEQ, token.LSS:
			return linOp(x.Op.String(), a, b)
		case token.GTR:
			return linOp("<", b, a)
		case token.LEQ:
			return linOp("!", linOp("<", b, a))
		case token.GEQ:
			return linOp("!", linOp("<", a, b))
		}
	case *ssa.Convert:
		if isScalar(x.X.Type()) && isScalar(x.Type()) {
			return fi.lin(x.X)
		}
	case *ssa.ChangeType:
		return fi.lin(x.X)
	case *ssa.MultiConvert:
		return fi.lin(x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return fi.lin(x.X).scale(-1)
		case token.NOT:
			return linOp("!", fi.lin(x.X))
		case token.MUL:
			if isScalar(x.Type()) {
				ps := fi.paths(x.X)
				if len(ps) == 1 {
					if ps[0].root.kind == 'A' && fi.multiStored(ps[0]) {
						return fi.opaque(v)
					}
					return fi.scalarAt(ps[0])
				}
			}
		}
	case *ssa.Field:
		ps := fi.paths(x.X)
		if len(ps) == 1 {
			return fi.scalarAt(ps[0].field(fieldName(x.X.Type(), x.Field)))
		}
	case *ssa.Index:
		ps := fi.paths(x.X)
		if len(ps) == 1 {
			return fi.scalarAt(ps[0].with(Step{kind: 'e', lo: fi.lin(x.Index)}))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fi.callLin(c, x.Index, v)
		}
		if rc, ok := x.Tuple.(*ssa.UnOp); ok && rc.Op == token.ARROW && x.Index == 0 && isInt(x.Type()) {
			if ps := fi.paths(rc.X); len(ps) == 1 {
				return linSym(symPath(ps[0].with(Step{kind: 'u'})))
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				ps := fi.paths(x.Call.Args[0])
				if len(ps) == 1 {
					return fi.lenOf(ps[0])
				}
				if l := fi.lenVal(x.Call.Args[0], 0); l != nil {
					return l
				}
			case "Sizeof":
				return linSym(internSym(&Sym{key: "sizeof(" + types.TypeString(x.Call.Args[0].Type(), nil) + ")", kind: 'o', op: "sizeof"}))
			}
			return fi.opaque(v)
		}
		return fi.callLin(x, 0, v)
	}
	return fi.opaque(v)
}

func (fi *FnInfo) multiStored(p Path) bool {
	n := 0
	for _, r := range fi.stores[p.root] {
		if len(r.steps) == len(p.steps) {
			n++
		}
	}
	return n > 1
}

// callLin evaluates calls of simple getters symbolically.
func (fi *FnInfo) callLin(c *ssa.Call, idx int, v ssa.Value) *Lin {
	callee := fi.a.callee(c)
	if callee == nil {
		return fi.opaque(v)
	}
	if len(callee.Blocks) > 0 && inModule(callee) {
		if l := fi.a.retLin(callee, idx); l != nil {
			return l.subst(fi.callSubst(c, callee))
		}
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "math" && (callee.Name() == "Float64bits" || callee.Name() == "Float64frombits") {
		return fi.lin(callArgs(c)[0])
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "math" && callee.Name() == "Round" {
		if q, ok := callArgs(c)[0].(*ssa.BinOp); ok && q.Op == token.QUO && kindOf(q.X.Type()) == 'f' {
			return linOp("divround", fi.lin(q.X), fi.lin(q.Y))
		}
	}
	// a pure function of its arguments
	if fi.a.isPure(callee) {
		var args []*Lin
		for _, a := range callArgs(c) {
			if isScalar(a.Type()) {
				args = append(args, fi.lin(a))
				continue
			}
			ps := fi.paths(a)
			if len(ps) != 1 {
				return fi.opaque(v)
			}
			args = append(args, linSym(symPath(ps[0])))
		}
		return linOp(fmt.Sprintf("%s#%d", fnName(callee), idx), args...)
	}
	return fi.opaque(v)
}
