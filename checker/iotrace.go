package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Byte-stream effects: what a function writes to its io.Writer or reads from
// its io.Reader, as a tree of words, loops and nested objects. The tree is
// read off the control-flow graph; success and error exits are told apart by
// the nil tests on the errors of the stream calls.
// ---------------------------------------------------------------------------

type ioItem struct {
	kind  byte // 'w' word, 'L' loop, 'S' nested object, '?' unknown
	width int64
	order string
	val   *Lin  // the value written, or the symbol of the value read
	elem  *Path // the memory the word is taken from or stored to
	bits  int64 // width of the narrowest conversion of a written element, 0 if not narrowed
	src   int64 // width of the element written
	trip  *Lin
	loop  *Loop
	body  []ioItem
	sub   Path
	subOK bool
	typ   *types.Named
	fn    *ssa.Function
	chunk *Lin // buffered vectors: the length of the buffer
	pos   token.Pos
	id    *ioChunk
}

type ioChunk struct {
	root *Root
	n    *Lin
	pos  token.Pos
}

type ioWord struct {
	root  *Root
	chunk *ioChunk
	off   *Lin
	width int64
	order string
	val   *Lin
	elem  *Path
	bits  int64
	src   int64
	loops []*Loop
}

type ioObj struct {
	dst Path
	fi  *FnInfo
	val ssa.Value
	typ types.Type
}

type ioCond struct {
	l     *Lin
	taken bool
}

type ioState struct {
	items   []ioItem
	words   []ioWord
	last    map[*Root]*ioChunk
	elems   map[string]Path
	narrow  map[string]int64 // decoded values that lose bits on the way to memory
	objs    []ioObj
	conds   []ioCond
	env     map[*ssa.Phi]ssa.Value
	errs    map[ssa.Value]int // 1 nil, 2 not nil
	pending ssa.Value         // error of the last stream call
	pendAt  ssa.Instruction
	total   *Lin
	counts  map[string]*Lin // count symbol -> length on success
	open    bool            // the last call's error is not known to be nil
	lost    bool            // the byte count can no longer be followed
}

func (s *ioState) clone() *ioState {
	n := *s
	n.items = append([]ioItem(nil), s.items...)
	n.words = append([]ioWord(nil), s.words...)
	n.objs = append([]ioObj(nil), s.objs...)
	n.conds = append([]ioCond(nil), s.conds...)
	n.last = map[*Root]*ioChunk{}
	for k, v := range s.last {
		n.last[k] = v
	}
	n.elems = map[string]Path{}
	for k, v := range s.elems {
		n.elems[k] = v
	}
	n.env = map[*ssa.Phi]ssa.Value{}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.errs = map[ssa.Value]int{}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	n.counts = map[string]*Lin{}
	for k, v := range s.counts {
		n.counts[k] = v
	}
	return &n
}

// ioOut is one way through a function.
type ioOut struct {
	st  *ioState
	ret *ssa.Return
	bad bool // leaves with an error of its own or of a failed call
}

type ioWalk struct {
	a     *Analysis
	T     string
	fi    *FnInfo
	rep   *Report
	outs  []ioOut
	steps int
	quiet bool
	key   string
}

func ioStreamType(t types.Type) byte {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return 0
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "io.Writer":
		return 'w'
	case "io.Reader":
		return 'r'
	}
	return 0
}

// streamKind tells whether fn moves bytes through an io.Writer or io.Reader it
// is given.
func streamKind(fn *ssa.Function) byte {
	for _, p := range fn.Params {
		if k := ioStreamType(p.Type()); k != 0 {
			return k
		}
	}
	return 0
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (w *ioWalk) finding(rule, key, pos, f string, args ...any) {
	if w.quiet || w.rep == nil {
		return
	}
	w.rep.fail(rule, key, pos, f, args...)
}

func (w *ioWalk) resolve(st *ioState, v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		if p, ok := v.(*ssa.Phi); ok {
			if e, ok := st.env[p]; ok && e != v {
				v = e
				continue
			}
		}
		break
	}
	return v
}

// eval is lin, with the phis resolved along the path taken.
func (w *ioWalk) eval(st *ioState, v ssa.Value) *Lin {
	return w.evalD(st, v, 0)
}

func (w *ioWalk) evalD(st *ioState, v ssa.Value, d int) *Lin {
	v = w.resolve(st, v)
	if d > 40 {
		return w.fi.opaque(v)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.EQL, token.NEQ, token.LSS:
			return linOp(x.Op.String(), w.evalD(st, x.X, d+1), w.evalD(st, x.Y, d+1))
		case token.GTR:
			return linOp("<", w.evalD(st, x.Y, d+1), w.evalD(st, x.X, d+1))
		case token.LEQ:
			return linOp("!", linOp("<", w.evalD(st, x.Y, d+1), w.evalD(st, x.X, d+1)))
		case token.GEQ:
			return linOp("!", linOp("<", w.evalD(st, x.X, d+1), w.evalD(st, x.Y, d+1)))
		}
	case *ssa.Convert:
		if isScalar(x.X.Type()) && isScalar(x.Type()) {
			return w.evalD(st, x.X, d+1)
		}
	case *ssa.ChangeType:
		if isScalar(x.Type()) {
			return w.evalD(st, x.X, d+1)
		}
	}
	return w.fi.lin(v)
}

func evalCond(l *Lin) *Lin {
	if len(l.t) == 1 && l.t[0].s.kind == 'o' && l.c == 0 && l.t[0].co == 1 {
		s := l.t[0].s
		switch s.op {
		case "==", "!=", "<":
			if len(s.args) == 2 {
				d := s.args[0].sub(s.args[1])
				if d.isConst() {
					r := false
					switch s.op {
					case "==":
						r = d.c == 0
					case "!=":
						r = d.c != 0
					case "<":
						r = d.c < 0
					}
					if r {
						return linConst(1)
					}
					return linConst(0)
				}
			}
		case "!":
			in := evalCond(s.args[0])
			if in.isConst() {
				return linConst(1 - in.c)
			}
		}
	}
	return l
}

type stopFn func(from, to *ssa.BasicBlock, st *ioState) bool

func (w *ioWalk) walk() {
	st := &ioState{last: map[*Root]*ioChunk{}, elems: map[string]Path{}, narrow: map[string]int64{}, env: map[*ssa.Phi]ssa.Value{}, errs: map[ssa.Value]int{}, counts: map[string]*Lin{}, total: linConst(0)}
	w.visit(nil, w.fi.fn.Blocks[0], st, func(_, _ *ssa.BasicBlock, _ *ioState) bool { return false })
}

func (w *ioWalk) visit(from, b *ssa.BasicBlock, st *ioState, stop stopFn) {
	w.steps++
	if w.steps > 6000 {
		return
	}
	if from != nil && stop(from, b, st) {
		return
	}
	if from != nil {
		w.edge(from, b, st)
	}
	for _, l := range w.fi.loops {
		if l.header == b && (from == nil || !l.blocks[from]) {
			w.loop(l, from, st, stop)
			return
		}
	}
	w.block(b, st, stop)
}

func (w *ioWalk) edge(from, b *ssa.BasicBlock, st *ioState) {
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	upd := map[*ssa.Phi]ssa.Value{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		upd[p] = w.resolve(st, p.Edges[idx])
	}
	for p, v := range upd {
		st.env[p] = v
	}
}

func (w *ioWalk) loopDoesIO(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && w.ioCall(c) != 0 {
				return true
			}
		}
	}
	return false
}

func (w *ioWalk) loop(l *Loop, from *ssa.BasicBlock, st *ioState, stop stopFn) {
	entry := st.env
	var phis []*ssa.Phi
	entryVal := map[*ssa.Phi]ssa.Value{}
	base := st.clone()
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		if v, ok := entry[p]; ok {
			entryVal[p] = v
		}
		delete(base.env, p)
	}
	does := w.loopDoesIO(l)
	cands := []*ssa.Phi{nil}
	if does && !st.lost {
		cands = nil
		for _, p := range phis {
			if w.fi.ivs[p] != nil || !isInt(p.Type()) || entryVal[p] == nil {
				continue
			}
			if w.eval(st, entryVal[p]).eq(st.total) {
				cands = append(cands, p)
			}
		}
		if len(cands) == 0 {
			cands = []*ssa.Phi{nil}
		}
	}
	for _, p := range phis {
		if isErrorType(p.Type()) && entryVal[p] != nil && w.isNil(st, entryVal[p]) == 1 {
			base.errs[p] = 1
		}
	}
	type back struct {
		st   *ioState
		from *ssa.BasicBlock
	}
	var backs []back
	var hst *ioState
	good := false
	for ci, cand := range cands {
		hst = base.clone()
		if does {
			if cand != nil {
				hst.total = w.fi.opaque(cand)
			} else if !st.lost {
				hst.total = linSym(internSym(&Sym{key: fmt.Sprintf("bytes-of-loop%d", l.id), kind: 'v'}))
			}
		}
		in := hst.clone()
		in.items = nil
		in.words = append([]ioWord(nil), hst.words...)
		backs = nil
		q, outs := w.quiet, w.outs
		w.quiet = true
		w.block(l.header, in, func(f, to *ssa.BasicBlock, s *ioState) bool {
			if to == l.header {
				backs = append(backs, back{s.clone(), f})
				return true
			}
			return !l.blocks[to]
		})
		w.quiet, w.outs = q, outs
		good = true
		for _, bk := range backs {
			if cand == nil {
				continue
			}
			for i, p := range l.header.Preds {
				if p == bk.from && !bk.st.lost && !w.sameCount(bk.st, cand.Edges[i]) {
					good = false
					if ci == len(cands)-1 && does {
						got := w.eval(bk.st, cand.Edges[i])
						if w.countKnown(bk.st, got) {
							w.finding("count", w.key, w.a.P.posStr(instrPos(l.header.Instrs[0])), "%s: the byte count after one round of a loop is %s, but %s bytes were moved", fnName(w.fi.fn), showCount(got), showCount(bk.st.total))
						}
					}
				}
			}
		}
		if good {
			break
		}
	}
	_ = good
	// errors carried around the loop
	for _, p := range phis {
		if !isErrorType(p.Type()) {
			continue
		}
		for _, bk := range backs {
			for i, q := range l.header.Preds {
				if q == bk.from && w.isNil(bk.st, p.Edges[i]) != 1 {
					delete(hst.errs, p)
				}
			}
		}
	}
	// what one round does
	var body []ioItem
	unknown := len(backs) == 0 && does
	for i, bk := range backs {
		its := w.finalize(bk.st, len(hst.words))
		if i == 0 {
			body = its
		} else if fmt.Sprint(its) != fmt.Sprint(body) {
			unknown = true
		}
	}
	item := ioItem{kind: 'L', loop: l, trip: l.trip, body: body, fn: w.fi.fn, pos: instrPos(l.header.Instrs[0])}
	if unknown || l.trip == nil {
		item = ioItem{kind: '?', pos: item.pos, fn: w.fi.fn}
	}
	// findings inside the body, and the exits
	run := hst.clone()
	w.block(l.header, run, func(f, to *ssa.BasicBlock, s *ioState) bool {
		if to == l.header {
			w.checkPending(s, f.Instrs[len(f.Instrs)-1])
			if s.pending != nil {
				carried := false
				for i, q := range l.header.Preds {
					for _, p := range phis {
						carried = carried || q == f && isErrorType(p.Type()) && w.resolve(s, p.Edges[i]) == s.pending
					}
				}
				if !carried {
					w.finding("error", w.key+" "+errName(s.pending), w.a.P.posStr(instrPos(s.pendAt)), "%s goes on with the next round without looking at the error of %s", fnName(w.fi.fn), errName(s.pending))
				}
			}
			return true
		}
		if l.blocks[to] {
			return false
		}
		if f == l.header {
			if len(body) > 0 || unknown {
				s.items = append(s.items, item)
			}
			for _, bk := range backs {
				for _, wd := range bk.st.words[len(hst.words):] {
					wd.loops = append([]*Loop{l}, wd.loops...)
					s.words = append(s.words, wd)
				}
				for k, v := range bk.st.elems {
					s.elems[k] = v
				}
				break
			}
		} else {
			s.items = append(s.items, ioItem{kind: '?', pos: item.pos, fn: w.fi.fn})
		}
		w.visit(f, to, s, stop)
		return true
	})
}

func showCount(l *Lin) string {
	var parts []string
	for _, t := range l.t {
		n := t.s.key
		if e, ok := t.s.v.(*ssa.Extract); ok {
			if c, ok := e.Tuple.(ssa.CallInstruction); ok {
				n = "bytes of " + callName(c)
			}
		} else if p, ok := t.s.v.(*ssa.Phi); ok {
			n = p.Comment
			if n == "" {
				n = "the bytes so far"
			}
		}
		if t.co != 1 {
			n = fmt.Sprintf("%d*%s", t.co, n)
		}
		parts = append(parts, n)
	}
	if l.c != 0 || len(parts) == 0 {
		parts = append(parts, fmt.Sprint(l.c))
	}
	return strings.Join(parts, " + ")
}

func callName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return f.Name()
	}
	return "a call"
}

// countKnown: the value is built from byte counts only.
func (w *ioWalk) countKnown(st *ioState, l *Lin) bool {
	for _, t := range l.t {
		switch t.s.kind {
		case 'l':
		case 'v':
			switch x := t.s.v.(type) {
			case *ssa.Extract:
				c, ok := x.Tuple.(*ssa.Call)
				if !ok || w.ioCall(c) == 0 {
					return false
				}
			case *ssa.Phi:
				ok := false
				for _, lp := range w.fi.loops {
					ok = ok || lp.header == x.Block()
				}
				if !ok {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sameCount: v is the number of bytes moved so far.
func (w *ioWalk) sameCount(st *ioState, v ssa.Value) bool {
	got := w.eval(st, v)
	if got.eq(st.total) {
		return true
	}
	f := func(s *Sym) *Lin { return st.counts[s.key] }
	return got.subst(f).eq(st.total.subst(f))
}

func (w *ioWalk) isNil(st *ioState, v ssa.Value) int {
	v = w.resolve(st, v)
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return 1
	}
	return st.errs[v]
}

// ioCall: 'w' and 'r' primitive stream calls, 'c' calls of module functions
// that are handed the stream, 'o' other uses of the stream.
func (w *ioWalk) ioCall(c ssa.CallInstruction) byte {
	com := c.Common()
	if com.IsInvoke() {
		switch ioStreamType(com.Value.Type()) {
		case 'w':
			if com.Method.Name() == "Write" {
				return 'w'
			}
			return 'o'
		case 'r':
			return 'R'
		}
		return 0
	}
	f := com.StaticCallee()
	if f == nil {
		return 0
	}
	f = origin(f)
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "io" && f.Name() == "ReadFull" {
		return 'r'
	}
	for _, x := range com.Args {
		if ioStreamType(x.Type()) != 0 {
			if inModule(f) && len(f.Blocks) > 0 {
				return 'c'
			}
			return 'o'
		}
	}
	return 0
}

func extractOf(c *ssa.Call, idx int) ssa.Value {
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			return e
		}
	}
	return nil
}

func (w *ioWalk) block(b *ssa.BasicBlock, st *ioState, stop stopFn) {
	w.steps++
	if w.steps > 6000 {
		return
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			w.store(x, st)
		case *ssa.Call:
			if forks := w.call(x, st); forks != nil {
				// several ways through the callee
				for _, f := range forks {
					w.rest(b, in, f, stop)
				}
				return
			}
		case *ssa.Return:
			w.ret(x, st)
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			w.visit(b, b.Succs[0], st, stop)
			return
		case *ssa.If:
			w.branch(b, x, st, stop)
			return
		}
	}
}

// rest continues a block after an instruction.
func (w *ioWalk) rest(b *ssa.BasicBlock, after ssa.Instruction, st *ioState, stop stopFn) {
	seen := false
	for _, in := range b.Instrs {
		if in == after {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			w.store(x, st)
		case *ssa.Call:
			if forks := w.call(x, st); forks != nil {
				for _, f := range forks {
					w.rest(b, in, f, stop)
				}
				return
			}
		case *ssa.Return:
			w.ret(x, st)
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			w.visit(b, b.Succs[0], st, stop)
			return
		case *ssa.If:
			w.branch(b, x, st, stop)
			return
		}
	}
}

func (w *ioWalk) branch(b *ssa.BasicBlock, x *ssa.If, st *ioState, stop stopFn) {
	then, els := true, true
	cond := w.resolve(st, x.Cond)
	neg := false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			cond = w.resolve(st, u.X)
			continue
		}
		break
	}
	var ev ssa.Value
	evEq := false
	decided := false
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			for _, s := range [2][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if k, ok := s[1].(*ssa.Const); ok && k.Value == nil && isErrorType(s[0].Type()) {
					ev, evEq = w.resolve(st, s[0]), c.Op == token.EQL
				}
			}
		}
	case *ssa.Extract:
		if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 {
			if mi, ok := ta.X.(*ssa.MakeInterface); ok && isTypeParam(mi.X.Type()) {
				yes := types.TypeString(ta.AssertedType, nil) == w.T
				then, els = yes, !yes
				decided = true
			}
		}
	}
	if neg {
		then, els = els, then
		evEq = !evEq
	}
	thenSt, elsSt := st, st
	if ev != nil {
		decided = true
		switch w.isNil(st, ev) {
		case 1:
			then, els = evEq, !evEq
		case 2:
			then, els = !evEq, evEq
		default:
			thenSt, elsSt = st.clone(), st.clone()
			n, m := 1, 2
			if !evEq {
				n, m = 2, 1
			}
			thenSt.errs[ev], elsSt.errs[ev] = n, m
			for i, s := range []*ioState{thenSt, elsSt} {
				if s.pending == ev && (i == 0) == (n == 1) {
					s.pending = nil
				}
			}
		}
	}
	if !decided {
		l := evalCond(w.eval(st, x.Cond))
		if l.isConst() {
			then, els = l.c != 0, l.c == 0
		} else {
			isLoop := false
			for _, lp := range w.fi.loops {
				if lp.header == b {
					isLoop = true
				}
			}
			thenSt, elsSt = st.clone(), st.clone()
			if !isLoop {
				thenSt.conds = append(thenSt.conds, ioCond{l, true})
				elsSt.conds = append(elsSt.conds, ioCond{l, false})
			}
		}
	}
	if then {
		w.visit(b, b.Succs[0], thenSt, stop)
	}
	if els {
		w.visit(b, b.Succs[1], elsSt, stop)
	}
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func (w *ioWalk) ret(x *ssa.Return, st *ioState) {
	w.checkPending(st, x)
	n := len(x.Results)
	out := ioOut{st: st, ret: x}
	if n > 0 && isErrorType(x.Results[n-1].Type()) {
		e := w.resolve(st, x.Results[n-1])
		nilness := w.isNil(st, e)
		failed := ssa.Value(nil)
		for v, k := range st.errs {
			if k == 2 {
				failed = v
			}
		}
		if failed != nil {
			out.bad = true
			if nilness == 1 {
				w.finding("error", w.key+" "+errName(failed), w.a.P.posStr(instrPos(x)), "%s returns no error although %s failed", fnName(w.fi.fn), errName(failed))
			}
		} else if nilness != 1 {
			if _, isExt := e.(*ssa.Extract); !isExt || st.pending != e {
				out.bad = true
			}
		}
		if st.pending != nil && e != st.pending && failed == nil {
			if nilness == 1 {
				w.finding("error", w.key+" "+errName(st.pending), w.a.P.posStr(instrPos(x)), "%s returns without passing on the error of %s", fnName(w.fi.fn), errName(st.pending))
			}
		}
	}
	if n >= 2 && isErrorType(x.Results[n-1].Type()) && isCountType(x.Results[n-2].Type()) && !st.lost {
		if w.rep != nil && !w.quiet {
			w.rep.ob("count", w.key)
		}
		if !w.sameCount(st, x.Results[n-2]) {
			got := w.eval(st, x.Results[n-2])
			if w.countKnown(st, got) {
				w.finding("count", w.key, w.a.P.posStr(instrPos(x)), "%s returns a byte count of %s after moving %s", fnName(w.fi.fn), showCount(got), showCount(st.total))
			}
		}
	}
	w.outs = append(w.outs, out)
}

func isCountType(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func errName(v ssa.Value) string {
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(ssa.CallInstruction); ok {
			return callName(c)
		}
	}
	return "a call"
}

func (w *ioWalk) checkPending(st *ioState, at ssa.Instruction) {
	if st.pendAt == nil {
		return
	}
	c := st.pendAt.(*ssa.Call)
	if st.pending == nil && st.open {
		w.finding("error", w.key+" "+callName(c), w.a.P.posStr(instrPos(at)), "%s ignores the error of %s", fnName(w.fi.fn), callName(c))
		st.open = false
	}
}

// store records buffer bytes, decoded elements and replaced objects.
func (w *ioWalk) store(x *ssa.Store, st *ioState) {
	ps := w.fi.paths(x.Addr)
	if len(ps) != 1 {
		return
	}
	p := ps[0]
	vt := types.Unalias(x.Val.Type())
	if structLike(vt) && p.root.kind == 'P' {
		st.objs = append(st.objs, ioObj{p, w.fi, x.Val, vt})
		return
	}
	if !isScalar(vt) {
		return
	}
	if b, ok := vt.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && p.root.kind == 'A' && len(p.steps) == 1 && p.steps[0].kind == 'e' {
		st.words = append(st.words, ioWord{root: p.root, off: p.steps[0].lo, width: 1, order: "byte", val: w.eval(st, x.Val)})
		return
	}
	l := w.eval(st, x.Val)
	if p.root.kind == 'P' && len(l.t) == 1 && l.c == 0 && l.t[0].co == 1 && l.t[0].s.kind == 'v' {
		st.elems[l.t[0].s.key] = p
		if _, bits, _ := w.source(st, x.Val); bits < w.sizeBits(vt) && w.dataBits(vt) > 0 {
			st.narrow[l.t[0].s.key] = bits
		}
	}
}

// bufRange splits the path of a byte slice into its storage and offset.
func (w *ioWalk) bufRange(v ssa.Value) (*Root, *Lin, *Lin, bool) {
	ps := w.fi.paths(v)
	if len(ps) != 1 {
		return nil, nil, nil, false
	}
	p := ps[0]
	off := linConst(0)
	var n *Lin
	var base Path
	base = Path{root: p.root}
	for _, s := range p.steps {
		switch s.kind {
		case 'r':
			off = off.add(s.lo)
			if s.hi != nil {
				n = s.hi.sub(s.lo)
			} else if n != nil {
				n = n.sub(s.lo)
			}
		case 'f':
			return nil, nil, nil, false
		default:
			return nil, nil, nil, false
		}
	}
	if n == nil {
		n = w.fi.lenOf(base).sub(off)
	}
	return p.root, off, n, true
}

func binaryFn(f *ssa.Function) (op string, width int64, order string, ok bool) {
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/binary" || f.Signature.Recv() == nil {
		return
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil {
		return
	}
	order = n.Obj().Name()
	name := f.Name()
	op = "get"
	if strings.HasPrefix(name, "Put") {
		op = "put"
		name = name[3:]
	}
	switch name {
	case "Uint16":
		return op, 2, order, true
	case "Uint32":
		return op, 4, order, true
	case "Uint64":
		return op, 8, order, true
	}
	return
}

// source finds the memory a written word is loaded from and the narrowest
// conversion on the way, in bits.
func (w *ioWalk) source(st *ioState, v ssa.Value) (p *Path, bits, src int64) {
	bits = 1 << 30
	for {
		v = w.resolve(st, v)
		if n := w.sizeBits(v.Type()); n < bits {
			bits = n
		}
		switch x := v.(type) {
		case *ssa.Convert:
			if isFloat(x.Type()) != isFloat(x.X.Type()) {
				bits = 1 // rounds
			}
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MultiConvert:
			v = x.X
			continue
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math" && (f.Name() == "Float64bits" || f.Name() == "Float32bits") {
				v = x.Call.Args[0]
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ps := w.fi.paths(x.X); len(ps) == 1 {
					return w.held(ps[0]), bits, w.dataBits(v.Type())
				}
			}
		case *ssa.Field:
			if ps := w.fi.paths(x.X); len(ps) == 1 {
				return w.held(ps[0].field(fieldName(x.X.Type(), x.Field))), bits, w.dataBits(v.Type())
			}
		case *ssa.Index:
			if ps := w.fi.paths(x.X); len(ps) == 1 {
				q := ps[0].with(Step{kind: 'e', lo: w.fi.lin(x.Index)})
				return &q, bits, w.dataBits(v.Type())
			}
		}
		if n := w.sizeBits(v.Type()); bits == n {
			bits = 1 << 30 // no narrower than the value itself
		}
		return nil, bits, 0
	}
}

func isFloat(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// held resolves the copy of a by-value parameter.
func (w *ioWalk) held(p Path) *Path {
	if local(p.root) {
		l := w.fi.scalarAt(p)
		if len(l.t) == 1 && l.c == 0 && l.t[0].co == 1 && l.t[0].s.kind == 'p' {
			p = l.t[0].s.path
		} else {
			return nil
		}
	}
	return &p
}

// dataBits is the width of a torus or floating-point element, 0 for counts.
func (w *ioWalk) dataBits(t types.Type) int64 {
	if isTypeParam(t) {
		return w.sizeBits(t)
	}
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return w.sizeBits(t)
	}
	return 0
}

func (w *ioWalk) sizeBits(t types.Type) int64 {
	if isTypeParam(t) {
		if w.T == "uint32" {
			return 32
		}
		return 64
	}
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 8
		case types.Uint16, types.Int16:
			return 16
		case types.Uint32, types.Int32, types.Float32:
			return 32
		}
	}
	return 64
}

func (w *ioWalk) call(x *ssa.Call, st *ioState) []*ioState {
	f := x.Call.StaticCallee()
	if op, width, order, ok := binaryFn(f); ok {
		args := x.Call.Args
		buf := args[len(args)-1]
		if op == "put" {
			buf = args[len(args)-2]
		}
		root, off, _, ok := w.bufRange(buf)
		if !ok {
			return nil
		}
		wd := ioWord{root: root, off: off, width: width, order: order}
		if op == "put" {
			v := args[len(args)-1]
			wd.val = w.eval(st, v)
			p, bits, src := w.source(st, v)
			wd.elem = p
			wd.src = src
			if bits < width*8 || src > width*8 {
				wd.bits = min(bits, width*8)
			}
			// a later put to the same place replaces an earlier one
			var keep []ioWord
			for _, o := range st.words {
				if o.root == root && o.chunk == nil && len(o.loops) == 0 && o.off.eq(off) && o.width == width {
					continue
				}
				keep = append(keep, o)
			}
			st.words = append(keep, wd)
		} else {
			wd.chunk = st.last[root]
			wd.val = w.fi.opaque(x)
			if wd.chunk != nil {
				st.words = append(st.words, wd)
			}
		}
		return nil
	}
	kind := w.ioCall(x)
	if kind == 0 {
		return nil
	}
	w.checkPending(st, x)
	if st.pending != nil {
		w.finding("error", w.key+" "+errName(st.pending), w.a.P.posStr(instrPos(x)), "%s goes on to %s before looking at the error of %s", fnName(w.fi.fn), callName(x), errName(st.pending))
	}
	var nv, ev ssa.Value
	nIdx, eIdx := -1, -1
	if tup, ok := x.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if isErrorType(tup.At(i).Type()) {
				eIdx = i
				if i > 0 && isCountType(tup.At(i-1).Type()) {
					nIdx = i - 1
				}
			}
		}
		if nIdx >= 0 {
			nv = extractOf(x, nIdx)
		}
		if eIdx >= 0 {
			ev = extractOf(x, eIdx)
		}
	} else if isErrorType(x.Type()) {
		ev = x
		st.lost = true // a helper that does not report its count
	}
	st.pending, st.pendAt, st.open = ev, x, ev == nil
	var cnt *Lin
	if nv != nil {
		cnt = w.fi.opaque(nv)
	} else {
		cnt = linSym(internSym(&Sym{key: fmt.Sprintf("uncounted%d", vid(x)), kind: 'v'}))
	}
	st.total = st.total.add(cnt)
	switch kind {
	case 'w':
		root, off, n, ok := w.bufRange(x.Call.Args[0])
		if !ok {
			st.items = append(st.items, ioItem{kind: '?', pos: instrPos(x), fn: w.fi.fn})
			return nil
		}
		if len(cnt.t) == 1 {
			st.counts[cnt.t[0].s.key] = n
		}
		st.items = append(st.items, w.chunkItems(st, root, off, n, nil, x)...)
	case 'r':
		root, off, n, ok := w.bufRange(x.Call.Args[1])
		if !ok {
			st.items = append(st.items, ioItem{kind: '?', pos: instrPos(x), fn: w.fi.fn})
			return nil
		}
		if len(cnt.t) == 1 {
			st.counts[cnt.t[0].s.key] = n
		}
		_ = off
		ch := &ioChunk{root: root, n: n, pos: instrPos(x)}
		st.last[root] = ch
		st.items = append(st.items, ioItem{kind: 'R', id: ch, pos: instrPos(x), fn: w.fi.fn, chunk: n})
	case 'R':
		inLoop := w.fi.loopOf[x.Block()] != nil
		if !inLoop {
			w.finding("short-read", w.key, w.a.P.posStr(instrPos(x)), "%s reads with a single Read, which may return fewer bytes than asked for", fnName(w.fi.fn))
		}
		st.items = append(st.items, ioItem{kind: '?', pos: instrPos(x), fn: w.fi.fn})
		st.lost = true
	case 'c':
		callee := origin(f)
		if n := recvNamed(callee); n != nil && (callee.Name() == "WriteTo" || callee.Name() == "ReadFrom") {
			it := ioItem{kind: 'S', typ: n, fn: callee, pos: instrPos(x)}
			if ps := w.fi.paths(x.Call.Args[0]); len(ps) == 1 {
				it.sub, it.subOK = ps[0], true
			}
			st.items = append(st.items, it)
			return nil
		}
		outs := w.a.ioTraces(callee, w.T)
		var forks []*ioState
		for _, o := range outs {
			if o.bad {
				continue
			}
			s := st.clone()
			w.inline(x, callee, o, s)
			forks = append(forks, s)
		}
		if len(forks) == 1 {
			*st = *forks[0]
			return nil
		}
		if len(forks) == 0 {
			st.items = append(st.items, ioItem{kind: '?', pos: instrPos(x), fn: w.fi.fn})
			return nil
		}
		return forks
	default:
		st.items = append(st.items, ioItem{kind: '?', pos: instrPos(x), fn: w.fi.fn})
		st.lost = true
	}
	return nil
}

// chunkItems lays out the words known to be in a buffer.
func (w *ioWalk) chunkItems(st *ioState, root *Root, off, n *Lin, ch *ioChunk, at *ssa.Call) []ioItem {
	unk := []ioItem{{kind: '?', fn: w.fi.fn, chunk: n}}
	var ws []ioWord
	for _, o := range st.words {
		if o.root == root && o.chunk == ch {
			ws = append(ws, o)
		}
	}
	if len(ws) == 0 {
		return unk
	}
	mk := func(o ioWord) ioItem {
		it := ioItem{kind: 'w', width: o.width, order: o.order, val: o.val, elem: o.elem, bits: o.bits, src: o.src, fn: w.fi.fn}
		if at != nil {
			it.pos = instrPos(at)
		} else if ch != nil {
			it.pos = ch.pos
		}
		return it
	}
	// the last loop that fills the buffer
	if lw := ws[len(ws)-1]; len(lw.loops) > 0 {
		if len(lw.loops) != 1 || lw.loops[0].trip == nil {
			return unk
		}
		lp := lw.loops[0]
		co, lin := lw.off.coef(lp)
		if !lin || co <= 0 || !lw.off.sub(linSym(lp.sym()).scale(co)).sub(off).eq(linConst(0)) {
			return unk
		}
		same := 0
		for _, o := range ws {
			if len(o.loops) > 0 && o.loops[0] == lp {
				same++
			}
		}
		if same != 1 {
			return unk
		}
		return []ioItem{{kind: 'L', loop: lp, trip: lp.trip, body: []ioItem{mk(lw)}, chunk: n, fn: w.fi.fn, pos: mk(lw).pos}}
	}
	var out []ioItem
	sort.SliceStable(ws, func(i, j int) bool { return ws[i].off.c < ws[j].off.c })
	at0 := off
	for _, o := range ws {
		if len(o.loops) > 0 || !o.off.eq(at0) {
			continue
		}
		if lim := at0.sub(off).addc(o.width); lim.isConst() && n.isConst() && lim.c > n.c {
			break
		}
		out = append(out, mk(o))
		at0 = at0.addc(o.width)
	}
	if !at0.sub(off).eq(n) {
		return unk
	}
	return out
}

// finalize resolves read chunks and stored elements.
func (w *ioWalk) finalize(st *ioState, _ int) []ioItem {
	var fix func(its []ioItem) []ioItem
	fix = func(its []ioItem) []ioItem {
		var out []ioItem
		for _, it := range its {
			if it.kind == 'R' {
				root := it.id.root
				off := linConst(0)
				sub := w.chunkItems(st, root, off, it.id.n, it.id, nil)
				if sub[0].kind == '?' && it.id.n.isConst() && it.id.n.c <= 8 {
					// bytes taken straight from the buffer
					sub = nil
					for i := int64(0); i < it.id.n.c; i++ {
						sub = append(sub, ioItem{kind: 'w', width: 1, order: "byte", pos: it.pos, fn: it.fn,
							val: linSym(symPath(Path{root: root, steps: []Step{{kind: 'e', lo: linConst(i)}}}))})
					}
				} else if sub[0].kind == '?' {
					out = append(out, it)
					continue
				}
				for _, s := range fix(sub) {
					out = append(out, s)
				}
				continue
			}
			if it.kind == 'w' && it.val != nil && len(it.val.t) == 1 && it.elem == nil {
				if p, ok := st.elems[it.val.t[0].s.key]; ok {
					q := p
					it.elem = &q
					if b := st.narrow[it.val.t[0].s.key]; b > 0 {
						it.bits, it.src = b, it.width*8
					}
				}
			}
			if it.kind == 'L' {
				it.body = fix(it.body)
			}
			out = append(out, it)
		}
		return out
	}
	return fix(st.items)
}

// inline adds what a callee does to the stream to the caller's trace.
func (w *ioWalk) inline(x *ssa.Call, callee *ssa.Function, o ioOut, st *ioState) {
	sub := w.fi.callSubst(x, callee)
	res := map[string]*Lin{}
	cw := &ioWalk{a: w.a, T: w.T, fi: w.a.fnInfo(callee), quiet: true}
	for i, r := range o.ret.Results {
		if isScalar(r.Type()) && !isErrorType(r.Type()) {
			if e := extractOf(x, i); e != nil {
				l := cw.eval(o.st, r)
				if len(l.t) == 1 && l.c == 0 && l.t[0].co == 1 {
					res[l.t[0].s.key] = w.fi.opaque(e)
				}
			}
		}
	}
	mp := func(p Path) (Path, bool) {
		qs := w.fi.mapPath(x, callee, p)
		if len(qs) != 1 {
			return Path{}, false
		}
		return qs[0], true
	}
	var conv func(its []ioItem) []ioItem
	conv = func(its []ioItem) []ioItem {
		var out []ioItem
		for _, it := range its {
			if it.val != nil {
				if len(it.val.t) == 1 && it.val.c == 0 && res[it.val.t[0].s.key] != nil {
					it.val = res[it.val.t[0].s.key]
				} else {
					it.val = it.val.subst(sub)
				}
			}
			if it.elem != nil {
				if q, ok := mp(*it.elem); ok {
					it.elem = &q
				} else {
					it.elem = nil
					it.kind = '?'
				}
			} else if it.kind == 'w' && it.val != nil && it.src == 0 {
				if l := it.val; len(l.t) == 1 && l.c == 0 && l.t[0].co == 1 && l.t[0].s.kind == 'p' {
					q := l.t[0].s.path
					it.elem = &q
				}
			}
			if it.trip != nil {
				it.trip = it.trip.subst(sub)
			}
			if it.chunk != nil {
				it.chunk = it.chunk.subst(sub)
			}
			if it.kind == 'S' && it.subOK {
				if q, ok := mp(it.sub); ok {
					it.sub = q
				} else {
					it.subOK = false
				}
			}
			it.body = conv(it.body)
			out = append(out, it)
		}
		return out
	}
	st.items = append(st.items, conv(cw.finalize(o.st, 0))...)
	for _, c := range o.st.conds {
		st.conds = append(st.conds, ioCond{c.l.subst(sub), c.taken})
	}
	for _, ob := range o.st.objs {
		if q, ok := mp(ob.dst); ok {
			ob.dst = q
			st.objs = append(st.objs, ob)
		}
	}
}

// ioTraces lists the ways through fn, without reporting.
func (a *Analysis) ioTraces(fn *ssa.Function, T string) []ioOut {
	k := fmt.Sprintf("%p/%s", fn, T)
	if o, ok := a.ioMemo[k]; ok {
		return o
	}
	if a.ioMemo == nil {
		a.ioMemo = map[string][]ioOut{}
	}
	a.ioMemo[k] = nil
	w := &ioWalk{a: a, T: T, fi: a.fnInfo(fn), quiet: true, key: fnName(fn)}
	w.walk()
	a.ioMemo[k] = w.outs
	return w.outs
}

// trace is the finalized stream of one way through fn.
func (a *Analysis) ioTrace(fn *ssa.Function, T string, o ioOut) []ioItem {
	w := &ioWalk{a: a, T: T, fi: a.fnInfo(fn), quiet: true}
	return w.finalize(o.st, 0)
}

func showItems(its []ioItem) string {
	var parts []string
	for _, it := range its {
		switch it.kind {
		case 'w':
			s := fmt.Sprintf("%d:%s", it.width, it.order)
			if it.elem != nil {
				s += " " + it.elem.key()
			} else if it.val != nil {
				s += " =" + it.val.key()
			}
			parts = append(parts, s)
		case 'L':
			parts = append(parts, fmt.Sprintf("for k%d<%s {%s}", it.loop.id, it.trip.key(), showItems(it.body)))
		case 'S':
			parts = append(parts, fmt.Sprintf("%s(%s)", it.typ.Obj().Name(), it.sub.key()))
		default:
			parts = append(parts, string(it.kind))
		}
	}
	return strings.Join(parts, "; ")
}

func init() {
	register("iotrace", func(c *Ctx) {
		a := c.As[0]
		for _, f := range a.P.Funcs {
			if streamKind(f) == 0 || len(f.Blocks) == 0 {
				continue
			}
			for _, T := range []string{"uint32", "uint64"} {
				for _, o := range a.ioTraces(f, T) {
					if o.bad {
						continue
					}
					var cs []string
					for _, cd := range o.st.conds {
						cs = append(cs, fmt.Sprint(cd.l.key(), cd.taken))
					}
					fmt.Println(fnName(f), T, cs, "=>", showItems(a.ioTrace(f, T, o)))
					for _, ob := range o.st.objs {
						fmt.Println("    obj", ob.dst.key(), fnName(ob.fi.fn))
					}
				}
			}
		}
	})
}
