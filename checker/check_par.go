package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", checkParallel)
}

// goSite is one go statement.
type goSite struct {
	a      *Analysis
	fi     *FnInfo // the function that starts the goroutine
	g      *ssa.Go
	fn     *ssa.Function // what runs
	mc     *ssa.MakeClosure
	loops  []*Loop // loops of the parent around the go statement
	reads  []goAcc
	writes []goAcc

	shareTab map[string]bool
}

type goAcc struct {
	Acc
	mapped []Path // in the parent's frame
}

// binding is the parent's value behind a root of the goroutine's function.
func (s *goSite) binding(r *Root) (v ssa.Value, cell bool) {
	switch r.kind {
	case 'P':
		if r.idx < len(s.g.Call.Args) {
			return s.g.Call.Args[r.idx], false
		}
	case 'F':
		if s.mc != nil && r.idx < len(s.mc.Bindings) {
			b := s.mc.Bindings[r.idx]
			_, isAlloc := b.(*ssa.Alloc)
			return b, isAlloc
		}
	}
	return nil, false
}

// objects the root refers to, in the parent's frame.
func (s *goSite) objects(r *Root) []Path {
	v, cell := s.binding(r)
	if v == nil {
		return nil
	}
	var out []Path
	for _, b := range s.fi.paths(v) {
		if cell || r.kind == 'F' && b.root.kind == 'F' && len(b.steps) == 0 {
			out = append(out, s.fi.content(b, 0)...)
		} else {
			out = append(out, b)
		}
	}
	return out
}

func (s *goSite) isChan(r *Root) bool {
	v, _ := s.binding(r)
	if v == nil {
		return false
	}
	t := types.Unalias(v.Type())
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// uniq says that the scalar behind sym differs between instances of the
// goroutine: "loop" (a counter of the starting loop) or "job" (received).
func (s *goSite) uniq(y *Sym) string {
	if y.kind != 'p' || y.path.root == nil {
		return ""
	}
	r := y.path.root
	if r.kind != 'P' && r.kind != 'F' {
		return ""
	}
	if s.isChan(r) && len(y.path.steps) >= 1 && y.path.steps[0].kind == 'u' {
		return "job"
	}
	if len(y.path.steps) > 0 {
		return ""
	}
	v, cell := s.binding(r)
	if v == nil {
		return ""
	}
	var l *Lin
	if cell {
		al := v.(*ssa.Alloc)
		// the variable belongs to one iteration only if it is made in the loop
		in := false
		for _, lp := range s.loops {
			if lp.blocks[al.Block()] {
				in = true
			}
		}
		if !in {
			return ""
		}
		var st *ssa.Store
		for _, ref := range *al.Referrers() {
			if x, ok := ref.(*ssa.Store); ok && x.Addr == al {
				if st != nil && !loopVarCopy(x) && !loopVarCopy(st) {
					return ""
				}
				if st == nil || loopVarCopy(st) {
					st = x
				}
			}
		}
		if st == nil {
			return ""
		}
		l = s.fi.lin(st.Val)
	} else {
		l = s.fi.lin(v)
	}
	n := 0
	for _, lp := range s.loops {
		c, ok := l.coef(lp)
		if !ok {
			return ""
		}
		if c != 0 {
			n++
		}
	}
	if n == 1 && len(s.loops) >= 1 {
		if len(s.loops) == 1 {
			return "loop"
		}
		return ""
	}
	return ""
}

func loopVarCopy(st *ssa.Store) bool {
	// i (per-iteration copy) = i + 1 at the end of an iteration
	b, ok := st.Val.(*ssa.BinOp)
	return ok && b.Op == token.ADD
}

// linUniq classifies an index expression: which unique symbols it is an
// injective function of.
func (s *goSite) linUniq(l *Lin) (syms []*Sym) {
	if l == nil {
		return nil
	}
	for _, t := range l.t {
		if s.uniq(t.s) != "" {
			syms = append(syms, t.s)
			continue
		}
		dep := false
		for _, v := range s.uniqIn(t.s) {
			_ = v
			dep = true
		}
		if dep {
			// i*D: injective when D is a dimension and combined with a range of length D
			return nil
		}
	}
	if len(syms) == 1 {
		return syms
	}
	return nil
}

func (s *goSite) uniqIn(y *Sym) []*Sym {
	var out []*Sym
	linSym(y).subst(func(z *Sym) *Lin {
		if s.uniq(z) != "" {
			out = append(out, z)
		}
		return nil
	})
	return out
}

// jobArity is the number of scalars in one received job (by channel root).
func (s *goSite) jobArity(r *Root) int {
	v, _ := s.binding(r)
	t := types.Unalias(v.Type())
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	ch := t.Underlying().(*types.Chan)
	switch u := types.Unalias(ch.Elem()).Underlying().(type) {
	case *types.Array:
		return int(u.Len())
	case *types.Struct:
		return u.NumFields()
	}
	return 1
}

// separated: accesses x and y, made by two different instances, never touch
// the same memory, because a common index differs.
func (s *goSite) separated(x, y Path) bool {
	if x.root == y.root && s.ownSlot(x.root) {
		return true
	}
	if x.root == y.root && s.ownShare(x) && s.ownShare(y) {
		return true
	}
	jobs := map[string]map[string]bool{}
	divs := map[string]int{}
	for i := 0; i < len(x.steps) && i < len(y.steps); i++ {
		a, b := x.steps[i], y.steps[i]
		if a.kind == 'f' || b.kind == 'f' {
			if a.kind != b.kind || a.field != b.field {
				return true // different fields (or different shapes)
			}
			continue
		}
		if a.kind == 'e' && b.kind == 'e' {
			d := a.lo.sub(b.lo)
			if d.isConst() && d.c != 0 && len(s.linUniq(a.lo)) == 0 && len(s.uniqInLin(a.lo)) == 0 {
				return true
			}
			if !a.lo.eq(b.lo) {
				continue
			}
			if i == 0 && !s.distinctElems(x.root) {
				continue
			}
			if debugPar {
				fmt.Println("  idx", a.lo.key(), x.String())
			}
			// a range of positions of its own that the instance goes through:
			// it takes arithmetic to tell whether the ranges are apart
			if s.ownRange(a.lo) {
				return true
			}
			// quotient and remainder of the counter (or job) by the same number
			if len(a.lo.t) == 1 && a.lo.t[0].co != 0 {
				if t := a.lo.t[0].s; t.kind == 'o' && len(t.args) == 2 && len(s.linUniq(t.args[0])) == 1 && len(s.uniqInLin(t.args[1])) == 0 {
					k := t.args[0].key() + "|" + t.args[1].key()
					switch t.op {
					case "/", "div":
						divs[k] |= 1
					case "%":
						divs[k] |= 2
					}
					if divs[k] == 3 && (s.uniq(s.linUniq(t.args[0])[0]) == "loop" || s.jobArity(s.linUniq(t.args[0])[0].path.root) == 1) {
						return true
					}
				}
			}
			for _, y := range s.linUniq(a.lo) {
				if s.uniq(y) == "loop" {
					return true
				}
				k := y.path.root.key
				if jobs[k] == nil {
					jobs[k] = map[string]bool{}
				}
				jobs[k][y.path.key()] = true
				if len(jobs[k]) >= s.jobArity(y.path.root) {
					return true
				}
			}
			continue
		}
		if a.kind == 'r' && b.kind == 'r' && a.hi != nil && b.hi != nil && a.lo.eq(b.lo) && a.hi.eq(b.hi) {
			// [c+i*D, c+(i+1)*D)
			for _, u := range s.uniqInLin(a.lo) {
				if s.uniq(u) != "loop" {
					continue
				}
				next := a.lo.subst(func(z *Sym) *Lin {
					if z == u {
						return linSym(u).addc(1)
					}
					return nil
				})
				if next.eq(a.hi) {
					return true
				}
			}
		}
		if disjointStep(a, b) && len(s.uniqInLin(a.lo)) == 0 && len(s.uniqInLin(b.lo)) == 0 {
			return true
		}
	}
	return false
}

// ownRange: the index is made of the counter of the starting loop and of a
// counter of the goroutine itself, as in a share of the work per worker.
func (s *goSite) ownRange(l *Lin) bool {
	own := false
	for _, u := range s.uniqInLin(l) {
		if s.uniq(u) == "loop" {
			own = true
		}
	}
	return own && linHas(l, func(y *Sym) bool { return y.kind == 'k' })
}

// ownShare: the goroutine picks an element on the way to p by a position that
// its own number and a counter of its own determine.
func (s *goSite) ownShare(p Path) bool {
	for i, st := range p.steps {
		if st.kind == 'f' || !s.shares()[(Path{root: p.root, steps: p.steps[:i]}).shape()] {
			continue
		}
		return true
	}
	return false
}

// shares lists the slices that are only ever indexed that way.
func (s *goSite) shares() map[string]bool {
	if s.shareTab != nil {
		return s.shareTab
	}
	s.shareTab = map[string]bool{}
	if len(s.loops) != 1 || len(s.fn.Blocks) == 0 {
		return s.shareTab
	}
	fi := s.a.fnInfo(s.fn)
	var derived func(v ssa.Value, seen map[ssa.Value]bool) (own, counter bool)
	derived = func(v ssa.Value, seen map[ssa.Value]bool) (own, counter bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		var in []ssa.Value
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			l := fi.lin(v)
			own = len(l.t) == 1 && s.uniq(l.t[0].s) == "loop"
			return
		case *ssa.Phi:
			counter = fi.loopOf[x.Block()] != nil && fi.loopOf[x.Block()].header == x.Block()
			in = x.Edges
		case *ssa.BinOp:
			in = []ssa.Value{x.X, x.Y}
		case *ssa.Convert:
			in = []ssa.Value{x.X}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if l := fi.lin(v); len(l.t) == 1 {
					own = s.uniq(l.t[0].s) == "loop"
				}
				return
			}
			in = []ssa.Value{x.X}
		}
		for _, y := range in {
			o, c := derived(y, seen)
			own, counter = own || o, counter || c
		}
		return
	}
	not := map[string]bool{}
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			own, counter := derived(ia.Index, map[ssa.Value]bool{})
			for _, p := range fi.paths(ia.X) {
				if own && counter {
					s.shareTab[p.shape()] = true
				} else {
					not[p.shape()] = true
				}
			}
		}
	}
	for k := range not {
		delete(s.shareTab, k)
	}
	return s.shareTab
}

// ownSlot: the root is the instance's own element of a list of distinct
// objects, picked by the counter of the starting loop when it was started.
func (s *goSite) ownSlot(r *Root) bool {
	v, cell := s.binding(r)
	if v == nil || len(s.loops) != 1 {
		return false
	}
	if cell {
		al := v.(*ssa.Alloc)
		if !s.loops[0].blocks[al.Block()] {
			return false
		}
		var st *ssa.Store
		for _, ref := range *al.Referrers() {
			if x, ok := ref.(*ssa.Store); ok && x.Addr == al {
				if st != nil {
					return false
				}
				st = x
			}
		}
		if st == nil {
			return false
		}
		v = st.Val
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || !s.loops[0].blocks[ld.Block()] {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	c, ok := s.fi.lin(ia.Index).coef(s.loops[0])
	if !ok || c == 0 {
		return false
	}
	return s.distinctIn(s.fi.paths(ia.X))
}

func (s *goSite) uniqInLin(l *Lin) []*Sym {
	if l == nil {
		return nil
	}
	var out []*Sym
	l.subst(func(z *Sym) *Lin {
		if s.uniq(z) != "" {
			out = append(out, z)
		}
		return nil
	})
	return out
}

// distinctElems: the elements of a list made by the starting function are
// different objects (made anew for every slot).
func (s *goSite) distinctElems(r *Root) bool { return s.distinctIn(s.objects(r)) }

func (s *goSite) distinctIn(objs []Path) bool {
	for _, o := range objs {
		if o.root.kind != 'A' || len(o.steps) > 0 {
			continue
		}
		for _, rec := range s.fi.stores[o.root] {
			if len(rec.steps) == 0 || rec.steps[0].kind == 'f' || !pointerful(rec.val.Type()) {
				continue
			}
			if rec.steps[0].kind == 'e' && rec.steps[0].lo.isConst() && s.fi.loopOf[rec.instr.Block()] == nil {
				continue
			}
			for _, q := range s.fi.paths(rec.val) {
				if !local(q.root) {
					return false
				}
				in, ok := q.root.v.(ssa.Instruction)
				if !ok {
					return false
				}
				for _, l := range s.fi.loopsOf(rec.instr.Block()) {
					if !l.blocks[in.Block()] {
						return false
					}
				}
			}
		}
	}
	return true
}

func (a *Analysis) goSitesOf(f *ssa.Function) []*goSite {
	var out []*goSite
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			s := &goSite{a: a, fi: fi, g: g, fn: a.callee(g), mc: fi.closureOf(g), loops: fi.loopsOf(b)}
			out = append(out, s)
			if s.fn == nil {
				continue
			}
			sum := a.summary(s.fn)
			mp := func(p Path) []Path {
				if p.root.kind == 'G' {
					return []Path{p}
				}
				var res []Path
				for _, o := range s.objects(p.root) {
					res = append(res, fi.extend(o, eraseIdx(p.steps), 0)...)
				}
				return res
			}
			redirect := a.redirects(s.fn)
			for _, x := range sortedAccs(sum.Writes) {
				if s.isChanPath(x.path) {
					continue
				}
				s.writes = append(s.writes, goAcc{x, mp(x.path)})
				for _, p := range redirect(x.path) {
					x.path = p
					s.writes = append(s.writes, goAcc{x, mp(p)})
				}
			}
			for _, x := range sortedAccs(sum.Reads) {
				if s.isChanPath(x.path) {
					continue
				}
				s.reads = append(s.reads, goAcc{x, mp(x.path)})
				for _, p := range redirect(x.path) {
					x.path = p
					s.reads = append(s.reads, goAcc{x, mp(p)})
				}
			}
		}
	}
	return out
}

// redirects: f stores a reference it was given into a place of another object
// it was given; accesses through that place reach the first object.
func (a *Analysis) redirects(f *ssa.Function) func(Path) []Path {
	type redir struct {
		at Path
		to []Path
	}
	var rs []redir
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !pointerful(st.Val.Type()) {
				continue
			}
			for _, p := range fi.paths(st.Addr) {
				if local(p.root) || len(p.steps) == 0 {
					continue
				}
				var to []Path
				for _, q := range fi.paths(st.Val) {
					if !local(q.root) && q.root.kind != 'U' {
						to = append(to, q)
					}
				}
				if len(to) > 0 {
					rs = append(rs, redir{p, to})
				}
			}
		}
	}
	return func(p Path) []Path {
		var out []Path
		for _, r := range rs {
			n := len(r.at.steps)
			if r.at.root != p.root || len(p.steps) <= n || !overlapSteps(r.at.steps, p.steps[:n]) {
				continue
			}
			for _, q := range r.to {
				for _, s := range p.steps[n:] {
					q = q.with(s)
				}
				out = append(out, q)
			}
		}
		return out
	}
}

func (s *goSite) isChanPath(p Path) bool {
	return (p.root.kind == 'P' || p.root.kind == 'F') && s.isChan(p.root)
}

func overlapAny(x, y []Path) bool {
	for _, p := range x {
		for _, q := range y {
			if p.root == q.root && overlapSteps(p.steps, q.steps) {
				return true
			}
		}
	}
	return false
}

// syncCall recognises a method call on a sync.WaitGroup (or Mutex).
func syncCall(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
		return ""
	}
	if f.Signature.Recv() == nil {
		return ""
	}
	return namedOf(f.Signature.Recv().Type()).Obj().Name() + "." + f.Name()
}

// C02: parallel routines are free of data races and joined.
func checkParallel(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[goroutine-disjoint] what one goroutine writes, no other instance of the goroutine, no sibling goroutine and no code of the starting function before the join reads or writes; instances are told apart by the counter of the starting loop, or by all components of a received job, indexing the same list of distinct objects.",
		"[goroutine-joined] every path from a go statement to the end of the function passes the join (WaitGroup.Wait), every path through the goroutine signals it exactly after its last access, and the counter is raised by the number of goroutines before they start.",
		"[jobs-distinct] every job sent to the workers is composed of the counters of all loops around the send, so that no two jobs are equal, and the job channel is closed on every path.")
	r.floor("goroutine-disjoint", 60)
	r.floor("goroutine-joined", 10)
	r.floor("jobs-distinct", 6)
	for _, a := range c.As {
		fs := append([]*ssa.Function(nil), a.P.Funcs...)
		for _, f := range fs {
			if len(f.Blocks) == 0 {
				continue
			}
			sites := a.goSitesOf(f)
			if len(sites) == 0 {
				continue
			}
			r.Funcs[fnName(f)] = true
			for si, s := range sites {
				if s.fn == nil {
					r.fail("goroutine-disjoint", fnName(f)+" go statement", a.P.posStr(s.g.Pos()), "%s starts a goroutine whose function cannot be determined", fnName(f))
					continue
				}
				r.Funcs[fnName(s.fn)] = true
				a.checkInstances(r, f, s)
				for sj := si + 1; sj < len(sites); sj++ {
					a.checkSiblings(r, f, s, sites[sj])
				}
				a.checkParent(r, f, s)
				a.checkJoin(r, f, s)
				a.checkJobs(r, f, s)
			}
		}
	}
}

func (a *Analysis) checkInstances(r *Report, f *ssa.Function, s *goSite) {
	for _, w := range s.writes {
		key := fnName(f) + " " + s.show(w.path)
		r.ob("goroutine-disjoint", key)
		if w.path.root.kind == 'G' {
			r.fail("goroutine-disjoint", key, a.P.posStr(w.pos), "a goroutine started by %s writes the package-level variable %s", fnName(f), w.path.root.key)
			continue
		}
		if len(s.loops) == 0 {
			continue // one instance
		}
		bad := func(y goAcc, how string) {
			r.fail("goroutine-disjoint", key, a.P.posStr(w.pos), "the goroutines started by %s at %s share %s: each may write it (in %s) while another %s %s (in %s, %s)",
				fnName(f), a.P.posStr(s.g.Pos()), s.show(w.path), fnName(w.fn), how, s.show(y.path), fnName(y.fn), a.P.posStr(y.pos))
		}
		for _, y := range s.writes {
			if a.instConflict(s, w, y) {
				bad(y, "writes")
				break
			}
		}
		for _, y := range s.reads {
			if a.instConflict(s, w, y) {
				bad(y, "reads")
				break
			}
		}
	}
}

func (a *Analysis) instConflict(s *goSite, w, y goAcc) bool {
	if w.path.root == y.path.root {
		return !s.separated(w.path, y.path) && overlapSteps(eraseIdx(w.path.steps), eraseIdx(y.path.steps))
	}
	if s.privateElem(w.path) || s.privateElem(y.path) {
		// memory of an element that only this instance has
		var ws, ys []Path
		for _, p := range w.mapped {
			if !local(p.root) {
				ws = append(ws, p)
			}
		}
		for _, p := range y.mapped {
			if !local(p.root) {
				ys = append(ys, p)
			}
		}
		return overlapAny(ws, ys)
	}
	return overlapAny(w.mapped, y.mapped)
}

// privateElem: the access goes through the instance's own element of a list.
func (s *goSite) privateElem(p Path) bool {
	return s.separated(p, p)
}

func (a *Analysis) checkSiblings(r *Report, f *ssa.Function, s, t *goSite) {
	if t.fn == nil {
		return
	}
	chk := func(ws []goAcc, ys []goAcc, how string) {
		for _, w := range ws {
			for _, y := range ys {
				if overlapAny(w.mapped, y.mapped) {
					r.fail("goroutine-disjoint", fnName(f)+" siblings "+s.show(w.path), a.P.posStr(w.pos), "one goroutine started by %s writes memory that another one %s (%s)", fnName(f), how, a.P.posStr(y.pos))
				}
			}
		}
	}
	chk(s.writes, t.writes, "writes")
	chk(s.writes, t.reads, "reads")
	chk(t.writes, s.reads, "reads")
	r.ob("goroutine-disjoint", fnName(f)+" siblings")
}

// checkParent: code of the starting function that runs before the join.
func (a *Analysis) checkParent(r *Report, f *ssa.Function, s *goSite) {
	if len(s.writes) == 0 {
		return
	}
	dummy := newSummary(f)
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, from int)
	visit = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if _, isDefer := in.(*ssa.Defer); !isDefer && syncCall(in) == "WaitGroup.Wait" {
				return
			}
			if in == s.g {
				if from != i+1 {
					// next instance
				}
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			if _, ok := in.(*ssa.MakeClosure); ok {
				continue
			}
			it := a.itemOf(s.fi, in, dummy)
			if it == nil {
				continue
			}
			for _, x := range it.writes {
				if s.nextInstance(x.path.root, in) {
					continue
				}
				for _, w := range append(append([]goAcc(nil), s.writes...), s.reads...) {
					if a.parentConflict(s, w, x) {
						r.fail("goroutine-disjoint", fnName(f)+" before join "+s.show(w.path), a.P.posStr(instrPos(in)), "%s writes memory that a goroutine it started uses (%s), before the goroutine has been joined", fnName(f), a.P.posStr(w.pos))
					}
				}
			}
			for _, x := range it.reads {
				if s.nextInstance(x.path.root, in) {
					continue
				}
				for _, w := range s.writes {
					if a.parentConflict(s, w, x) {
						r.fail("goroutine-disjoint", fnName(f)+" before join "+s.show(w.path), a.P.posStr(instrPos(in)), "%s reads memory that a goroutine it started writes (%s), before the goroutine has been joined", fnName(f), a.P.posStr(w.pos))
					}
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				visit(n, 0)
			}
		}
	}
	b := s.g.Block()
	for i, in := range b.Instrs {
		if in == s.g {
			visit(b, i+1)
		}
	}
}

// nextInstance: between the go statement and the access, the local object is
// made anew, so that it is not the one the goroutine has.
func (s *goSite) nextInstance(r *Root, at ssa.Instruction) bool {
	if r.kind != 'A' || len(s.loops) == 0 {
		return false
	}
	al, ok := r.v.(ssa.Instruction)
	if !ok || !s.loops[0].blocks[al.Block()] {
		return false
	}
	reach := false
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, i int)
	visit = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == al {
				return
			}
			if b.Instrs[i] == at {
				reach = true
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				visit(n, 0)
			}
		}
	}
	b := s.g.Block()
	for i, in := range b.Instrs {
		if in == s.g {
			visit(b, i+1)
		}
	}
	return !reach
}

// parentConflict compares an access of the goroutine with one of the parent.
func (a *Analysis) parentConflict(s *goSite, w goAcc, x Acc) bool {
	if !overlapAny(w.mapped, []Path{{root: x.path.root, steps: eraseIdx(x.path.steps)}}) {
		return false
	}
	// the parent handles the slot of the next instance only
	for _, o := range s.objects(w.path.root) {
		if o.root != x.path.root {
			continue
		}
		n := len(o.steps)
		for i := range w.path.steps {
			j := n + i
			if j >= len(x.path.steps) {
				break
			}
			p, q := w.path.steps[i], x.path.steps[j]
			if p.kind == 'e' && q.kind == 'e' && len(s.linUniq(p.lo)) == 1 {
				if _, ok := q.lo.coef(s.loops[0]); ok {
					if c, _ := q.lo.coef(s.loops[0]); c != 0 {
						return false
					}
				}
			}
		}
	}
	return true
}

func (a *Analysis) checkJoin(r *Report, f *ssa.Function, s *goSite) {
	key := fnName(f) + " " + s.fn.Name()
	// does the goroutine signal a WaitGroup, close a channel or send results?
	done, deferred := a.signals(s.fn)
	if len(done) == 0 && !deferred {
		if closesChan(s.fn) {
			return // a producer: ends when its consumers have taken everything
		}
		r.ob("goroutine-joined", key)
		r.fail("goroutine-joined", key, a.P.posStr(s.g.Pos()), "%s starts a goroutine that signals neither a WaitGroup nor a channel", fnName(f))
		return
	}
	r.ob("goroutine-joined", key+" waits")
	// every path from go to return passes Wait
	if p := pathAvoiding(s.g, func(in ssa.Instruction) bool { return syncCall(in) == "WaitGroup.Wait" }); p != nil {
		r.fail("goroutine-joined", key+" waits", a.P.posStr(s.g.Pos()), "%s may return (%s) without waiting for the goroutine started at %s", fnName(f), a.P.posStr(instrPos(p)), a.P.posStr(s.g.Pos()))
	}
	r.ob("goroutine-joined", key+" signals")
	if !deferred {
		// every path through the goroutine signals
		entry := s.fn.Blocks[0].Instrs[0]
		isDone := func(in ssa.Instruction) bool { return done[in] }
		if !isDone(entry) {
			if p := pathAvoiding(entry, isDone); p != nil {
				r.fail("goroutine-joined", key+" signals", a.P.posStr(instrPos(p)), "a path through the goroutine started by %s ends without signalling its end", fnName(f))
			}
		}
		// nothing after the signal
		dummy := newSummary(s.fn)
		cfi := a.fnInfo(s.fn)
		for d := range done {
			after(d, func(in ssa.Instruction) {
				if it := a.itemOf(cfi, in, dummy); it != nil {
					for _, w := range it.writes {
						if w.path.root.kind == 'F' || w.path.root.kind == 'P' {
							r.fail("goroutine-joined", key+" signals", a.P.posStr(instrPos(in)), "the goroutine started by %s writes %s after it has signalled its end", fnName(f), s.show(w.path))
						}
					}
				}
				if done[in] {
					r.fail("goroutine-joined", key+" signals", a.P.posStr(instrPos(in)), "the goroutine started by %s may signal its end twice", fnName(f))
				}
			})
		}
	}
	// the counter
	r.ob("goroutine-joined", key+" counter")
	var adds []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if syncCall(in) == "WaitGroup.Add" {
				if cl, ok := in.(*ssa.Call); ok {
					adds = append(adds, cl)
				}
			}
		}
	}
	if len(adds) != 1 {
		if len(adds) == 0 {
			r.fail("goroutine-joined", key+" counter", a.P.posStr(s.g.Pos()), "%s never raises the counter of the WaitGroup for the goroutine", fnName(f))
		}
		return
	}
	ad := adds[0]
	n := s.fi.lin(ad.Call.Args[1])
	if !before(ad, s.g) {
		r.fail("goroutine-joined", key+" counter", a.P.posStr(ad.Pos()), "%s raises the counter of the WaitGroup after it has started the goroutine", fnName(f))
		return
	}
	al := s.fi.loopsOf(ad.Block())
	switch {
	case len(al) == len(s.loops):
		if n.isConst() && n.c != 1 {
			r.fail("goroutine-joined", key+" counter", a.P.posStr(ad.Pos()), "%s raises the counter of the WaitGroup by %d for one goroutine", fnName(f), n.c)
		}
	case len(al)+1 == len(s.loops):
		// go in every iteration
		l := s.loops[0]
		if l.trip != nil && l.trip.nonNeg() && !l.trip.eq(n) {
			if d := l.trip.sub(n); d.isConst() {
				r.fail("goroutine-joined", key+" counter", a.P.posStr(ad.Pos()), "%s starts %s goroutines but raises the counter of the WaitGroup by %s", fnName(f), l.trip.key(), n.key())
			}
		}
	}
}

// signals finds the calls of WaitGroup.Done in a goroutine.
func (a *Analysis) signals(f *ssa.Function) (map[ssa.Instruction]bool, bool) {
	done := map[ssa.Instruction]bool{}
	deferred := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if syncCall(in) == "WaitGroup.Done" {
				if _, ok := in.(*ssa.Defer); ok {
					if b == f.Blocks[0] {
						deferred = true
					}
					continue
				}
				if _, ok := in.(*ssa.Call); ok {
					done[in] = true
				}
			}
		}
	}
	return done, deferred
}

func closesChan(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
			}
		}
	}
	return false
}

// pathAvoiding finds a return reachable from in without meeting stop.
func pathAvoiding(in ssa.Instruction, stop func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var res ssa.Instruction
	var visit func(b *ssa.BasicBlock, i int)
	visit = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if res != nil || stop(b.Instrs[i]) {
				return
			}
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				res = b.Instrs[i]
				return
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				visit(n, 0)
			}
		}
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			visit(in.Block(), i+1)
		}
	}
	return res
}

// after calls f for every instruction reachable after in.
func after(in ssa.Instruction, f func(ssa.Instruction)) {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, i int)
	visit = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			f(b.Instrs[i])
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				visit(n, 0)
			}
		}
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			visit(in.Block(), i+1)
		}
	}
}

func before(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		for _, in := range x.Block().Instrs {
			if in == x {
				return true
			}
			if in == y {
				return false
			}
		}
	}
	return x.Block().Dominates(y.Block())
}

// checkJobs: what the workers receive.
func (a *Analysis) checkJobs(r *Report, f *ssa.Function, s *goSite) {
	fi := a.fnInfo(s.fn)
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			snd, ok := in.(*ssa.Send)
			if !ok {
				continue
			}
			key := fnName(f) + " jobs"
			r.ob("jobs-distinct", key)
			comps := sentScalars(fi, snd.X)
			for _, l := range fi.loopsOf(b) {
				found := false
				quo, rem := false, false
				for _, x := range comps {
					if c, ok := x.coef(l); ok && c != 0 {
						found = true
					}
					if !linHas(x, func(y *Sym) bool { return y.kind == 'k' && y.loop == l }) {
						continue
					}
					// a position of a list taken apart
					switch x.topOp() {
					case "/", "div", ">>":
						quo = true
					case "%", "&":
						rem = true
					default:
						found = true
					}
				}
				found = found || quo && rem
				if len(comps) > 0 && !found {
					r.fail("jobs-distinct", key, a.P.posStr(snd.Pos()), "the jobs that %s sends to its workers do not include the counter of a loop around the send: two workers may get the same job", fnName(f))
				}
			}
			r.ob("jobs-distinct", key+" closed")
			closed := false
			for _, b := range s.fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					bi, ok := c.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "close" {
						continue
					}
					if _, isD := in.(*ssa.Defer); isD && b == s.fn.Blocks[0] {
						closed = true
					}
					if _, isC := in.(*ssa.Call); isC {
						if pathAvoiding(s.fn.Blocks[0].Instrs[0], func(x ssa.Instruction) bool { return x == in }) == nil {
							closed = true
						}
						after(in, func(x ssa.Instruction) {
							if _, ok := x.(*ssa.Send); ok {
								r.fail("jobs-distinct", key+" closed", a.P.posStr(in.Pos()), "the job channel of %s may be closed before all jobs are sent", fnName(f))
							}
						})
					}
				}
			}
			if !closed {
				r.fail("jobs-distinct", key+" closed", a.P.posStr(snd.Pos()), "the job channel of %s is not closed on every path: its workers never end", fnName(f))
			}
		}
	}
}

// topOp is the operator l is an application of, if any.
func (l *Lin) topOp() string {
	if len(l.t) == 1 && l.t[0].s.kind == 'o' {
		return l.t[0].s.op
	}
	return ""
}

func sentScalars(fi *FnInfo, v ssa.Value) []*Lin {
	if isInt(v.Type()) {
		return []*Lin{fi.lin(v)}
	}
	// a composite value: the scalars stored into it
	var out []*Lin
	if ld, ok := v.(*ssa.UnOp); ok {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				switch x := ref.(type) {
				case *ssa.IndexAddr:
					for _, r2 := range *x.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
							out = append(out, fi.lin(st.Val))
						}
					}
				case *ssa.FieldAddr:
					for _, r2 := range *x.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x && isInt(st.Val.Type()) {
							out = append(out, fi.lin(st.Val))
						}
					}
				}
			}
		}
	}
	return out
}

// show renders a path of the goroutine's function.
func (s *goSite) show(p Path) string {
	return strings.TrimPrefix(showPath(s.fn, p), "*")
}

var debugPar = os.Getenv("DEBUG_PAR") != ""
var _ = sort.Strings
