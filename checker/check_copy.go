package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", checkSafeCopy)
}

// methodsOf lists the methods declared on a named type (generic origin).
func (a *Analysis) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range a.P.Funcs {
		if r := recvNamed(f); r != nil && r.Origin() == n.Origin() && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// sharedRef is memory of a result that belongs to an argument (or to a
// package-level variable): the place in the result, and the owner's path.
type sharedRef struct {
	at  []string
	ref Path
	typ types.Type // type of what is shared: a slice, pointer's struct, map, ...
}

func (s sharedRef) place() string { return strings.Join(s.at, ".") }

// refWalk follows everything reachable from a fresh object.
type refWalk struct {
	refs    []sharedRef
	unknown []string
	fresh   int      // freshly allocated parts met
	unset   []string // fields of fresh structures that nothing is stored to
	busy    map[string]bool
}

// walk visits the memory at p (a place of type t in fi's frame); conv maps a
// path of fi's frame into the frame of the function under analysis.
func (w *refWalk) walk(fi *FnInfo, p Path, t types.Type, at []string, depth int, conv func(Path) []Path) {
	t = types.Unalias(t)
	if isScalar(t) || !pointerful(t) && !structLike(t) {
		return
	}
	if depth > 40 {
		w.unknown = append(w.unknown, strings.Join(at, "."))
		return
	}
	bk := fmt.Sprintf("%p/%s/%s", fi, p.key(), t)
	if w.busy[bk] {
		return
	}
	w.busy[bk] = true
	defer delete(w.busy, bk)

	if !local(p.root) {
		// belongs to an argument of this frame
		for _, q := range conv(p) {
			if pointerful(t) {
				w.refs = append(w.refs, sharedRef{append([]string(nil), at...), q, t})
			}
		}
		return
	}
	if p.root.kind == 'C' && p.root.inner != nil {
		if call, ok := p.root.v.(ssa.CallInstruction); ok {
			callee := fi.a.callee(call)
			if callee != nil && len(callee.Blocks) > 0 {
				if !fi.storedUnder(p) && !fi.storedInto(call) {
					cfi := fi.a.fnInfo(callee)
					w.walk(cfi, Path{root: p.root.inner, steps: eraseIdx(p.steps)}, t, at, depth+1, func(q Path) []Path {
						var out []Path
						for _, m := range fi.mapPath(call, callee, q) {
							if local(m.root) {
								// an argument that is itself fresh in this frame
								sub := &refWalk{busy: w.busy}
								sub.walk(fi, m, t, at, depth+1, conv)
								w.refs = append(w.refs, sub.refs...)
								w.unknown = append(w.unknown, sub.unknown...)
								continue
							}
							out = append(out, conv(m)...)
						}
						return out
					})
					return
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		// p is the cell that holds the reference, unless p is the object itself
		var elem types.Type
		switch v := u.(type) {
		case *types.Pointer:
			elem = v.Elem()
		case *types.Slice:
			elem = v.Elem()
		case *types.Map:
			elem = v.Elem()
		default:
			return
		}
		if len(p.steps) == 0 && p.root.v != nil && refersItself(p.root.v, t) {
			w.fresh++
			if _, isP := u.(*types.Pointer); isP {
				w.walk(fi, p, elem, at, depth+1, conv)
			} else if pointerful(elem) {
				w.walkContents(fi, p.with(Step{kind: 'u'}), elem, append(at, "[]"), depth+1, conv)
			}
			return
		}
		for _, q := range fi.content(p, 0) {
			if q.key() == p.key() {
				continue // nothing stored: nil
			}
			w.walk(fi, q, t, at, depth+1, conv)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !pointerful(f.Type()) {
				continue
			}
			c := p.with(Step{kind: 'f', field: f.Name()})
			at2 := append(append([]string(nil), at...), f.Name())
			w.walkContents(fi, c, f.Type(), at2, depth+1, conv)
		}
	case *types.Array:
		c := p.with(Step{kind: 'u'})
		w.walkContents(fi, c, u.Elem(), append(at, "[]"), depth+1, conv)
	}
}

// walkContents follows everything that may be stored in the cell c. A place is
// unset only if none of the alternatives sets it.
func (w *refWalk) walkContents(fi *FnInfo, c Path, t types.Type, at []string, depth int, conv func(Path) []Path) {
	qs := fi.content(c, 0)
	base := len(w.unset)
	miss := map[string]int{}
	for _, q := range qs {
		n := len(w.unset)
		w.walkContent(fi, c, q, t, at, depth, conv)
		seen := map[string]bool{}
		for _, u := range w.unset[n:] {
			if !seen[u] {
				seen[u] = true
				miss[u]++
			}
		}
	}
	w.unset = w.unset[:base]
	for u, k := range miss {
		if k == len(qs) {
			w.unset = append(w.unset, u)
		}
	}
}

// walkContent: q is what was found stored in the cell c (c itself if nothing).
func (w *refWalk) walkContent(fi *FnInfo, c, q Path, t types.Type, at []string, depth int, conv func(Path) []Path) {
	if q.key() == c.key() {
		switch types.Unalias(t).Underlying().(type) {
		case *types.Struct, *types.Array:
			w.walk(fi, q, t, at, depth, conv) // fields stored one by one
		default:
			if c.root.kind == 'C' {
				w.walk(fi, q, t, at, depth, conv)
				return
			}
			w.unset = append(w.unset, strings.Join(at, "."))
		}
		return
	}
	w.walk(fi, q, t, at, depth, conv)
}

// refersItself: v (an allocation or call) is, as a value of reference type t,
// the object itself and not a cell holding it.
func refersItself(v ssa.Value, t types.Type) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return true
	case *ssa.Alloc:
		e := types.Unalias(x.Type()).Underlying().(*types.Pointer).Elem()
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Pointer:
			return types.Identical(types.Unalias(e).Underlying(), types.Unalias(u.Elem()).Underlying()) || sameNamed(e, u.Elem())
		case *types.Slice:
			_, isArr := types.Unalias(e).Underlying().(*types.Array)
			return isArr
		}
	case *ssa.Call:
		return true
	}
	return false
}

func sameNamed(a, b types.Type) bool {
	x, y := namedOf(a), namedOf(b)
	return x != nil && y != nil && x.Origin() == y.Origin()
}

// storedInto: references are stored in memory that the call made.
func (fi *FnInfo) storedInto(call ssa.CallInstruction) bool {
	for r, recs := range fi.stores {
		if v, ok := r.v.(ssa.CallInstruction); !ok || v != call {
			continue
		}
		for _, rec := range recs {
			if pointerful(rec.val.Type()) {
				return true
			}
		}
	}
	return false
}

// storedUnder: something is stored at or beneath p in this frame.
func (fi *FnInfo) storedUnder(p Path) bool {
	for _, r := range fi.stores[p.root] {
		n := len(p.steps)
		if len(r.steps) < n {
			continue
		}
		ok := true
		for i := 0; i < n; i++ {
			if !sameShapeStep(r.steps[i], p.steps[i]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// resultRefs walks result idx of fn.
func (a *Analysis) resultRefs(fn *ssa.Function, idx int) *refWalk {
	w := &refWalk{busy: map[string]bool{}}
	fi := a.fnInfo(fn)
	ps := a.returns(fn, idx)
	miss := map[string]int{}
	for _, p := range ps {
		w.unset = nil
		w.walk(fi, p, fn.Signature.Results().At(idx).Type(), nil, 0, func(q Path) []Path { return []Path{q} })
		once := map[string]bool{}
		for _, u := range w.unset {
			if !once[u] {
				once[u] = true
				miss[u]++
			}
		}
	}
	// a place is unset only if no alternative sets it
	w.unset = nil
	for u, k := range miss {
		if k == len(ps) {
			w.unset = append(w.unset, u)
		}
	}
	sort.Strings(w.unset)
	seen := map[string]bool{}
	var rs []sharedRef
	for _, r := range w.refs {
		k := r.place() + "|" + r.ref.key()
		if !seen[k] {
			seen[k] = true
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].place() < rs[j].place() })
	w.refs = rs
	return w
}

// mutators: the methods of named type n that write their receiver's memory,
// with the written paths. Construction and explicit replacement of a key by
// its owner (ReadFrom, CopyFrom, ...) are not operations of the object.
func (a *Analysis) writesOf(n *types.Named) []Acc {
	var out []Acc
	for _, m := range a.methodsOf(n) {
		if !workerType(n) {
			continue
		}
		s := a.summary(m)
		for _, w := range sortedAccs(s.Writes) {
			if w.path.root.kind == 'P' && w.path.root.idx == 0 && m.Signature.Recv() != nil {
				if _, isPtr := types.Unalias(m.Params[0].Type()).Underlying().(*types.Pointer); !isPtr && len(w.path.steps) == 1 {
					continue // a field of a value receiver
				}
				w.fn = m
				out = append(out, w)
			}
		}
	}
	return out
}

// namedAlong gives the named type of the object at p.steps[:i], for each i.
func fieldsOnly(st []Step) []string {
	var out []string
	for _, s := range st {
		if s.kind == 'f' {
			out = append(out, s.field)
		} else {
			out = append(out, "[]")
		}
	}
	return out
}

func hasPrefix(a, b []string) bool {
	if len(a) < len(b) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// scratchPlace: the place lies inside a scratch structure.
func scratchPlace(at []string) bool {
	for _, s := range at {
		if s == "buf" || strings.Contains(strings.ToLower(s), "buffer") {
			return true
		}
	}
	return false
}

// C01: safe copies share nothing that either side modifies.
func checkSafeCopy(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[shared-not-written] memory a safe copy shares with its original is written by no method of the copied type, of any type that owns it on the way, or of the shared object itself.",
		"[same-content] whatever a safe copy shares with the original (outside scratch memory) sits at the same place in both.",
		"[same-slot] the i-th element of a copied list is made from the i-th element of the original.",
		"[all-fields] a safe copy sets every reference field that the type's constructors set.",
		"[same-dimensions] scratch memory of a safe copy has the dimensions the constructor gives it.")
	r.floor("shared-not-written", 150)
	r.floor("same-content", 150)
	r.floor("all-fields", 20)
	r.floor("copies", 28)
	for _, a := range c.As {
		for _, f := range a.P.Funcs {
			if f.Name() != "SafeCopy" || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
				continue
			}
			n := recvNamed(f)
			if n == nil {
				continue
			}
			r.Funcs[fnName(f)] = true
			r.ob("copies", fnName(f))
			w := a.resultRefs(f, 0)
			for _, x := range w.refs {
				if x.ref.root.kind != 'P' {
					continue
				}
				a.checkShared(r, f, x)
			}
			if len(w.unknown) > 0 {
				r.Extra["unresolved "+fnName(f)] = w.unknown
			}
			a.checkCopyFields(r, f, n, w)
			a.checkCopySlots(r, f)
			a.checkCopyDims(r, f, n)
		}
	}
}

func (a *Analysis) checkShared(r *Report, f *ssa.Function, x sharedRef) {
	key := fnName(f) + " " + x.place()
	r.ob("shared-not-written", key)
	q := fieldsOnly(x.ref.steps)
	report := func(w Acc, what string) {
		r.fail("shared-not-written", key, a.P.posStr(f.Pos()),
			"the copy made by %s shares %s with the original, and %s modifies it (%s)", fnName(f), x.place(), fnName(w.fn), what)
	}
	// writers of the owners along the way
	for i := 0; i < len(x.ref.steps); i++ {
		t := typeAt(f, x.ref, i)
		n := namedOf(t)
		if n == nil {
			continue
		}
		for _, w := range a.writesOf(n) {
			ws := fieldsOnly(w.path.steps)
			if len(ws) > len(q)-i && hasPrefix(ws, q[i:]) {
				report(w, a.P.posStr(w.pos))
				return
			}
		}
	}
	// writers of the shared object itself
	if n := namedOf(x.typ); n != nil {
		if ws := a.writesOf(n); len(ws) > 0 {
			report(ws[0], a.P.posStr(ws[0].pos))
			return
		}
	}
	if !scratchPlace(x.at) {
		r.ob("same-content", key)
		if strings.Join(q, ".") != x.place() && !strings.HasPrefix(x.place(), strings.Join(q, ".")+".") {
			// a part of the copy may be shared through a larger shared object
			r.fail("same-content", key, a.P.posStr(f.Pos()), "the copy made by %s takes %s from %s of the original", fnName(f), x.place(), strings.Join(q, "."))
		}
	}
}

// checkCopyFields: fields the constructor sets must be set by the copy.
func (a *Analysis) checkCopyFields(r *Report, f *ssa.Function, n *types.Named, w *refWalk) {
	unset := map[string]bool{}
	for _, u := range w.unset {
		if !strings.Contains(u, ".") {
			unset[u] = true
		}
	}
	ctors := a.constructorsOf(n)
	set := map[string]*ssa.Function{}
	for _, c := range ctors {
		cw := a.resultRefs(c, 0)
		cu := map[string]bool{}
		for _, u := range cw.unset {
			cu[u] = true
		}
		st, ok := n.Origin().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if pointerful(fl.Type()) && !cu[fl.Name()] {
				set[fl.Name()] = c
			}
		}
	}
	for fl, c := range set {
		r.ob("all-fields", fnName(f)+" "+fl)
		if unset[fl] {
			r.fail("all-fields", fnName(f)+" "+fl, a.P.posStr(f.Pos()), "%s leaves field %s of the copy unset, %s sets it", fnName(f), fl, fnName(c))
		}
	}
	// plain fields: degree and the like
	st, ok := n.Origin().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if pointerful(fl.Type()) {
			continue
		}
		if structLike(fl.Type()) {
			continue
		}
		r.ob("all-fields", fnName(f)+" "+fl.Name())
		if !a.setsField(f, fl.Name()) {
			for _, c := range ctors {
				if a.setsField(c, fl.Name()) {
					r.fail("all-fields", fnName(f)+" "+fl.Name(), a.P.posStr(f.Pos()), "%s leaves field %s of the copy unset, %s sets it", fnName(f), fl.Name(), fnName(c))
				}
			}
		}
	}
}

// setsField: fn stores to field fl (or to the whole) of an object it returns.
func (a *Analysis) setsField(fn *ssa.Function, fl string) bool {
	fi := a.fnInfo(fn)
	for _, p := range a.returns(fn, 0) {
		if p.root.kind == 'C' && p.root.inner != nil {
			if call, ok := p.root.v.(ssa.CallInstruction); ok {
				if cal := a.callee(call); cal != nil && cal != fn && a.setsField(cal, fl) {
					return true
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for _, q := range fi.paths(st.Addr) {
					if q.root == p.root && (len(q.steps) == len(p.steps) || len(q.steps) == len(p.steps)+1 && q.steps[len(q.steps)-1].kind == 'f' && q.steps[len(q.steps)-1].field == fl) {
						return true
					}
				}
			}
		}
	}
	return false
}

// constructorsOf lists functions New...(...) *T.
func (a *Analysis) constructorsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range a.P.Funcs {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 || !strings.HasPrefix(f.Name(), "New") {
			continue
		}
		if m := namedOf(f.Signature.Results().At(0).Type()); m != nil && m.Origin() == n.Origin() {
			out = append(out, f)
		}
	}
	return out
}

// checkCopySlots: list elements keep their index.
func (a *Analysis) checkCopySlots(r *Report, f *ssa.Function) {
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !pointerful(st.Val.Type()) {
				continue
			}
			call, ok := st.Val.(*ssa.Call)
			if !ok {
				continue
			}
			callee := a.callee(call)
			if callee == nil || callee.Name() != "SafeCopy" && callee.Name() != "Copy" || len(call.Call.Args) == 0 {
				continue
			}
			for _, d := range fi.paths(st.Addr) {
				if varargsOf(d) {
					continue
				}
				if len(d.steps) == 0 || d.steps[len(d.steps)-1].kind != 'e' {
					continue
				}
				for _, s := range fi.paths(call.Call.Args[0]) {
					if len(s.steps) == 0 || s.steps[len(s.steps)-1].kind != 'e' {
						continue
					}
					r.ob("same-slot", fnName(f)+" "+s.shape())
					if x, y := d.steps[len(d.steps)-1].lo, s.steps[len(s.steps)-1].lo; !x.eq(y) {
						if df := x.sub(y); df.isConst() || x.isConst() || y.isConst() {
							r.fail("same-slot", fnName(f)+" "+s.shape(), a.P.posStr(st.Pos()), "%s stores a copy of element %s at index %s", fnName(f), y.key(), x.key())
						}
					}
				}
			}
		}
	}
}

// varargsOf: the element of an argument list (append(s, x)).
func varargsOf(d Path) bool {
	al, ok := d.root.v.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

// checkCopyDims compares the scratch dimensions of copy and constructor.
func (a *Analysis) checkCopyDims(r *Report, f *ssa.Function, n *types.Named) {
	pp, _, ok := paramsOf(f)
	if !ok {
		return
	}
	sh := a.resultShape(f)
	if sh == nil {
		return
	}
	for _, c := range a.constructorsOf(n) {
		cs := a.resultShape(c)
		if cs == nil {
			continue
		}
		pi := -1
		for i, p := range c.Params {
			if m := namedOf(p.Type()); m != nil && strings.HasSuffix(m.Obj().Name(), "Parameters") {
				pi = i
			}
		}
		if pi < 0 {
			continue
		}
		var cmp func(x, y *Shape, at []string)
		cmp = func(x, y *Shape, at []string) {
			if x == nil || y == nil {
				return
			}
			if x.Len != nil && y.Len != nil {
				l, good := overParams(y.Len, pi, pp)
				if good && dimsOver(x.Len, pp) {
					r.ob("same-dimensions", fnName(f)+" "+strings.Join(at, "."))
					if !l.eq(x.Len) {
						r.fail("same-dimensions", fnName(f)+" "+strings.Join(at, "."), a.P.posStr(f.Pos()), "%s makes %s of length %s, %s makes it of length %s", fnName(f), strings.Join(at, "."), x.Len.key(), fnName(c), l.key())
					}
				}
				cmp(x.Elem, y.Elem, append(append([]string(nil), at...), "[]"))
			}
			for k := range x.Fields {
				cmp(x.Fields[k], y.Fields[k], append(append([]string(nil), at...), k))
			}
		}
		cmp(sh, cs, nil)
	}
}

// overParams rewrites a length over parameter pi into one over path pp; ok if
// it mentions nothing else.
func overParams(l *Lin, pi int, pp Path) (*Lin, bool) {
	good := true
	out := l.subst(func(y *Sym) *Lin {
		if y.kind == 'p' || y.kind == 'l' {
			if y.path.root.kind != 'P' || y.path.root.idx != pi {
				good = false
				return nil
			}
			p := pp
			for _, st := range y.path.steps {
				p = p.with(st)
			}
			if y.kind == 'l' {
				return linLen(p)
			}
			return linSym(symPath(p))
		}
		return nil
	})
	return out, good
}

func dimsOver(l *Lin, pp Path) bool {
	good := true
	l.subst(func(y *Sym) *Lin {
		switch y.kind {
		case 'p', 'l':
			if y.path.root != pp.root || !hasPrefix(fieldsOnly(y.path.steps), fieldsOnly(pp.steps)) {
				good = false
			}
		case 'v':
			good = false
		}
		return nil
	})
	return good
}
