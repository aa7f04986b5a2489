package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", checkOwnership)
	register("C10", checkCopies)
}

// allParts lists the scalar-slice parts and the parameter structures of a
// value type, as symbolic paths.
func allParts(p Path, t types.Type, depth int) []Path {
	if depth > 16 {
		return nil
	}
	if n := namedOf(t); n != nil && strings.HasSuffix(n.Obj().Name(), "Parameters") {
		return []Path{p}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return allParts(p, u.Elem(), depth+1)
	case *types.Slice:
		return allParts(p.with(Step{kind: 'r', lo: linConst(0)}), u.Elem(), depth+1)
	case *types.Array:
		return allParts(p.with(Step{kind: 'r', lo: linConst(0), hi: linConst(u.Len())}), u.Elem(), depth+1)
	case *types.Struct:
		var out []Path
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, allParts(p.field(u.Field(i).Name()), u.Field(i).Type(), depth+1)...)
		}
		return out
	case *types.Basic:
		return []Path{p}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return []Path{p}
	}
	return nil
}

// wholeOf: the steps of w, read as ranges, name all of l (indices only need to
// be ranges from the start with an open or unknown end).
func wholeOf(w, l Path) bool {
	if len(w.steps) > len(l.steps) {
		return false
	}
	for i, x := range w.steps {
		y := l.steps[i]
		if x.kind == 'f' || y.kind == 'f' {
			if x.kind != y.kind || x.field != y.field {
				return false
			}
			continue
		}
		if x.kind == 'u' {
			continue
		}
		if x.kind == 'e' {
			return false
		}
		if !(x.lo.isConst() && x.lo.c == 0) {
			return false
		}
		if x.hi != nil {
			// an end that is visibly short
			if d := x.hi; d.isConst() || len(d.t) == 1 && d.t[0].co == 1 && d.c < 0 {
				return false
			}
		}
	}
	return true
}

// unspill reads a place of a local that holds a parameter passed by value.
func (fi *FnInfo) unspill(p Path) []Path {
	al, ok := p.root.v.(*ssa.Alloc)
	if !ok || !local(p.root) {
		return []Path{p}
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			if pm, ok := st.Val.(*ssa.Parameter); ok {
				for i, q := range fi.fn.Params {
					if q == pm {
						return []Path{{root: paramRoot(i), steps: p.steps}}
					}
				}
			}
		}
	}
	return append(fi.content(p, 0), p)
}

func isConfig(f *ssa.Function, l Path) bool {
	if n := namedOf(typeAt(f, l, len(l.steps))); n != nil && strings.HasSuffix(n.Obj().Name(), "Parameters") {
		return true
	}
	return configPart(f, l)
}

// takesOver: f stores part l of argument arg into the field of the same name
// of the objects accept picks, or returns or copies the argument whole.
func (a *Analysis) takesOver(f *ssa.Function, l Path, arg int, accept func(Path) bool) bool {
	vals, at := a.fieldStores(f, l.steps[0].field, accept)
	for i, v := range vals {
		_ = at[i]
		for _, q := range v {
			if q.root == paramRoot(arg) && len(q.steps) == 1 && q.steps[0].field == l.steps[0].field {
				return true
			}
		}
	}
	return len(vals) == 0 && a.copiesWhole(f, arg)
}

// copiesWhole: the whole argument is stored, returned, or handed to another
// function of the same name (whose own obligation this then is).
func (a *Analysis) copiesWhole(f *ssa.Function, arg int) bool {
	fi := a.fnInfo(f)
	whole := func(v ssa.Value) bool {
		for _, q := range fi.origin(v) {
			if q.root == paramRoot(arg) && len(q.steps) == 0 {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, isParam := x.Val.(*ssa.Parameter); !isParam && structLike(x.Val.Type()) && whole(x.Val) {
					return true
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if whole(v) {
						return true
					}
				}
			case *ssa.Call:
				if cal := a.callee(x); cal != nil && len(cal.Blocks) > 0 && cal != f {
					for _, v := range x.Call.Args {
						if whole(v) {
							return true
						}
						for _, q := range fi.paths(v) {
							if q.root == paramRoot(arg) && len(q.steps) == 0 {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func sameFields(a, b Path) bool {
	x, y := fieldsOnly(a.steps), fieldsOnly(b.steps)
	return strings.Join(x, ".") == strings.Join(y, ".")
}

// C10: copies are complete and deep.
func checkCopies(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[copy-deep] nothing reachable from the result of Copy is memory of the receiver.",
		"[copy-complete] Copy reads all of every part of its receiver and sets every field of its result, each from the field of the same name and the list element of the same index.",
		"[copyfrom-complete] CopyFrom writes every part of its receiver, each with the part of its argument at the same place.",
		"[same-slot] in Copy and CopyFrom, element i and field f of the target are made from element i and field f of the source.",
		"[clear-complete] Clear writes every part of its receiver that holds data.")
	r.floor("copy-deep", 60)
	r.floor("copy-complete", 120)
	r.floor("copyfrom-complete", 100)
	r.floor("clear-complete", 50)
	r.floor("same-slot", 25)
	for _, a := range c.As {
		for _, f := range a.apiFuncs() {
			n := recvNamed(f)
			if n == nil || workerType(n) {
				continue
			}
			switch {
			case f.Name() == "Copy" && f.Signature.Results().Len() == 1 && len(f.Params) == 1:
				r.Funcs[fnName(f)] = true
				a.checkCopy(r, f, n)
			case f.Name() == "CopyFrom" && len(f.Params) == 2:
				r.Funcs[fnName(f)] = true
				a.checkCopyFrom(r, f)
			case f.Name() == "Clear" && len(f.Params) == 1:
				r.Funcs[fnName(f)] = true
				a.checkClear(r, f)
			}
		}
	}
}

func (a *Analysis) checkCopy(r *Report, f *ssa.Function, n *types.Named) {
	w := a.resultRefs(f, 0)
	r.ob("copy-deep", fnName(f))
	for _, x := range w.refs {
		if x.ref.root.kind == 'P' || x.ref.root.kind == 'G' {
			r.fail("copy-deep", fnName(f)+" "+x.place(), a.P.posStr(f.Pos()), "%s of the result of %s is memory of the original (%s)", x.place(), fnName(f), showPath(f, x.ref))
		}
	}
	for _, u := range w.unset {
		r.fail("copy-complete", fnName(f)+" "+u, a.P.posStr(f.Pos()), "%s leaves %s of the copy unset", fnName(f), u)
	}
	s := a.summary(f)
	for _, l := range allParts(Path{root: paramRoot(0)}, f.Params[0].Type(), 0) {
		if len(l.steps) == 0 {
			continue
		}
		key := fnName(f) + " " + showPath(f, l)
		r.ob("copy-complete", key)
		if isConfig(f, l) || isScalar(typeAt(f, l, len(l.steps))) && len(l.steps) == 1 {
			if len(l.steps) > 1 {
				continue // copied with the element, by the element's own Copy
			}
			if !a.takesOver(f, l, 0, func(p Path) bool { return local(p.root) }) {
				r.fail("copy-complete", key, a.P.posStr(f.Pos()), "the copy made by %s does not take over %s", fnName(f), showPath(f, l))
			}
			continue
		}
		ok := false
		for _, x := range s.Reads {
			if x.path.root == l.root && wholeOf(x.path, l) {
				ok = true
			}
		}
		if !ok && !a.viewOf(f, 0, l, func(o Path) bool {
			for _, x := range s.Reads {
				if x.path.root == o.root && wholeOf(x.path, o) {
					return true
				}
			}
			return false
		}) {
			r.fail("copy-complete", key, a.P.posStr(f.Pos()), "the copy made by %s does not take over all of %s", fnName(f), showPath(f, l))
		}
	}
	a.checkCopySlots(r, f)
}

// fieldStores lists what f stores into fields called name of memory root
// accepts: the paths of the values stored.
func (a *Analysis) fieldStores(f *ssa.Function, name string, accept func(Path) bool) (vals [][]Path, at []*ssa.Store) {
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != name {
				continue
			}
			good := false
			for _, p := range fi.paths(fa) {
				if len(p.steps) == 1 && accept(p) {
					good = true
				}
			}
			if !good {
				continue
			}
			vals = append(vals, fi.origin(st.Val))
			at = append(at, st)
		}
	}
	return
}

// origin: the memory (or parameter part) a value was read from.
func (fi *FnInfo) origin(v ssa.Value) []Path {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			var out []Path
			for _, p := range fi.paths(x.X) {
				out = append(out, fi.unspill(p)...)
			}
			return out
		}
	case *ssa.Field:
		var out []Path
		for _, p := range fi.origin(x.X) {
			out = append(out, p.field(fieldName(x.X.Type(), x.Field)))
		}
		return out
	case *ssa.Parameter:
		for i, p := range fi.fn.Params {
			if p == x {
				return []Path{{root: paramRoot(i)}}
			}
		}
	case *ssa.ChangeType:
		return fi.origin(x.X)
	}
	return nil
}

func (a *Analysis) checkCopyFrom(r *Report, f *ssa.Function) {
	a.checkElementPairs(r, f)
	s := a.summary(f)
	in := f.Params[1]
	for _, l := range allParts(Path{root: paramRoot(0)}, f.Params[0].Type(), 0) {
		if len(l.steps) == 0 {
			continue
		}
		key := fnName(f) + " " + showPath(f, l)
		r.ob("copyfrom-complete", key)
		written, same := false, true
		var bad Acc
		for _, w := range sortedAccs(s.Writes) {
			if w.path.root != l.root || !wholeOf(w.path, l) {
				continue
			}
			written = true
			if w.copyOf != nil {
				q := *w.copyOf
				if q.root == paramRoot(1) && !sameFields(q, w.path) {
					same, bad = false, w
				}
			}
		}
		isWritten := func(o Path) bool {
			for _, w := range s.Writes {
				if w.path.root == o.root && wholeOf(w.path, o) {
					return true
				}
			}
			return false
		}
		if !written && !a.viewOf(f, 0, l, isWritten) {
			r.fail("copyfrom-complete", key, a.P.posStr(f.Pos()), "%s does not copy %s", fnName(f), showPath(f, l))
		}
		if !same {
			r.fail("copyfrom-complete", key, a.P.posStr(bad.pos), "%s fills %s from %s", fnName(f), showPath(f, bad.path), showPath(f, *bad.copyOf))
		}
		if !written {
			continue
		}
		if !isConfig(f, l) {
			a.onEveryPath(r, f, l, key, "copyfrom-complete")
		}
		// the argument's part is read
		read := false
		if isConfig(f, l) || isScalar(typeAt(f, l, len(l.steps))) {
			read = len(l.steps) > 1 || a.takesOver(f, l, 1, func(p Path) bool { return p.root == l.root })
		}
		for _, x := range s.Reads {
			if x.path.root == paramRoot(1) && sameFields(x.path, l) {
				read = true
			}
		}
		_ = in
		if !read {
			r.fail("copyfrom-complete", key, a.P.posStr(f.Pos()), "%s does not read the part of its argument that belongs in %s", fnName(f), showPath(f, l))
		}
	}
}

// checkElementPairs: x[i].CopyFrom(y[j]) pairs equal indices and equal fields.
func (a *Analysis) checkElementPairs(r *Report, f *ssa.Function) {
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			callee := a.callee(call)
			if callee == nil || callee.Name() != "CopyFrom" || len(call.Call.Args) != 2 {
				continue
			}
			for _, d := range fi.paths(call.Call.Args[0]) {
				for _, s := range fi.origin(call.Call.Args[1]) {
					if d.root != paramRoot(0) || s.root != paramRoot(1) || len(d.steps) != len(s.steps) {
						continue
					}
					key := fnName(f) + " " + d.shape()
					r.ob("same-slot", key)
					if !sameFields(d, s) {
						r.fail("same-slot", key, a.P.posStr(call.Pos()), "%s fills %s from %s", fnName(f), showPath(f, d), showPath(f, s))
						continue
					}
					for i := range d.steps {
						x, y := d.steps[i], s.steps[i]
						if x.kind != 'e' || y.kind != 'e' {
							continue
						}
						if df := x.lo.sub(y.lo); df.isConst() && df.c != 0 || !x.lo.eq(y.lo) && (x.lo.isConst() || y.lo.isConst()) {
							r.fail("same-slot", key, a.P.posStr(call.Pos()), "%s fills element %s of %s from element %s", fnName(f), x.lo.key(), d.shape(), y.lo.key())
						}
					}
				}
			}
		}
	}
}

// onEveryPath: every path through f writes the part l of the receiver.
func (a *Analysis) onEveryPath(r *Report, f *ssa.Function, l Path, key, rule string) {
	s := a.summary(f)
	if s.MustW.covers(l) || a.viewOfWritten(f, 0, l, s) {
		return
	}
	fi := a.fnInfo(f)
	if ret := a.pathWithoutWrite(fi, l); ret != nil {
		r.fail(rule, key, a.P.posStr(instrPos(ret)), "a path through %s ends without writing any of %s", fnName(f), showPath(f, l))
		return
	}
	if at, what := a.loopLeavesOut(fi, l); at != nil {
		r.fail(rule, key, a.P.posStr(instrPos(at)), "%s %s", fnName(f), fmt.Sprintf(what, showPath(f, l)))
	}
}

func (a *Analysis) checkClear(r *Report, f *ssa.Function) {
	s := a.summary(f)
	for _, l := range leaves(Path{root: paramRoot(0)}, f.Params[0].Type(), 0) {
		if len(l.steps) == 0 {
			continue
		}
		key := fnName(f) + " " + showPath(f, l)
		r.ob("clear-complete", key)
		isWritten := func(o Path) bool {
			for _, w := range s.Writes {
				if w.path.root == o.root && wholeOf(w.path, o) {
					return true
				}
			}
			return false
		}
		if !isWritten(l) && !a.viewOf(f, 0, l, isWritten) {
			r.fail("clear-complete", key, a.P.posStr(f.Pos()), "%s does not clear all of %s", fnName(f), showPath(f, l))
			continue
		}
		a.onEveryPath(r, f, l, key, "clear-complete")
	}
}

// C09: what an operation returns or fills is the caller's.
func checkOwnership(c *Ctx) {
	r := c.Rep
	r.Rules = append(r.Rules,
		"[result-not-scratch] nothing reachable from the result of an exported operation is scratch memory of the worker object it was called on (the documented *Buffer accessors excepted).",
		"[result-not-input] nothing reachable from a computed result (anything but a new worker object, which keeps its keys) is memory of an argument.",
		"[input-not-retained] an operation never stores a reference to memory of one argument or of its worker into another argument or worker; only Add*Key, which registers a key, does.")
	r.Rules = append(r.Rules, "[elements-distinct] the elements of a list filled in a loop do not all refer to one object made before the loop.")
	r.floor("result-not-scratch", 250)
	r.floor("result-not-input", 300)
	r.floor("input-not-retained", 400)
	for _, a := range c.As {
		for _, f := range a.apiFuncs() {
			a.checkResultOwner(r, f)
			a.checkRetained(r, f)
			a.checkDistinct(r, f)
		}
	}
}

// accessor: f only looks a part of its receiver up.
func (a *Analysis) accessor(f *ssa.Function) bool {
	if len(a.summary(f).Writes) > 0 || len(a.fnInfo(f).loops) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call:
				return false
			}
		}
	}
	return true
}

func (a *Analysis) checkResultOwner(r *Report, f *ssa.Function) {
	res := f.Signature.Results()
	recv := recvNamed(f)
	worker := f.Signature.Recv() != nil && workerType(recv)
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if !pointerful(t) || t.String() == "error" {
			continue
		}
		r.Funcs[fnName(f)] = true
		w := a.resultRefs(f, i)
		what := func(x sharedRef) string {
			if len(x.at) == 0 {
				return "the result"
			}
			return x.place() + " of the result"
		}
		if worker {
			r.ob("result-not-scratch", fnName(f))
		}
		newWorker := workerType(namedOf(t)) && (strings.HasPrefix(f.Name(), "New") || strings.HasSuffix(f.Name(), "SafeCopy"))
		if !newWorker {
			r.ob("result-not-input", fnName(f))
		}
		for _, x := range w.refs {
			if x.ref.root.kind != 'P' {
				continue
			}
			key := fnName(f) + " " + x.place()
			idx := x.ref.root.idx
			if worker && idx == 0 {
				if ownScratch(f, x.ref) && !strings.HasSuffix(f.Name(), "Buffer") && !newWorker {
					r.fail("result-not-scratch", key, a.P.posStr(f.Pos()), "%s returned by %s is the object's scratch memory %s, which the next call overwrites", what(x), fnName(f), showPath(f, x.ref))
				}
				continue
			}
			if newWorker || idx == 0 && f.Signature.Recv() != nil && a.accessor(f) {
				continue
			}
			r.fail("result-not-input", key, a.P.posStr(f.Pos()), "%s returned by %s is memory of its argument (%s)", what(x), fnName(f), showPath(f, x.ref))
		}
	}
}

func (a *Analysis) checkRetained(r *Report, f *ssa.Function) {
	hasRefs := 0
	for _, p := range f.Params {
		if pointerful(p.Type()) {
			hasRefs++
		}
	}
	if hasRefs < 2 || strings.HasPrefix(f.Name(), "Add") && strings.HasSuffix(f.Name(), "Key") {
		return
	}
	r.Funcs[fnName(f)] = true
	r.ob("input-not-retained", fnName(f))
	s := a.summary(f)
	fi := a.fnInfo(f)
	bad := func(dst, src Path, at StorePtr) {
		r.fail("input-not-retained", fnName(f)+" "+dst.shape(), a.P.posStr(at.pos), "%s stores a reference to %s in %s (in %s)", fnName(f), showPath(f, src), showPath(f, dst), fnName(at.fn))
	}
	for _, p := range s.Ptrs {
		if p.dst.root.kind != 'P' {
			continue
		}
		if !local(p.src.root) {
			if p.src.root.kind == 'P' && p.src.root.idx != p.dst.root.idx {
				bad(p.dst, p.src, p)
			}
			if p.src.root == p.dst.root && !sameElem(p.src, p.dst) && !workerType(namedOf(f.Params[p.src.root.idx].Type())) {
				bad(p.dst, p.src, p)
			}
			continue
		}
		t := typeAt(f, p.dst, len(p.dst.steps))
		if t == nil {
			continue
		}
		w := &refWalk{busy: map[string]bool{}}
		w.walk(fi, p.src, t, nil, 0, func(q Path) []Path { return []Path{q} })
		for _, x := range w.refs {
			if x.ref.root.kind == 'P' && x.ref.root.idx != p.dst.root.idx {
				bad(p.dst, x.ref, p)
			}
		}
	}
}

// checkDistinct: list elements set in a loop to one object made before it.
func (a *Analysis) checkDistinct(r *Report, f *ssa.Function) {
	fi := a.fnInfo(f)
	for _, b := range f.Blocks {
		lp := fi.loopOf[b]
		if lp == nil {
			continue
		}
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !pointerful(st.Val.Type()) {
				continue
			}
			n := namedOf(st.Val.Type())
			if n != nil && workerType(n) || n == nil && !isSliceType(st.Val.Type()) {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			varying := false
			for _, d := range fi.paths(ia) {
				if k := len(d.steps); k > 0 && d.steps[k-1].kind == 'e' && d.steps[k-1].lo.key() != "" && strings.Contains(d.steps[k-1].lo.key(), lp.sym().key) && !varargsOf(d) {
					varying = true
				}
			}
			if !varying {
				continue
			}
			key := fnName(f) + " " + exprName(st.Val)
			r.ob("elements-distinct", key)
			qs := fi.paths(st.Val)
			if len(qs) != 1 || !local(qs[0].root) || len(qs[0].steps) > 0 {
				continue
			}
			at, ok := qs[0].root.v.(ssa.Instruction)
			if !ok || at.Parent() != f || lp.blocks[at.Block()] {
				continue
			}
			if al, isA := at.(*ssa.Alloc); isA && !al.Heap {
				continue // a local variable that is overwritten
			}
			r.fail("elements-distinct", key, a.P.posStr(st.Pos()), "%s sets every element of a list to the same object, made before the loop at %s", fnName(f), a.P.posStr(instrPos(at)))
		}
	}
}

func exprName(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			return f.Name()
		}
	}
	return v.Type().String()
}

func isSliceType(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok
}

// sameElem: the paths name the same place, or differ in a way that is not
// known to matter.
func sameElem(a, b Path) bool {
	if !sameFields(a, b) {
		return false
	}
	for i := range a.steps {
		x, y := a.steps[i], b.steps[i]
		if x.kind == 'e' && y.kind == 'e' && !x.lo.eq(y.lo) {
			return false
		}
	}
	return true
}
