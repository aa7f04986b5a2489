package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape describes the freshly allocated memory a constructor returns: the
// lengths of its slices in terms of the constructor's arguments.
type Shape struct {
	Len    *Lin
	Elem   *Shape
	Fields map[string]*Shape
	Leaf   string // for scalars and shared memory: what it is
	Ref    *Path  // shared memory: where it comes from
	Typ    types.Type
}

func (s *Shape) subst(f substFn) *Shape {
	if s == nil {
		return nil
	}
	n := &Shape{Leaf: s.Leaf, Ref: s.Ref, Typ: s.Typ, Elem: s.Elem.subst(f)}
	if s.Len != nil {
		n.Len = s.Len.subst(f)
	}
	if s.Fields != nil {
		n.Fields = map[string]*Shape{}
		for k, v := range s.Fields {
			n.Fields[k] = v.subst(f)
		}
	}
	return n
}

func (s *Shape) String() string {
	if s == nil {
		return "?"
	}
	switch {
	case s.Fields != nil:
		var ks []string
		for k := range s.Fields {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteString("{")
		for i, k := range ks {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(k + ":" + s.Fields[k].String())
		}
		return b.String() + "}"
	case s.Len != nil:
		return "[" + s.Len.key() + "]" + s.Elem.String()
	}
	if s.Ref != nil {
		return s.Ref.key()
	}
	return s.Leaf
}

// shapeAt describes the memory at p, of type t, in fi's frame.
func (fi *FnInfo) shapeAt(p Path, t types.Type, depth int) *Shape {
	if depth > 24 {
		return nil
	}
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		qs := fi.resolve(p)
		if len(qs) != 1 {
			return nil
		}
		return fi.shapeAt(qs[0], u.Elem(), depth+1)
	case *types.Struct:
		s := &Shape{Fields: map[string]*Shape{}, Typ: t}
		if !local(p.root) {
			return &Shape{Leaf: "ref", Ref: &p, Typ: t}
		}
		if p.root.kind == 'C' {
			if in := fi.viaCall(p, t, depth); in != nil {
				return in
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			qs := fi.extend(p, []Step{{kind: 'f', field: f.Name()}}, 0)
			if len(qs) != 1 {
				s.Fields[f.Name()] = nil
				continue
			}
			s.Fields[f.Name()] = fi.shapeAt(qs[0], f.Type(), depth+1)
		}
		return s
	case *types.Slice:
		qs := []Path{p}
		if len(p.steps) > 0 {
			qs = fi.resolve(p)
		}
		if len(qs) != 1 {
			return nil
		}
		q := qs[0]
		if !local(q.root) {
			return &Shape{Leaf: "ref", Ref: &q, Typ: t}
		}
		if q.root.kind == 'C' {
			return fi.viaCall(q, t, depth)
		}
		if n := len(q.steps); n > 0 {
			// a view of another slice
			if v := q.steps[n-1]; v.kind == 'r' && v.hi != nil && isScalar(u.Elem()) {
				d := v.hi.sub(v.lo)
				for _, lp := range fi.loops {
					if d.dependsOn(lp) {
						return nil
					}
				}
				return &Shape{Len: d, Typ: t, Elem: &Shape{Leaf: "scalar", Typ: u.Elem()}}
			}
			return nil
		}
		switch q.root.v.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
		default:
			return nil
		}
		s := &Shape{Len: fi.lenOf(q), Typ: t}
		if isScalar(u.Elem()) {
			s.Elem = &Shape{Leaf: "scalar", Typ: u.Elem()}
			return s
		}
		es := fi.content(q.with(Step{kind: 'u'}), 0)
		if len(es) == 1 {
			s.Elem = fi.shapeAt(es[0], u.Elem(), depth+1)
		} else {
			// several stores (literals): keep the shape only if they agree
			var one *Shape
			for i, e := range es {
				x := fi.shapeAt(e, u.Elem(), depth+1)
				if i == 0 {
					one = x
				} else if x.String() != one.String() {
					one = nil
					break
				}
			}
			s.Elem = one
		}
		return s
	case *types.Array:
		s := &Shape{Len: linConst(u.Len()), Typ: t}
		es := fi.content(p.with(Step{kind: 'u'}), 0)
		if len(es) >= 1 {
			s.Elem = fi.shapeAt(es[0], u.Elem(), depth+1)
		}
		return s
	}
	return &Shape{Leaf: "scalar", Typ: t}
}

func (fi *FnInfo) resolve(p Path) []Path {
	if !local(p.root) {
		return []Path{p}
	}
	return fi.content(p, 0)
}

// viaCall: memory made by a callee is described in the callee's frame.
func (fi *FnInfo) viaCall(p Path, t types.Type, depth int) *Shape {
	if p.root.inner == nil {
		return nil
	}
	call, ok := p.root.v.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	callee := fi.a.callee(call)
	if callee == nil || len(callee.Blocks) == 0 {
		return nil
	}
	cfi := fi.a.fnInfo(callee)
	in := cfi.shapeAt(Path{root: p.root.inner, steps: eraseIdx(p.steps)}, t, depth+1)
	return fi.remap(call, callee, in.subst(fi.callSubst(call, callee)))
}

// remap moves references to shared memory into the caller's frame.
func (fi *FnInfo) remap(call ssa.CallInstruction, callee *ssa.Function, s *Shape) *Shape {
	if s == nil {
		return nil
	}
	if s.Ref != nil {
		if qs := fi.mapPath(call, callee, *s.Ref); len(qs) == 1 {
			if local(qs[0].root) {
				return fi.shapeAt(qs[0], s.Typ, 6)
			}
			s.Ref = &qs[0]
		} else {
			return nil
		}
	}
	s.Elem = fi.remap(call, callee, s.Elem)
	for k, v := range s.Fields {
		s.Fields[k] = fi.remap(call, callee, v)
	}
	return s
}

// resultShape is the shape of what fn returns, or nil.
func (a *Analysis) resultShape(fn *ssa.Function) *Shape {
	fn = origin(fn)
	k := "shape/" + fmt.Sprintf("%p", fn)
	if s, ok := a.shapes[k]; ok {
		return s
	}
	if a.shapes == nil {
		a.shapes = map[string]*Shape{}
	}
	a.shapes[k] = nil
	if len(fn.Blocks) == 0 || fn.Signature.Results().Len() == 0 {
		return nil
	}
	ps := a.returns(fn, 0)
	if len(ps) != 1 {
		return nil
	}
	s := a.fnInfo(fn).shapeAt(ps[0], fn.Signature.Results().At(0).Type(), 0)
	a.shapes[k] = s
	return s
}

func init() { register("shapes", dumpShapes) }

func dumpShapes(c *Ctx) {
	a := c.As[0]
	for _, f := range a.P.Funcs {
		if strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "new") {
			fmt.Println(fnName(f), "=>", a.resultShape(f))
		}
	}
}

// typeShape is the shape of a value of named type t made by its constructor
// New<T>(params), with the lengths expressed over the given path to the
// parameter set (of type pt).
func (a *Analysis) typeShape(t types.Type, params Path, pt types.Type) *Shape {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	short := strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")
	name := n.Obj().Name()
	name = strings.Replace(name, "LookUpTable", "LUT", 1)
	f := a.P.ByName[short+".New"+name]
	if f == nil || len(f.Params) == 0 {
		return nil
	}
	want := namedOf(f.Params[0].Type())
	have := namedOf(pt)
	if want == nil || have == nil {
		return nil
	}
	if want.Origin() != have.Origin() {
		// the single-key parameters inside a multi-key or derived set
		st, ok := have.Origin().Underlying().(*types.Struct)
		found := false
		for i := 0; ok && i < st.NumFields(); i++ {
			if m := namedOf(st.Field(i).Type()); m != nil && m.Origin() == want.Origin() {
				params = params.field(st.Field(i).Name())
				found = true
			}
		}
		if !found {
			return nil
		}
	}
	s := a.resultShape(f)
	return s.subst(func(y *Sym) *Lin {
		if (y.kind == 'p' || y.kind == 'l') && y.path.root.kind == 'P' && y.path.root.idx == 0 {
			p := params
			for _, st := range y.path.steps {
				p = p.with(st)
			}
			if y.kind == 'l' {
				return linLen(p)
			}
			return linSym(symPath(p))
		}
		if y.kind == 'p' && y.path.root.kind == 'P' {
			return linSym(internSym(&Sym{key: fmt.Sprintf("dim%d", nextID()), kind: 'v'}))
		}
		return nil
	})
}

// paramsOf finds the parameter set held by the receiver of f.
func paramsOf(f *ssa.Function) (Path, types.Type, bool) {
	if f.Signature.Recv() == nil {
		for i, p := range f.Params {
			if n := namedOf(p.Type()); n != nil && strings.HasSuffix(n.Obj().Name(), "Parameters") {
				return Path{root: paramRoot(i)}, p.Type(), true
			}
		}
		return Path{}, nil, false
	}
	p := Path{root: paramRoot(0)}
	t := f.Params[0].Type()
	for d := 0; d < 4; d++ {
		if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok {
			return p, nil, false
		}
		var emb *types.Var
		for i := 0; i < st.NumFields(); i++ {
			x := st.Field(i)
			if x.Name() == "Params" {
				return p.field("Params"), x.Type(), true
			}
			if x.Embedded() && emb == nil && namedOf(x.Type()) != nil && workerType(namedOf(x.Type())) {
				emb = x
			}
		}
		if emb == nil {
			return p, nil, false
		}
		p = p.field(emb.Name())
		t = emb.Type()
	}
	return p, nil, false
}
