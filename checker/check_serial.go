package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: what WriteTo writes is what ReadFrom reads, into the same places.
// C05: sizes, byte counts and errors of the serialisation code.

func init() {
	register("C04", func(c *Ctx) {
		for _, a := range c.As {
			a.checkLayout(c.Rep)
		}
		c.Rep.Rules = []string{"layout-agree: writer and reader move the same sequence of words, from and to the same places",
			"header-roundtrip: each header word read back rebuilds an object whose header has that value",
			"data-covered: every element of the object is written and read", "marshal-delegates: MarshalBinary and UnmarshalBinary use the stream form of the same object"}
		c.Rep.floor("layout-agree", 100)
		c.Rep.floor("header-roundtrip", 150)
		c.Rep.floor("data-covered", 80)
		c.Rep.floor("marshal-delegates", 100)
	})
	register("C05", func(c *Ctx) {
		for _, a := range c.As {
			a.checkSizes(c.Rep)
			a.checkCounts(c.Rep)
		}
		c.Rep.Rules = []string{"size: the bytes written are ByteSize()", "count: every exit returns the number of bytes moved so far, the failed call included",
			"error: the error of every stream call is looked at and passed on", "short-read: reads go through io.ReadFull", "buffer: a buffer moved at once holds exactly the elements moved through it"}
		c.Rep.floor("size", 80)
		c.Rep.floor("count", 300)
		c.Rep.floor("buffer", 20)
	})
}

var torusTypes = []string{"uint32", "uint64"}

type serialType struct {
	n            *types.Named
	write, read  *ssa.Function
	size         *ssa.Function
	marsh, unmar *ssa.Function
}

func (a *Analysis) serialTypes() []*serialType {
	m := map[string]*serialType{}
	var keys []string
	for _, f := range a.P.Funcs {
		n := recvNamed(f)
		if n == nil || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		k := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
		t := m[k]
		switch f.Name() {
		case "WriteTo", "ReadFrom", "ByteSize", "MarshalBinary", "UnmarshalBinary":
			if t == nil {
				t = &serialType{n: n}
				m[k] = t
				keys = append(keys, k)
			}
		}
		switch f.Name() {
		case "WriteTo":
			t.write = f
		case "ReadFrom":
			t.read = f
		case "ByteSize":
			t.size = f
		case "MarshalBinary":
			t.marsh = f
		case "UnmarshalBinary":
			t.unmar = f
		}
	}
	sort.Strings(keys)
	var out []*serialType
	for _, k := range keys {
		out = append(out, m[k])
	}
	return out
}

// object is the state ReadFrom builds from the header, as far as it is known.
type object struct {
	a     *Analysis
	T     string
	shape *Shape
	at    []ioObj
	typ   types.Type
}

func (a *Analysis) objectOf(o ioOut, T string, t types.Type) *object {
	ob := &object{a: a, T: T, typ: t, at: o.st.objs}
	for _, x := range o.st.objs {
		if len(x.dst.steps) == 0 {
			ps := x.fi.paths(x.val)
			if len(ps) == 1 {
				ob.shape = x.fi.shapeAt(ps[0], x.typ, 0)
			}
		}
	}
	return ob
}

func sizeTSubst(T string) substFn {
	return func(s *Sym) *Lin {
		if s.kind == 'o' && strings.HasSuffix(s.op, "math/num.SizeT#0") && len(s.args) == 0 {
			if T == "uint32" {
				return linConst(32)
			}
			return linConst(64)
		}
		if s.kind == 'o' && strings.HasSuffix(s.op, "math/num.ByteSizeT#0") && len(s.args) == 0 {
			if T == "uint32" {
				return linConst(4)
			}
			return linConst(8)
		}
		return nil
	}
}

// eval expresses a value over the receiver in the state after the header was
// read. known is false when some part stays undetermined.
func (ob *object) eval(l *Lin) *Lin {
	if l == nil {
		return nil
	}
	st := sizeTSubst(ob.T)
	return l.subst(func(s *Sym) *Lin {
		if r := st(s); r != nil {
			return r
		}
		if (s.kind == 'l' || s.kind == 'p') && s.path.root.kind == 'P' && s.path.root.idx == 0 {
			if s.kind == 'l' {
				if ob.shape == nil {
					return nil
				}
				sh := ob.shape
				for _, x := range s.path.steps {
					if sh == nil {
						return nil
					}
					if x.kind == 'f' {
						sh = sh.Fields[x.field]
					} else {
						sh = sh.Elem
					}
				}
				if sh != nil && sh.Len != nil {
					return sh.Len.subst(st)
				}
				return nil
			}
			for i := len(ob.at) - 1; i >= 0; i-- {
				x := ob.at[i]
				if len(x.dst.steps) > len(s.path.steps) || !sameSteps(x.dst.steps, s.path.steps[:len(x.dst.steps)]) {
					continue
				}
				ps := x.fi.paths(x.val)
				if len(ps) != 1 {
					return nil
				}
				return x.fi.scalarIn(ps[0], s.path.steps[len(x.dst.steps):], 0)
			}
		}
		return nil
	})
}

func sameSteps(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key() != b[i].key() {
			return false
		}
	}
	return true
}

// scalarIn is the scalar at p extended by steps, following the constructors
// that made p.
func (fi *FnInfo) scalarIn(p Path, steps []Step, d int) *Lin {
	if d > 8 {
		return nil
	}
	qs := []Path{p}
	if len(steps) > 1 {
		qs = fi.extend(p, steps[:len(steps)-1], 0)
	}
	if len(qs) != 1 {
		return nil
	}
	q := qs[0]
	if len(steps) > 0 {
		q = q.with(steps[len(steps)-1])
	}
	if q.root.kind == 'C' && q.root.inner != nil {
		call, ok := q.root.v.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		callee := fi.a.callee(call)
		if callee == nil || len(callee.Blocks) == 0 {
			return nil
		}
		l := fi.a.fnInfo(callee).scalarIn(Path{root: q.root.inner}, eraseIdx(q.steps), d+1)
		if l == nil {
			return nil
		}
		return fi.scalarsOf(l.subst(fi.callSubst(call, callee)), d)
	}
	return fi.scalarAt(q)
}

// scalarsOf replaces fields of what a call returns by what the callee put
// there.
func (fi *FnInfo) scalarsOf(l *Lin, d int) *Lin {
	return l.subst(func(s *Sym) *Lin {
		if s.kind == 'p' && s.path.root.kind == 'C' && s.path.root.inner != nil {
			if r := fi.scalarIn(s.path, nil, d+1); r != nil && !r.eq(linSym(s)) {
				return r
			}
		}
		return nil
	})
}

// known: l is built only from symbols accepted by ok and constants.
func linOver(l *Lin, ok func(s *Sym) bool) bool {
	if l == nil {
		return false
	}
	for _, t := range l.t {
		if ok(t.s) {
			continue
		}
		if t.s.kind == 'o' && (t.s.op == "*" || t.s.op == "/") {
			for _, x := range t.s.args {
				if !linOver(x, ok) {
					return false
				}
			}
			continue
		}
		return false
	}
	return true
}

// poly is a polynomial over symbols, as monomial -> coefficient.
type poly map[string]int64

func polyOf(l *Lin) poly {
	r := poly{}
	if l.c != 0 {
		r[""] = l.c
	}
	for _, t := range l.t {
		for m, c := range polySym(t.s) {
			r[m] += c * t.co
			if r[m] == 0 {
				delete(r, m)
			}
		}
	}
	return r
}

func polySym(s *Sym) poly {
	if s.kind == 'o' && s.op == "*" {
		r := poly{"": 1}
		for _, x := range s.args {
			r = r.mul(polyOf(x))
		}
		return r
	}
	return poly{s.key: 1}
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			var fs []string
			if m != "" {
				fs = append(fs, strings.Split(m, " · ")...)
			}
			if n != "" {
				fs = append(fs, strings.Split(n, " · ")...)
			}
			sort.Strings(fs)
			k := strings.Join(fs, " · ")
			r[k] += c * d
			if r[k] == 0 {
				delete(r, k)
			}
		}
	}
	return r
}

func (p poly) add(q poly) poly {
	r := poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		r[m] += c
		if r[m] == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		switch {
		case k == "":
			parts = append(parts, fmt.Sprint(p[k]))
		case p[k] == 1:
			parts = append(parts, k)
		default:
			parts = append(parts, fmt.Sprintf("%d*%s", p[k], k))
		}
	}
	if len(parts) == 0 {
		return "0"
	}
	return strings.Join(parts, " + ")
}

func polyEq(a, b *Lin) bool { return polyOf(a).String() == polyOf(b).String() }

// ---------------------------------------------------------------------------

func goodOuts(os []ioOut) []ioOut {
	var r []ioOut
	for _, o := range os {
		if !o.bad {
			r = append(r, o)
		}
	}
	return r
}

func tKey(t *serialType) string {
	return shortPkg(t.n.Obj().Pkg()) + "." + t.n.Obj().Name()
}

func (a *Analysis) checkLayout(r *Report) {
	for _, t := range a.serialTypes() {
		if t.write == nil || t.read == nil {
			if t.write != nil || t.read != nil {
				r.fail("layout-agree", tKey(t), "", "%s has only one of WriteTo and ReadFrom", tKey(t))
			}
			continue
		}
		r.Funcs[fnName(t.write)], r.Funcs[fnName(t.read)] = true, true
		for _, T := range torusTypes {
			a.layoutOf(r, t, T)
		}
		a.checkMarshal(r, t)
	}
}

type layoutCmp struct {
	a    *Analysis
	r    *Report
	t    *serialType
	T    string
	ob   *object
	key  string
	bad  bool
	hdr  int
	done bool
}

func (a *Analysis) layoutOf(r *Report, t *serialType, T string) {
	ws, rs := goodOuts(a.ioTraces(t.write, T)), goodOuts(a.ioTraces(t.read, T))
	key := tKey(t)
	for _, wo := range ws {
		wi := a.ioTrace(t.write, T, wo)
		matched := false
		for _, ro := range rs {
			ri := a.ioTrace(t.read, T, ro)
			if !compatible(wi, ri, ro) {
				continue
			}
			matched = true
			c := &layoutCmp{a: a, r: r, t: t, T: T, key: key, ob: a.objectOf(ro, T, t.n)}
			r.ob("layout-agree", key+" "+T)
			c.items(wi, ri, 0)
			if !c.bad {
				c.header(wi, ri)
				c.covered(wi, t.write, "WriteTo does not write", wo)
				c.covered(ri, t.read, "ReadFrom does not restore", ro)
				c.literal(ro)
			}
		}
		if !matched && len(rs) > 0 {
			r.fail("layout-agree", key, a.P.posStr(t.read.Pos()), "no way through %s reads what a way through %s writes: %s", fnName(t.read), fnName(t.write), showItems(wi))
		}
	}
}

// compatible: the constant flag words written lead to this way of reading.
func compatible(wi, ri []ioItem, ro ioOut) bool {
	sub := map[string]*Lin{}
	for i := 0; i < len(wi) && i < len(ri); i++ {
		if wi[i].kind == 'w' && ri[i].kind == 'w' && wi[i].val != nil && wi[i].val.isConst() && ri[i].val != nil && len(ri[i].val.t) == 1 {
			sub[ri[i].val.t[0].s.key] = wi[i].val
		}
	}
	for _, cd := range ro.st.conds {
		l := evalCond(cd.l.subst(func(s *Sym) *Lin { return sub[s.key] }))
		if l.isConst() && (l.c != 0) != cd.taken {
			return false
		}
	}
	return true
}

func (c *layoutCmp) fail(it ioItem, f string, args ...any) {
	if c.bad {
		return
	}
	c.bad = true
	c.r.fail("layout-agree", c.key, c.a.P.posStr(it.pos), "%s (for %s): "+f, append([]any{c.key, c.T}, args...)...)
}

func renameLoops(l *Lin, env map[*Loop]string) *Lin {
	return l.subst(func(s *Sym) *Lin {
		if s.kind == 'k' {
			if n, ok := env[s.loop]; ok {
				return linSym(internSym(&Sym{key: n, kind: 'v'}))
			}
		}
		return nil
	})
}

func firstElem(its []ioItem) *Path {
	for _, it := range its {
		if it.kind == 'w' && it.elem != nil && it.elem.root.kind == 'P' {
			return it.elem
		}
		if it.kind == 'L' {
			if p := firstElem(it.body); p != nil {
				return p
			}
		}
		if it.kind == 'S' && it.subOK && it.sub.root.kind == 'P' {
			p := it.sub
			return &p
		}
	}
	return nil
}

func unknownItems(its []ioItem) bool {
	for _, it := range its {
		if it.kind == '?' || it.kind == 'R' || it.kind == 'L' && unknownItems(it.body) {
			return true
		}
	}
	return false
}

func (c *layoutCmp) items(ws, rs []ioItem, depth int) {
	c.seq(ws, rs, map[*Loop]string{}, depth)
}

func (c *layoutCmp) seq(ws, rs []ioItem, env map[*Loop]string, depth int) {
	for i := 0; i < len(ws) || i < len(rs); i++ {
		if c.bad || c.done {
			return
		}
		if i >= len(ws) || i >= len(rs) {
			if unknownItems(ws) || unknownItems(rs) {
				return
			}
			if i < len(ws) {
				c.fail(ws[i], "WriteTo writes %s, which ReadFrom does not read", showItems(ws[i:]))
			} else {
				c.fail(rs[i], "ReadFrom reads %s, which WriteTo does not write", showItems(rs[i:]))
			}
			return
		}
		w, r := ws[i], rs[i]
		if w.kind == '?' || r.kind == '?' || w.kind == 'R' || r.kind == 'R' {
			c.done = true
			return
		}
		if w.kind != r.kind {
			p, q := firstElem(ws[i:i+1]), firstElem(rs[i:i+1])
			if p != nil && q != nil && strings.Join(p.fields(), ".") == strings.Join(q.fields(), ".") {
				c.done = true // the same data in a differently nested form
				return
			}
			c.fail(r, "WriteTo writes %s where ReadFrom reads %s", showItems(ws[i:i+1]), showItems(rs[i:i+1]))
			return
		}
		switch w.kind {
		case 'w':
			if w.width != r.width {
				c.fail(r, "WriteTo writes a word of %d bytes where ReadFrom reads %d (%s)", w.width, r.width, showItems(ws[i:i+1]))
				return
			}
			if w.width > 1 && w.order != r.order {
				c.fail(r, "WriteTo writes in %s order, ReadFrom reads in %s order", w.order, r.order)
				return
			}
			if w.src > 0 && w.bits > 0 && w.bits < w.src {
				c.fail(w, "an element of %d bits is written as %d bits", w.src, w.bits)
				return
			}
			if r.elem != nil && r.bits > 0 && r.bits < r.src {
				c.fail(r, "only %d bits of a word of %d are stored to %s", r.bits, r.src, showElem(*r.elem))
				return
			}
			if w.elem != nil && r.elem != nil && w.elem.root == r.elem.root {
				a, b := w.elem.substIdx(func(s *Sym) *Lin { return renameLoops(linSym(s), env) }), r.elem.substIdx(func(s *Sym) *Lin { return renameLoops(linSym(s), env) })
				if a.key() != b.key() {
					c.fail(r, "the word taken from %s is stored to %s", showElem(a), showElem(b))
					return
				}
			}
		case 'L':
			if w.trip == nil || r.trip == nil {
				c.done = true
				return
			}
			wt, rt := c.ob.eval(renameLoops(w.trip, env)), c.ob.eval(renameLoops(r.trip, env))
			if !polyEq(wt, rt) && !polyEq(w.trip, r.trip) {
				h := c.headerSyms(rs)
				if c.decided(wt, h) && c.decided(rt, h) {
					c.fail(r, "WriteTo writes %s elements where ReadFrom reads %s", showElemLin(w.trip), showElemLin(r.trip))
					return
				}
			}
			e := map[*Loop]string{}
			for k, v := range env {
				e[k] = v
			}
			e[w.loop], e[r.loop] = fmt.Sprintf("i%d", depth), fmt.Sprintf("i%d", depth)
			depth2 := depth + 1
			c.seq(w.body, r.body, e, depth2)
		case 'S':
			if w.typ.Origin() != r.typ.Origin() {
				c.fail(r, "WriteTo writes a %s where ReadFrom reads a %s", w.typ.Obj().Name(), r.typ.Obj().Name())
				return
			}
			if w.subOK && r.subOK && w.sub.root == r.sub.root && w.sub.key() != r.sub.key() {
				c.fail(r, "what WriteTo writes from %s is read into %s", showElem(w.sub), showElem(r.sub))
				return
			}
		}
	}
}

func showElem(p Path) string {
	return strings.TrimPrefix(p.key(), "P0")
}

func showElemLin(l *Lin) string { return strings.ReplaceAll(l.key(), "P0", "") }

func (c *layoutCmp) headerSyms(rs []ioItem) map[string]bool {
	m := map[string]bool{}
	for _, it := range rs {
		if it.kind == 'w' && it.val != nil {
			for _, t := range it.val.t {
				m[t.s.key] = true
			}
		}
	}
	return m
}

// decided: the value is fixed by the header words or by the receiver's
// lengths.
func (c *layoutCmp) decided(l *Lin, h map[string]bool) bool {
	return linOver(l, func(s *Sym) bool {
		return h[s.key] || (s.kind == 'l' && s.path.root.kind == 'P' && c.ob.shape == nil)
	})
}

// header: the header rebuilt from the words read equals the header written.
func (c *layoutCmp) header(ws, rs []ioItem) {
	syms := c.headerSyms(rs)
	for i := range ws {
		if i >= len(rs) || ws[i].kind != rs[i].kind {
			return
		}
		w, r := ws[i], rs[i]
		if w.kind == 'S' && w.subOK && r.subOK && w.sub.root.kind == 'P' && r.sub.root.kind != 'P' {
			c.restored(w, r, rs)
			continue
		}
		if w.kind != 'w' || r.elem != nil || w.val == nil || r.val == nil || w.val.isConst() {
			continue
		}
		if w.bits > 0 && w.bits < w.width*8 && (w.src == 0 || w.bits < w.src) {
			c.r.fail("header-roundtrip", c.key, c.a.P.posStr(w.pos), "%s: header word %d holds only %d bits of %s", c.key, i, w.bits, showElemLin(w.val))
		}
		got := c.ob.eval(w.val)
		ok := polyEq(got, r.val)
		if !ok && !linOver(got, func(s *Sym) bool { return syms[s.key] }) {
			if c.untouched(w.val) {
				c.r.fail("header-roundtrip", c.key, c.a.P.posStr(r.pos), "%s: the header word %s is read but never restored", c.key, showElemLin(w.val))
			}
			continue // not determined
		}
		c.r.ob("header-roundtrip", c.key+" "+showElemLin(w.val))
		if !ok {
			c.r.fail("header-roundtrip", c.key, c.a.P.posStr(r.pos), "%s: header word %d holds %s, but reading it back makes it %s", c.key, i, showElemLin(w.val), c.symNames(got, rs))
		}
	}
}

// untouched: the value is a field of the receiver that ReadFrom replaces
// nowhere.
func (c *layoutCmp) untouched(l *Lin) bool {
	if len(l.t) != 1 || l.t[0].s.kind != 'p' || l.t[0].s.path.root.kind != 'P' {
		return false
	}
	return len(c.ob.at) == 0
}

func (c *layoutCmp) symNames(l *Lin, rs []ioItem) string {
	s := l.key()
	for i, it := range rs {
		if it.kind == 'w' && it.val != nil && len(it.val.t) == 1 {
			s = strings.ReplaceAll(s, it.val.t[0].s.key, fmt.Sprintf("word %d", i))
		}
	}
	return s
}

// restored: a nested object read into a local ends up where the written one
// came from.
func (c *layoutCmp) restored(w, r ioItem, rs []ioItem) {
	st, ok := w.typ.Origin().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !isInt(f.Type()) && !isTypeParam(f.Type()) {
			continue
		}
		src := w.sub.field(f.Name())
		got := c.ob.eval(linSym(symPath(src)))
		if len(got.t) != 1 || got.c != 0 || got.t[0].s.kind != 'p' {
			continue
		}
		gp := got.t[0].s.path
		if gp.root == r.sub.root {
			c.r.ob("header-roundtrip", c.key+" "+showElem(src))
			if n := len(gp.steps); n > 0 && gp.steps[n-1].kind == 'f' && gp.steps[n-1].field != f.Name() {
				c.r.fail("header-roundtrip", c.key, c.a.P.posStr(r.pos), "%s: %s is restored from %s of the words read", c.key, showElem(src), gp.steps[n-1].field)
			}
			continue
		}
		for _, o := range rs {
			if o.kind == 'S' && o.subOK && o.sub.root == gp.root && gp.root.kind != 'P' {
				c.r.fail("header-roundtrip", c.key, c.a.P.posStr(r.pos), "%s: %s is restored from the words of another object", c.key, showElem(src))
			}
		}
	}
}

// literal: a parameter literal built by ReadFrom has all of its fields set.
func (c *layoutCmp) literal(ro ioOut) {
	for _, x := range ro.st.objs {
		call, ok := x.val.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 {
			continue
		}
		n := namedOf(call.Call.Args[0].Type())
		if n == nil || !strings.HasSuffix(n.Obj().Name(), "Literal") {
			continue
		}
		st, ok := n.Origin().Underlying().(*types.Struct)
		ps := x.fi.paths(call.Call.Args[0])
		if !ok || len(ps) != 1 || ps[0].root.kind != 'A' || len(ps[0].steps) != 0 {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Name()
			set := false
			for _, sr := range x.fi.stores[ps[0].root] {
				if len(sr.steps) == 0 || sr.steps[0].kind == 'f' && sr.steps[0].field == f {
					set = true
				}
			}
			c.r.ob("header-roundtrip", c.key+" literal field "+f)
			if !set {
				c.r.fail("header-roundtrip", c.key+" "+f, c.a.P.posStr(call.Pos()), "%s: ReadFrom leaves %s of the rebuilt %s unset", c.key, f, n.Obj().Name())
			}
		}
	}
}

type coverRec struct {
	p     Path
	loops []ioItem
}

func collectElems(its []ioItem, loops []ioItem, out *[]coverRec) {
	for _, it := range its {
		switch it.kind {
		case 'w':
			if it.elem != nil {
				*out = append(*out, coverRec{*it.elem, loops})
			}
		case 'L':
			collectElems(it.body, append(append([]ioItem(nil), loops...), it), out)
		case 'S':
			if it.subOK {
				*out = append(*out, coverRec{it.sub, loops})
			}
		}
	}
}

// covered: every data leaf of the type is moved, over its whole length.
func (c *layoutCmp) covered(its []ioItem, f *ssa.Function, what string, o ioOut) {
	if unknownItems(its) {
		return
	}
	var recs []coverRec
	collectElems(its, nil, &recs)
	key := c.key + " " + f.Name()
	for _, l := range leaves(Path{root: paramRoot(0)}, c.t.n, 0) {
		if !isDataLeaf(c.t.n, l) {
			continue
		}
		if skipByCond(o, l) {
			continue
		}
		c.r.ob("data-covered", key+" "+showElem(l))
		hit := false
		var partial *coverRec
		for i, rec := range recs {
			if !leafMatches(rec.p, l) {
				continue
			}
			if c.whole(rec) {
				hit = true
				break
			}
			partial = &recs[i]
		}
		if hit {
			continue
		}
		if partial != nil {
			n := 0
			for _, rec := range recs {
				if leafMatches(rec.p, l) {
					n++
				}
			}
			if n == 1 {
				c.r.fail("data-covered", key+" "+l.shape(), c.a.P.posStr(f.Pos()), "%s: %s all of %s, only %s", c.key, what, showElem(l), showElem(partial.p))
			}
			continue
		}
		if c.viewOfCovered(l, recs) {
			continue
		}
		c.r.fail("data-covered", key+" "+l.shape(), c.a.P.posStr(f.Pos()), "%s: %s %s", c.key, what, showElem(l))
	}
}

// skipByCond: the object is known to be without this part on this way.
func skipByCond(o ioOut, l Path) bool {
	for _, cd := range o.st.conds {
		for _, t := range cd.l.t {
			for _, x := range t.s.args {
				for _, y := range x.t {
					if y.s.kind == 'l' && y.s.path.root.kind == 'P' && len(y.s.path.steps) > 0 {
						p := y.s.path
						if len(p.steps) <= len(l.steps) && strings.HasPrefix(strings.Join(l.fields(), ".")+".", strings.Join(p.fields(), ".")+".") {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// leafMatches: moving p moves (elements of) the leaf l.
func leafMatches(p, l Path) bool {
	i := 0
	for ; i < len(p.steps) && i < len(l.steps); i++ {
		a, b := p.steps[i], l.steps[i]
		if (a.kind == 'f') != (b.kind == 'f') || a.kind == 'f' && a.field != b.field {
			return false
		}
	}
	return i == len(p.steps) || i == len(l.steps) && len(p.steps) == i+1
}

// whole: every index on the way runs over its whole list.
func (c *layoutCmp) whole(rec coverRec) bool {
	for i, s := range rec.p.steps {
		if s.kind == 'f' {
			continue
		}
		if s.kind != 'e' {
			continue
		}
		var lp *ioItem
		off := s.lo
		for j := range rec.loops {
			if co, ok := s.lo.coef(rec.loops[j].loop); ok && co == 1 {
				lp = &rec.loops[j]
				off = s.lo.sub(linSym(lp.loop.sym()))
			}
		}
		if lp == nil {
			if s.lo.isConst() {
				n := c.ob.eval(linLen(Path{root: rec.p.root, steps: rec.p.steps[:i]}))
				if n.isConst() && n.c == 1 && s.lo.c == 0 {
					continue
				}
				return false
			}
			continue // not followed
		}
		if off.isConst() && off.c != 0 {
			return false
		}
		n, tr := c.ob.eval(linLen(Path{root: rec.p.root, steps: rec.p.steps[:i]})), c.ob.eval(lp.trip)
		if n == nil || tr == nil {
			continue
		}
		d := n.sub(tr)
		if d.isConst() && d.c != 0 {
			return false
		}
	}
	return true
}

// viewOfCovered: the leaf shares its storage with a part that is moved.
func (c *layoutCmp) viewOfCovered(l Path, recs []coverRec) bool {
	for _, x := range c.ob.at {
		if len(x.dst.steps) != 0 {
			continue
		}
		ps := x.fi.paths(x.val)
		if len(ps) != 1 {
			return true
		}
		mine := storageRoots(x.fi, ps[0], l.steps)
		if mine == nil {
			return true
		}
		for _, rec := range recs {
			st := rec.p.steps
			for len(st) > 0 && st[len(st)-1].kind != 'f' {
				st = st[:len(st)-1]
			}
			for k := range storageRoots(x.fi, ps[0], st) {
				if mine[k] {
					return true
				}
			}
		}
	}
	return false
}

func storageRoots(fi *FnInfo, p Path, steps []Step) map[string]bool {
	for len(steps) > 0 && steps[len(steps)-1].kind != 'f' {
		steps = steps[:len(steps)-1]
	}
	if p.root.kind == 'C' && p.root.inner != nil {
		if call, ok := p.root.v.(ssa.CallInstruction); ok {
			if callee := fi.a.callee(call); callee != nil && len(callee.Blocks) > 0 {
				return storageRoots(fi.a.fnInfo(callee), Path{root: p.root.inner, steps: p.steps}, steps)
			}
		}
	}
	m := map[string]bool{}
	for _, q := range fi.extend(p, eraseIdx(steps), 0) {
		if len(q.steps) > 0 && q.steps[len(q.steps)-1].kind == 'f' {
			for _, z := range fi.content(q, 0) {
				m[z.root.key] = true
			}
			continue
		}
		m[q.root.key] = true
	}
	return m
}

// isDataLeaf: elements of slices, and plain scalar fields holding data.
func isDataLeaf(n *types.Named, l Path) bool {
	for _, s := range l.steps {
		if s.kind != 'f' {
			return true
		}
	}
	return false
}

// checkMarshal: MarshalBinary and UnmarshalBinary go through the stream form.
func (a *Analysis) checkMarshal(r *Report, t *serialType) {
	for _, m := range []struct {
		f    *ssa.Function
		want *ssa.Function
	}{{t.marsh, t.write}, {t.unmar, t.read}} {
		if m.f == nil {
			continue
		}
		key := fnName(m.f)
		r.ob("marshal-delegates", key)
		fi := a.fnInfo(m.f)
		n := 0
		for _, b := range m.f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				g = origin(g)
				if g.Name() != m.want.Name() || recvNamed(g) == nil || !inModule(g) {
					continue
				}
				n++
				ps := fi.paths(c.Call.Args[0])
				if g != m.want || len(ps) == 1 && (ps[0].root.kind == 'P' && len(ps[0].steps) > 0) {
					r.fail("marshal-delegates", key, a.P.posStr(c.Pos()), "%s handles only a part of the object (%s)", key, fnName(g))
					continue
				}
				ev := extractOf(c, 1)
				ok = false
				for _, ret := range returnsOf(m.f) {
					if k := len(ret.Results); k > 0 && ev != nil {
						ok = ok || valueReaches(ev, ret.Results[k-1], 0)
					}
				}
				if !ok {
					r.fail("marshal-delegates", key, a.P.posStr(c.Pos()), "%s drops the error of %s", key, fnName(g))
				}
			}
		}
		if n == 0 && a.callsNothingOf(m.f) {
			r.fail("marshal-delegates", key, a.P.posStr(m.f.Pos()), "%s does not use %s", key, fnName(m.want))
		}
	}
}

// callsNothingOf: fn moves no bytes through anything the analysis can follow.
func (a *Analysis) callsNothingOf(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && inModule(origin(g)) && origin(g).Name() != "ByteSize" {
					return false
				}
			}
		}
	}
	return true
}

func valueReaches(v, ret ssa.Value, d int) bool {
	if v == ret {
		return true
	}
	if d > 6 {
		return true
	}
	if p, ok := ret.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			if valueReaches(v, e, d+1) {
				return true
			}
		}
	}
	if _, ok := ret.(*ssa.Const); ok {
		return false
	}
	if _, ok := ret.(*ssa.Phi); ok {
		return false
	}
	_, ext := ret.(*ssa.Extract)
	return !ext
}

// ---------------------------------------------------------------------------

// traceSize is the number of bytes of a trace.
func (a *Analysis) traceSize(its []ioItem, T string) (poly, bool) {
	tot := poly{}
	for _, it := range its {
		switch it.kind {
		case 'w':
			tot = tot.add(poly{"": it.width})
		case 'L':
			b, ok := a.traceSize(it.body, T)
			if !ok || it.trip == nil {
				return nil, false
			}
			tr := polyOf(it.trip)
			for m := range b {
				if strings.Contains(m, "k") && strings.Contains(m, it.loop.sym().key) {
					return nil, false
				}
			}
			tot = tot.add(tr.mul(b))
		default:
			return nil, false
		}
	}
	return tot, true
}

func (c *layoutCmp) evalItems(its []ioItem) []ioItem {
	var out []ioItem
	for _, it := range its {
		if it.trip != nil {
			it.trip = c.ob.eval(it.trip)
		}
		it.body = c.evalItems(it.body)
		out = append(out, it)
	}
	return out
}

// sizeWays lists the values ByteSize can return with their conditions.
func (a *Analysis) sizeWays(f *ssa.Function, T string) []ioOut {
	w := &ioWalk{a: a, T: T, fi: a.fnInfo(f), quiet: true, key: fnName(f)}
	w.walk()
	return w.outs
}

func (a *Analysis) sizeLin(f *ssa.Function, T string, o ioOut) *Lin {
	w := &ioWalk{a: a, T: T, fi: a.fnInfo(f), quiet: true}
	return w.eval(o.st, o.ret.Results[0]).subst(sizeTSubst(T))
}

func condsAgree(x, y []ioCond) bool {
	for _, a := range x {
		for _, b := range y {
			if a.l.eq(b.l) && a.taken != b.taken {
				return false
			}
		}
	}
	return true
}

// replaceSubs swaps nested objects for opaque words of their own size.
func (a *Analysis) subSizes(its []ioItem, T string) ([]ioItem, poly) {
	var out []ioItem
	tot := poly{}
	for _, it := range its {
		if it.kind != 'S' || !it.subOK {
			out = append(out, it)
			continue
		}
		var size *ssa.Function
		for _, t := range a.serialTypes() {
			if t.n.Origin() == it.typ.Origin() {
				size = t.size
			}
		}
		if size == nil {
			out = append(out, it)
			continue
		}
		l := a.retLin(size, 0)
		if l == nil {
			// several ways: the size stays symbolic
			tot = tot.add(poly{fmt.Sprintf("(%s#0 %s)", fnName(size), it.sub.key()): 1})
			continue
		}
		st := it.sub
		l = l.subst(func(s *Sym) *Lin {
			if (s.kind == 'l' || s.kind == 'p') && s.path.root.kind == 'P' && s.path.root.idx == 0 {
				q := st
				for _, x := range s.path.steps {
					q = q.with(x)
				}
				if s.kind == 'l' {
					return linLen(q)
				}
				return linSym(symPath(q))
			}
			return nil
		}).subst(sizeTSubst(T))
		tot = tot.add(polyOf(l))
	}
	return out, tot
}

func (a *Analysis) checkSizes(r *Report) {
	for _, t := range a.serialTypes() {
		if t.write == nil || t.size == nil {
			continue
		}
		r.Funcs[fnName(t.write)], r.Funcs[fnName(t.size)] = true, true
		key := tKey(t)
		for _, T := range torusTypes {
			c := &layoutCmp{a: a, r: r, t: t, T: T, key: key, ob: &object{a: a, T: T}}
			if t.read != nil {
				for _, ro := range goodOuts(a.ioTraces(t.read, T)) {
					c.ob = a.objectOf(ro, T, t.n)
				}
			}
			for _, wo := range goodOuts(a.ioTraces(t.write, T)) {
				wi := a.ioTrace(t.write, T, wo)
				a.checkBuffers(c, wi)
				wi, subs := a.subSizes(wi, T)
				raw, ok := a.traceSize(wi, T)
				ev, ok2 := a.traceSize(c.evalItems(wi), T)
				if !ok2 {
					continue
				}
				if !ok {
					raw = ev // lengths that vary along a list: only the constructor's lengths tell
				}
				raw, ev = raw.add(subs), ev.add(subs)
				for _, so := range a.sizeWays(t.size, T) {
					if !condsAgree(wo.st.conds, so.st.conds) {
						continue
					}
					want := a.sizeLin(t.size, T, so)
					r.ob("size", key+" "+T)
					if polyOf(want).String() == raw.String() {
						continue
					}
					wantEv := polyOf(c.ob.eval(want))
					if wantEv.String() == ev.String() {
						continue
					}
					if !sizeKnown(c.ob.eval(want), ev) {
						continue
					}
					r.fail("size", key, a.P.posStr(t.size.Pos()), "%s (for %s) writes %s bytes, but ByteSize is %s", fnName(t.write), T, strings.ReplaceAll(raw.String(), "P0", ""), strings.ReplaceAll(polyOf(want).String(), "P0", ""))
				}
			}
			if t.read != nil {
				for _, ro := range goodOuts(a.ioTraces(t.read, T)) {
					a.checkBuffers(c, a.ioTrace(t.read, T, ro))
				}
			}
		}
	}
}

// headerWord: the value was decoded from bytes.
func headerWord(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	_, _, _, ok = binaryFn(c.Call.StaticCallee())
	return ok
}

func sizeKnown(l *Lin, other poly) bool {
	shared := map[string]bool{}
	for m := range other {
		for _, f := range strings.Split(m, " · ") {
			shared[f] = true
		}
	}
	return linOver(l, func(s *Sym) bool {
		return (s.kind == 'p' || s.kind == 'v') && shared[s.key] || s.kind == 'l' || s.kind == 'v' && headerWord(s.v) || s.kind == 'o' && strings.Contains(s.op, "ByteSize#0")
	})
}

// checkBuffers: a buffer written or filled at once has the length of the
// elements that pass through it.
func (a *Analysis) checkBuffers(c *layoutCmp, its []ioItem) {
	for _, it := range its {
		if it.kind != 'L' {
			continue
		}
		if it.chunk != nil && len(it.body) == 1 && it.body[0].kind == 'w' {
			c.r.ob("buffer", c.key+" "+c.T)
			n, m := c.ob.eval(it.chunk), c.ob.eval(it.trip.scale(it.body[0].width))
			d := n.sub(m)
			if !polyEq(n, m) && (d.isConst() || sizeKnown(n, nil) && sizeKnown(m, nil)) {
				c.r.fail("buffer", c.key, a.P.posStr(it.pos), "%s (for %s): a buffer of %s bytes carries elements of %s bytes", fnName(it.fn), c.T, strings.ReplaceAll(n.key(), "P0", ""), strings.ReplaceAll(m.key(), "P0", ""))
			}
			continue
		}
		a.checkBuffers(c, it.body)
	}
}

// checkCounts walks every function that moves bytes.
func (a *Analysis) checkCounts(r *Report) {
	for _, f := range a.P.Funcs {
		if streamKind(f) == 0 || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		r.Funcs[fnName(f)] = true
		for _, T := range torusTypes {
			w := &ioWalk{a: a, T: T, fi: a.fnInfo(f), rep: r, key: fnName(f)}
			w.walk()
		}
	}
}
