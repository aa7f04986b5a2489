package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Value numbers: every value is a polynomial over atoms, kept in normal form
// and hash-consed, so that equal values have equal numbers however they were
// computed. Conditionals are polynomials in 0/1 indicator atoms.
// ---------------------------------------------------------------------------

type Atom struct {
	id    int
	kind  byte // 'm' memory on entry, 's' integer symbol, 'o' operator, 'I' indicator, 'S' sum, 'F' linear transform, 'P' value of the round before, 'c' constant, '?' unknown
	op    string
	path  Path
	sym   *Sym
	args  []*Expr
	idx   []*Lin
	n     *Lin // 'S': number of terms
	body  *Expr
	depth int
	unk   bool
	free  map[any]bool
}

type mono struct {
	co int64
	as []*Atom
}

type Expr struct {
	id    int
	ms    []mono
	depth int
	unk   bool
	free  map[any]bool
}

var (
	atomTab = map[string]*Atom{}
	exprTab = map[string]*Expr{}
)

func internAtom(key string, mk func() *Atom) *Atom {
	if a := atomTab[key]; a != nil {
		return a
	}
	a := mk()
	a.id = len(atomTab) + 1
	for _, e := range a.args {
		a.depth = max(a.depth, e.depth)
		a.unk = a.unk || e.unk
	}
	if a.body != nil {
		a.depth = max(a.depth, a.body.depth+1)
		a.unk = a.unk || a.body.unk
	}
	if a.kind == '?' {
		a.unk = true
	}
	atomTab[key] = a
	return a
}

func asKey(as []*Atom) string {
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, "%d.", a.id)
	}
	return b.String()
}

func mkExpr(ms []mono) *Expr {
	acc := map[string]*mono{}
	var ks []string
	for _, m := range ms {
		k := asKey(m.as)
		if o := acc[k]; o != nil {
			o.co += m.co
		} else {
			c := m
			acc[k] = &c
			ks = append(ks, k)
		}
	}
	if len(ks) > maxTerms {
		return xUnknown("too many terms")
	}
	sort.Strings(ks)
	e := &Expr{}
	var b strings.Builder
	for _, k := range ks {
		m := acc[k]
		if m.co == 0 {
			continue
		}
		e.ms = append(e.ms, *m)
		fmt.Fprintf(&b, "%d*%s+", m.co, k)
		for _, a := range m.as {
			e.depth = max(e.depth, a.depth)
			e.unk = e.unk || a.unk
		}
	}
	if o := exprTab[b.String()]; o != nil {
		return o
	}
	e.id = len(exprTab) + 1
	exprTab[b.String()] = e
	return e
}

func xConst(c int64) *Expr {
	if c == 0 {
		return mkExpr(nil)
	}
	return mkExpr([]mono{{co: c}})
}

func xAtom(a *Atom) *Expr { return mkExpr([]mono{{1, []*Atom{a}}}) }

func (e *Expr) constant() (int64, bool) {
	if len(e.ms) == 0 {
		return 0, true
	}
	if len(e.ms) == 1 && len(e.ms[0].as) == 0 {
		return e.ms[0].co, true
	}
	return 0, false
}

func (e *Expr) add(o *Expr) *Expr {
	return mkExpr(append(append([]mono(nil), e.ms...), o.ms...))
}

func (e *Expr) scale(c int64) *Expr {
	ms := make([]mono, len(e.ms))
	for i, m := range e.ms {
		ms[i] = mono{m.co * c, m.as}
	}
	return mkExpr(ms)
}

func (e *Expr) sub(o *Expr) *Expr { return e.add(o.scale(-1)) }

const maxTerms = 300

func (e *Expr) mul(o *Expr) *Expr {
	if len(e.ms)*len(o.ms) > maxTerms {
		if e.unk || o.unk {
			return xUnknown("factor")
		}
		// the larger factor stays together
		if len(e.ms) >= len(o.ms) {
			return xOp("paren", e).mul(o)
		}
		return e.mul(xOp("paren", o))
	}
	var ms []mono
	for _, a := range e.ms {
		for _, b := range o.ms {
			ms = append(ms, mono{a.co * b.co, mulAtoms(a.as, b.as)})
		}
	}
	return mkExpr(ms)
}

func mulAtoms(x, y []*Atom) []*Atom {
	out := make([]*Atom, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || i < len(x) && x[i].id < y[j].id:
			out = append(out, x[i])
			i++
		case i >= len(x) || x[i].id > y[j].id:
			out = append(out, y[j])
			j++
		default:
			out = append(out, x[i])
			if x[i].kind != 'I' { // indicators are idempotent
				out = append(out, y[j])
			}
			i++
			j++
		}
	}
	return out
}

var unkCount int

var unkAtom = internAtom("?", func() *Atom { return &Atom{kind: '?', op: "unknown"} })

func xUnknown(why string) *Expr {
	unkCount++
	if unkTrace != nil {
		unkTrace(why)
	}
	return xAtom(internAtom(fmt.Sprintf("?%s", why), func() *Atom { return &Atom{kind: '?', op: why} }))
}

var unkTrace func(string)

func xMem(p Path) *Expr {
	return xAtom(internAtom("m"+p.key(), func() *Atom { return &Atom{kind: 'm', path: p} }))
}

func xSym(s *Sym) *Expr {
	if s.kind == 'p' {
		return xMem(s.path)
	}
	if s.kind == 'o' {
		var args []*Expr
		for _, a := range s.args {
			args = append(args, fromLin(a))
		}
		if len(args) == 2 {
			switch s.op {
			case "*":
				return args[0].mul(args[1])
			case "<<":
				return xShl(args[0], args[1])
			case "==", "!=", "<":
				return xCmp(s.op, args[0], args[1])
			}
		}
		if s.op == "!" && len(args) == 1 {
			return xConst(1).sub(args[0])
		}
		return xOp(s.op, args...)
	}
	return xAtom(internAtom("s"+s.key, func() *Atom { return &Atom{kind: 's', sym: s} }))
}

func fromLin(l *Lin) *Expr {
	e := xConst(l.c)
	for _, t := range l.t {
		e = e.add(xSym(t.s).scale(t.co))
	}
	return e
}

func xOp(op string, args ...*Expr) *Expr {
	if len(args) == 2 && commutative[op] && args[0].id > args[1].id {
		args = []*Expr{args[1], args[0]}
	}
	if op == "divround" {
		// of the words' magnitudes: the signed view of a count is the count
		args = append([]*Expr(nil), args...)
		for i, a := range args {
			if len(a.ms) == 1 && a.ms[0].co == 1 && len(a.ms[0].as) == 1 && a.ms[0].as[0].kind == 'o' && a.ms[0].as[0].op == "signed" {
				args[i] = a.ms[0].as[0].args[0]
			}
		}
	}
	if len(args) == 2 {
		a, ok1 := args[0].constant()
		b, ok2 := args[1].constant()
		if ok2 && b == 0 && (op == ">>" || op == "|" || op == "^") {
			return args[0]
		}
		if ok2 && b == 1 && op == "/" {
			return args[0]
		}
		if ok1 && a == 0 && (op == "&" || op == ">>" || op == "/" || op == "%") {
			return args[0]
		}
		if ok1 && ok2 {
			if l := linOp(op, linConst(a), linConst(b)); l.isConst() {
				return xConst(l.c)
			}
		}
	}
	for _, a := range args {
		if a.unk {
			return xAtom(unkAtom)
		}
	}
	var b strings.Builder
	b.WriteString("o" + op + "(")
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	return xAtom(internAtom(b.String(), func() *Atom { return &Atom{kind: 'o', op: op, args: args} }))
}

// xShl is a << b, with constant parts of the exponent taken out.
func xShl(a, b *Expr) *Expr {
	var c int64
	rest := b
	for _, m := range b.ms {
		if len(m.as) == 0 {
			c = m.co
		}
	}
	rest = b.sub(xConst(c))
	if _, ok := rest.constant(); ok {
		if c >= 0 && c < 62 {
			return a.scale(1 << uint(c))
		}
		return a.mul(xOp("pow2", b))
	}
	if c >= 0 && c < 32 {
		return a.scale(1 << uint(c)).mul(xOp("pow2", rest))
	}
	return a.mul(xOp("pow2", b))
}

func xCmp(op string, a, b *Expr) *Expr {
	d := a.sub(b)
	c, isC := d.constant()
	if d.unk {
		return xAtom(unkAtom)
	}
	ind := func(k string, d *Expr) *Expr {
		return xAtom(internAtom(fmt.Sprintf("I%s%d", k, d.id), func() *Atom { return &Atom{kind: 'I', op: k, args: []*Expr{d}} }))
	}
	b2i := func(v bool) *Expr {
		if v {
			return xConst(1)
		}
		return xConst(0)
	}
	switch op {
	case "==", "!=":
		var r *Expr
		if isC {
			r = b2i(c == 0)
		} else {
			if d.ms[leading(d)].co < 0 {
				d = d.scale(-1)
			}
			r = ind("eq", d)
		}
		if op == "!=" {
			return xConst(1).sub(r)
		}
		return r
	case "<":
		if isC {
			return b2i(c < 0)
		}
		if d.ms[leading(d)].co < 0 {
			return xConst(1).sub(ind("lt", d.scale(-1).sub(xConst(1))))
		}
		return ind("lt", d)
	}
	return xUnknown("comparison")
}

func leading(e *Expr) int {
	for i, m := range e.ms {
		if len(m.as) > 0 {
			return i
		}
	}
	return 0
}

func xIte(c, a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if v, ok := c.constant(); ok {
		if v != 0 {
			return a
		}
		return b
	}
	return b.add(c.mul(a.sub(b)))
}

// ---------------------------------------------------------------------------
// Binders
// ---------------------------------------------------------------------------

func sigma(d int) *Sym {
	return internSym(&Sym{key: fmt.Sprintf("σ%d", d), kind: 'b', op: "nn"})
}

var freshNo int

func freshVar() *Sym {
	freshNo++
	return internSym(&Sym{key: fmt.Sprintf("β%d", freshNo), kind: 'b', op: "nn"})
}

func swapSym(from *Sym, to *Lin) substFn {
	return func(s *Sym) *Lin {
		if s == from {
			return to
		}
		return nil
	}
}

func (s *Sym) mentions(v *Sym) bool {
	if s == v {
		return true
	}
	for _, a := range s.args {
		if a.mentions(v) {
			return true
		}
	}
	return s.path.root != nil && s.path.mentions(v)
}

func (l *Lin) mentions(v *Sym) bool {
	for _, t := range l.t {
		if t.s.mentions(v) {
			return true
		}
	}
	return false
}

func (p Path) mentions(v *Sym) bool {
	for _, s := range p.steps {
		if s.lo != nil && s.lo.mentions(v) || s.hi != nil && s.hi.mentions(v) {
			return true
		}
	}
	return false
}

// union adds what o has to s; sets are shared between nodes and not changed.
func union(s, o map[any]bool) map[any]bool {
	if len(s) == 0 {
		return o
	}
	grow := false
	for k := range o {
		if !s[k] {
			grow = true
			break
		}
	}
	if !grow {
		return s
	}
	n := make(map[any]bool, len(s)+len(o))
	for k := range s {
		n[k] = true
	}
	for k := range o {
		n[k] = true
	}
	return n
}

func (s *Sym) addFree(m map[any]bool) {
	if m[s] {
		return
	}
	m[s] = true
	for _, a := range s.args {
		a.addFree(m)
	}
	if s.path.root != nil {
		s.path.addFree(m)
	}
}

func (l *Lin) addFree(m map[any]bool) {
	for _, t := range l.t {
		t.s.addFree(m)
	}
}

func (p Path) addFree(m map[any]bool) {
	for _, s := range p.steps {
		if s.lo != nil {
			s.lo.addFree(m)
		}
		if s.hi != nil {
			s.hi.addFree(m)
		}
	}
}

// leaves are the symbols and the values of rounds before that a mentions.
func (a *Atom) leaves() map[any]bool {
	if a.free != nil {
		return a.free
	}
	m := map[any]bool{}
	if a.path.root != nil {
		a.path.addFree(m)
	}
	if a.sym != nil {
		a.sym.addFree(m)
	}
	if a.kind == 'P' {
		m[a] = true
	}
	for _, x := range a.idx {
		x.addFree(m)
	}
	if a.n != nil {
		a.n.addFree(m)
	}
	for _, x := range a.args {
		m = union(m, x.leaves())
	}
	if a.body != nil {
		m = union(m, a.body.leaves())
	}
	a.free = m
	return m
}

func (e *Expr) leaves() map[any]bool {
	if e.free != nil {
		return e.free
	}
	m := map[any]bool{}
	for _, x := range e.ms {
		for _, a := range x.as {
			m = union(m, a.leaves())
		}
	}
	e.free = m
	return m
}

func (a *Atom) mentions(v *Sym) bool { return a.leaves()[v] }

func (e *Expr) mentions(v *Sym) bool { return e.leaves()[v] }

// bound lists the variables of the sums and transforms being rewritten, with
// what is known of them.
var bound []*Lin
var openLevel int

// open replaces the bound variable of a sum (of n terms) or transform by one
// that nothing else uses until close.
func (a *Atom) open(n *Lin) (*Sym, *Expr) {
	openLevel++
	k := "."
	if n != nil {
		k = n.key()
	}
	v := internSym(&Sym{key: fmt.Sprintf("ω%d<%s>", openLevel, k), kind: 'b', op: "nn"})
	if n != nil {
		bound = append(bound, n.sub(linSym(v)).addc(-1))
	} else {
		bound = append(bound, linSym(v))
	}
	return v, a.body.swap(sigma(a.body.depth), linSym(v), nil, nil)
}

func (a *Atom) close(v *Sym) {
	openLevel--
	bound = bound[:len(bound)-1]
}

func closeBody(v *Sym, body *Expr) *Expr {
	return body.swap(v, linSym(sigma(body.depth)), nil, nil)
}

// xSum is the sum of body over v = 0 .. n-1.
func xSum(v *Sym, n *Lin, body *Expr) *Expr {
	if n.isConst() && n.c <= 0 {
		return xConst(0)
	}
	if body.unk {
		return xAtom(unkAtom)
	}
	out := xConst(0)
	for _, m := range body.ms {
		in, ex := splitMono(m, v)
		if len(in) == 0 {
			out = out.add(mkExpr([]mono{{m.co, ex}}).mul(fromLin(n)))
			continue
		}
		b := closeBody(v, mkExpr([]mono{{1, in}}))
		s := internAtom(fmt.Sprintf("S%s:%d", n.key(), b.id), func() *Atom { return &Atom{kind: 'S', n: n, body: b} })
		out = out.add(mkExpr([]mono{{m.co, ex}}).mul(xAtom(s)))
	}
	return out
}

// foldPrev stands, in the body of a fold, for the value of the round before.
func foldPrev(d int) *Atom {
	k := fmt.Sprintf("#%d", d)
	return internAtom("P"+k, func() *Atom { return &Atom{kind: 'P', op: k} })
}

// swap replaces one symbol, and one value of a round before.
func (e *Expr) swap(from *Sym, to *Lin, fromA *Atom, toE *Expr) *Expr {
	c := &sctx{to: to, toE: toE, em: map[*Expr]*Expr{}, am: map[*Atom]*Expr{}, fs: func(s *Sym) *Lin {
		if s == from && from != nil {
			return to
		}
		return nil
	}}
	if from != nil {
		c.only = append(c.only, from)
	}
	if fromA != nil {
		c.only = append(c.only, fromA)
		c.fm = func(a *Atom) *Expr {
			if a == fromA {
				return toE
			}
			return nil
		}
	}
	return c.expr(e)
}

// xFold is the value after n rounds of x = body(x, v), v = 0 .. n-1, from init.
func xFold(prev *Atom, v *Sym, n *Lin, body, init *Expr) *Expr {
	if n.isConst() && n.c <= 0 {
		return init
	}
	if body.unk || init.unk {
		return xAtom(unkAtom)
	}
	if n.isConst() && n.c <= 4 {
		for i := int64(0); i < n.c && !init.unk; i++ {
			init = body.swap(v, linConst(i), prev, init)
		}
		return init
	}
	b := body.swap(nil, nil, prev, xAtom(foldPrev(body.depth)))
	b = closeBody(v, b)
	return xAtom(internAtom(fmt.Sprintf("Z%s:%d:%d", n.key(), b.id, init.id), func() *Atom { return &Atom{kind: 'Z', n: n, body: b, args: []*Expr{init}} }))
}

func splitMono(m mono, v *Sym) (in, ex []*Atom) {
	for _, a := range m.as {
		if a.mentions(v) {
			in = append(in, a)
		} else {
			ex = append(ex, a)
		}
	}
	return
}

// xLinear is the linear transform op of the vector body(v), at index idx.
func xLinear(op string, idx []*Lin, v *Sym, body *Expr, args ...*Expr) *Expr {
	if body.unk {
		return xAtom(unkAtom)
	}
	out := xConst(0)
	if anyUnk(args) {
		return xAtom(unkAtom)
	}
	for _, m := range body.ms {
		in, ex := splitMono(m, v)
		pre := mkExpr([]mono{{m.co, ex}})
		if len(in) == 1 && in[0].kind == 'S' {
			w, b := in[0].open(in[0].n)
			out = out.add(pre.mul(xSum(w, in[0].n, xLinear(op, idx, v, b, args...))))
			in[0].close(w)
			continue
		}
		b := closeBody(v, mkExpr([]mono{{1, in}}))
		out = out.add(pre.mul(xAtom(binderAtom('F', op, idx, b, args))))
	}
	return out
}

// xVecOp is an arbitrary function of the vector body(v).
func xVecOp(op string, idx []*Lin, v *Sym, body *Expr, args ...*Expr) *Expr {
	if body.unk {
		return xAtom(unkAtom)
	}
	for _, a := range args {
		if a.unk {
			return xAtom(unkAtom)
		}
	}
	b := closeBody(v, body)
	return xAtom(binderAtom('V', op, idx, b, args))
}

func anyUnk(args []*Expr) bool {
	for _, a := range args {
		if a.unk {
			return true
		}
	}
	return false
}

func binderAtom(kind byte, op string, idx []*Lin, body *Expr, args []*Expr) *Atom {
	k := fmt.Sprintf("%c%s:%d", kind, op, body.id)
	for _, i := range idx {
		k += "," + i.key()
	}
	for _, a := range args {
		k += fmt.Sprintf(";%d", a.id)
	}
	return internAtom(k, func() *Atom { return &Atom{kind: kind, op: op, idx: idx, body: body, args: args} })
}

// sctx is one substitution: fs on the symbols in indices, fm on the memory
// atoms, with what was already rewritten.
type sctx struct {
	fs substFn
	fm func(a *Atom) *Expr
	em map[*Expr]*Expr
	am map[*Atom]*Expr
	// all that is replaced, where that is known
	only []any
	to   *Lin
	toE  *Expr
}

// under is the body of a after a replacement that needs no renaming of its
// bound variable; nil if the body has to be put in normal form again.
func (c *sctx) under(a *Atom) *Expr {
	if c.only == nil {
		return nil
	}
	v := sigma(a.body.depth)
	if c.to != nil && c.to.mentions(v) || c.toE != nil && (c.toE.mentions(v) || c.toE.leaves()[foldPrev(a.body.depth)]) {
		return nil
	}
	b := c.expr(a.body)
	if b == a.body {
		return b
	}
	if b.unk || b.depth != a.body.depth || len(b.ms) != len(a.body.ms) {
		return nil
	}
	if a.kind == 'S' || a.kind == 'F' {
		if len(b.ms) != 1 || b.ms[0].co != 1 || len(b.ms[0].as) != len(a.body.ms[0].as) || a.kind == 'F' && len(b.ms[0].as) == 1 && b.ms[0].as[0].kind == 'S' {
			return nil
		}
		for _, x := range b.ms[0].as {
			if !x.mentions(v) {
				return nil
			}
		}
	}
	return b
}

func (c *sctx) leaves(m map[any]bool) bool {
	for _, o := range c.only {
		if m[o] {
			return false
		}
	}
	return len(c.only) > 0
}

// subst rewrites the symbols in indices with fs and the memory atoms with fm.
func (e *Expr) subst(fs substFn, fm func(a *Atom) *Expr) *Expr {
	c := &sctx{fs: fs, fm: fm, em: map[*Expr]*Expr{}, am: map[*Atom]*Expr{}}
	return c.expr(e)
}

func (c *sctx) expr(e *Expr) *Expr {
	if c.only != nil && c.leaves(e.leaves()) {
		return e
	}
	if r := c.em[e]; r != nil {
		return r
	}
	changed := false
	var acc []mono
	for _, m := range e.ms {
		t := []mono{{co: m.co}}
		for _, a := range m.as {
			r := c.atom(a)
			if len(r.ms) != 1 || r.ms[0].co != 1 || len(r.ms[0].as) != 1 || r.ms[0].as[0] != a {
				changed = true
			}
			if len(t)*len(r.ms) > maxTerms && !r.unk {
				r = xOp("paren", r)
			}
			if len(t)*len(r.ms) > maxTerms {
				t = xUnknown("too many terms").ms
				continue
			}
			var n []mono
			for _, x := range t {
				for _, y := range r.ms {
					n = append(n, mono{x.co * y.co, mulAtoms(x.as, y.as)})
				}
			}
			t = n
			if len(t) > 16 {
				t = mkExpr(t).ms
			}
		}
		acc = append(acc, t...)
	}
	r := e
	if changed {
		r = mkExpr(acc)
	}
	c.em[e] = r
	return r
}

func (c *sctx) atom(a *Atom) *Expr {
	if r := c.am[a]; r != nil {
		return r
	}
	r := c.atom1(a)
	c.am[a] = r
	return r
}

func (c *sctx) args(in []*Expr) ([]*Expr, bool) {
	ch := false
	out := make([]*Expr, len(in))
	for i, x := range in {
		out[i] = c.expr(x)
		ch = ch || out[i] != x
	}
	return out, ch
}

// fuel is the number of rewriting steps left to the obligation at hand.
var fuel, lastFuel = -1, 0

type outOfFuel struct{}

func burn() {
	if fuel > 0 {
		if fuel--; fuel == 0 {
			panic(outOfFuel{})
		}
	}
}

// withFuel runs f on n steps and says whether they were enough.
func withFuel(n int, f func()) (ok bool) {
	lvl, nb := openLevel, len(bound)
	defer func() {
		lastFuel, fuel = fuel, -1
		if x := recover(); x != nil {
			if _, out := x.(outOfFuel); !out {
				panic(x)
			}
			openLevel, bound, ok = lvl, bound[:nb], false
		}
	}()
	fuel = n
	f()
	return true
}

func (c *sctx) atom1(a *Atom) *Expr {
	burn()
	switch a.kind {
	case 'm':
		p := a.path.substIdx(c.fs)
		b := a
		if p.key() != a.path.key() {
			b = xMem(p).ms[0].as[0]
		}
		if c.fm != nil {
			if r := c.fm(b); r != nil {
				return r
			}
		}
		return xAtom(b)
	case 's':
		l := substSym(a.sym, c.fs)
		if l.key() == a.sym.key {
			if c.fm != nil {
				if r := c.fm(a); r != nil {
					return r
				}
			}
			return xAtom(a)
		}
		return fromLin(l)
	case 'o':
		args, ch := c.args(a.args)
		if !ch {
			return xAtom(a)
		}
		switch a.op {
		case "pow2":
			return xShl(xConst(1), args[0])
		}
		return xOp(a.op, args...)
	case 'I':
		args, ch := c.args(a.args)
		if !ch {
			return xAtom(a)
		}
		if a.op == "eq" {
			return xCmp("==", args[0], xConst(0))
		}
		return xCmp("<", args[0], xConst(0))
	case 'S':
		n := a.n.subst(c.fs)
		if b := c.under(a); b != nil {
			return xAtom(internAtom(fmt.Sprintf("S%s:%d", n.key(), b.id), func() *Atom { return &Atom{kind: 'S', n: n, body: b} }))
		}
		v, b := a.open(n)
		b2 := c.expr(b)
		defer a.close(v)
		if b2 == b && n.eq(a.n) {
			return xAtom(a)
		}
		return xSum(v, n, b2)
	case 'Z':
		n := a.n.subst(c.fs)
		args, ch := c.args(a.args)
		if b := c.under(a); b != nil && !args[0].unk {
			return xAtom(internAtom(fmt.Sprintf("Z%s:%d:%d", n.key(), b.id, args[0].id), func() *Atom { return &Atom{kind: 'Z', n: n, body: b, args: args} }))
		}
		v, b := a.open(n)
		q := internAtom(fmt.Sprintf("Popen%d", openLevel), func() *Atom { return &Atom{kind: 'P', op: fmt.Sprintf("open%d", openLevel)} })
		b = b.swap(nil, nil, foldPrev(a.body.depth), xAtom(q))
		b2 := c.expr(b)
		defer a.close(v)
		if b2 == b && !ch && n.eq(a.n) {
			return xAtom(a)
		}
		return xFold(q, v, n, b2, args[0])
	case 'F', 'V':
		ch := false
		var idx []*Lin
		for _, i := range a.idx {
			j := i.subst(c.fs)
			ch = ch || !j.eq(i)
			idx = append(idx, j)
		}
		args, ch2 := c.args(a.args)
		if b := c.under(a); b != nil && !anyUnk(args) {
			return xAtom(binderAtom(a.kind, a.op, idx, b, args))
		}
		v, b := a.open(nil)
		b2 := c.expr(b)
		defer a.close(v)
		if b2 == b && !ch && !ch2 {
			return xAtom(a)
		}
		if a.kind == 'F' {
			return xLinear(a.op, idx, v, b2, args...)
		}
		return xVecOp(a.op, idx, v, b2, args...)
	case 'N':
		p := a.path
		if p.root != nil {
			p = p.substIdx(c.fs)
		}
		args, _ := c.args(a.args)
		b := xNoise(a.op, p, args...)
		if c.fm != nil && len(b.ms) == 1 && b.ms[0].as[0].kind == 'N' {
			if r := c.fm(b.ms[0].as[0]); r != nil {
				return r
			}
		}
		return b
	case 'P':
		if c.fm != nil {
			if r := c.fm(a); r != nil {
				return r
			}
		}
	}
	return xAtom(a)
}

// xNoise is what a sampler put at place p.
func xNoise(op string, p Path, args ...*Expr) *Expr {
	k := "N" + op
	if p.root != nil {
		k += "|" + p.key()
	}
	for _, a := range args {
		if a.unk {
			return xAtom(unkAtom)
		}
		k += fmt.Sprintf(";%d", a.id)
	}
	return xAtom(internAtom(k, func() *Atom { return &Atom{kind: 'N', op: op, path: p, args: args} }))
}

// absorb merges a sum with the terms that continue it at either end.
func (e *Expr) absorb() *Expr {
	for round := 0; round < 8; round++ {
		again := false
		for _, m := range e.ms {
			for ai, a := range m.as {
				if a.kind != 'S' {
					continue
				}
				rest := append(append([]*Atom(nil), m.as[:ai]...), m.as[ai+1:]...)
				pre := mkExpr([]mono{{m.co, rest}})
				v := freshVar()
				b := a.body.swap(sigma(a.body.depth), linSym(v), nil, nil)
				for _, at := range []*Lin{linConst(-1), a.n} {
					term := pre.mul(b.swap(v, at, nil, nil))
					if len(term.ms) == 0 || !e.has(term) {
						continue
					}
					shift := linSym(v)
					if at.isConst() {
						shift = shift.addc(-1)
					}
					e = e.sub(term).sub(pre.mul(xAtom(a))).add(pre.mul(xSum(v, a.n.addc(1), b.swap(v, shift, nil, nil))))
					again = true
					break
				}
				if again {
					break
				}
			}
			if again {
				break
			}
		}
		if !again {
			return e
		}
	}
	return e
}

// has: every term of t occurs in e with the same coefficient.
func (e *Expr) has(t *Expr) bool {
	for _, m := range t.ms {
		ok := false
		for _, n := range e.ms {
			if asKey(n.as) == asKey(m.as) && n.co == m.co {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (e *Expr) String() string {
	if len(e.ms) == 0 {
		return "0"
	}
	var parts []string
	for _, m := range e.ms {
		var fs []string
		for _, a := range m.as {
			fs = append(fs, a.String())
		}
		s := strings.Join(fs, "·")
		switch {
		case len(fs) == 0:
			s = fmt.Sprint(m.co)
		case m.co == -1:
			s = "-" + s
		case m.co != 1:
			s = fmt.Sprintf("%d·%s", m.co, s)
		}
		parts = append(parts, s)
	}
	sort.Strings(parts)
	return strings.Join(parts, " + ")
}

func (a *Atom) String() string {
	var args []string
	for _, x := range a.args {
		args = append(args, x.String())
	}
	switch a.kind {
	case 'm':
		return a.path.key()
	case 's':
		return a.sym.key
	case 'o':
		return a.op + "(" + strings.Join(args, ", ") + ")"
	case 'I':
		if a.op == "eq" {
			return "[" + args[0] + " = 0]"
		}
		return "[" + args[0] + " < 0]"
	case 'S':
		return "Σ" + sigma(a.body.depth).key + "<" + a.n.key() + "(" + a.body.String() + ")"
	case 'Z':
		return "fold" + sigma(a.body.depth).key + "<" + a.n.key() + "(" + a.body.String() + " from " + args[0] + ")"
	case 'F', 'V':
		var ix []string
		for _, i := range a.idx {
			ix = append(ix, i.key())
		}
		return a.op + "{" + a.body.String() + "}" + strings.Join(args, ",") + "[" + strings.Join(ix, ",") + "]"
	case 'N':
		pk := ""
		if a.path.root != nil {
			pk = a.path.key()
		}
		return a.op + "<" + pk + ";" + strings.Join(args, ", ") + ">"
	case 'P':
		return "prev(" + a.op + ")"
	case 'c':
		return a.op
	}
	return "?" + a.op
}
