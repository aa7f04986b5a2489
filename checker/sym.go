package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Roots and access paths
// ---------------------------------------------------------------------------

// Root identifies the object an access path starts from.
type Root struct {
	kind  byte // 'P' parameter, 'F' free variable, 'A' allocation, 'G' global, 'C' call result, 'U' unknown
	idx   int
	v     ssa.Value
	inner *Root // for 'C': the callee's root, when the callee's result is a fresh object
	key   string
	depth int
}

// Step is one component of an access path.
type Step struct {
	kind   byte // 'f' field, 'e' element, 'r' range, 'u' unknown element
	field  string
	lo, hi *Lin // 'e': lo; 'r': lo, hi (hi nil: up to the end)
}

// Path is an access path: the memory reachable from root through steps.
type Path struct {
	root  *Root
	steps []Step
	k     string
}

func (s Step) key() string {
	switch s.kind {
	case 'f':
		return "." + s.field
	case 'e':
		return "[" + s.lo.key() + "]"
	case 'r':
		h := ""
		if s.hi != nil {
			h = s.hi.key()
		}
		l := ""
		if !(s.lo.isConst() && s.lo.c == 0) {
			l = s.lo.key()
		}
		return "[" + l + ":" + h + "]"
	}
	return "[?]"
}

func (p *Path) key() string {
	if p.k == "" {
		var b strings.Builder
		b.WriteString(p.root.key)
		for _, s := range p.steps {
			b.WriteString(s.key())
		}
		p.k = b.String()
	}
	return p.k
}

func (p Path) String() string { return p.key() }

func mkPath(r *Root, steps []Step) Path { return Path{root: r, steps: steps} }

func (p Path) with(s Step) Path {
	n := make([]Step, len(p.steps), len(p.steps)+1)
	copy(n, p.steps)
	if s.kind == 'e' && len(n) > 0 && n[len(n)-1].kind == 'r' {
		// indexing a view
		last := n[len(n)-1]
		n[len(n)-1] = Step{kind: 'e', lo: last.lo.add(s.lo)}
		return Path{root: p.root, steps: n}
	}
	if s.kind == 'r' && len(n) > 0 && n[len(n)-1].kind == 'r' {
		last := n[len(n)-1]
		hi := last.hi
		if s.hi != nil {
			hi = last.lo.add(s.hi)
		}
		n[len(n)-1] = Step{kind: 'r', lo: last.lo.add(s.lo), hi: hi}
		return Path{root: p.root, steps: n}
	}
	if s.kind == 'u' && len(n) > 0 && n[len(n)-1].kind == 'r' {
		n[len(n)-1] = s
		return Path{root: p.root, steps: n}
	}
	n = append(n, s)
	return Path{root: p.root, steps: n}
}

func (p Path) field(f string) Path { return p.with(Step{kind: 'f', field: f}) }

// whole makes the trailing view explicit: the path of all elements of slice p.
func (p Path) all() Path {
	if len(p.steps) > 0 && p.steps[len(p.steps)-1].kind == 'r' {
		return p
	}
	return p.with(Step{kind: 'r', lo: linConst(0)})
}

func (p Path) fields() []string {
	var out []string
	for _, s := range p.steps {
		if s.kind == 'f' {
			out = append(out, s.field)
		}
	}
	return out
}

// shape is the path with all indices erased.
func (p Path) shape() string {
	var b strings.Builder
	b.WriteString(p.root.key)
	for _, s := range p.steps {
		if s.kind == 'f' {
			b.WriteString("." + s.field)
		} else {
			b.WriteString("[]")
		}
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// Linear expressions over opaque symbols
// ---------------------------------------------------------------------------

// Sym is an opaque integer (or boolean) symbol.
type Sym struct {
	key  string
	kind byte // 'p' scalar stored at path, 'k' loop counter, 'v' opaque SSA value, 'o' operator, 'l' length of path
	path Path
	loop *Loop
	op   string
	args []*Lin
	v    ssa.Value
}

type term struct {
	co int64
	s  *Sym
}

// Lin is c + sum co*sym, terms sorted by symbol key. Immutable.
type Lin struct {
	c int64
	t []term
	k string
}

var symTab = map[string]*Sym{}

func internSym(s *Sym) *Sym {
	if o := symTab[s.key]; o != nil {
		return o
	}
	symTab[s.key] = s
	return s
}

func linConst(c int64) *Lin { return &Lin{c: c} }

func linSym(s *Sym) *Lin { return &Lin{t: []term{{1, s}}} }

func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (l *Lin) key() string {
	if l.k == "" {
		var parts []string
		for _, t := range l.t {
			if t.co == 1 {
				parts = append(parts, t.s.key)
			} else {
				parts = append(parts, fmt.Sprintf("%d*%s", t.co, t.s.key))
			}
		}
		if l.c != 0 || len(parts) == 0 {
			parts = append(parts, fmt.Sprintf("%d", l.c))
		}
		l.k = strings.Join(parts, "+")
	}
	return l.k
}

func (l *Lin) add(o *Lin) *Lin { return l.addMul(o, 1) }
func (l *Lin) sub(o *Lin) *Lin { return l.addMul(o, -1) }
func (l *Lin) addc(c int64) *Lin {
	if c == 0 {
		return l
	}
	return &Lin{c: l.c + c, t: l.t}
}

func (l *Lin) addMul(o *Lin, m int64) *Lin {
	if m == 0 {
		return l
	}
	r := &Lin{c: l.c + m*o.c}
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].s.key < o.t[j].s.key):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || l.t[i].s.key > o.t[j].s.key:
			r.t = append(r.t, term{o.t[j].co * m, o.t[j].s})
			j++
		default:
			if co := l.t[i].co + m*o.t[j].co; co != 0 {
				r.t = append(r.t, term{co, l.t[i].s})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) scale(m int64) *Lin {
	if m == 0 {
		return linConst(0)
	}
	if m == 1 {
		return l
	}
	r := &Lin{c: l.c * m}
	for _, t := range l.t {
		r.t = append(r.t, term{t.co * m, t.s})
	}
	return r
}

func (l *Lin) eq(o *Lin) bool { return l.key() == o.key() }

// coef returns the coefficient of loop counter k and whether the loop occurs
// only linearly.
func (l *Lin) coef(lp *Loop) (int64, bool) {
	var co int64
	ok := true
	for _, t := range l.t {
		if t.s.kind == 'k' && t.s.loop == lp {
			co = t.co
		} else if t.s.dependsOn(lp) {
			ok = false
		}
	}
	return co, ok
}

func (s *Sym) dependsOn(lp *Loop) bool {
	switch s.kind {
	case 'k':
		return s.loop == lp
	case 'o':
		for _, a := range s.args {
			if a.dependsOn(lp) {
				return true
			}
		}
	case 'p', 'l':
		return s.path.dependsOn(lp)
	case 'v':
		if in, ok := s.v.(ssa.Instruction); ok && in.Parent() == lp.fn && lp.blocks[in.Block()] {
			return true
		}
	}
	return false
}

func (l *Lin) dependsOn(lp *Loop) bool {
	for _, t := range l.t {
		if t.s.dependsOn(lp) {
			return true
		}
	}
	return false
}

func (p Path) dependsOn(lp *Loop) bool {
	for _, s := range p.steps {
		if s.lo != nil && s.lo.dependsOn(lp) {
			return true
		}
		if s.hi != nil && s.hi.dependsOn(lp) {
			return true
		}
	}
	return false
}

// subst rewrites symbols. f returns nil to keep a symbol as it is.
type substFn func(s *Sym) *Lin

func (l *Lin) subst(f substFn) *Lin {
	r := linConst(l.c)
	for _, t := range l.t {
		r = r.addMul(substSym(t.s, f), t.co)
	}
	return r
}

func substSym(s *Sym, f substFn) *Lin {
	if n := f(s); n != nil {
		return n
	}
	switch s.kind {
	case 'o':
		ch := false
		args := make([]*Lin, len(s.args))
		for i, a := range s.args {
			args[i] = a.subst(f)
			if args[i].key() != a.key() {
				ch = true
			}
		}
		if ch {
			return linOp(s.op, args...)
		}
	case 'p', 'l':
		np := s.path.substIdx(f)
		if np.key() != s.path.key() {
			if s.kind == 'p' {
				return linSym(symPath(np))
			}
			return linLen(np)
		}
	}
	return linSym(s)
}

func (p Path) substIdx(f substFn) Path {
	ch := false
	n := make([]Step, len(p.steps))
	for i, s := range p.steps {
		n[i] = s
		if s.lo != nil {
			n[i].lo = s.lo.subst(f)
			ch = ch || n[i].lo.key() != s.lo.key()
		}
		if s.hi != nil {
			n[i].hi = s.hi.subst(f)
			ch = ch || n[i].hi.key() != s.hi.key()
		}
	}
	if !ch {
		return p
	}
	return Path{root: p.root, steps: n}
}

func symPath(p Path) *Sym {
	return internSym(&Sym{key: p.key(), kind: 'p', path: p})
}

// uniform: the elements of a collection are taken to have one common length.
func uniform(p Path) Path {
	for i, s := range p.steps {
		if s.kind == 'e' && !(s.lo.isConst() && s.lo.c == 0) || s.kind == 'u' || s.kind == 'r' && i+1 < len(p.steps) {
			n := append([]Step(nil), p.steps...)
			for j := range n {
				if n[j].kind == 'e' || n[j].kind == 'u' || n[j].kind == 'r' && j+1 < len(n) {
					n[j] = Step{kind: 'e', lo: linConst(0)}
				}
			}
			return Path{root: p.root, steps: n}
		}
	}
	return p
}

func linLen(p Path) *Lin {
	p = uniform(p)
	if n := len(p.steps); n > 0 && p.steps[n-1].kind == 'r' {
		st := p.steps[n-1]
		if st.hi != nil {
			return st.hi.sub(st.lo)
		}
		base := Path{root: p.root, steps: p.steps[:n-1]}
		return linLen(base).sub(st.lo)
	}
	return linSym(internSym(&Sym{key: "len(" + p.key() + ")", kind: 'l', path: p}))
}

var commutative = map[string]bool{"*": true, "&": true, "|": true, "^": true, "==": true, "!=": true}

// linOp builds an operator term, folding constants and linear cases.
func linOp(op string, args ...*Lin) *Lin {
	if len(args) == 2 {
		a, b := args[0], args[1]
		if a.isConst() && b.isConst() {
			x, y := a.c, b.c
			switch op {
			case "+":
				return linConst(x + y)
			case "-":
				return linConst(x - y)
			case "*":
				return linConst(x * y)
			case "<<":
				if y >= 0 && y < 63 {
					return linConst(x << uint(y))
				}
			case ">>":
				if y >= 0 && y < 63 {
					return linConst(x >> uint(y))
				}
			case "&":
				return linConst(x & y)
			case "/":
				if y != 0 {
					return linConst(x / y)
				}
			case "%":
				if y != 0 {
					return linConst(x % y)
				}
			}
		}
		switch op {
		case "+":
			return a.add(b)
		case "-":
			return a.sub(b)
		case "*":
			if a.isConst() {
				return b.scale(a.c)
			}
			if b.isConst() {
				return a.scale(b.c)
			}
			// distribute over linear parts so that (k+1)*n == k*n + n
			if len(a.t)+len(b.t) > 2 || a.c != 0 || b.c != 0 {
				r := linConst(a.c * b.c)
				for _, x := range a.t {
					r = r.addMul(linSym(x.s), x.co*b.c)
					for _, y := range b.t {
						r = r.addMul(mulSyms(x.s, y.s), x.co*y.co)
					}
				}
				for _, y := range b.t {
					r = r.addMul(linSym(y.s), y.co*a.c)
				}
				return r
			}
		case "<<":
			if b.isConst() && b.c >= 0 && b.c < 40 {
				return a.scale(1 << uint(b.c))
			}
			if a.isConst() && a.c == 1 {
				break
			}
		}
	}
	if (op == "/" || op == "%" || op == "div" || op == "ceildiv") && args[0].isConst() && args[0].c == 0 {
		return linConst(0)
	}
	if op == "/" && len(args[0].t) == 1 && args[0].c == 0 && len(args[1].t) == 1 && args[1].c == 0 {
		// x*m/m == x
		n, d := args[0].t[0], args[1].t[0]
		if n.s == d.s && d.co != 0 && n.co%d.co == 0 {
			return linConst(n.co / d.co)
		}
		if n.s.kind == 'o' && n.s.op == "*" && d.co == 1 && len(n.s.args) == 2 {
			for i := 0; i < 2; i++ {
				if n.s.args[i].eq(args[1]) {
					return n.s.args[1-i].scale(n.co)
				}
			}
		}
	}
	if len(args) == 1 && (strings.HasPrefix(op, "math.Round") || strings.HasPrefix(op, "math.Floor") || strings.HasPrefix(op, "math.Ceil")) {
		frac := false
		for _, t := range args[0].t {
			frac = frac || t.s.kind != 'p' && t.s.kind != 'l' && t.s.kind != 'k'
		}
		if !frac {
			return args[0]
		}
	}
	if op == "sel" {
		if args[0].isConst() {
			if args[0].c != 0 {
				return args[1]
			}
			return args[2]
		}
		if args[1].eq(args[2]) {
			return args[1]
		}
	}
	if commutative[op] {
		args = append([]*Lin(nil), args...)
		sort.Slice(args, func(i, j int) bool { return args[i].key() < args[j].key() })
	}
	var ks []string
	for _, a := range args {
		ks = append(ks, a.key())
	}
	return linSym(internSym(&Sym{key: "(" + op + " " + strings.Join(ks, " ") + ")", kind: 'o', op: op, args: args}))
}

func mulSyms(a, b *Sym) *Lin {
	x, y := linSym(a), linSym(b)
	if y.key() < x.key() {
		x, y = y, x
	}
	return linSym(internSym(&Sym{key: "(* " + x.key() + " " + y.key() + ")", kind: 'o', op: "*", args: []*Lin{x, y}}))
}

// nonNeg: l >= 0 is certain, treating every length, dimension and loop counter
// as non-negative.
func (l *Lin) nonNeg() bool {
	c := l.c
	for _, t := range l.t {
		if t.co < 0 || !t.s.isNonNeg() {
			return false
		}
		if c < 0 && t.s.isPositive() {
			c += t.co
		}
	}
	return c >= 0
}

// isPositive: dimensions that every compiled parameter set has at least one of.
func (s *Sym) isPositive() bool {
	if s.kind != 'p' || len(s.path.steps) == 0 {
		return false
	}
	switch s.path.steps[len(s.path.steps)-1].field {
	case "glweRank", "polyRank", "lweDimension", "blockSize", "blockCount", "level", "partyCount", "rank":
		return true
	}
	return false
}

// nonNegIdx is nonNeg for a value used as an index: an integer argument used
// as an index is not negative (indexing with it would panic).
func (l *Lin) nonNegIdx() bool {
	if l.c < 0 {
		return false
	}
	for _, t := range l.t {
		if t.co < 0 || !t.s.isNonNeg() && !(t.s.kind == 'p' && t.s.path.root.kind == 'P' && len(t.s.path.steps) == 0) {
			return false
		}
	}
	return true
}

func (s *Sym) isNonNeg() bool {
	switch s.kind {
	case 'k', 'l':
		return true
	case 'b':
		return s.op == "nn"
	case 'p':
		return isDimPath(s.path)
	case 'o':
		switch s.op {
		case "*", "/", ">>", "<<", "%":
			for _, a := range s.args {
				if !a.nonNeg() {
					return false
				}
			}
			return true
		case "&":
			for _, a := range s.args {
				if a.nonNeg() {
					return true
				}
			}
			return false
		}
	}
	return false
}

// isDimPath: a configuration integer (a field of a parameter set or of an
// evaluator), never negative by construction.
func isDimPath(p Path) bool {
	return len(p.steps) > 0 && p.steps[len(p.steps)-1].kind == 'f'
}

// ---------------------------------------------------------------------------
// Region algebra
// ---------------------------------------------------------------------------

// disjointIdx: elements/ranges a and b are certainly disjoint.
func disjointStep(a, b Step) bool {
	if a.kind == 'u' || b.kind == 'u' {
		return false
	}
	alo, ahi := a.lo, a.hi
	blo, bhi := b.lo, b.hi
	if a.kind == 'e' {
		ahi = alo.addc(1)
	}
	if b.kind == 'e' {
		bhi = blo.addc(1)
	}
	// a entirely before b, or b entirely before a
	if ahi != nil && blo.sub(ahi).nonNeg() {
		return true
	}
	if bhi != nil && alo.sub(bhi).nonNeg() {
		return true
	}
	return false
}

// overlapSteps compares the steps of two paths as if they had the same root.
func overlapSteps(a, b []Step) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		if x.kind == 'f' || y.kind == 'f' {
			if x.kind != y.kind {
				return true
			}
			if x.field != y.field {
				return false
			}
			continue
		}
		if disjointStep(x, y) {
			return false
		}
	}
	return true
}

func overlap(a, b Path) bool { return a.root == b.root && overlapSteps(a.steps, b.steps) }

// coversStep: a certainly includes b.
func coversStep(a, b Step) bool {
	if a.kind == 'f' || b.kind == 'f' {
		return a.kind == b.kind && a.field == b.field
	}
	if a.kind == 'u' {
		return false
	}
	if a.kind == 'e' {
		return b.kind == 'e' && a.lo.eq(b.lo)
	}
	// a is a range
	if b.kind == 'u' {
		return a.lo.isConst() && a.lo.c == 0
	}
	d := b.lo.sub(a.lo)
	if !d.nonNegIdx() {
		if d.isConst() {
			return false
		}
		// unknown relation of the lower ends: only accept when a starts at 0
		if !(a.lo.isConst() && a.lo.c <= 0) {
			return false
		}
	}
	if a.hi == nil {
		return true
	}
	bhi := b.hi
	if b.kind == 'e' {
		bhi = b.lo.addc(1)
	}
	if bhi == nil {
		// "to the end": accepted unless the range is visibly a proper part
		// (agreement of symbolic dimensions is a separate obligation)
		return !partialBound(a.hi)
	}
	h := a.hi.sub(bhi)
	if !h.isConst() && partialBound(a.hi) && !partialBound(bhi) {
		return false
	}
	if h.isConst() {
		return h.c >= 0
	}
	if h.scale(-1).addc(-1).nonNeg() {
		return false // certainly short
	}
	// the extents are different dimensions: they are taken to agree when a
	// starts at a fixed place (agreement of dimensions is another obligation)
	return a.lo.isConst() || d.isConst()
}

// partialBound: an upper bound that is a constant, or a fraction of a length,
// or a dimension minus something.
func partialBound(h *Lin) bool {
	if h.isConst() {
		return true
	}
	if h.c < 0 {
		return true
	}
	for _, t := range h.t {
		if t.co < 0 {
			return true
		}
		if len(h.t) == 1 && t.co == 1 && t.s.kind == 'o' {
			switch t.s.op {
			case "/", ">>", "div", "ceildiv":
				return true
			}
		}
	}
	return false
}

// normLen replaces an upper bound equal to the length of the indexed slice by
// "to the end".
func normLen(p Path) Path {
	for i, s := range p.steps {
		if s.kind != 'r' || s.hi == nil {
			continue
		}
		if h := normHalves(s.hi); h != s.hi {
			n := append([]Step(nil), p.steps...)
			n[i].hi = h
			p, s = Path{root: p.root, steps: n}, n[i]
		}
		l := linLen(Path{root: p.root, steps: p.steps[:i]})
		ok := s.hi.eq(l)
		for _, m := range []int64{2, 4, 8, 16} {
			if ok {
				break
			}
			ok = s.hi.eq(ceilDiv(l, m).scale(m))
		}
		if ok {
			n := append([]Step(nil), p.steps...)
			n[i].hi = nil
			p = Path{root: p.root, steps: n}
		}
	}
	return p
}

// covers: writing a certainly overwrites all of b.
func covers(a, b Path) bool {
	if a.root != b.root || len(a.steps) > len(b.steps) {
		return false
	}
	for i := range a.steps {
		if !coversStep(a.steps[i], b.steps[i]) {
			return false
		}
	}
	return true
}

func asRange(s Step) (lo, hi *Lin, ok bool) {
	switch s.kind {
	case 'e':
		return s.lo, s.lo.addc(1), true
	case 'r':
		return s.lo, s.hi, true
	}
	return nil, nil, false
}

// normHalves rewrites multiples of fractions of lengths: 4*ceil(n/8) is n/2,
// 2*(n/2) is n. Lengths that are processed in blocks are multiples of the block
// (the block accesses would run past the end otherwise).
func normHalves(l *Lin) *Lin {
	if l == nil {
		return nil
	}
	r := linConst(l.c)
	ch := false
	for _, t := range l.t {
		if t.s.kind == 'o' && (t.s.op == "/" || t.s.op == "div" || t.s.op == "ceildiv") && len(t.s.args) == 2 && t.s.args[1].isConst() && t.co > 0 {
			m := t.s.args[1].c
			x := t.s.args[0]
			switch {
			case m > 0 && t.co%m == 0:
				r, ch = r.addMul(x, t.co/m), true
				continue
			case m > 0 && m%t.co == 0 && (t.co > 1 || t.s.op != "/"):
				r, ch = r.add(linOp("/", x, linConst(m/t.co))), true
				continue
			}
		}
		r = r.addMul(linSym(t.s), t.co)
	}
	if !ch {
		return l
	}
	return r
}

// mergeStep returns the union of two ranges if it is a single range.
func mergeStep(a, b Step) (Step, bool) {
	alo, ahi, ok1 := asRange(a)
	blo, bhi, ok2 := asRange(b)
	if !ok1 || !ok2 {
		return Step{}, false
	}
	alo, ahi, blo, bhi = normHalves(alo), normHalves(ahi), normHalves(blo), normHalves(bhi)
	if ahi != nil && ahi.eq(blo) {
		return Step{kind: 'r', lo: alo, hi: bhi}, true
	}
	if bhi != nil && bhi.eq(alo) {
		return Step{kind: 'r', lo: blo, hi: ahi}, true
	}
	return Step{}, false
}

// PathSet is a set of must-written regions with adjacency merging.
type PathSet struct {
	m map[string]Path
}

func newPathSet() *PathSet { return &PathSet{m: map[string]Path{}} }

func (s *PathSet) clone() *PathSet {
	n := newPathSet()
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (s *PathSet) covers(p Path) bool {
	if _, ok := s.m[p.key()]; ok {
		return true
	}
	for _, q := range s.m {
		if covers(q, p) {
			return true
		}
	}
	return false
}

func (s *PathSet) add(p Path) {
	p = normLen(p)
	if s.covers(p) {
		return
	}
	for {
		merged := false
		for _, k := range s.keys() {
			q, in := s.m[k]
			if !in {
				continue
			}
			if covers(p, q) {
				delete(s.m, k)
				continue
			}
			if q.root != p.root || len(q.steps) != len(p.steps) {
				continue
			}
			diff := -1
			for i := range p.steps {
				if p.steps[i].key() != q.steps[i].key() {
					if diff >= 0 {
						diff = -2
						break
					}
					diff = i
				}
			}
			if diff < 0 {
				continue
			}
			if m, ok := mergeStep(p.steps[diff], q.steps[diff]); ok {
				n := append([]Step(nil), p.steps...)
				n[diff] = m
				delete(s.m, k)
				p = Path{root: p.root, steps: n}
				merged = true
				break
			}
		}
		if !merged {
			break
		}
	}
	s.m[p.key()] = p
}

func (s *PathSet) intersect(o *PathSet) *PathSet {
	n := newPathSet()
	for k, p := range s.m {
		if o.covers(p) {
			n.m[k] = p
		}
	}
	for k, p := range o.m {
		if s.covers(p) {
			n.m[k] = p
		}
	}
	return n
}

func (s *PathSet) keys() []string {
	out := make([]string, 0, len(s.m))
	for k := range s.m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s *PathSet) list() []Path {
	var out []Path
	for _, p := range s.m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}
