package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Random interpretation of value numbers (after Gulwani and Necula): two value
// numbers that differ as normal forms are taken to be different values only
// if they also differ when memory is given random contents. This never turns
// different values into equal ones with noticeable probability, and it removes
// the differences that are only in how a value is written.
// ---------------------------------------------------------------------------

type interp struct {
	fn      *ssa.Function
	seed    uint64
	n, k    int64 // polynomial rank, GLWE rank
	level   int64
	prev    map[string]uint64 // in a fold: the value of the round before
	parties int64
	vars    map[*Sym]int64
	cache   map[*Atom]uint64
	uses    map[*Atom]uses
	memo    map[useKey]uint64
	free    bool // nothing bound: atoms may be cached
	nb      int
	// samples are told apart by their last index only
	lastIndex bool
	draws     map[string]bool // when set: the draws that were met
}

func (ip *interp) hash(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, ip.seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	return x
}

func (ip *interp) dim(name string) (int64, bool) {
	switch name {
	case "polyRank", "PolyRank", "rank":
		return ip.n, true
	case "glweRank", "GLWERank":
		return ip.k, true
	case "logQ", "sizeT":
		return 64, true
	case "lweDimension", "LWEDimension":
		return ip.lwe(), true
	case "glweDimension", "GLWEDimension":
		return ip.k * ip.n, true
	case "bootstrapOrder":
		return ip.order(), true
	case "lutExtendFactor":
		return ip.extend(), true
	case "lutSize":
		return ip.extend() * ip.n, true
	case "level", "Level":
		return ip.level, true
	case "logPolyRank", "logRank":
		return map[int64]int64{4: 2, 8: 3, 16: 4}[ip.n], true
	case "blockSize":
		return ip.block(), true
	case "blockCount":
		return ip.lwe() / ip.block(), true
	case "partyCount":
		return ip.parties, true
	}
	return 0, false
}

func (ip *interp) extend() int64 { return []int64{2, 1, 4}[ip.seed/5%3] }

func (ip *interp) block() int64 { return []int64{2, 1, ip.lwe()}[ip.seed/4%3] }

// lwe is the small LWE dimension, a multiple of the block size.
func (ip *interp) lwe() int64 {
	if ip.seed/7%2 == 1 {
		return 2
	}
	return ip.k*ip.n - 2
}

func (p Path) upTo(n int) Path {
	if n < 0 {
		n = 0
	}
	return Path{root: p.root, steps: p.steps[:n]}
}

func (ip *interp) order() int64 { return int64(ip.seed / 3 % 2) }

// defaultLWE is the dimension of LWE ciphertexts under the bootstrap order.
func (ip *interp) defaultLWE() int64 {
	if ip.order() == 0 {
		return ip.k * ip.n
	}
	return ip.lwe()
}

// real replaces the key that the bootstrap order selects, and the views of
// the one key that secret keys hold.
func (ip *interp) real(p Path) Path {
	for i, s := range p.steps {
		if s.kind != 'f' {
			continue
		}
		st := append([]Step(nil), p.steps...)
		switch s.field {
		case defaultKey:
			st[i].field = "LWEKey"
			if ip.order() == 0 {
				st[i].field = "LWELargeKey"
			}
			return ip.real(Path{root: p.root, steps: st})
		case "GadgetParams":
			// the parts of a container have the gadget parameters of the whole
			if i >= 2 && st[i-1].kind == 'e' && st[i-2].kind == 'f' {
				if t, _ := ip.typeAt(p.upTo(i - 2)); t != nil && stepType(t, s) != nil {
					return ip.real(Path{root: p.root, steps: append(st[:i-2:i-2], st[i:]...)})
				}
			}
		}
	}
	return p
}

// view is the place in the large LWE key of an element of another view of it.
func (ip *interp) view(p Path) Path {
	for i, s := range p.steps {
		if s.kind != 'f' || i == 0 || p.steps[i-1].kind != 'f' || p.steps[i-1].field != "SecretKey" && p.steps[i-1].field != "BaseSecretKey" {
			continue
		}
		rest := p.steps[i+1:]
		large := Step{kind: 'f', field: "LWELargeKey"}
		switch {
		case s.field == "LWEKey" && len(rest) == 2 && rest[1].kind == 'e':
			return Path{root: p.root, steps: append(append([]Step(nil), p.steps[:i]...), large, rest[0], rest[1])}
		case s.field == "GLWEKey" && len(rest) == 4 && rest[1].kind == 'e' && rest[3].kind == 'e':
			at := linConst(ip.lin(rest[1].lo)*ip.n + ip.lin(rest[3].lo))
			return Path{root: p.root, steps: append(append([]Step(nil), p.steps[:i]...), large, rest[0], Step{kind: 'e', lo: at})}
		}
	}
	return p
}

// defaultKey is a field that stands for what DefaultLWESecretKey returns.
const defaultKey = "«default LWE key»"

// typeAt is the type of the place p, and the name of the struct type that
// holds the last field on the way.
func (ip *interp) typeAt(p Path) (types.Type, string) {
	if p.root == nil || p.root.kind != 'P' || ip.fn == nil || p.root.idx >= len(ip.fn.Params) {
		return nil, ""
	}
	t := types.Type(ip.fn.Params[p.root.idx].Type())
	holder := ""
	for _, s := range p.steps {
		if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if s.kind == 'f' {
			if n, ok := types.Unalias(t).(*types.Named); ok {
				holder = n.Obj().Name()
				if n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "mktfhe" {
					holder = "mk." + holder
				}
			}
		}
		t = stepType(t, s)
		if t == nil {
			return nil, ""
		}
	}
	return t, holder
}

func lastField(p Path) string {
	for i := len(p.steps) - 1; i >= 0; i-- {
		if p.steps[i].kind == 'f' {
			return p.steps[i].field
		}
	}
	return ""
}

func (ip *interp) length(p Path) int64 {
	switch lastField(p) {
	case "PartyBitMap", "SubEvaluators", "SingleKeyDecryptors":
		if k := len(p.steps); p.steps[k-1].kind == 'f' {
			return ip.parties
		}
	}
	if f := lastField(p); f == "lutRaw" {
		return ip.extend() * ip.n
	}
	if p.root.kind != 'P' && p.root.kind != 'R' {
		panic("interpretation: length of " + p.key())
	}
	p = ip.real(p)
	switch lastField(p.upTo(len(p.steps) - 1)) {
	case "LWEKey":
		return ip.lwe()
	case "LWELargeKey":
		return ip.k * ip.n
	}
	_, holder := ip.typeAt(p)
	switch holder {
	case "Poly", "FFTPoly":
		return ip.n
	case "GLWECiphertext", "FFTGLWECiphertext", "GGSWCiphertext", "FFTGGSWCiphertext", "GLWEPublicKey", "LWEPublicKey":
		return ip.k + 1
	case "mk.GLWECiphertext", "mk.FFTGLWECiphertext":
		return ip.parties + 1
	case "mk.LWECiphertext":
		return ip.parties*ip.defaultLWE() + 1
	case "GLWESecretKey", "FFTGLWESecretKey", "GLWEKeySwitchKey":
		return ip.k
	case "LWECiphertext", "GSWCiphertext":
		return ip.defaultLWE() + 1
	case "LWESecretKey", "LWEKeySwitchKey":
		return ip.k * ip.n
	case "BlindRotateKey":
		return ip.lwe()
	case "LookUpTable":
		return ip.extend()
	case "LevCiphertext", "GLevCiphertext", "FFTGLevCiphertext":
		return ip.level
	case "mk.UniEncryption", "mk.FFTUniEncryption", "PublicKey":
		return 2
	}
	if holder == "" || len(p.steps) == 0 {
		if p.root != nil && p.root.kind == 'P' && ip.fn != nil && p.root.idx < len(ip.fn.Params) {
			if sl, ok := ip.fn.Params[p.root.idx].Type().Underlying().(*types.Slice); ok && len(p.steps) == 0 {
				if n, ok := sl.Elem().(*types.Named); ok && (n.Obj().Name() == "Poly" || n.Obj().Name() == "FFTPoly") {
					return ip.level
				}
				if b, ok := sl.Elem().(*types.Basic); ok && b.Kind() == types.Int {
					// messages: fewer, as many as, or more than there are coefficients
					return ip.n + []int64{0, -2, 1, -1}[ip.seed/2%4]
				}
				return ip.n
			}
		}
	}
	return 4
}

func (ip *interp) path(p Path) string {
	var b strings.Builder
	b.WriteString(p.root.key)
	for _, s := range p.steps {
		switch s.kind {
		case 'f':
			b.WriteString("." + s.field)
		case 'e':
			fmt.Fprintf(&b, "[%d]", ip.lin(s.lo))
		case 'r':
			fmt.Fprintf(&b, "[%d:", ip.lin(s.lo))
			if s.hi != nil {
				fmt.Fprintf(&b, "%d", ip.lin(s.hi))
			}
			b.WriteString("]")
		default:
			panic("interpretation: unresolved path")
		}
	}
	return b.String()
}

func (ip *interp) mem(p Path) uint64 {
	p = ip.view(ip.real(p))
	f := lastField(p)
	if len(p.steps) > 0 && p.steps[len(p.steps)-1].kind == 'f' {
		switch holder := p.upTo(len(p.steps) - 1); f {
		case "base":
			return 1 << ip.mem(holder.field("logBase"))
		case "level":
			if lastField(holder) == "keySwitchParams" {
				return uint64(ip.level - 1)
			}
		}
		if v, ok := ip.dim(f); ok {
			return uint64(v)
		}
	}
	if len(p.steps) == 0 && p.root.kind == 'P' && ip.seed%5 == 4 && ip.fn != nil && testsForZero(ip.fn, p.root.idx) {
		return 0
	}
	h := ip.hash("mem", ip.path(p))
	t, _ := ip.typeAt(p)
	if t != nil {
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			t = types.Typ[types.Uint64]
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int:
				if len(p.steps) > 0 && p.steps[len(p.steps)-1].kind == 'f' {
					return h%6 + 1
				}
				if len(p.steps) == 0 && p.root.kind == 'P' && ip.fn != nil && p.root.idx < len(ip.fn.Params) && isIndexParam(ip.fn, ip.fn.Params[p.root.idx]) {
					return h % uint64(ip.parties)
				}
				return h%uint64(4*ip.n) - uint64(2*ip.n)
			case types.Bool:
				return h & 1
			case types.Int64, types.Int32:
				return h % 64
			case types.Uint64:
				switch {
				case f == "messageModulus":
					return h%60 + 2
				case f == "scale":
					return h>>(8+h%32) | 1
				case len(p.steps) == 0 && p.root.kind == 'P' && ip.fn.Params[p.root.idx].Name() == "messageModulus":
					return h%6 + 2
				case len(p.steps) == 0 && p.root.kind == 'P' && ip.fn.Params[p.root.idx].Name() == "scale":
					return h>>(8+h%32) | 1
				case len(p.steps) == 0 && p.root.kind == 'P':
					// a scalar argument, small and special values included
					switch k := ip.hash("size", ip.path(p)); k % 8 {
					case 0, 1:
						return k / 8 % 2
					case 2, 3:
						return h % 64
					case 4, 5:
						return h >> 40
					}
				}
			}
		}
	}
	return h
}

// testsForZero: the function, or its definition, treats parameter i apart when
// it is zero.
func testsForZero(fn *ssa.Function, i int) bool {
	for _, f := range []*ssa.Function{fn, twin[fn]} {
		if f == nil || i >= len(f.Params) || f.Params[i].Referrers() == nil {
			continue
		}
		for _, in := range *f.Params[i].Referrers() {
			if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if c, ok := b.Y.(*ssa.Const); ok && b.X == ssa.Value(f.Params[i]) && c.Value != nil && c.Value.ExactString() == "0" {
					return true
				}
			}
		}
	}
	return false
}

// twin is the definition a function is compared with.
var twin = map[*ssa.Function]*ssa.Function{}

func (ip *interp) sym(s *Sym) uint64 {
	if v, ok := ip.vars[s]; ok {
		return uint64(v)
	}
	switch s.kind {
	case 'p':
		return ip.mem(s.path)
	case 'l':
		return uint64(ip.length(s.path))
	case 'o':
		var as []uint64
		for _, a := range s.args {
			as = append(as, uint64(ip.lin(a)))
		}
		return ip.oper(s.op, as)
	}
	panic("interpretation: symbol " + s.key)
}

func (ip *interp) lin(l *Lin) int64 {
	x := uint64(l.c)
	for _, t := range l.t {
		x += uint64(t.co) * ip.sym(t.s)
	}
	return int64(x)
}

func (ip *interp) oper(op string, a []uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	small := func(x uint64) bool { return x < 1<<41 }
	if len(a) == 2 {
		x, y := a[0], a[1]
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "&":
			return x & y
		case "|":
			return x | y
		case "^":
			return x ^ y
		case "&^":
			return x &^ y
		case "<<":
			if y < 64 {
				return x << y
			}
			return 0
		case ">>":
			if y < 64 {
				return x >> y
			}
			return 0
		case "/", "div", "%":
			// machine words are unsigned, counts and exponents small and signed
			if y != 0 && small(x+1<<40) && small(y+1<<40) {
				if op == "%" {
					return uint64(int64(x) % int64(y))
				}
				return uint64(int64(x) / int64(y))
			}
			if y != 0 && op == "%" {
				return x % y
			}
			if y != 0 {
				return x / y
			}
		case "divround":
			// to the nearest, halves away from zero
			if y != 0 && small(x+1<<40) && small(y+1<<40) {
				return uint64(int64(math.Round(float64(int64(x)) / float64(int64(y)))))
			}
			if y != 0 {
				q, r := x/y, x%y
				if r >= y-r {
					q++
				}
				return q
			}
		case "ceildiv":
			if y != 0 && small(x) && small(y) {
				return (x + y - 1) / y
			}
		case "==":
			return b2u(x == y)
		case "!=":
			return b2u(x != y)
		case "<":
			return b2u(int64(x) < int64(y))
		}
	}
	if len(a) == 3 && op == "sel" {
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	}
	if len(a) == 1 {
		switch op {
		case "paren", "round":
			return a[0]
		case "pow2":
			if a[0] < 64 {
				return 1 << a[0]
			}
			return 0
		case "!":
			return b2u(a[0] == 0)
		}
	}
	switch op {
	case "math/num.Min#0", "min":
		return uint64(min(int64(a[0]), int64(a[1])))
	case "math/num.Max#0", "max":
		return uint64(max(int64(a[0]), int64(a[1])))
	}
	switch op {
	case "tfhe.(Parameters).DefaultLWEDimension#0":
		return uint64(ip.defaultLWE())
	case "mktfhe.(Parameters).DefaultLWEDimension#0":
		return uint64(ip.parties * ip.defaultLWE())
	}
	if strings.Contains(op, "#") {
		panic("interpretation: call of " + op)
	}
	h := ip.hash("op", op, a)
	if strings.HasPrefix(op, "int:") {
		// of any size
		h >>= ip.hash("size", op, a) % 60
	}
	return h
}

func (ip *interp) expr(e *Expr) uint64 {
	var r uint64
	for _, m := range e.ms {
		t := uint64(m.co)
		if ip.draws != nil {
			for _, a := range m.as {
				if a.kind == 'I' && t != 0 {
					t *= ip.atom(a)
				}
			}
		}
		for _, a := range m.as {
			if t == 0 {
				break
			}
			t *= ip.atom(a)
		}
		r += t
	}
	return r
}

func (ip *interp) atom(a *Atom) uint64 {
	if ip.nb == 0 && len(ip.prev) == 0 {
		if v, ok := ip.cache[a]; ok {
			return v
		}
		v := ip.atom1(a)
		ip.cache[a] = v
		return v
	}
	if a.kind == 'm' || a.kind == 's' || a.kind == 'P' {
		return ip.atom1(a)
	}
	// the value depends on what is bound of the variables in it
	us, ok := ip.uses[a]
	if !ok {
		for x := range a.leaves() {
			switch x := x.(type) {
			case *Sym:
				if x.kind == 'b' {
					us.vars = append(us.vars, x)
				}
			case *Atom:
				if x.kind == 'P' {
					us.prev = append(us.prev, x.op)
				}
			}
		}
		ip.uses[a] = us
	}
	k := useKey{a: a}
	n := 0
	for _, v := range us.vars {
		if x, ok := ip.vars[v]; ok {
			if n >= len(k.at) {
				return ip.atom1(a)
			}
			k.at[n] = uint64(x)
			n++
		}
	}
	for _, v := range us.prev {
		if x, ok := ip.prev[v]; ok {
			if n >= len(k.at) {
				return ip.atom1(a)
			}
			k.at[n] = x
			n++
		}
	}
	k.n = n
	if v, ok := ip.memo[k]; ok {
		return v
	}
	v := ip.atom1(a)
	ip.memo[k] = v
	return v
}

// useKey is an atom with the values of what is bound in it.
type useKey struct {
	a  *Atom
	n  int
	at [6]uint64
}

type uses struct {
	vars []*Sym
	prev []string
}

func (ip *interp) args(a *Atom) []uint64 {
	var out []uint64
	for _, x := range a.args {
		out = append(out, ip.expr(x))
	}
	return out
}

func (ip *interp) with(v *Sym, x int64, f func() uint64) uint64 {
	old, had := ip.vars[v]
	ip.vars[v] = x
	ip.nb++
	r := f()
	ip.nb--
	if had {
		ip.vars[v] = old
	} else {
		delete(ip.vars, v)
	}
	return r
}

func (ip *interp) atom1(a *Atom) uint64 {
	switch a.kind {
	case 'm':
		return ip.mem(a.path)
	case 's':
		return ip.sym(a.sym)
	case 'o':
		return ip.oper(a.op, ip.args(a))
	case 'I':
		x := ip.expr(a.args[0])
		if a.op == "eq" && x == 0 || a.op == "lt" && int64(x) < 0 {
			return 1
		}
		return 0
	case 'S':
		n := ip.lin(a.n)
		if n > 4096 {
			panic("interpretation: long sum")
		}
		var r uint64
		v := sigma(a.body.depth)
		for i := int64(0); i < n; i++ {
			r += ip.with(v, i, func() uint64 { return ip.expr(a.body) })
		}
		return r
	case 'P':
		if v, ok := ip.prev[a.op]; ok {
			return v
		}
	case 'Z':
		n := ip.lin(a.n)
		if n > 4096 {
			panic("interpretation: long loop")
		}
		x := ip.expr(a.args[0])
		v, k := sigma(a.body.depth), foldPrev(a.body.depth).op
		old, had := ip.prev[k]
		for i := int64(0); i < n; i++ {
			ip.prev[k] = x
			x = ip.with(v, i, func() uint64 { return ip.expr(a.body) })
		}
		if had {
			ip.prev[k] = old
		} else {
			delete(ip.prev, k)
		}
		return x
	case 'F', 'V':
		key := []any{string(a.kind), a.op}
		for _, i := range a.idx {
			key = append(key, ip.lin(i))
		}
		key = append(key, ip.args(a))
		v := sigma(a.body.depth)
		var r uint64
		for i := int64(0); i < ip.n; i++ {
			x := ip.with(v, i, func() uint64 { return ip.expr(a.body) })
			if a.kind == 'F' {
				r += x * (ip.hash(append(key, i)...) | 1)
			} else {
				key = append(key, x)
			}
		}
		if a.kind == 'V' {
			r = ip.hash(key...)
		}
		return r
	case 'N':
		// told apart by where it was put, not by whose memory that is
		var at []int64
		for _, s := range a.path.steps {
			if s.kind == 'e' {
				at = append(at, ip.lin(s.lo))
			}
		}
		if ip.lastIndex && len(at) > 1 {
			at = at[len(at)-1:]
		}
		if ip.draws != nil && sampleOps[strings.SplitN(a.op, "#", 2)[0]] {
			d := a.op
			if a.path.root != nil {
				d += " at " + a.path.root.key
			}
			for _, s := range a.path.steps {
				if s.kind == 'e' {
					d += fmt.Sprintf("[%d]", ip.lin(s.lo))
				} else if s.kind == 'f' {
					d += "." + s.field
				}
			}
			for _, x := range a.args {
				d += fmt.Sprintf(" %d", ip.expr(x))
			}
			ip.draws[d] = true
		}
		var args []uint64
		for _, x := range a.args {
			if !isRound(x) {
				args = append(args, ip.expr(x))
			}
		}
		return ip.hash("noise", a.op, at, args)
	}
	panic("interpretation: atom " + a.String())
}

// isRound: x only tells in which round of a loop a sample was drawn.
func isRound(x *Expr) bool {
	return len(x.ms) == 1 && len(x.ms[0].as) == 1 && x.ms[0].as[0].kind == 'o' && x.ms[0].as[0].op == "round"
}

// resultShape tells the lengths of what a function returns.
var resultShape func(*ssa.Function) *Shape

// made is the length fn gives the slice at the first n steps of its result,
// 0 if that is not known.
func (ip *interp) made(l leaf, n int) (k int64) {
	if resultShape == nil || ip.fn == nil || l.res != 0 {
		return 0
	}
	sh := resultShape(ip.fn)
	for _, s := range l.p.steps[:n] {
		if sh == nil {
			return 0
		}
		if s.kind == 'f' {
			sh = sh.Fields[s.field]
		} else {
			sh = sh.Elem
		}
	}
	if sh == nil || sh.Len == nil {
		return 0
	}
	defer func() {
		if recover() != nil {
			k = 0
		}
	}()
	if k = ip.lin(sh.Len); k > 1<<12 {
		k = 0
	}
	return
}

// place gives the indices of a leaf values that are in range.
func (ip *interp) place(l leaf, mode int) bool {
	for i, s := range l.p.steps {
		if s.kind == 'f' {
			continue
		}
		if s.lo.isConst() {
			continue
		}
		var n int64
		if l.res < 0 {
			n = ip.length(Path{root: l.p.root, steps: l.p.steps[:i]})
		} else if n = ip.made(l, i); n <= 0 {
			n = 2
		}
		t := s.lo.t[0]
		v := int64(0)
		last := n - 1 - s.lo.c
		m := mode
		if m >= 6 {
			m = int(ip.hash("corner", mode, i) % 8)
		}
		switch m {
		case 0:
		case 1:
			v = last
		case 6:
			if last >= 1 {
				v = 1
			}
		case 7:
			if v = last - 1; v < 0 {
				v = last
			}
		default:
			v = int64(ip.hash("place", mode, i) % uint64(n))
			if v > last {
				v = last
			}
		}
		if v < 0 || len(s.lo.t) != 1 || t.co != 1 {
			return false
		}
		ip.vars[t.s] = v
	}
	return true
}

var sampleOps = map[string]bool{"uniform": true, "gauss": true, "binary": true, "block": true}

func newInterp(fn *ssa.Function, i int) *interp {
	ip := &interp{fn: fn, seed: uint64(i + 1), n: 4 << uint(i%2), k: int64(2 + i/2%2), level: 3, parties: int64(2 + i/3%2), vars: map[*Sym]int64{}, prev: map[string]uint64{}, cache: map[*Atom]uint64{}, uses: map[*Atom]uses{}, memo: map[useKey]uint64{}}
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "mktfhe" {
		ip.k = 1 // single keys of rank one, several parties
	}
	return ip
}

// differ: do the two value numbers of place l of fn have different values
// under some random interpretation?
func differ(fn *ssa.Function, a, b *Expr, l leaf) (bool, int, error) {
	ran := 0
	var last any
	diff := false
	lastIndex := noiseShapes(a) != noiseShapes(b)
	rounds := 24
	if len(l.vars) > 0 {
		rounds = 42
	}
	for i := 0; i < rounds && !diff; i++ {
		func() {
			defer func() {
				if x := recover(); x != nil {
					last = x
					if os.Getenv("DIFF") != "" {
						fmt.Println("PANIC", i, x)
					}
				}
			}()
			ip := newInterp(fn, i)
			ip.lastIndex = lastIndex
			mode := i % 6
			if i >= 24 {
				mode = i
			}
			if !ip.place(l, mode) {
				last = "index out of range"
				if os.Getenv("RAN") != "" {
					fmt.Println("RAN out", i, mode, ip.vars)
				}
				return
			}
			x, y := ip.expr(a), ip.expr(b)
			ran++
			diff = x != y
			if os.Getenv("RAN") != "" {
				fmt.Println("RAN", i, mode, "n", ip.n, "k", ip.k, "vars", ip.vars, x, y)
			}
			if diff && os.Getenv("DIFF") != "" {
				fmt.Println("DIFF seed", i, "n", ip.n, "k", ip.k, "vars", ip.vars, x, y)
				for _, m := range a.ms {
					fmt.Println("  a", ip.expr(&Expr{ms: []mono{m}}), m.co)
				}
				for _, m := range b.ms {
					fmt.Println("  b", ip.expr(&Expr{ms: []mono{m}}), m.co)
				}
			}
		}()
	}
	if ran == 0 {
		return false, 0, fmt.Errorf("not interpreted: %v", last)
	}
	return diff, ran, nil
}

// noiseShapes lists the kinds of samples in e with the number of indices of
// the places they were put at.
func noiseShapes(e *Expr) string {
	set := map[string]bool{}
	seen := map[any]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if seen[e] {
			return
		}
		seen[e] = true
		for _, m := range e.ms {
			for _, a := range m.as {
				if seen[a] {
					continue
				}
				seen[a] = true
				if a.kind == 'N' {
					n := 0
					for _, s := range a.path.steps {
						if s.kind == 'e' {
							n++
						}
					}
					set[fmt.Sprintf("%s/%d", a.op, n)] = true
				}
				for _, x := range a.args {
					walk(x)
				}
				if a.body != nil {
					walk(a.body)
				}
			}
		}
	}
	walk(e)
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
