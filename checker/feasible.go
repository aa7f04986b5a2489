package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A fact is an integer linear inequality lin >= 0.
type facts struct {
	ge []*Lin
	ne []*Lin // lin != 0
}

func (fs *facts) clone() *facts {
	return &facts{ge: append([]*Lin(nil), fs.ge...), ne: append([]*Lin(nil), fs.ne...)}
}

// assume adds what taking (or not taking) the branch on v says.
func (fi *FnInfo) assume(fs *facts, v ssa.Value, taken bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			fi.assume(fs, x.X, !taken)
		}
	case *ssa.BinOp:
		if !isInt(x.X.Type()) {
			return
		}
		a, b := fi.lin(x.X), fi.lin(x.Y)
		op := x.Op
		if !taken {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.LSS:
			fs.ge = append(fs.ge, b.sub(a).addc(-1))
		case token.LEQ:
			fs.ge = append(fs.ge, b.sub(a))
		case token.GTR:
			fs.ge = append(fs.ge, a.sub(b).addc(-1))
		case token.GEQ:
			fs.ge = append(fs.ge, a.sub(b))
		case token.EQL:
			fs.ge = append(fs.ge, a.sub(b), b.sub(a))
		case token.NEQ:
			fs.ne = append(fs.ne, a.sub(b))
		}
	}
}

// symFacts are bounds that hold by construction for the symbols in use.
func symFacts(ls []*Lin) []*Lin {
	seen := map[*Sym]bool{}
	var out []*Lin
	var visit func(l *Lin)
	visit = func(l *Lin) {
		for _, t := range l.t {
			if seen[t.s] {
				continue
			}
			seen[t.s] = true
			s := linSym(t.s)
			y := t.s
			switch {
			case y.kind == 'o' && y.op == "&" && len(y.args) == 2:
				for _, m := range y.args {
					// a mask: a constant, or 2*dimension-1
					if m.isConst() && m.c >= 0 || maskLike(m) {
						out = append(out, s, m.sub(s))
						visit(m)
					}
				}
			case y.isPositive():
				out = append(out, s.addc(-1))
			case y.isNonNeg():
				out = append(out, s)
			}
		}
	}
	for _, l := range ls {
		visit(l)
	}
	return out
}

func maskLike(m *Lin) bool {
	if m.c != -1 || len(m.t) == 0 {
		return false
	}
	for _, t := range m.t {
		if t.co < 0 || !t.s.isNonNeg() && !t.s.isPositive() {
			return false
		}
	}
	return true
}

// contradictory: the facts cannot all hold (decided by elimination; a "no"
// answer is not a proof that they can).
func (fs *facts) contradictory() bool {
	ge := append([]*Lin(nil), fs.ge...)
	ge = append(ge, symFacts(append(append([]*Lin(nil), fs.ge...), fs.ne...))...)
	if elimination(ge) {
		return true
	}
	if len(fs.ne) > 0 && len(fs.ne) <= 6 {
		// a != b: both orders must be contradictory
		rest := &facts{ge: fs.ge, ne: fs.ne[1:]}
		lo, hi := rest.clone(), rest.clone()
		lo.ge = append(lo.ge, fs.ne[0].addc(-1))
		hi.ge = append(hi.ge, fs.ne[0].scale(-1).addc(-1))
		return lo.contradictory() && hi.contradictory()
	}
	return false
}

func elimination(ge []*Lin) bool {
	for round := 0; round < 12; round++ {
		cnt := map[*Sym][2]int{}
		uniq := map[string]*Lin{}
		for _, l := range ge {
			if l.isConst() {
				if l.c < 0 {
					return true
				}
				continue
			}
			uniq[l.key()] = l
		}
		ge = ge[:0:0]
		for _, l := range uniq {
			ge = append(ge, l)
			for _, t := range l.t {
				c := cnt[t.s]
				if t.co > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t.s] = c
			}
		}
		if len(ge) == 0 || len(ge) > 400 {
			return false
		}
		var best *Sym
		for s, c := range cnt {
			if best == nil || c[0]*c[1] < cnt[best][0]*cnt[best][1] || c[0]*c[1] == cnt[best][0]*cnt[best][1] && s.key < best.key {
				best = s
			}
		}
		var pos, neg, rest []*Lin
		co := func(l *Lin) int64 {
			for _, t := range l.t {
				if t.s == best {
					return t.co
				}
			}
			return 0
		}
		for _, l := range ge {
			switch c := co(l); {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				rest = append(rest, p.scale(-co(n)).add(n.scale(co(p))))
			}
		}
		ge = rest
	}
	return false
}

// feasiblePaths calls f for the blocks of every acyclic path from the entry
// to a return whose branch conditions do not contradict each other. stop
// cuts a path short at a block. It gives up silently after a few thousand.
func (fi *FnInfo) feasiblePaths(stop func(b *ssa.BasicBlock) bool, f func(ret *ssa.Return, fs *facts)) {
	dead := fi.deadEdges()
	budget := 4000
	on := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, fs *facts)
	visit = func(b *ssa.BasicBlock, fs *facts) {
		if budget--; budget < 0 || on[b] || stop(b) {
			return
		}
		on[b] = true
		defer delete(on, b)
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if !fs.contradictory() {
				f(x, fs)
			}
		case *ssa.If:
			for i, n := range b.Succs {
				if dead[[2]*ssa.BasicBlock{b, n}] {
					continue
				}
				nf := fs.clone()
				fi.assume(nf, x.Cond, i == 0)
				visit(n, nf)
			}
		default:
			for _, n := range b.Succs {
				visit(n, fs)
			}
		}
	}
	if len(fi.fn.Blocks) > 0 {
		visit(fi.fn.Blocks[0], &facts{})
	}
}

var _ = types.Typ
