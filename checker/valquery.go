package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf is a scalar place of a function's outputs, with one symbol per index.
type leaf struct {
	p    Path // root: parameter, or the result root
	res  int  // index of the result, -1 for a parameter
	vars []*Sym
	t    types.Type
}

func queryVar(i int) *Sym { return internSym(&Sym{key: fmt.Sprintf("q%d", i), kind: 'b'}) }

// leaves lists the scalar places reachable from type t.
func valLeaves(base Path, t types.Type, vars []*Sym, d int) []leaf {
	if d > 10 {
		return nil
	}
	t = types.Unalias(t)
	if isScalar(t) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return nil
		}
		return []leaf{{p: base, vars: vars, t: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return valLeaves(base, u.Elem(), vars, d+1)
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, valLeaves(base.field(u.Field(i).Name()), u.Field(i).Type(), vars, d+1)...)
		}
		return out
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		q := queryVar(len(vars))
		return valLeaves(base.with(Step{kind: 'e', lo: linSym(q)}), el, append(append([]*Sym(nil), vars...), q), d+1)
	}
	return nil
}

// outputs: the scalar places a function may write through its parameters.
func (e *Eng) outputs(fn *ssa.Function) []leaf {
	s := e.a.summary(fn)
	seen := map[string]bool{}
	var out []leaf
	for _, w := range sortedAccs(s.Writes) {
		if w.ptr || w.path.root.kind != 'P' || seen[w.path.shape()] {
			continue
		}
		seen[w.path.shape()] = true
		l := leaf{p: Path{root: w.path.root}, res: -1}
		for _, st := range w.path.steps {
			if st.kind != 'f' {
				q := queryVar(len(l.vars))
				l.vars = append(l.vars, q)
				st = Step{kind: 'e', lo: linSym(q)}
			}
			l.p.steps = append(l.p.steps, st)
		}
		out = append(out, l)
	}
	return out
}

// results: the scalar places of the idx-th result.
func results(fn *ssa.Function, idx int) []leaf {
	root := internRoot(&Root{kind: 'R', idx: idx, key: fmt.Sprintf("R%d", idx)})
	ls := valLeaves(Path{root: root}, fn.Signature.Results().At(idx).Type(), nil, 0)
	for i := range ls {
		ls[i].res = idx
	}
	return ls
}

// valueAt is the value of a leaf when fn returns, for indices in range.
func (e *Eng) valueAt(fn *ssa.Function, l leaf) *Expr {
	nf := len(e.facts)
	for _, s := range l.p.steps {
		if s.kind != 'f' && len(s.lo.t) > 0 {
			e.facts = append(e.facts, s.lo)
		}
	}
	defer func() { e.facts = e.facts[:nf] }()
	var v val
	if l.res < 0 {
		v = e.calleeExit(fn, l.p, false)
	} else {
		v = e.resultAt(fn, l.res, l.p.steps)
	}
	if v.e == nil {
		return xUnknown("no value")
	}
	return v.e
}

func (e *Eng) resultAt(fn *ssa.Function, idx int, steps []Step) val {
	fr := &frame{fi: e.a.fnInfo(fn), env: map[*Loop]*Lin{}}
	e.nFuncs[fn] = true
	return e.exits(fr, false, func(b *ssa.BasicBlock) val {
		ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		v := ret.Results[idx]
		t := types.Type(v.Type())
		i := 0
		for i < len(steps) && structLike(t) {
			t = stepType(t, steps[i])
			i++
			if t == nil {
				return vUnk(false, "result")
			}
		}
		if i == len(steps) && !isRef(t) {
			return e.comp(fr, v, steps, false)
		}
		p := e.reach(fr, b, len(b.Instrs), v, steps)
		if p.root == nil {
			return val{e: xConst(0)}
		}
		return e.get(fr, b, len(b.Instrs), p, false)
	})
}

func valCommand(args []string) {
	a, _, err := loadSpecs("none", "purego", "purego")
	as := []*Analysis{a}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	T := os.Getenv("T")
	if T == "" {
		T = "uint64"
	}
	var names []string
	for name := range as[0].P.ByName {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, n := range args {
		for _, name := range names {
			if !(name == n || strings.HasSuffix(name, "."+n)) {
				continue
			}
			f := as[0].P.ByName[name]
			e := newEng(as[0], T)
			if os.Getenv("WHY") != "" {
				unkTrace = func(w string) { fmt.Println("      ?", w) }
			}
			fmt.Println("==", name)
			for _, l := range e.outputs(f) {
				if !strings.Contains(l.p.key(), ".buf") || os.Getenv("BUF") != "" {
					fmt.Println("   ", l.p.key(), "=", e.valueAt(f, l).absorb())
				}
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				for _, l := range results(f, i) {
					fmt.Println("   ", l.p.key(), "=", e.valueAt(f, l).absorb())
				}
			}
			fmt.Println("   steps", e.steps)
		}
	}
}

func valAll(args []string) {
	as, err := loadVariants([2]string{"purego", "purego"})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var names []string
	for name, f := range as[0].P.ByName {
		if len(f.Blocks) > 0 && inModule(f) && f.Parent() == nil {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	e := newEng(as[0], "uint64")
	for _, name := range names {
		f := as[0].P.ByName[name]
		if len(args) > 0 && !strings.Contains(name, args[0]) {
			continue
		}
		e.steps = 0
		var ls []leaf
		for _, l := range e.outputs(f) {
			if !strings.Contains(l.p.key(), ".buf") {
				ls = append(ls, l)
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			ls = append(ls, results(f, i)...)
		}
		known, unk := 0, ""
		for _, l := range ls {
			why := ""
			unkTrace = func(w string) {
				if why == "" || strings.HasPrefix(why, "cycle") {
					why = w
				}
			}
			v := e.valueAt(f, l)
			unkTrace = nil
			if v.unk {
				unk = l.p.key() + " <" + why + ">"
			} else {
				known++
			}
		}
		if len(unk) > 160 {
			unk = unk[:160]
		}
		fmt.Printf("%d/%d %s steps=%d %s\n", known, len(ls), name, e.steps, unk)
	}
}
