package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Reference definitions: /verif/specs/<package>/<property>_*.go holds, for
// functions of the package, a plain definition of what they compute. They are
// type-checked together with the package (they are not part of the build) and
// both are given value numbers; the numbers have to be equal.
// ---------------------------------------------------------------------------

const specPrefix = "vspec"

type specFile struct {
	prop, pkg, path string
	src             []byte
	fset            *token.FileSet
	file            *ast.File
}

func specDir() string {
	if d := os.Getenv("VERIF_SPECS"); d != "" {
		return d
	}
	for _, d := range []string{filepath.Join(verifDir(), "specs"), "/verif/specs"} {
		if fileExists(d) {
			return d
		}
	}
	return ""
}

// specFiles are the reference definitions for a property.
func specFiles(prop string) ([]*specFile, error) {
	var out []*specFile
	root := specDir()
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		base := filepath.Base(p)
		if !strings.HasPrefix(base, strings.ToLower(prop)+"_") && !strings.HasPrefix(base, "common_") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		f := &specFile{prop: prop, pkg: rel, src: src, path: filepath.Join(repoDir(), rel, "zz_verif_"+base)}
		out = append(out, f)
		return nil
	})
	return out, err
}

// loadSpecs loads the program with the reference definitions; definitions that
// do not type-check against the current source are left out and returned.
func loadSpecs(prop, variant, tags string) (*Analysis, []string, error) {
	fs, err := specFiles(prop)
	if err != nil {
		return nil, nil, err
	}
	var dropped []string
	seq := map[string][]byte{}
	if os.Getenv("NOSEQ") == "" {
		seq = sequential()
	}
	for round := 0; ; round++ {
		ov := map[string][]byte{}
		for k, v := range seq {
			ov[k] = v
		}
		for _, f := range fs {
			ov[f.path] = f.src
		}
		p, err := loadProgWith(variant, tags, ov)
		if err == nil {
			a, err := newAnalysis(p)
			if err == nil {
				resultShape = a.resultShape
			}
			return a, dropped, err
		}
		le, ok := err.(*loadErr)
		if !ok || round > 6 {
			return nil, dropped, err
		}
		n := 0
		for k := range seq {
			for _, pos := range le.pos {
				if strings.HasPrefix(pos, k+":") {
					delete(seq, k)
					n++
					break
				}
			}
		}
		for _, f := range fs {
			var lines []int
			for _, pos := range le.pos {
				parts := strings.Split(pos, ":")
				if len(parts) < 2 || filepath.Base(parts[0]) != filepath.Base(f.path) || !strings.HasSuffix(filepath.Dir(parts[0]), "/"+f.pkg) {
					continue
				}
				l, _ := strconv.Atoi(parts[1])
				lines = append(lines, l)
			}
			if len(lines) == 0 {
				continue
			}
			d := f.drop(lines)
			n += len(d)
			dropped = append(dropped, d...)
		}
		if n == 0 {
			return nil, dropped, err
		}
	}
}

// drop blanks out the declarations at the given lines.
func (f *specFile) drop(lines []int) []string {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "spec.go", f.src, 0)
	if err != nil {
		f.src = []byte("package " + filepath.Base(f.pkg) + "\n")
		return []string{f.path + ": " + err.Error()}
	}
	var out []string
	blanked := 0
	for _, d := range file.Decls {
		a, b := fset.Position(d.Pos()), fset.Position(d.End())
		hit := false
		for _, l := range lines {
			hit = hit || l >= a.Line && l <= b.Line
		}
		if !hit {
			continue
		}
		name := "declaration"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		}
		out = append(out, f.pkg+"."+name)
		for i := a.Offset; i < b.Offset; i++ {
			if f.src[i] != '\n' {
				f.src[i] = ' '
			}
		}
		blanked++
	}
	if blanked == 0 {
		out = append(out, f.path)
		f.src = []byte("package " + filepath.Base(f.pkg) + "\n")
	}
	return out
}

// specPair is a function with its reference definition.
type specPair struct{ spec, impl *ssa.Function }

// specPairs of the property; missing lists definitions whose function is gone.
func specPairs(a *Analysis, prop string) (out []specPair, missing []string) {
	for _, fn := range a.P.Funcs {
		file := filepath.Base(a.P.Fset.Position(fn.Pos()).Filename)
		if !strings.HasPrefix(file, "zz_verif_"+strings.ToLower(prop)+"_") || !strings.HasPrefix(fn.Name(), specPrefix) {
			continue
		}
		name := fnName(fn)
		i := strings.LastIndex(name, specPrefix)
		target := name[:i] + name[i+len(specPrefix):]
		impl := a.P.ByName[target]
		if impl == nil {
			missing = append(missing, target)
			continue
		}
		out = append(out, specPair{fn, impl})
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i].impl) < fnName(out[j].impl) })
	return
}

// ---------------------------------------------------------------------------

type vstatus int

const (
	vEqual vstatus = iota
	vUndecided
	vDifferent
)

type verdict struct {
	st        vstatus
	place     string
	got, want *Expr
	why       string
}

// at puts index i of the leaf at the given position.
func (l leaf) at(v *Sym, to *Lin) leaf {
	n := l
	n.p = l.p.substIdx(swapSym(v, to))
	return n
}

// vdecide compares one place of two functions, splitting the first component
// of its indices from the others where the general index is not decided.
func vdecide(a *Analysis, own map[string]bool, impl, spec *ssa.Function, l leaf, facts []*Lin, split int, tune func(*Eng)) []verdict {
	eval := func(fn *ssa.Function, strict bool) (*Expr, string) {
		e := newEng(a, engType)
		if tune != nil {
			tune(e)
		}
		for k := range own {
			delete(e.intr, k)
		}
		e.strict = strict
		e.facts = append(e.facts, facts...)
		why := ""
		unkTrace = func(w string) {
			if os.Getenv("STACK") == w {
				debug.PrintStack()
				os.Exit(3)
			}
			if why == "" || strings.HasPrefix(why, "cycle") {
				why = w
			}
		}
		v := &Expr{unk: true}
		nb := len(bound)
		bound = append(bound, facts...)
		defer func() { bound = bound[:nb] }()
		if !withFuel(specFuel, func() {
			v = e.valueAt(fn, l)
			if !v.unk {
				v = v.absorb()
			}
		}) {
			v, why = &Expr{unk: true}, "too large"
		}
		unkTrace = nil
		if os.Getenv("DBG") != "" && specFuel-lastFuel > 500000 {
			fmt.Println("fuel", fnName(fn), l.p.key(), strict, specFuel-lastFuel)
		}
		return v, why
	}
	v := verdict{place: l.p.key()}
	if os.Getenv("SPLIT") != "" && split == 0 && len(l.vars) > 0 {
		q := l.vars[0]
		out := vdecide(a, own, impl, spec, l.at(q, linConst(0)), facts, 1, tune)
		return append(out, vdecide(a, own, impl, spec, l.at(q, linSym(q).addc(1)), append(append([]*Lin(nil), facts...), linSym(q)), 1, tune)...)
	}
	// with the conditions under which an index is in range of a loop
	sg, sgWhy := eval(impl, true)
	sw, _ := eval(spec, true)
	if !sg.unk && !sw.unk {
		v.got, v.want = sg, sw
		if os.Getenv("SHOW") != "" {
			fmt.Println("got ", sg, "\nwant", sw)
		}
		if sg == sw {
			v.why = "equal value numbers"
			return []verdict{v}
		}
		if d, _, err := differ(impl, sg, sw, l); err == nil {
			if d {
				v.st = vDifferent
			} else {
				v.why = "random interpretation"
			}
			return []verdict{v}
		} else if os.Getenv("DBG") != "" {
			fmt.Println("  strict err", err)
		}
	}
	// taking indices in range of the data to be in range of the loops
	if os.Getenv("DBG") != "" {
		fmt.Println("lenient", fnName(impl), l.p.key(), sg.unk, sw.unk, sgWhy)
		if !sg.unk && !sw.unk {
			_, _, err := differ(impl, sg, sw, l)
			fmt.Println("  got ", sg, "\n  want", sw, "\n  err", err)
		}
	}
	got, w1 := eval(impl, false)
	want, w2 := eval(spec, false)
	v.got, v.want = got, want
	if !got.unk && !want.unk {
		if got == want {
			v.why = "equal value numbers"
			return []verdict{v}
		}
		// this view drops conditions, so it can confirm but not refute
		if d, _, err := differ(impl, got, want, l); err == nil && !d {
			v.why = "random interpretation"
			return []verdict{v}
		}
		w1, w2 = "equal only in range", ""
	}
	if split < len(l.vars) {
		q := l.vars[split]
		out := vdecide(a, own, impl, spec, l.at(q, linConst(0)), facts, split+1, tune)
		return append(out, vdecide(a, own, impl, spec, l.at(q, linSym(q).addc(1)), append(append([]*Lin(nil), facts...), linSym(q)), split+1, tune)...)
	}
	v.st = vUndecided
	if got.unk || !want.unk {
		v.why = "function: " + w1
	} else {
		v.why = "reference: " + w2
	}
	return []verdict{v}
}

// indexFacts: a parameter that the function first of all takes as an index is
// not negative.
func indexFacts(fn *ssa.Function) (fs []*Lin) {
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int || len(fn.Blocks) == 0 {
			continue
		}
		if isIndexParam(fn, p) {
			fs = append(fs, linSym(symPath(Path{root: paramRoot(i)})))
		}
	}
	return
}

func isIndexParam(fn *ssa.Function, p *ssa.Parameter) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == p {
			return true
		}
	}
	return false
}

// specFuel bounds the rewriting steps spent on one value.
const specFuel = 3000000

// engType is the type the functions are analysed at.
var engType = "uint64"

// placeName is the place without analysis-internal names.
func placeName(fn *ssa.Function, l leaf) string {
	k := l.p.key()
	for i := len(fn.Params) - 1; i >= 0; i-- {
		k = strings.ReplaceAll(k, fmt.Sprintf("P%d.", i), fn.Params[i].Name()+".")
		k = strings.ReplaceAll(k, fmt.Sprintf("P%d[", i), fn.Params[i].Name()+"[")
	}
	return k
}

// valOutputs are the places the reference defines.
func valOutputs(a *Analysis, spec *ssa.Function) []leaf {
	e := newEng(a, engType)
	var ls []leaf
	for _, l := range e.outputs(spec) {
		if !strings.Contains(l.p.key(), ".buf") && !strings.Contains(l.p.key(), "Sampler") {
			ls = append(ls, l)
		}
	}
	for i := 0; i < spec.Signature.Results().Len(); i++ {
		ls = append(ls, results(spec, i)...)
	}
	only := specOnly(spec)
	if len(only) == 0 {
		return ls
	}
	var sel []leaf
	for _, l := range ls {
		for _, o := range only {
			if strings.Contains(l.p.shape(), o) {
				sel = append(sel, l)
				break
			}
		}
	}
	return sel
}

// specOnly are the parts of the places a reference is about: the words after
// "only:" in its comment.
func specOnly(spec *ssa.Function) []string {
	fn := spec
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	fd, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return nil
	}
	for _, c := range fd.Doc.List {
		if t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//")); strings.HasPrefix(t, "only:") {
			return strings.Fields(t[len("only:"):])
		}
	}
	return nil
}

// looseCalls are the opaque calls that the computed values make and the
// definitions do not, when there are any: then also those the other way round.
func looseCalls(vs []verdict) map[string]bool {
	out := map[string]bool{}
	for _, v := range vs {
		if v.st != vDifferent {
			continue
		}
		got, want := map[string]bool{}, map[string]bool{}
		callsIn(v.got, got, map[*Atom]bool{})
		callsIn(v.want, want, map[*Atom]bool{})
		extra := false
		for k := range got {
			extra = extra || !want[k]
		}
		if !extra {
			continue
		}
		for k := range got {
			if !want[k] {
				out[k] = true
			}
		}
		for k := range want {
			if !got[k] {
				out[k] = true
			}
		}
	}
	return out
}

func callsIn(x *Expr, out map[string]bool, seen map[*Atom]bool) {
	if x == nil {
		return
	}
	for _, m := range x.ms {
		for _, a := range m.as {
			if seen[a] {
				continue
			}
			seen[a] = true
			if strings.HasPrefix(a.op, "call ") {
				out[callOps[a.op]] = true
			}
			for _, y := range a.args {
				callsIn(y, out, seen)
			}
			callsIn(a.body, out, seen)
		}
	}
}

// checkSpecs compares every reference definition of the property.
func checkSpecs(c *Ctx, prop, rule string, minPlaces int, tune func(*Eng)) {
	a, dropped, err := loadSpecs(prop, "purego", "purego")
	if err != nil {
		c.Rep.Extra["specs_not_loaded"] = err.Error()
		return
	}
	pairs, missing := specPairs(a, prop)
	if prop == "C03" {
		pairs = append(pairs, parallelPairs(a)...)
	}
	var undecided, ref []string
	equal := 0
	start := time.Now()
	for _, pr := range pairs {
		name := fnName(pr.impl)
		if only := os.Getenv("ONLY"); only != "" && !strings.Contains(name, only) {
			continue
		}
		if len(pr.impl.Params) != len(pr.spec.Params) {
			missing = append(missing, name)
			continue
		}
		c.Rep.Funcs[name] = true
		twin[pr.impl] = pr.spec
		for _, l := range valOutputs(a, pr.spec) {
			vs := vdecide(a, map[string]bool{name: true, fnName(pr.spec): true}, pr.impl, pr.spec, l, indexFacts(pr.impl), 0, tune)
			if own := looseCalls(vs); len(own) > 0 {
				// calls only one of the two makes cannot be told apart by name:
				// judge what they do
				own[name], own[fnName(pr.spec)] = true, true
				vs = vdecide(a, own, pr.impl, pr.spec, l, indexFacts(pr.impl), 0, tune)
				for i := range vs {
					if vs[i].st == vDifferent && len(looseCalls(vs[i:i+1])) > 0 {
						vs[i].st, vs[i].why = vUndecided, "made of other calls"
					}
				}
			}
			for _, v := range vs {
				ob := name + ": " + v.place
				switch v.st {
				case vUndecided:
					undecided = append(undecided, ob+" ("+v.why+")")
				case vEqual:
					equal++
					c.Rep.ob(rule, ob)
				case vDifferent:
					c.Rep.ob(rule, ob)
					c.Rep.fail(rule, name+"|"+l.p.shape(), a.P.posStr(pr.impl.Pos()),
						"%s leaves at %s a value other than its definition:\n   computed %s\n   definition %s",
						name, placeName(pr.impl, l), clip(v.got.String()), clip(v.want.String()))
				}
			}
		}
		if time.Since(start) > 600*time.Second {
			ref = append(ref, "time limit reached at "+name)
			break
		}
	}
	if prop == "C03" || prop == "C15" || prop == "C24" || prop == "C25" {
		checkDraws(c, a, pairs, tune)
	}
	if len(dropped) == 0 && len(missing) == 0 && os.Getenv("ONLY") == "" {
		c.Rep.Extra["reference_definitions"] = len(pairs)
	}
	c.Rep.Extra["undecided"] = clipList(undecided)
	c.Rep.Extra["undecided_count"] = len(undecided)
	c.Rep.Extra["places_equal"] = equal
	if len(dropped)+len(missing)+len(ref) > 0 {
		c.Rep.Extra["definitions_without_function"] = append(append(dropped, missing...), ref...)
	}
	if os.Getenv("DBG") != "" {
		for _, u := range undecided {
			fmt.Println("undecided", u)
		}
		fmt.Println("dropped", dropped, "missing", missing, "equal", equal)
	}
	_ = minPlaces
}

func clip(s string) string {
	if os.Getenv("FULL") != "" {
		return s
	}
	if len(s) > 900 {
		return s[:900] + "…"
	}
	return s
}

func clipList(l []string) []string {
	if len(l) > 60 {
		return append(append([]string(nil), l[:60]...), fmt.Sprintf("… %d more", len(l)-60))
	}
	return l
}

func init() {
	register("C22", func(c *Ctx) { checkSpecs(c, "C22", "algebra", 0, nil) })
}
