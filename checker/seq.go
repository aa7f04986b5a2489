package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// ---------------------------------------------------------------------------
// Sequential form of functions with goroutines. Where the goroutines share no
// location that one of them writes (C02 decides that), every interleaving
// computes what one goroutine after the other computes. So, for the value
// numbers, the source of such a function is put in this form before it is
// type-checked:
//
//   go func(p) { body }(x)                  ->  { p := x; body }
//   workers that range over a channel       ->  one worker with index 0 whose
//   which one goroutine feeds                   loop is that of the feeder
//
// Functions with any other use of goroutines, channels or locks stay as they
// are (their value is unknown).
// ---------------------------------------------------------------------------

// sequential gives the files of the repository whose goroutines were replaced.
func sequential() map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(repoDir(), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(src, []byte("go func")) {
			return nil
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		changed := false
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				s := &seqer{fd: fd}
				if s.run() {
					changed = true
				}
			}
		}
		if !changed {
			return nil
		}
		file.Comments = nil
		var b bytes.Buffer
		// keep build constraints
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//go:build") {
				b.WriteString(l + "\n\n")
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fd.Doc = nil
			}
		}
		if printer.Fprint(&b, fset, file) == nil {
			out[p] = b.Bytes()
		}
		return nil
	})
	return out
}

type seqer struct {
	fd   *ast.FuncDecl
	fail bool
	// channel object -> feeder
	feeders map[*ast.Object]*ast.FuncLit
	feedGo  map[*ast.GoStmt]bool
	wgs     map[*ast.Object]bool
	n       int
}

func identObj(e ast.Expr) *ast.Object {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = u.X
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		return id.Obj
	}
	return nil
}

// run rewrites the function; it is left alone when false is returned.
func (s *seqer) run() bool {
	s.feeders, s.feedGo, s.wgs = map[*ast.Object]*ast.FuncLit{}, map[*ast.GoStmt]bool{}, map[*ast.Object]bool{}
	gos := 0
	ast.Inspect(s.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			gos++
			fl, ok := x.Call.Fun.(*ast.FuncLit)
			if !ok || fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
				s.fail = true
				return false
			}
			var ch *ast.Object
			ast.Inspect(fl.Body, func(n ast.Node) bool {
				if y, ok := n.(*ast.SendStmt); ok {
					if o := identObj(y.Chan); o == nil || ch != nil && ch != o {
						s.fail = true
					} else {
						ch = o
					}
				}
				return true
			})
			if ch != nil {
				if s.feeders[ch] != nil || len(x.Call.Args) > 0 {
					s.fail = true
				}
				s.feeders[ch] = fl
				s.feedGo[x] = true
			}
		case *ast.SelectStmt, *ast.LabeledStmt:
			s.fail = true
		case *ast.ValueSpec:
			if isWaitGroup(x.Type) || len(x.Values) == 1 && isWaitGroup(x.Values[0]) {
				for _, id := range x.Names {
					s.wgs[id.Obj] = true
				}
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 && isWaitGroup(x.Rhs[0]) {
				s.wgs[identObj(x.Lhs[0])] = true
			}
		case *ast.SelectorExpr:
			switch x.Sel.Name {
			case "Lock", "Unlock", "RLock", "Mutex", "Once":
				s.fail = true
			}
		}
		return !s.fail
	})
	if gos == 0 || s.fail {
		return false
	}
	body := s.block(s.fd.Body)
	if s.fail {
		return false
	}
	s.fd.Body = body
	return true
}

func isWaitGroup(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		return ok && id.Name == "sync" && x.Sel.Name == "WaitGroup"
	case *ast.CompositeLit:
		return isWaitGroup(x.Type)
	case *ast.UnaryExpr:
		return x.Op == token.AND && isWaitGroup(x.X)
	case *ast.StarExpr:
		return isWaitGroup(x.X)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && id.Name == "new" && len(x.Args) == 1 && isWaitGroup(x.Args[0])
	}
	return false
}

// wgCall: a call of a method of a wait group, or the closing of a fed channel.
func (s *seqer) wgCall(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
		o := identObj(sel.X)
		return o != nil && s.wgs[o]
	}
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" && len(c.Args) == 1 {
		o := identObj(c.Args[0])
		return o != nil && s.feeders[o] != nil
	}
	return false
}

func hasGo(n ast.Node) *ast.GoStmt {
	var g *ast.GoStmt
	ast.Inspect(n, func(n ast.Node) bool {
		if x, ok := n.(*ast.GoStmt); ok {
			g = x
		}
		return g == nil
	})
	return g
}

func (s *seqer) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{Lbrace: b.Lbrace, List: s.list(b.List), Rbrace: b.Rbrace}
}

func discard(e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}
}

func (s *seqer) list(in []ast.Stmt) (out []ast.Stmt) {
	for _, st := range in {
		switch x := st.(type) {
		case *ast.ExprStmt:
			if s.wgCall(x.X) {
				continue
			}
		case *ast.DeferStmt:
			if s.wgCall(x.Call) {
				continue
			}
		case *ast.DeclStmt:
			out = append(out, st)
			if gd, ok := x.Decl.(*ast.GenDecl); ok {
				for _, sp := range gd.Specs {
					if vs, ok := sp.(*ast.ValueSpec); ok {
						for _, id := range vs.Names {
							if s.wgs[id.Obj] {
								out = append(out, discard(&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(id.Name)}))
							}
						}
					}
				}
			}
			continue
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				out = append(out, st)
				for _, l := range x.Lhs {
					if o := identObj(l); o != nil && (s.wgs[o] || s.feeders[o] != nil) {
						out = append(out, discard(&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(o.Name)}))
					}
				}
				continue
			}
		case *ast.GoStmt:
			if s.feedGo[x] {
				continue
			}
			if b := s.inline(x, nil); b != nil {
				out = append(out, b)
			}
			continue
		case *ast.ForStmt:
			if g := hasGo(x); g != nil {
				if s.worker(g) {
					init, ok := x.Init.(*ast.AssignStmt)
					if !ok || init.Tok != token.DEFINE || x.Cond == nil {
						s.fail = true
						return
					}
					s.oneWorker(x.Cond)
					l := append([]ast.Stmt{init}, discard(x.Cond))
					out = append(out, &ast.BlockStmt{List: append(l, s.list(x.Body.List)...)})
					continue
				}
				y := *x
				y.Body = s.block(x.Body)
				out = append(out, &y)
				continue
			}
		case *ast.RangeStmt:
			if g := hasGo(x); g != nil {
				if s.worker(g) {
					if x.Tok != token.DEFINE {
						s.fail = true
						return
					}
					s.oneWorker(x.X)
					var l []ast.Stmt
					zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
					def := func(id ast.Expr, v ast.Expr) {
						n, ok := id.(*ast.Ident)
						if !ok || n.Name == "_" {
							return
						}
						l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}, discard(ast.NewIdent(n.Name)))
					}
					if x.Key != nil {
						def(x.Key, zero)
					}
					if x.Value != nil {
						def(x.Value, &ast.IndexExpr{X: x.X, Index: zero})
					}
					out = append(out, &ast.BlockStmt{List: append(l, s.list(x.Body.List)...)})
					continue
				}
				y := *x
				y.Body = s.block(x.Body)
				out = append(out, &y)
				continue
			}
		case *ast.IfStmt:
			if hasGo(x) != nil {
				y := *x
				y.Body = s.block(x.Body)
				if x.Else != nil {
					if e, ok := x.Else.(*ast.BlockStmt); ok {
						y.Else = s.block(e)
					} else {
						s.fail = true
					}
				}
				out = append(out, &y)
				continue
			}
		case *ast.BlockStmt:
			out = append(out, s.block(x))
			continue
		default:
			if hasGo(st) != nil {
				s.fail = true
				return
			}
		}
		out = append(out, st)
	}
	return
}

// worker: the goroutine takes its jobs from a fed channel.
func (s *seqer) worker(g *ast.GoStmt) bool {
	found := false
	ast.Inspect(g.Call.Fun, func(n ast.Node) bool {
		if r, ok := n.(*ast.RangeStmt); ok {
			if o := s.channel(r, g); o != nil {
				found = true
			}
		}
		return !found
	})
	return found
}

// channel is the fed channel that r ranges over, possibly a parameter of g.
func (s *seqer) channel(r *ast.RangeStmt, g *ast.GoStmt) *ast.Object {
	o := identObj(r.X)
	if o == nil {
		return nil
	}
	if s.feeders[o] != nil {
		return o
	}
	i := 0
	for _, f := range g.Call.Fun.(*ast.FuncLit).Type.Params.List {
		for _, id := range f.Names {
			if id.Obj == o && i < len(g.Call.Args) {
				if a := identObj(g.Call.Args[i]); a != nil && s.feeders[a] != nil {
					return a
				}
			}
			i++
		}
	}
	return nil
}

// rename gives everything declared inside n a name of its own.
func (s *seqer) rename(n ast.Node, prefix string) {
	lo, hi := n.Pos(), n.End()
	own := map[*ast.Object]bool{}
	var ids []*ast.Ident
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Obj != nil && id.Name != "_" && (id.Obj.Kind == ast.Var || id.Obj.Kind == ast.Con) {
			if p := id.Obj.Pos(); p >= lo && p < hi {
				own[id.Obj] = true
			}
			if own[id.Obj] {
				ids = append(ids, id)
			}
		}
		return true
	})
	for _, id := range ids {
		if !strings.HasPrefix(id.Name, prefix) {
			id.Name = prefix + id.Name
		}
	}
}

// quits: does the body leave in a way that putting it in place would change?
func quits(b ast.Node) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.DeferStmt:
			bad = true
		case *ast.BranchStmt:
			if x.Label != nil || x.Tok == token.GOTO {
				bad = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				bad = true
			}
		}
		return !bad
	})
	return bad
}

// branches: continue or break that belong to a loop around b.
func branches(b ast.Node, tok token.Token) bool {
	bad := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt:
				walk(m, loop, true)
				return false
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if x.Tok == tok && (tok == token.CONTINUE && !loop || tok == token.BREAK && !sw) {
					bad = true
				}
			}
			return true
		})
	}
	walk(b, false, false)
	return bad
}

// inline puts the body of a goroutine in its place.
func (s *seqer) inline(g *ast.GoStmt, _ any) ast.Stmt {
	s.n++
	fl := g.Call.Fun.(*ast.FuncLit)
	var list []ast.Stmt
	// parameters
	i := 0
	for _, f := range fl.Type.Params.List {
		for _, id := range f.Names {
			if i >= len(g.Call.Args) || g.Call.Ellipsis.IsValid() {
				s.fail = true
				return nil
			}
			if id.Name != "_" {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{g.Call.Args[i]}}, discard(ast.NewIdent("vw_"+id.Name)))
			}
			i++
		}
	}
	chans := map[*ast.RangeStmt]*ast.Object{}
	ast.Inspect(fl.Body, func(n ast.Node) bool {
		if r, ok := n.(*ast.RangeStmt); ok {
			if o := s.channel(r, g); o != nil {
				chans[r] = o
			}
		}
		return true
	})
	s.rename(fl, "vw_")
	var put func(in []ast.Stmt) []ast.Stmt
	put = func(in []ast.Stmt) (out []ast.Stmt) {
		for _, st := range in {
			r, ok := st.(*ast.RangeStmt)
			if !ok || chans[r] == nil {
				if ds, ok := st.(*ast.DeferStmt); ok && s.wgCall(ds.Call) {
					continue
				}
				if es, ok := st.(*ast.ExprStmt); ok && s.wgCall(es.X) {
					continue
				}
				if hasGo(st) != nil || quits(st) || branches(st, token.CONTINUE) || branches(st, token.BREAK) {
					s.fail = true
					return
				}
				out = append(out, st)
				continue
			}
			out = append(out, s.fed(r, s.feeders[chans[r]])...)
		}
		return
	}
	list = append(list, put(s.list(fl.Body.List))...)
	return &ast.BlockStmt{List: list}
}

// fed is the loop of the feeder with the body of the worker's loop where it sends.
func (s *seqer) fed(r *ast.RangeStmt, feeder *ast.FuncLit) []ast.Stmt {
	if quits(r.Body) || branches(r.Body, token.BREAK) || r.Tok != token.DEFINE && r.Key != nil || r.Value != nil {
		s.fail = true
		return nil
	}
	s.rename(feeder, "vp_")
	sends := 0
	var put func(in []ast.Stmt, inLoop bool) []ast.Stmt
	put = func(in []ast.Stmt, inLoop bool) (out []ast.Stmt) {
		for k, st := range in {
			switch x := st.(type) {
			case *ast.SendStmt:
				sends++
				if branches(r.Body, token.CONTINUE) && (!inLoop || k != len(in)-1) {
					s.fail = true
				}
				var l []ast.Stmt
				if parts := s.parts(r, x.Value); parts != nil {
					l = append(l, parts...)
				} else if r.Key != nil {
					l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{r.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Value}})
				} else {
					l = append(l, discard(x.Value))
				}
				// in place: a block of its own
				out = append(out, &ast.BlockStmt{List: append(l, r.Body.List...)})
			case *ast.ForStmt:
				y := *x
				y.Body = &ast.BlockStmt{List: put(x.Body.List, true)}
				out = append(out, &y)
			case *ast.RangeStmt:
				y := *x
				y.Body = &ast.BlockStmt{List: put(x.Body.List, true)}
				out = append(out, &y)
			case *ast.IfStmt:
				y := *x
				y.Body = &ast.BlockStmt{List: put(x.Body.List, false)}
				if x.Else != nil {
					e, ok := x.Else.(*ast.BlockStmt)
					if !ok {
						s.fail = true
						return
					}
					y.Else = &ast.BlockStmt{List: put(e.List, false)}
				}
				out = append(out, &y)
			case *ast.BlockStmt:
				out = append(out, &ast.BlockStmt{List: put(x.List, false)})
			case *ast.DeferStmt:
				if !s.wgCall(x.Call) {
					s.fail = true
					return
				}
			case *ast.ExprStmt:
				if !s.wgCall(x.X) {
					out = append(out, st)
				}
			default:
				if quits(st) || hasSend(st) {
					s.fail = true
					return
				}
				out = append(out, st)
			}
		}
		return
	}
	out := put(feeder.Body.List, false)
	if sends != 1 {
		s.fail = true
	}
	return out
}

func hasSend(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.SendStmt); ok {
			f = true
		}
		return !f
	})
	return f
}

// parts gives a job made of several values one variable for each, when the
// body of the loop only uses its parts.
func (s *seqer) parts(r *ast.RangeStmt, v ast.Expr) (out []ast.Stmt) {
	cl, ok := v.(*ast.CompositeLit)
	if !ok || r.Key == nil {
		return nil
	}
	key, ok := r.Key.(*ast.Ident)
	if !ok || key.Obj == nil {
		return nil
	}
	names := map[string]string{}
	for i, e := range cl.Elts {
		k := strconv.Itoa(i)
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			switch n := kv.Key.(type) {
			case *ast.Ident:
				k = n.Name
			case *ast.BasicLit:
				k = n.Value
			default:
				return nil
			}
			e = kv.Value
		} else if _, ok := cl.Type.(*ast.ArrayType); !ok {
			return nil
		}
		names[k] = key.Name + "_" + k
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(names[k])}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}, discard(ast.NewIdent(names[k])))
	}
	uses, parts := 0, map[ast.Expr]string{}
	ast.Inspect(r.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if x.Obj == key.Obj {
				uses++
			}
		case *ast.IndexExpr:
			if l, ok := x.Index.(*ast.BasicLit); ok && identObj(x.X) == key.Obj && names[l.Value] != "" {
				parts[x] = names[l.Value]
			}
		case *ast.SelectorExpr:
			if identObj(x.X) == key.Obj && names[x.Sel.Name] != "" {
				parts[x] = names[x.Sel.Name]
			}
		}
		return true
	})
	if uses != len(parts) {
		return nil
	}
	r.Body = astutil.Apply(r.Body, func(c *astutil.Cursor) bool {
		if e, ok := c.Node().(ast.Expr); ok && parts[e] != "" {
			c.Replace(ast.NewIdent(parts[e]))
			return false
		}
		return true
	}, nil).(*ast.BlockStmt)
	return out
}

// oneWorker sets the number of workers to one: the numbers that bound a loop
// that starts them, and the lengths of what they are taken from.
func (s *seqer) oneWorker(n ast.Node) {
	objs := map[*ast.Object]bool{}
	add := func(n ast.Node) (more bool) {
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Obj != nil && id.Obj.Kind == ast.Var && !objs[id.Obj] {
				if p := id.Obj.Pos(); p > s.fd.Body.Pos() {
					objs[id.Obj] = true
					more = true
				}
			}
			return true
		})
		return
	}
	add(n)
	for again := true; again; {
		again = false
		ast.Inspect(s.fd.Body, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 || !objs[identObj(as.Lhs[0])] {
				return true
			}
			c, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "len") {
				for _, a := range c.Args {
					if id, ok := a.(*ast.Ident); ok && add(id) {
						again = true
					}
				}
				return true
			}
			usesCPUs := false
			ast.Inspect(c, func(n ast.Node) bool {
				if x, ok := n.(*ast.SelectorExpr); ok && (x.Sel.Name == "NumCPU" || x.Sel.Name == "GOMAXPROCS") {
					usesCPUs = true
				}
				return true
			})
			if usesCPUs {
				as.Lhs = append(as.Lhs, ast.NewIdent("_"))
				as.Rhs = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}, c}
			}
			return true
		})
	}
}
