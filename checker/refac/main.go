// Command refac applies one behaviour-preserving transformation to every
// place of the Go code where it is applicable. It is a development aid: the
// checks have to stay quiet on what it produces.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	repo = flag.String("repo", "", "copy of the repository (rewritten in place)")
	tr   = flag.String("t", "", "transformation")
	only = flag.String("only", "", "restrict to functions matching this regexp (file:func)")
)

var cnt int

func tmp(p string) *ast.Ident { cnt++; return ast.NewIdent(fmt.Sprintf("%s%d", p, cnt)) }

type ctx struct {
	info *types.Info
	pkg  *types.Package
	file *ast.File
	fn   *ast.FuncDecl
	add  []ast.Decl
}

func main() {
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: *repo + "/go"}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	re := regexp.MustCompile(*only)
	sites := 0
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, *repo) || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
				continue
			}
			changed := 0
			c := &ctx{info: p.TypesInfo, pkg: p.Types, file: f}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || !re.MatchString(name+":"+fd.Name.Name) {
					continue
				}
				c.fn = fd
				changed += c.apply(fd)
			}
			if changed == 0 {
				continue
			}
			f.Decls = append(f.Decls, c.add...)
			f.Comments = nil
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, f); err != nil {
				fmt.Println("FORMAT", name, err)
				continue
			}
			sites += changed
			os.WriteFile(name, buf.Bytes(), 0o644)
		}
	}
	fmt.Println(*tr, "sites", sites)
}

func (c *ctx) apply(fd *ast.FuncDecl) int {
	n := 0
	// lists of statements
	stmts := func(do func(list []ast.Stmt) []ast.Stmt) {
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			switch s := nd.(type) {
			case *ast.BlockStmt:
				s.List = do(s.List)
			case *ast.CaseClause:
				s.Body = do(s.Body)
			case *ast.CommClause:
				s.Body = do(s.Body)
			}
			return true
		})
	}
	switch *tr {
	case "wrap":
		return c.wrap(fd)
	case "clos":
		if fd.Type.TypeParams != nil || len(fd.Body.List) < 2 || hasCall(fd.Body, "recover") {
			return 0
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
		call := &ast.CallExpr{Fun: lit}
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			r := &ast.FieldList{}
			for _, f := range fd.Type.Results.List {
				k := len(f.Names)
				if k == 0 {
					k = 1
				}
				for ; k > 0; k-- {
					r.List = append(r.List, &ast.Field{Type: f.Type})
				}
			}
			fd.Type = &ast.FuncType{Func: fd.Type.Func, Params: fd.Type.Params, Results: r}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
		return 1
	case "tail":
		return c.tail(fd)
	case "head":
		return c.head(fd)
	case "noop":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			n++
			nop := func() ast.Stmt {
				return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}
			}
			if len(l) > 0 {
				if _, ok := l[0].(*ast.CaseClause); ok {
					return l
				}
				if _, ok := l[0].(*ast.CommClause); ok {
					return l
				}
			}
			return append([]ast.Stmt{nop()}, l...)
		})
	case "invertif":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond = not(s.Cond)
					s.Body, s.Else = e, s.Body
					n++
				}
			}
			return true
		})
	case "elseempty": // if c {b} => if !c {} else {b}
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.IfStmt); ok && s.Else == nil {
				s.Cond = not(s.Cond)
				s.Body, s.Else = &ast.BlockStmt{}, s.Body
				n++
			}
			return true
		})
	case "splitinit":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init != nil {
					init := i.Init
					i.Init = nil
					out = append(out, &ast.BlockStmt{List: []ast.Stmt{init, i}})
					n++
					continue
				}
				out = append(out, s)
			}
			return out
		})
	case "condvar":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					v := tmp("cond")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
					i.Cond = ast.NewIdent(v.Name)
					n++
				}
				out = append(out, s)
			}
			return out
		})
	case "condfn": // if c => if func() bool { return c }()
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.IfStmt); ok {
				s.Cond = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("bool"), Args: []ast.Expr{s.Cond}}}}}}}}
				n++
			}
			return true
		})
	case "nestand":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.IfStmt); ok && s.Else == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
					n++
				}
			}
			return true
		})
	case "splitor": // if a || b {x} => if a {x} else if b {x} is a copy; use a flag
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR {
						v := tmp("flag")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{b.X}},
							&ast.IfStmt{Cond: not(ast.NewIdent(v.Name)), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{b.Y}}}}})
						i.Cond = ast.NewIdent(v.Name)
						n++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "demorgan":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.IfStmt); ok {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
					op := token.LOR
					if b.Op == token.LOR {
						op = token.LAND
					}
					s.Cond = not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)})
					n++
				}
			}
			return true
		})
	case "yoda":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if b, ok := nd.(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if o, ok := m[b.Op]; ok && !(sideEffects(b.X) && sideEffects(b.Y)) {
					b.X, b.Y, b.Op = b.Y, b.X, o
					n++
				}
			}
			return true
		})
	case "elsereturn":
		var do func(l []ast.Stmt) []ast.Stmt
		do = func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || len(i.Body.List) == 0 || k == len(l)-1 {
					continue
				}
				if _, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt); !ok {
					continue
				}
				n++
				if hasLabel(l[k+1:]) {
					return l
				}
				i.Else = &ast.BlockStmt{List: do(append([]ast.Stmt(nil), l[k+1:]...))}
				return l[:k+1]
			}
			return l
		}
		fd.Body.List = do(fd.Body.List)
	case "elsecontinue":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			var body *ast.BlockStmt
			switch s := nd.(type) {
			case *ast.ForStmt:
				body = s.Body
			case *ast.RangeStmt:
				body = s.Body
			}
			if body == nil {
				return true
			}
			var do func(l []ast.Stmt) []ast.Stmt
			do = func(l []ast.Stmt) []ast.Stmt {
				for k, s := range l {
					i, ok := s.(*ast.IfStmt)
					if !ok || i.Else != nil || len(i.Body.List) == 0 || k == len(l)-1 {
						continue
					}
					br, ok := i.Body.List[len(i.Body.List)-1].(*ast.BranchStmt)
					if !ok || br.Tok != token.CONTINUE || br.Label != nil || hasLabel(l[k+1:]) {
						continue
					}
					n++
					i.Body.List = i.Body.List[:len(i.Body.List)-1]
					i.Else = &ast.BlockStmt{List: do(append([]ast.Stmt(nil), l[k+1:]...))}
					return l[:k+1]
				}
				return l
			}
			body.List = do(body.List)
			return true
		})
	case "rangeidx":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			switch s := nd.(type) {
			case *ast.BlockStmt:
				n += c.rangeIdx(s.List)
			case *ast.CaseClause:
				n += c.rangeIdx(s.Body)
			case *ast.CommClause:
				n += c.rangeIdx(s.Body)
			}
			return true
		})
	case "rangechan":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			b, ok := nd.(*ast.BlockStmt)
			if !ok {
				return true
			}
			for k, s := range b.List {
				r, ok := s.(*ast.RangeStmt)
				if !ok {
					continue
				}
				if _, isC := c.info.TypeOf(r.X).Underlying().(*types.Chan); !isC || r.Tok != token.DEFINE {
					continue
				}
				okv := tmp("more")
				n++
				r.Body.List = append([]ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{r.Key, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.ARROW, X: r.X}}},
					&ast.IfStmt{Cond: not(ast.NewIdent(okv.Name)), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				}, r.Body.List...)
				b.List[k] = &ast.ForStmt{Body: r.Body}
			}
			return true
		})
	case "loopclos":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			var body *ast.BlockStmt
			switch s := nd.(type) {
			case *ast.ForStmt:
				body = s.Body
			case *ast.RangeStmt:
				body = s.Body
			}
			if body == nil || !closable(body, true) {
				return true
			}
			contToRet(body)
			inner := &ast.BlockStmt{List: body.List}
			body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: inner}}}}
			n++
			return true
		})
	case "ifclos":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			s, ok := nd.(*ast.IfStmt)
			if !ok || !closable(s.Body, false) || hasBranch(s.Body) {
				return true
			}
			inner := &ast.BlockStmt{List: s.Body.List}
			s.Body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: inner}}}}
			n++
			return true
		})
	case "retvar":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					out = append(out, s)
					continue
				}
				if len(r.Results) == 1 {
					t := c.info.TypeOf(r.Results[0])
					if tp, ok := t.(*types.Tuple); ok {
						as := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{r.Results[0]}}
						var rs []ast.Expr
						for i := 0; i < tp.Len(); i++ {
							v := tmp("ret")
							as.Lhs = append(as.Lhs, v)
							rs = append(rs, ast.NewIdent(v.Name))
						}
						r.Results = rs
						out = append(out, as, r)
						n++
						continue
					}
				}
				for i, e := range r.Results {
					if _, ok := e.(*ast.CallExpr); ok {
						if _, isT := c.info.TypeOf(e).(*types.Tuple); isT {
							continue
						}
						v := tmp("ret")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
						r.Results[i] = ast.NewIdent(v.Name)
						n++
					}
				}
				out = append(out, r)
			}
			return out
		})
	case "argtemp":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				var call *ast.CallExpr
				switch s := s.(type) {
				case *ast.ExprStmt:
					call, _ = s.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(s.Rhs) == 1 {
						call, _ = s.Rhs[0].(*ast.CallExpr)
					}
				}
				if call != nil && !call.Ellipsis.IsValid() && pureExpr(call.Fun) {
					if tv, ok := c.info.Types[call.Fun]; ok && !tv.IsType() && !tv.IsBuiltin() {
						for i, a := range call.Args {
							in, ok := a.(*ast.CallExpr)
							if !ok {
								continue
							}
							if tv, ok := c.info.Types[in]; !ok || tv.Value != nil {
								continue
							}
							if _, isT := c.info.TypeOf(in).(*types.Tuple); isT {
								continue
							}
							v := tmp("arg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{in}})
							call.Args[i] = ast.NewIdent(v.Name)
							n++
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "deferclos":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if d, ok := nd.(*ast.DeferStmt); ok && len(d.Call.Args) == 0 {
				if _, ok := d.Call.Fun.(*ast.FuncLit); !ok {
					d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
					n++
				}
			}
			return true
		})
	case "goclos": // go f(a) => a1 := a; go func() { f(a1) }()
		stmts(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				g, ok := s.(*ast.GoStmt)
				if ok {
					if _, lit := g.Call.Fun.(*ast.FuncLit); !lit {
						for i, a := range g.Call.Args {
							v := tmp("goarg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
							g.Call.Args[i] = ast.NewIdent(v.Name)
						}
						g.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}}
						n++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "switchif":
		stmts(func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				sw, ok := s.(*ast.SwitchStmt)
				if !ok || sw.Init != nil || hasSwitchBreak(sw) {
					continue
				}
				if sw.Tag != nil && !pureExpr(sw.Tag) {
					continue
				}
				if st := c.switchIf(sw); st != nil {
					l[k] = st
					n++
				}
			}
			return l
		})
	case "selrev":
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.SelectStmt); ok {
				for i, j := 0, len(s.Body.List)-1; i < j; i, j = i+1, j-1 {
					s.Body.List[i], s.Body.List[j] = s.Body.List[j], s.Body.List[i]
				}
				n++
			}
			return true
		})
	case "fortrue": // for c {b} => for { if !c {break}; b }
		ast.Inspect(fd.Body, func(nd ast.Node) bool {
			if s, ok := nd.(*ast.ForStmt); ok && s.Cond != nil {
				s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
				s.Cond = nil
				n++
			}
			return true
		})
	case "ptr": // x := T{...} stays; locals of struct type behind a pointer are left alone
	default:
		fmt.Println("unknown transformation")
		os.Exit(2)
	}
	return n
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func sideEffects(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			r = true
		}
		return true
	})
	return r
}

func pureExpr(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pureExpr(e.X)
	case *ast.ParenExpr:
		return pureExpr(e.X)
	}
	return false
}

func hasLabel(l []ast.Stmt) bool {
	r := false
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if _, ok := n.(*ast.LabeledStmt); ok {
				r = true
			}
			return true
		})
	}
	return r
}

func hasCall(n ast.Node, name string) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == name {
				r = true
			}
		}
		return true
	})
	return r
}

// closable: the body may become the body of a function literal.
func closable(b *ast.BlockStmt, loop bool) bool {
	ok := true
	var walk func(n ast.Node, depth int, sw int)
	walk = func(n ast.Node, depth, sw int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch s := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				ok = false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, depth+1, 0)
				return false
			case *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				walk(m, depth, sw+1)
				return false
			case *ast.BranchStmt:
				if s.Label != nil || s.Tok == token.GOTO {
					ok = false
				}
				if s.Tok == token.BREAK && depth == 0 && sw == 0 {
					ok = false
				}
			}
			return true
		})
	}
	walk(b, 0, 0)
	return ok
}

func hasBranch(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.BranchStmt); ok {
			r = true
		}
		return true
	})
	return r
}

func contToRet(b *ast.BlockStmt) {
	astutil.Apply(b, func(cu *astutil.Cursor) bool {
		switch s := cu.Node().(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			return false
		case *ast.BranchStmt:
			if s.Tok == token.CONTINUE {
				cu.Replace(&ast.ReturnStmt{})
			}
		}
		return true
	}, nil)
}

func hasSwitchBreak(sw *ast.SwitchStmt) bool {
	r := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch s := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt:
				return false
			case *ast.BranchStmt:
				if s.Tok == token.BREAK && s.Label == nil || s.Tok == token.FALLTHROUGH {
					r = true
				}
			}
			return true
		})
	}
	walk(sw.Body)
	return r
}

func (c *ctx) switchIf(sw *ast.SwitchStmt) ast.Stmt {
	var def *ast.BlockStmt
	var first, last *ast.IfStmt
	for _, s := range sw.Body.List {
		cc := s.(*ast.CaseClause)
		if cc.List == nil {
			def = &ast.BlockStmt{List: cc.Body}
			continue
		}
		var cond ast.Expr
		for _, e := range cc.List {
			var one ast.Expr = e
			if sw.Tag != nil {
				one = &ast.BinaryExpr{X: sw.Tag, Op: token.EQL, Y: e}
			} else {
				one = &ast.ParenExpr{X: e}
			}
			if cond == nil {
				cond = one
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
			}
		}
		i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
		if first == nil {
			first = i
		} else {
			last.Else = i
		}
		last = i
	}
	if first == nil {
		return nil
	}
	if def != nil {
		last.Else = def
	}
	return first
}

func (c *ctx) rangeIdx(l []ast.Stmt) int {
	n := 0
	for k, s := range l {
		var lab *ast.LabeledStmt
		if ls, ok := s.(*ast.LabeledStmt); ok {
			lab = ls
			s = ls.Stmt
		}
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE && r.Tok != token.ILLEGAL {
			continue
		}
		if _, isS := c.info.TypeOf(r.X).Underlying().(*types.Slice); !isS {
			continue
		}
		xs := tmp("items")
		i := tmp("i")
		var pre []ast.Stmt
		if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(i.Name)}})
		}
		if id, ok := r.Value.(*ast.Ident); ok && id.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(xs.Name), Index: ast.NewIdent(i.Name)}}})
		}
		r.Body.List = append(pre, r.Body.List...)
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: ast.NewIdent(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(xs.Name)}}},
			Post: &ast.IncDecStmt{X: ast.NewIdent(i.Name), Tok: token.INC},
			Body: r.Body,
		}
		var loop ast.Stmt = f
		if lab != nil {
			lab.Stmt = f
			loop = lab
		}
		l[k] = &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}}, loop}}
		n++
	}
	return n
}

func (c *ctx) wrap(fd *ast.FuncDecl) int {
	name := fd.Name.Name
	if name == "init" || fd.Type.TypeParams != nil || len(fd.Body.List) < 2 {
		return 0
	}
	impl := &ast.FuncDecl{Name: ast.NewIdent(name + "Impl"), Body: fd.Body}
	args := []ast.Expr{}
	named := func(fl *ast.FieldList, pre string) *ast.FieldList {
		out := &ast.FieldList{}
		if fl == nil {
			return out
		}
		for _, f := range fl.List {
			nf := &ast.Field{Type: f.Type}
			for _, nm := range f.Names {
				nf.Names = append(nf.Names, ast.NewIdent(nm.Name))
			}
			out.List = append(out.List, nf)
		}
		return out
	}
	ellipsis := false
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			f.Names = []*ast.Ident{tmp("p")}
		}
		for i, nm := range f.Names {
			if nm.Name == "_" {
				f.Names[i] = tmp("p")
			}
			args = append(args, ast.NewIdent(f.Names[i].Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			ellipsis = true
		}
	}
	impl.Type = &ast.FuncType{Params: named(fd.Type.Params, "p"), Results: named(fd.Type.Results, "r")}
	var fun ast.Expr = ast.NewIdent(impl.Name.Name)
	if fd.Recv != nil {
		r := fd.Recv.List[0]
		if len(r.Names) == 0 || r.Names[0].Name == "_" {
			r.Names = []*ast.Ident{tmp("recv")}
		}
		impl.Recv = named(fd.Recv, "")
		fun = &ast.SelectorExpr{X: ast.NewIdent(r.Names[0].Name), Sel: ast.NewIdent(impl.Name.Name)}
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if ellipsis {
		call.Ellipsis = 1
	}
	if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	} else {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	}
	c.add = append(c.add, impl)
	return 1
}

// typeExpr writes a type as source, nil if it cannot be named here.
func (c *ctx) typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if !ok || strings.Contains(s, "func(") && false {
		return nil
	}
	return ast.NewIdent(s)
}

// free returns the variables declared in the function (or its parameters)
// outside of the statements that the statements use.
func (c *ctx) free(l []ast.Stmt) ([]*types.Var, bool) {
	in := map[types.Object]bool{}
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := c.info.Defs[id]; o != nil {
					in[o] = true
				}
			}
			return true
		})
	}
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ok := true
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, isID := n.(*ast.Ident); isID {
				o := c.info.Uses[id]
				if o == nil || in[o] || o.Parent() == nil || o.Parent() == c.pkg.Scope() || o.Parent() == types.Universe {
					return true
				}
				switch v := o.(type) {
				case *types.Var:
					if v.IsField() || seen[v] {
						return true
					}
					if v.Pkg() != c.pkg || o.Pos() < c.fn.Pos() || o.Pos() > c.fn.End() {
						return true
					}
					seen[v] = true
					out = append(out, v)
				case *types.TypeName, *types.Const:
					if o.Pos() >= c.fn.Pos() && o.Pos() <= c.fn.End() {
						ok = false
					}
				}
			}
			return true
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out, ok
}

// tail moves the second half of a function to a new one.
func (c *ctx) tail(fd *ast.FuncDecl) int {
	l := fd.Body.List
	if len(l) < 4 || fd.Type.TypeParams != nil || hasLabel(l) || hasCall(fd.Body, "recover") {
		return 0
	}
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			if len(f.Names) > 0 {
				return 0
			}
		}
	}
	for k := len(l) / 2; k < len(l)-1; k++ {
		rest := l[k:]
		defers := false
		for _, s := range rest {
			if _, ok := s.(*ast.DeferStmt); ok {
				defers = true
			}
		}
		if defers {
			continue
		}
		vars, ok := c.free(rest)
		if !ok {
			continue
		}
		// variables shared with closures or deferred calls of the head
		shared := false
		for _, s := range l[:k] {
			ast.Inspect(s, func(n ast.Node) bool {
				switch m := n.(type) {
				case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt:
					ast.Inspect(n, func(q ast.Node) bool {
						if id, ok := q.(*ast.Ident); ok {
							for _, v := range vars {
								if c.info.Uses[id] == v {
									if _, isF := n.(*ast.FuncLit); isF {
										shared = true
									}
								}
							}
						}
						return true
					})
				case *ast.UnaryExpr:
					if m.Op == token.AND {
						if id, ok := m.X.(*ast.Ident); ok {
							for _, v := range vars {
								if c.info.Uses[id] == v {
									shared = true
								}
							}
						}
					}
				}
				return true
			})
		}
		if shared {
			continue
		}
		fn := &ast.FuncDecl{Name: ast.NewIdent("rest" + fd.Name.Name), Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}}
		if fd.Recv != nil {
			t := c.info.TypeOf(fd.Recv.List[0].Type)
			s := types.TypeString(t, func(*types.Package) string { return "" })
			fn.Name = ast.NewIdent("rest" + strings.Trim(s, "*") + fd.Name.Name)
		}
		call := &ast.CallExpr{Fun: ast.NewIdent(fn.Name.Name)}
		bad := false
		for _, v := range vars {
			te := c.typeExpr(v.Type())
			if te == nil {
				bad = true
				break
			}
			// locks and the like must not be copied
			if strings.Contains(types.TypeString(v.Type(), nil), "sync.") && !strings.HasPrefix(types.TypeString(v.Type(), nil), "*") {
				bad = true
			}
			fn.Type.Params.List = append(fn.Type.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: te})
			call.Args = append(call.Args, ast.NewIdent(v.Name()))
		}
		if bad {
			continue
		}
		if fd.Type.Params != nil {
			// variadic parameters keep their element type as a slice
			for _, f := range fn.Type.Params.List {
				if id, ok := f.Type.(*ast.Ident); ok && strings.HasPrefix(id.Name, "...") {
					f.Type = ast.NewIdent("[]" + id.Name[3:])
				}
			}
		}
		fn.Body = &ast.BlockStmt{List: append([]ast.Stmt(nil), rest...)}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body.List = append(append([]ast.Stmt(nil), l[:k]...), st)
		c.add = append(c.add, fn)
		return 1
	}
	return 0
}

// head is unused so far.
func (c *ctx) head(fd *ast.FuncDecl) int { return 0 }
