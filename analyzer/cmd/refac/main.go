// refac writes behaviour-preserving variants of the repository's source, to find rules that depend on
// how the code is written. In every variant each function is changed at one place at most.
//
//	refac -repo /repo -out /tmp/rf [-only transform]
//
// writes /tmp/rf/<transform>.<round>/overlay.json with the changed files beside it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to token.Pos
	text     string
}

type fctx struct {
	src   []byte
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	fn    *ast.FuncDecl
	id    string
	file  *ast.File
	extra *strings.Builder // declarations appended to the file
}

func (c *fctx) text(n ast.Node) string { return c.span(n.Pos(), n.End()) }
func (c *fctx) span(a, b token.Pos) string {
	return string(c.src[c.fset.Position(a).Offset:c.fset.Position(b).Offset])
}

// a transform lists the alternatives for a function; every alternative is a list of edits.
type transform func(c *fctx) []func() []edit

var transforms = map[string]transform{}

func walkStmts(c *fctx, f func(list []ast.Stmt, i int)) {
	ast.Inspect(c.fn.Body, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			for i := range b.List {
				f(b.List, i)
			}
		case *ast.CaseClause:
			for i := range b.Body {
				f(b.Body, i)
			}
		case *ast.FuncLit:
			return true
		}
		return true
	})
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "/tmp/rf", "")
	only := flag.String("only", "", "")
	rounds := flag.Int("rounds", 6, "")
	from := flag.Int("from", 0, "")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: *repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	var names []string
	for n := range transforms {
		if *only == "" || *only == n {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		for r := *from; r < *rounds; r++ {
			dir := filepath.Join(*out, fmt.Sprintf("%s.%d", n, r))
			skip := map[string]bool{}
			var files map[string][]byte
			count := 0
			for try := 0; try < 8; try++ {
				files, count = variant(pkgs, n, r, skip)
				if count == 0 {
					break
				}
				bad := broken(*repo, files, skip)
				if bad == 0 {
					break
				}
			}
			repl := map[string]string{}
			for path, txt := range files {
				rel, _ := filepath.Rel(*repo, path)
				dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
				os.MkdirAll(dir, 0o755)
				os.WriteFile(dst, txt, 0o644)
				repl[path] = dst
			}
			if count == 0 {
				continue
			}
			raw, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
			os.WriteFile(filepath.Join(dir, "overlay.json"), raw, 0o644)
			fmt.Printf("%s.%d: %d functions\n", n, r, count)
		}
	}
}

var fnRe = flag.String("fn", "", "only change functions that match file.go:name")

var origin = map[string]string{} // generated function -> function it was made from

func variant(pkgs []*packages.Package, n string, r int, skip map[string]bool) (map[string][]byte, int) {
	files := map[string][]byte{}
	count := 0
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/cmd/") || strings.HasSuffix(p.PkgPath, "/test") {
			continue
		}
		for _, f := range p.Syntax {
			path := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(path, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(path)
			var edits []edit
			extra := &strings.Builder{}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				id := funcID(fd)
				if skip[path+" "+id] || *fnRe != "" && !regexp.MustCompile(*fnRe).MatchString(filepath.Base(path)+":"+id) {
					continue
				}
				c := &fctx{src: src, fset: p.Fset, info: p.TypesInfo, pkg: p.Types, fn: fd, file: f, extra: extra, id: id}
				alts := transforms[n](c)
				if len(alts) <= r {
					continue
				}
				edits = append(edits, alts[r]()...)
				count++
			}
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
			var b strings.Builder
			last := 0
			for _, e := range edits {
				o := p.Fset.Position(e.from).Offset
				if o < last {
					continue
				}
				b.Write(src[last:o])
				b.WriteString(e.text)
				last = p.Fset.Position(e.to).Offset
			}
			b.Write(src[last:])
			b.WriteString(extra.String())
			txt, err := format.Source([]byte(b.String()))
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s %s: %v\n", n, path, err)
				txt = []byte(b.String())
			}
			files[path] = txt
		}
	}
	return files, count
}

func funcID(fd *ast.FuncDecl) string {
	id := fd.Name.Name
	if fd.Recv != nil {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if i, ok := t.(*ast.Ident); ok {
			id = i.Name + "R" + id
		}
	}
	return id
}

// broken finds the functions that do not compile and adds them to skip.
func broken(repo string, files map[string][]byte, skip map[string]bool) int {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Overlay: files}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	bad := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			part := strings.Split(e.Pos, ":")
			if len(part) < 2 {
				fmt.Fprintln(os.Stderr, e)
				continue
			}
			line, _ := strconv.Atoi(part[1])
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, part[0], files[part[0]], 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fs.Position(fd.Pos()).Line <= line && line <= fs.Position(fd.End()).Line {
					id := funcID(fd)
					for _, k := range []string{"Tail", "Part", "Cond"} {
						if i := strings.LastIndex(id, k); i > 0 && origin[id] != "" {
							id = origin[id]
						}
					}
					skip[part[0]+" "+id] = true
					bad++
				}
			}
		}
	}
	return bad
}

// helpers ---------------------------------------------------------------------------------------

func terminates(s ast.Stmt) bool {
	switch n := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return n.Tok == token.CONTINUE || n.Tok == token.BREAK
	case *ast.BlockStmt:
		return len(n.List) > 0 && terminates(n.List[len(n.List)-1])
	case *ast.IfStmt:
		return n.Else != nil && terminates(n.Body) && terminates(n.Else)
	case *ast.ExprStmt:
		if call, ok := n.X.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func returns(s ast.Stmt) bool {
	switch n := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return len(n.List) > 0 && returns(n.List[len(n.List)-1])
	case *ast.IfStmt:
		return n.Else != nil && returns(n.Body) && returns(n.Else)
	}
	return false
}

func has(n ast.Node, f func(n ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if m != nil && f(m) {
			found = true
		}
		return !found
	})
	return found
}

func hasCall(n ast.Node) bool {
	return has(n, func(m ast.Node) bool { _, ok := m.(*ast.CallExpr); return ok })
}

// locals gives the variables of the function that are used in the nodes and declared outside of them.
func (c *fctx) freeVars(from, to token.Pos, ns ...ast.Node) []*types.Var {
	seen := map[*types.Var]bool{}
	var out []*types.Var
	for _, n := range ns {
		ast.Inspect(n, func(m ast.Node) bool {
			id, ok := m.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := c.info.Uses[id].(*types.Var)
			if !ok || v.IsField() || v.Pkg() != c.pkg || v.Parent() == c.pkg.Scope() {
				return true
			}
			if v.Pos() >= from && v.Pos() < to || seen[v] {
				return true
			}
			seen[v] = true
			out = append(out, v)
			return true
		})
	}
	return out
}

func (c *fctx) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		return "MISSING"
	})
}

// assigned reports whether a variable is assigned (or has its address taken) in the nodes.
func (c *fctx) assigned(v *types.Var, ns ...ast.Node) bool {
	is := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && (c.info.Uses[id] == v || c.info.Defs[id] == v)
	}
	for _, n := range ns {
		if has(n, func(m ast.Node) bool {
			switch s := m.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					if is(l) {
						return true
					}
				}
			case *ast.IncDecStmt:
				return is(s.X)
			case *ast.RangeStmt:
				return s.Key != nil && is(s.Key) || s.Value != nil && is(s.Value)
			case *ast.UnaryExpr:
				return s.Op == token.AND && is(s.X)
			}
			return false
		}) {
			return true
		}
	}
	return false
}

func init() {
	// if c {...} => cond := c; if cond {...}
	transforms["tempcond"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init != nil {
				return
			}
			alts = append(alts, func() []edit {
				return []edit{{n.Pos(), n.Cond.End(), "condZ := " + c.text(n.Cond) + "\nif condZ"}}
			})
		})
		return
	}
	transforms["invert"] = func(c *fctx) (alts []func() []edit) {
		ast.Inspect(c.fn.Body, func(m ast.Node) bool {
			n, ok := m.(*ast.IfStmt)
			if !ok || n.Else == nil {
				return true
			}
			alts = append(alts, func() []edit {
				els := c.text(n.Else)
				if _, ok := n.Else.(*ast.IfStmt); ok {
					els = "{\n" + els + "\n}"
				}
				return []edit{{n.Cond.Pos(), n.End(), "!(" + c.text(n.Cond) + ") " + els + " else " + c.text(n.Body)}}
			})
			return true
		})
		return
	}
	// if c { return } rest => if !c { rest } else { return }
	transforms["nest"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init != nil || n.Else != nil || !returns(n.Body) || i == len(list)-1 || !returns(list[len(list)-1]) {
				return
			}
			alts = append(alts, func() []edit {
				last := list[len(list)-1]
				return []edit{{n.Pos(), last.End(), "if !(" + c.text(n.Cond) + ") {\n" + c.span(list[i+1].Pos(), last.End()) + "\n} else " + c.text(n.Body)}}
			})
		})
		return
	}
	// if c { A } else { B; return } and if c { return X } else rest
	transforms["elsereturn"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init != nil || n.Else != nil || !returns(n.Body) || i == len(list)-1 || !returns(list[len(list)-1]) {
				return
			}
			alts = append(alts, func() []edit {
				last := list[len(list)-1]
				return []edit{{n.Body.End(), list[i+1].Pos(), " else {\n"}, {last.End(), last.End(), "\n}"}}
			})
		})
		return
	}
	transforms["rangeindex"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.RangeStmt)
			if !ok || n.Tok != token.DEFINE {
				return
			}
			t := c.info.TypeOf(n.X).Underlying()
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 && n.Key != nil {
				alts = append(alts, func() []edit {
					k := c.text(n.Key)
					if k == "_" {
						k = "iZ"
					}
					return []edit{{n.Pos(), n.Body.Pos(), fmt.Sprintf("for %s := %s(0); %s < %s; %s++ ", k, c.typ(c.info.TypeOf(n.X)), k, c.text(n.X), k)}}
				})
				return
			}
			if _, ok := t.(*types.Slice); !ok {
				return
			}
			if c.info.TypeOf(n.X) == nil || hasCall(n.X) {
				return
			}
			fv := c.freeVars(0, 0, n.X)
			for _, v := range fv {
				if c.assigned(v, n.Body) {
					return
				}
			}
			alts = append(alts, func() []edit {
				k := "iZ"
				if n.Key != nil && c.text(n.Key) != "_" {
					k = c.text(n.Key)
				}
				x := c.text(n.X)
				pre := ""
				if n.Value != nil && c.text(n.Value) != "_" {
					pre = fmt.Sprintf("\n%s := %s[%s]\n", c.text(n.Value), x, k)
				}
				return []edit{{n.Pos(), n.Body.Pos() + 1, fmt.Sprintf("for %s := 0; %s < len(%s); %s++ {%s", k, k, x, k, pre)}}
			})
		})
		return
	}
	// for i := 0; i < n; i++ { B } => for i := range n
	transforms["indexrange"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.ForStmt)
			if !ok || n.Init == nil || n.Post == nil || n.Cond == nil {
				return
			}
			in, ok := n.Init.(*ast.AssignStmt)
			if !ok || len(in.Lhs) != 1 || c.text(in.Rhs[0]) != "0" {
				return
			}
			cond, ok := n.Cond.(*ast.BinaryExpr)
			if !ok || cond.Op != token.LSS || c.text(cond.X) != c.text(in.Lhs[0]) {
				return
			}
			v, _ := c.info.Defs[in.Lhs[0].(*ast.Ident)].(*types.Var)
			if v == nil || c.assigned(v, n.Body) {
				return
			}
			for _, w := range c.freeVars(0, 0, cond.Y) {
				if c.assigned(w, n.Body) {
					return
				}
			}
			alts = append(alts, func() []edit {
				return []edit{{n.Pos(), n.Body.Pos(), fmt.Sprintf("for %s := range %s ", c.text(in.Lhs[0]), c.text(cond.Y))}}
			})
		})
		return
	}
	// for init; cond; post { B } => init; for { if !cond { break }; B; post }
	transforms["forbreak"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.ForStmt)
			if !ok || n.Cond == nil || has(n.Body, func(m ast.Node) bool {
				b, ok := m.(*ast.BranchStmt)
				return ok && (b.Tok == token.CONTINUE || b.Label != nil)
			}) {
				return
			}
			alts = append(alts, func() []edit {
				init, post := "", ""
				if n.Init != nil {
					init = c.text(n.Init) + "\n"
				}
				if n.Post != nil {
					post = "\n" + c.text(n.Post)
				}
				body := c.span(n.Body.Pos()+1, n.Body.End()-1)
				return []edit{{n.Pos(), n.End(), "{\n" + init + "for {\nif !(" + c.text(n.Cond) + ") {\nbreak\n}\n" + body + post + "\n}\n}"}}
			})
		})
		return
	}
	// continue => if/else nesting
	transforms["continueelse"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init != nil || n.Else != nil || i == len(list)-1 || len(n.Body.List) == 0 {
				return
			}
			b, ok := n.Body.List[len(n.Body.List)-1].(*ast.BranchStmt)
			if !ok || b.Tok != token.CONTINUE || b.Label != nil {
				return
			}
			// only at the end of the loop body
			isLoopBody := has(c.fn.Body, func(m ast.Node) bool {
				switch l := m.(type) {
				case *ast.ForStmt:
					return len(l.Body.List) == len(list) && l.Body.List[0] == list[0]
				case *ast.RangeStmt:
					return len(l.Body.List) == len(list) && l.Body.List[0] == list[0]
				}
				return false
			})
			if !isLoopBody {
				return
			}
			alts = append(alts, func() []edit {
				last := list[len(list)-1]
				return []edit{{b.Pos(), b.End(), ""}, {n.Body.End(), list[i+1].Pos(), " else {\n"}, {last.End(), last.End(), "\n}"}}
			})
		})
		return
	}
	// if a || b { return } => two ifs; if a && b {..} => nested
	transforms["splitcond"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init != nil || n.Else != nil {
				return
			}
			b, ok := n.Cond.(*ast.BinaryExpr)
			if !ok {
				return
			}
			if b.Op == token.LOR && terminates(n.Body) {
				alts = append(alts, func() []edit {
					return []edit{{n.Pos(), n.End(), "if " + c.text(b.X) + c.text(n.Body) + "\nif " + c.text(b.Y) + c.text(n.Body)}}
				})
			}
			if b.Op == token.LAND {
				alts = append(alts, func() []edit {
					return []edit{{n.Pos(), n.End(), "if " + c.text(b.X) + "{\nif " + c.text(b.Y) + c.text(n.Body) + "\n}"}}
				})
			}
		})
		return
	}
	// comparisons the other way round
	transforms["flip"] = func(c *fctx) (alts []func() []edit) {
		ast.Inspect(c.fn.Body, func(m ast.Node) bool {
			b, ok := m.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			op := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}[b.Op]
			if op == "" {
				return true
			}
			alts = append(alts, func() []edit {
				return []edit{{b.Pos(), b.End(), c.text(b.Y) + " " + op + " " + c.text(b.X)}}
			})
			return true
		})
		return
	}
	transforms["negate"] = func(c *fctx) (alts []func() []edit) {
		ast.Inspect(c.fn.Body, func(m ast.Node) bool {
			b, ok := m.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			op := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}[b.Op]
			if op == "" {
				return true
			}
			alts = append(alts, func() []edit {
				return []edit{{b.Pos(), b.End(), "!(" + c.text(b.X) + " " + op + " " + c.text(b.Y) + ")"}}
			})
			return true
		})
		return
	}
	// the condition of an if in a function of its own
	transforms["condhelper"] = func(c *fctx) (alts []func() []edit) {
		ast.Inspect(c.fn.Body, func(m ast.Node) bool {
			n, ok := m.(*ast.IfStmt)
			if !ok || has(n.Cond, func(m ast.Node) bool { _, ok := m.(*ast.FuncLit); return ok }) || c.fn.Type.TypeParams != nil {
				return true
			}
			if id, ok := n.Cond.(*ast.Ident); ok && id.Name == "ok" {
				return true
			}
			k := len(alts)
			alts = append(alts, func() []edit {
				var ps, as []string
				for _, v := range c.freeVars(0, 0, n.Cond) {
					ps = append(ps, v.Name()+" "+c.typ(v.Type()))
					as = append(as, v.Name())
				}
				name := fmt.Sprintf("%sCond%d", lower(c.id), k)
				origin[name] = c.id
				fmt.Fprintf(c.extra, "\nfunc %s(%s) bool {\nreturn %s\n}\n", name, strings.Join(ps, ", "), c.text(n.Cond))
				return []edit{{n.Cond.Pos(), n.Cond.End(), name + "(" + strings.Join(as, ", ") + ")"}}
			})
			return true
		})
		return
	}
	// the tail of the function in a function of its own
	transforms["tail"] = func(c *fctx) (alts []func() []edit) {
		list := c.fn.Body.List
		if c.fn.Type.TypeParams != nil || c.fn.Type.Results == nil && len(list) < 2 {
			return
		}
		if c.fn.Type.Results != nil {
			for _, f := range c.fn.Type.Results.List {
				if len(f.Names) > 0 {
					return
				}
			}
		}
		for k := 1; k < len(list); k++ {
			if c.fn.Type.Results == nil {
				continue
			}
			alts = append(alts, func() []edit {
				var ns []ast.Node
				for _, s := range list[k:] {
					ns = append(ns, s)
				}
				var ps, as []string
				for _, v := range c.freeVars(list[k].Pos(), c.fn.End(), ns...) {
					ps = append(ps, v.Name()+" "+c.typ(v.Type()))
					as = append(as, v.Name())
				}
				name := fmt.Sprintf("%sTail%d", lower(c.id), k)
				origin[name] = c.id
				res := c.text(c.fn.Type.Results)
				fmt.Fprintf(c.extra, "\nfunc %s(%s) %s {\n%s\n}\n", name, strings.Join(ps, ", "), res, c.span(list[k].Pos(), list[len(list)-1].End()))
				return []edit{{list[k].Pos(), list[len(list)-1].End(), "return " + name + "(" + strings.Join(as, ", ") + ")"}}
			})
		}
		return
	}
	// one statement in a function of its own that returns what it assigns
	transforms["stmthelper"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			s := list[i]
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.AssignStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ExprStmt:
			default:
				return
			}
			if c.fn.Type.TypeParams != nil {
				return
			}
			if as, ok := s.(*ast.AssignStmt); ok && !hasCall(as) {
				return
			}
			bad := has(s, func(m ast.Node) bool {
				switch b := m.(type) {
				case *ast.ReturnStmt, *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
					return true
				case *ast.BranchStmt:
					return !inLoop(s, b)
				}
				return false
			})
			if bad {
				return
			}
			// what it defines or assigns
			var outs []*types.Var
			seen := map[*types.Var]bool{}
			ast.Inspect(s, func(m ast.Node) bool {
				id, ok := m.(*ast.Ident)
				if !ok {
					return true
				}
				v, _ := c.info.Defs[id].(*types.Var)
				if v == nil {
					v, _ = c.info.Uses[id].(*types.Var)
				}
				if v == nil || v.IsField() || seen[v] || v.Parent() == nil || v.Parent() == c.pkg.Scope() {
					return true
				}
				seen[v] = true
				def := v.Pos() >= s.Pos() && v.Pos() < s.End()
				if def {
					// declared at the level of the statement?
					a, ok := s.(*ast.AssignStmt)
					if !ok || a.Tok != token.DEFINE {
						return true
					}
					outs = append(outs, v)
				} else if c.assigned(v, s) {
					outs = append(outs, v)
				}
				return true
			})
			addr := has(s, func(m ast.Node) bool { u, ok := m.(*ast.UnaryExpr); return ok && u.Op == token.AND })
			if addr {
				return
			}
			k := len(alts)
			alts = append(alts, func() []edit {
				var ps, args []string
				isOut := map[*types.Var]bool{}
				for _, v := range outs {
					isOut[v] = true
				}
				for _, v := range c.freeVars(s.Pos(), s.End(), s) {
					ps = append(ps, v.Name()+" "+c.typ(v.Type()))
					args = append(args, v.Name())
				}
				name := fmt.Sprintf("%sPart%d", lower(c.id), k)
				origin[name] = c.id
				var rs, rt []string
				decl := false
				for _, v := range outs {
					rs = append(rs, v.Name())
					rt = append(rt, c.typ(v.Type()))
					if v.Pos() >= s.Pos() && v.Pos() < s.End() {
						decl = true
					}
				}
				call := name + "(" + strings.Join(args, ", ") + ")"
				ret := ""
				if len(rs) > 0 {
					op := " = "
					if decl {
						op = " := "
					}
					call = strings.Join(rs, ", ") + op + call
					ret = "\nreturn " + strings.Join(rs, ", ")
				}
				fmt.Fprintf(c.extra, "\nfunc %s(%s) (%s) {\n%s%s\n}\n", name, strings.Join(ps, ", "), strings.Join(rt, ", "), c.text(s), ret)
				return []edit{{s.Pos(), s.End(), call}}
			})
		})
		return
	}
	// if err := f(); err != nil => err := f(); if err != nil in a block
	transforms["initout"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.IfStmt)
			if !ok || n.Init == nil {
				return
			}
			alts = append(alts, func() []edit {
				return []edit{{n.Pos(), n.Cond.Pos(), "{\n" + c.text(n.Init) + "\nif "}, {n.End(), n.End(), "\n}"}}
			})
		})
		return
	}
	// switch => if chain
	transforms["switchif"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			n, ok := list[i].(*ast.SwitchStmt)
			if !ok || n.Init != nil || has(n.Body, func(m ast.Node) bool {
				b, ok := m.(*ast.BranchStmt)
				return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
			}) {
				return
			}
			if n.Tag != nil && hasCall(n.Tag) {
				return
			}
			alts = append(alts, func() []edit {
				var b strings.Builder
				def := ""
				first := true
				for _, s := range n.Body.List {
					cc := s.(*ast.CaseClause)
					body := ""
					if len(cc.Body) > 0 {
						body = c.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
					}
					if cc.List == nil {
						def = body
						continue
					}
					var cs []string
					for _, e := range cc.List {
						if n.Tag != nil {
							cs = append(cs, c.text(n.Tag)+" == "+c.text(e))
						} else {
							cs = append(cs, "("+c.text(e)+")")
						}
					}
					if !first {
						b.WriteString(" else ")
					}
					first = false
					b.WriteString("if " + strings.Join(cs, " || ") + " {\n" + body + "\n}")
				}
				if def != "" {
					b.WriteString(" else {\n" + def + "\n}")
				}
				return []edit{{n.Pos(), n.End(), b.String()}}
			})
		})
		return
	}
	// swap neighbouring declarations or assignments without calls that do not depend on each other
	transforms["swap"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			if i+1 >= len(list) {
				return
			}
			a, ok1 := list[i].(*ast.AssignStmt)
			b, ok2 := list[i+1].(*ast.AssignStmt)
			if !ok1 || !ok2 || hasRealCall(c, a) && hasRealCall(c, b) {
				return
			}
			for _, x := range a.Lhs {
				for _, y := range b.Lhs {
					if c.text(x) == c.text(y) || strings.HasPrefix(c.text(x), c.text(y)) || strings.HasPrefix(c.text(y), c.text(x)) {
						return
					}
				}
			}
			names := func(es []ast.Expr) map[string]bool {
				m := map[string]bool{}
				for _, e := range es {
					ast.Inspect(e, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							m[id.Name] = true
						}
						return true
					})
				}
				return m
			}
			ra, rb := names(a.Rhs), names(b.Rhs)
			for n := range names(a.Lhs) {
				if rb[n] {
					return
				}
			}
			for n := range names(b.Lhs) {
				if ra[n] {
					return
				}
			}
			if hasRealCall(c, a) || hasRealCall(c, b) {
				return
			}
			alts = append(alts, func() []edit {
				return []edit{{a.Pos(), b.End(), c.text(b) + "\n" + c.text(a)}}
			})
		})
		return
	}
	// returned calls and arguments in variables
	transforms["temparg"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			var call *ast.CallExpr
			switch s := list[i].(type) {
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					call, _ = s.Results[0].(*ast.CallExpr)
				}
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			}
			if call == nil {
				return
			}
			if tv, ok := c.info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
				return
			}
			sig, ok := c.info.TypeOf(call.Fun).(*types.Signature)
			if !ok || sig.Variadic() {
				return
			}
			for j, a := range call.Args {
				if _, ok := a.(*ast.Ident); ok {
					continue
				}
				if j > 0 && hasCall(a) {
					continue
				}
				if _, ok := a.(*ast.FuncLit); ok {
					continue
				}
				alts = append(alts, func() []edit {
					t := c.typ(sig.Params().At(j).Type())
					if strings.Contains(t, "MISSING") || strings.Contains(t, "invalid") {
						return nil
					}
					return []edit{{list[i].Pos(), list[i].Pos(), "var argZ " + t + " = " + c.text(a) + "\n"}, {a.Pos(), a.End(), "argZ"}}
				})
			}
		})
		return
	}
	// x := T{...} pieces: named result of a whole statement list in a closure
	transforms["closure"] = func(c *fctx) (alts []func() []edit) {
		walkStmts(c, func(list []ast.Stmt, i int) {
			s, ok := list[i].(*ast.RangeStmt)
			if !ok {
				return
			}
			if has(s, func(m ast.Node) bool {
				switch b := m.(type) {
				case *ast.ReturnStmt, *ast.LabeledStmt:
					return true
				case *ast.BranchStmt:
					return b.Label != nil
				}
				return false
			}) {
				return
			}
			alts = append(alts, func() []edit {
				return []edit{{s.Pos(), s.Pos(), "func() {\n"}, {s.End(), s.End(), "\n}()"}}
			})
		})
		return
	}
}

func hasRealCall(c *fctx, n ast.Node) bool {
	return has(n, func(m ast.Node) bool {
		call, ok := m.(*ast.CallExpr)
		if !ok {
			return false
		}
		tv := c.info.Types[call.Fun]
		return !tv.IsType() && !tv.IsBuiltin()
	})
}

func inLoop(root ast.Node, b *ast.BranchStmt) bool {
	if b.Label != nil {
		return false
	}
	return has(root, func(m ast.Node) bool {
		switch l := m.(type) {
		case *ast.ForStmt:
			return l.Pos() <= b.Pos() && b.End() <= l.End()
		case *ast.RangeStmt:
			return l.Pos() <= b.Pos() && b.End() <= l.End()
		case *ast.SwitchStmt:
			return b.Tok == token.BREAK && l.Pos() <= b.Pos() && b.End() <= l.End()
		}
		return false
	})
}

func lower(s string) string { return strings.ToLower(s[:1]) + s[1:] }
