// mut writes single-change mutants of the repository's source that type-check, to find changes of
// behaviour that neither the tests nor the rules see.
//
//	mut -repo /repo -out /tmp/mut
//
// writes /tmp/mut/<n>/{overlay.json,changed file,info}.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	kind     string
	from, to int
	text     string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "/tmp/mut", "")
	flag.Parse()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax | packages.NeedImports | packages.NeedDeps, Dir: *repo}, "./...")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/cmd/") || strings.HasSuffix(p.PkgPath, "/test") {
			continue
		}
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			src, _ := os.ReadFile(path)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				seen := map[string]bool{}
				for _, m := range mutants(p, src, fd) {
					txt := string(src[:m.from]) + m.text + string(src[m.to:])
					if txt == string(src) || seen[txt] || !checks(p, i, path, txt) {
						continue
					}
					seen[txt] = true
					dir := filepath.Join(*out, fmt.Sprintf("%04d", n))
					n++
					os.MkdirAll(dir, 0o755)
					dst := filepath.Join(dir, filepath.Base(path))
					os.WriteFile(dst, []byte(txt), 0o644)
					raw, _ := json.Marshal(map[string]any{"Replace": map[string]string{path: dst}})
					os.WriteFile(filepath.Join(dir, "overlay.json"), raw, 0o644)
					rel, _ := filepath.Rel(*repo, path)
					name := fd.Name.Name
					if fd.Recv != nil {
						t := fd.Recv.List[0].Type
						s := string(src[p.Fset.Position(t.Pos()).Offset:p.Fset.Position(t.End()).Offset])
						if s[0] == '*' {
							name = "(*" + p.Types.Name() + "." + s[1:] + ")." + name
						} else {
							name = "(" + p.Types.Name() + "." + s + ")." + name
						}
					} else {
						name = p.Types.Name() + "." + name
					}
					line := strings.Count(string(src[:m.from]), "\n") + 1
					old := string(src[m.from:m.to])
					one := func(s string) string {
						s = strings.Join(strings.Fields(s), " ")
						if len(s) > 90 {
							s = s[:90] + "…"
						}
						return s
					}
					os.WriteFile(filepath.Join(dir, "info"), []byte(fmt.Sprintf("%s\t%s:%d\t%s\t%s\t=>\t%s\n", name, rel, line, m.kind, one(old), one(m.text))), 0o644)
				}
			}
		}
	}
	fmt.Println(n, "mutants")
}

func checks(p *packages.Package, i int, path, txt string) bool {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, txt, 0)
	if err != nil {
		return false
	}
	files := []*ast.File{}
	for j := range p.Syntax {
		if j == i {
			files = append(files, f)
			continue
		}
		g, err := parser.ParseFile(fset, p.CompiledGoFiles[j], nil, 0)
		if err != nil {
			return false
		}
		files = append(files, g)
	}
	ok := true
	cfg := types.Config{Importer: imp{p}, Error: func(error) { ok = false }}
	cfg.Check(p.PkgPath, fset, files, nil)
	return ok
}

type imp struct{ p *packages.Package }

func (i imp) Import(path string) (*types.Package, error) {
	if q, ok := i.p.Imports[path]; ok {
		return q.Types, nil
	}
	return nil, fmt.Errorf("no %s", path)
}

func mutants(p *packages.Package, src []byte, fd *ast.FuncDecl) (out []mutant) {
	off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	rep := func(kind string, n ast.Node, s string) {
		out = append(out, mutant{kind, off(n.Pos()), off(n.End()), s})
	}
	isErr := func(e ast.Expr) bool {
		t := p.TypesInfo.TypeOf(e)
		return t != nil && t.String() == "error"
	}
	swaps := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
	// variables by type, for replacing one by another
	var vars []*types.Var
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := p.TypesInfo.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
				vars = append(vars, v)
			}
		}
		return true
	})
	lhs := map[ast.Node]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.IfStmt:
			returns := false
			if l := len(s.Body.List); l > 0 {
				_, returns = s.Body.List[l-1].(*ast.ReturnStmt)
			}
			errCheck := false
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.NEQ && isErr(b.X) {
				errCheck = true
			}
			if errCheck {
				rep("drop-err", s.Cond, "false && "+text(s.Cond))
			} else {
				rep("never", s.Cond, "false && ("+text(s.Cond)+")")
				if !returns {
					rep("always", s.Cond, "true || ("+text(s.Cond)+")")
				}
			}
		case *ast.BinaryExpr:
			if b, ok := s.Y.(*ast.Ident); ok && b.Name == "nil" && isErr(s.X) {
				return true
			}
			for _, o := range swaps[s.Op] {
				out = append(out, mutant{"op", off(s.OpPos), off(s.OpPos) + len(s.Op.String()), o})
			}
			if s.Op == token.LAND || s.Op == token.LOR {
				rep("left", s, text(s.X))
				rep("right", s, text(s.Y))
			}
		case *ast.BasicLit:
			if s.Kind == token.INT {
				rep("lit", s, "("+s.Value+" + 1)")
			}
		case *ast.ExprStmt:
			rep("drop", s, "")
		case *ast.DeferStmt:
			rep("drop", s, "")
		case *ast.IncDecStmt:
			rep("drop", s, "")
		case *ast.BranchStmt:
			if s.Tok == token.CONTINUE {
				rep("drop", s, "break")
			} else if s.Tok == token.BREAK {
				rep("drop", s, "continue")
			}
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				lhs[l] = true
			}
			if s.Tok != token.DEFINE {
				var ls []string
				for range s.Lhs {
					ls = append(ls, "_")
				}
				if s.Tok == token.ASSIGN {
					r := string(src[off(s.Rhs[0].Pos()):off(s.End())])
					rep("drop", s, strings.Join(ls, ", ")+" = "+r)
				} else {
					rep("drop", s, "_ = "+text(s.Rhs[0]))
				}
			}
		case *ast.ReturnStmt:
			for _, r := range s.Results {
				if isErr(r) && text(r) != "nil" {
					if len(s.Results) == 1 || text(r) != "err" {
						rep("noerr", r, "nil")
					}
				}
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					rep("bool", r, map[string]string{"true": "false", "false": "true"}[id.Name])
				}
			}
		case *ast.SliceExpr:
			if s.Low != nil {
				rep("slice", s.Low, "")
			}
			if s.High != nil {
				rep("slice", s.High, "")
			}
		case *ast.CompositeLit:
			for i, e := range s.Elts {
				if _, ok := e.(*ast.KeyValueExpr); ok {
					a, b := off(e.Pos()), off(e.End())
					if i+1 < len(s.Elts) {
						b = off(s.Elts[i+1].Pos())
					}
					out = append(out, mutant{"field", a, b, ""})
				}
			}
		case *ast.CallExpr:
			if len(s.Args) >= 2 {
				for i := 0; i+1 < len(s.Args); i++ {
					a, b := p.TypesInfo.TypeOf(s.Args[i]), p.TypesInfo.TypeOf(s.Args[i+1])
					if a != nil && b != nil && types.Identical(a, b) && text(s.Args[i]) != text(s.Args[i+1]) {
						out = append(out, mutant{"swapargs", off(s.Args[i].Pos()), off(s.Args[i+1].End()), text(s.Args[i+1]) + ", " + text(s.Args[i])})
					}
				}
			}
			if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "append" && len(s.Args) == 2 {
				rep("noappend", s, text(s.Args[0]))
			}
		case *ast.SelectorExpr:
			// another field of the same type
			if sel, ok := p.TypesInfo.Selections[s]; ok && sel.Kind() == types.FieldVal {
				t := sel.Recv()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					k := 0
					for i := 0; i < st.NumFields() && k < 2; i++ {
						f := st.Field(i)
						if f != sel.Obj() && types.Identical(f.Type(), sel.Type()) && (f.Exported() || f.Pkg() == p.Types) {
							rep("field", s.Sel, f.Name())
							k++
						}
					}
				}
			}
			if _, ok := s.X.(*ast.Ident); ok {
				ast.Inspect(s.X, func(ast.Node) bool { return true })
			}
		case *ast.Ident:
			if lhs[s] {
				return true
			}
			v, ok := p.TypesInfo.Uses[s].(*types.Var)
			if !ok || v.IsField() {
				return true
			}
			k := 0
			for i := len(vars) - 1; i >= 0 && k < 2; i-- {
				w := vars[i]
				if w != v && w.Name() != v.Name() && w.Pos() < s.Pos() && types.Identical(w.Type(), v.Type()) && w.Parent() != nil && w.Parent().Contains(s.Pos()) && w.Type().String() != "error" {
					rep("var", s, w.Name())
					k++
				}
			}
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !lhs[s] {
				rep("plus", s, "("+s.Name+" + 1)")
			}
		}
		return true
	})
	return out
}
