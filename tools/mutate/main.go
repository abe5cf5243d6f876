// Mutate lists small changes of Go files: one JSON object per line with file, byte range, replacement, function, kind.
// usage: mutate DIR FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	Repl     string
	Old      string
	Func     string
	Line     int
	Kind     string
}

func main() {
	dir := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		var fn string
		emit := func(a, b int, repl, kind string, p token.Pos) {
			enc.Encode(mut{f, a, b, repl, string(src[a:b]), fn, fs.Position(p).Line, kind})
		}
		swap := map[token.Token][]token.Token{token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				r := fd.Recv.List[0].Type
				fn = string(src[off(r.Pos()):off(r.End())]) + "." + fn
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range swap[n.Op] {
						emit(off(n.OpPos), off(n.OpPos)+len(n.Op.String()), t.String(), "binop", n.OpPos)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(off(n.Pos()), off(n.End()), fmt.Sprint(v+1), "int+1", n.Pos())
							if v > 0 {
								emit(off(n.Pos()), off(n.End()), fmt.Sprint(v-1), "int-1", n.Pos())
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(off(n.Pos()), off(n.End()), "false", "bool", n.Pos())
					} else if n.Name == "false" {
						emit(off(n.Pos()), off(n.End()), "true", "bool", n.Pos())
					}
				case *ast.IfStmt:
					c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
					emit(off(n.Cond.Pos()), off(n.Cond.End()), "!("+c+")", "negate", n.Pos())
					emit(off(n.Cond.Pos()), off(n.Cond.End()), "true || "+"("+c+")", "iftrue", n.Pos())
					emit(off(n.Cond.Pos()), off(n.Cond.End()), "false && ("+c+")", "iffalse", n.Pos())
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(off(s.Pos()), off(s.End()), ";", "del", s.Pos())
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								emit(off(s.Pos()), off(s.End()), "_ = 0", "del", s.Pos())
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range n.Body {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(off(s.Pos()), off(s.End()), ";", "del", s.Pos())
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								emit(off(s.Pos()), off(s.End()), "_ = 0", "del", s.Pos())
							}
						}
					}
				case *ast.BranchStmt:
					if n.Label == nil {
						switch n.Tok {
						case token.BREAK:
							emit(off(n.Pos()), off(n.End()), "continue", "branch", n.Pos())
						case token.CONTINUE:
							emit(off(n.Pos()), off(n.End()), "break", "branch", n.Pos())
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 && !n.Ellipsis.IsValid() {
						a, b := n.Args[0], n.Args[1]
						x, y := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
						if x != y && !strings.HasPrefix(string(src[off(n.Pos()):off(n.End())]), "append") {
							emit(off(a.Pos()), off(b.End()), y+", "+x, "swapargs", n.Pos())
						}
					}
				}
				return true
			})
		}
	}
}
