// mutate lists small changes of the Go files of a directory, one JSON object
// per line: the file, the enclosing function and the changed source text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	File, Func, What string
	Line             int
	Start, End       int // byte offsets replaced
	New              string
}

var swap = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR},
	token.SHL: {token.SHR}, token.SHR: {token.SHL},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, dir := range []string{".", "gokio"} {
		files, _ := filepath.Glob(filepath.Join(root, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(root, f)
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				name := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					star := ""
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
						star = "*"
					}
					switch x := t.(type) {
					case *ast.IndexExpr:
						t = x.X
					case *ast.IndexListExpr:
						t = x.X
					}
					name = fmt.Sprintf("(%s%s).%s", star, t.(*ast.Ident).Name, name)
				}
				off := func(p token.Pos) int { return fset.Position(p).Offset }
				put := func(n ast.Node, a, b int, s, what string) {
					enc.Encode(edit{rel, name, what, fset.Position(n.Pos()).Line, a, b, s})
				}
				text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BinaryExpr:
						for _, t := range swap[x.Op] {
							o := off(x.OpPos)
							put(x, o, o+len(x.Op.String()), t.String(), x.Op.String()+" to "+t.String())
						}
						switch x.Op {
						case token.SUB, token.QUO, token.REM, token.LSS, token.GTR:
							if text(x.X) != text(x.Y) {
								put(x, off(x.Pos()), off(x.End()), text(x.Y)+" "+x.Op.String()+" "+text(x.X), "operands swapped")
							}
						}
					case *ast.BasicLit:
						if x.Kind == token.INT {
							if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
								put(x, off(x.Pos()), off(x.End()), fmt.Sprint(v+1), "literal +1")
								if v > 0 {
									put(x, off(x.Pos()), off(x.End()), fmt.Sprint(v-1), "literal -1")
								}
							}
						}
					case *ast.Ident:
						if x.Name == "true" || x.Name == "false" {
							put(x, off(x.Pos()), off(x.End()), map[string]string{"true": "false", "false": "true"}[x.Name], "bool literal")
						}
						if x.Name == "nil" {
							break
						}
					case *ast.IfStmt:
						put(x, off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")", "condition negated")
						put(x, off(x.Cond.Pos()), off(x.Cond.End()), "("+text(x.Cond)+") && false", "condition never")
						put(x, off(x.Cond.Pos()), off(x.Cond.End()), "("+text(x.Cond)+") || true", "condition always")
					case *ast.ExprStmt:
						put(x, off(x.Pos()), off(x.End()), "", "call deleted")
					case *ast.IncDecStmt:
						put(x, off(x.Pos()), off(x.End()), "", "++/-- deleted")
					case *ast.DeferStmt:
						put(x, off(x.Pos()), off(x.End()), "", "defer deleted")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							put(x, off(x.Pos()), off(x.End()), "", "assignment deleted")
						}
						if x.Tok == token.ADD_ASSIGN {
							put(x, off(x.TokPos), off(x.TokPos)+2, "-=", "+= to -=")
						}
						if x.Tok == token.SUB_ASSIGN {
							put(x, off(x.TokPos), off(x.TokPos)+2, "+=", "-= to +=")
						}
					case *ast.CallExpr:
						if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
							put(x, off(x.Args[0].Pos()), off(x.Args[1].End()), text(x.Args[1])+", "+text(x.Args[0]), "arguments swapped")
						}
						if s, ok := x.Fun.(*ast.SelectorExpr); ok {
							alt := map[string]string{"head": "tail"}
							_ = alt
							_ = s
						}
						// narrow a conversion
						if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
							nar := map[string]string{"U64": "U32", "I64": "I32", "uint64": "uint32", "int64": "int32", "int": "int32", "USize": "U32", "U32": "U16", "I32": "I16", "F64": "F32", "float64": "float32"}[id.Name]
							if nar != "" {
								put(x, off(x.Args[0].Pos()), off(x.Args[0].End()), nar+"("+text(x.Args[0])+")", "conversion narrowed")
							}
						}
					case *ast.SelectorExpr:
						alt := map[string]string{"head": "tail", "tail": "head", "next": "prev", "prev": "next", "high": "low", "low": "high", "PushBack": "PushFront", "PushFront": "PushBack", "Key": "Value", "left": "right", "right": "left"}[x.Sel.Name]
						if alt != "" {
							put(x, off(x.Sel.Pos()), off(x.Sel.End()), alt, x.Sel.Name+" to "+alt)
						}
						cmp := map[string]string{"OrderingLess": "OrderingGreater"}[x.Sel.Name]
						_ = cmp
					case *ast.BranchStmt:
						if x.Tok == token.BREAK && x.Label == nil {
							put(x, off(x.Pos()), off(x.End()), "", "break deleted")
						}
						if x.Tok == token.CONTINUE && x.Label == nil {
							put(x, off(x.Pos()), off(x.End()), "", "continue deleted")
						}
					case *ast.ForStmt:
						if x.Cond != nil {
							put(x, off(x.Cond.Pos()), off(x.Cond.End()), "("+text(x.Cond)+") && false", "loop never")
						}
					}
					return true
				})
			}
		}
	}
}
