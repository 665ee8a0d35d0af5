// enum lists small changes to Go sources: guards removed, operands dropped, assignments and calls dropped.
// usage: go run enum.go ROOT FILE...   prints one JSON object per line: {id,file,func,line,kind,start,end,new}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)

	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}

		fs := token.NewFileSet()

		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}

		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}

			emit := func(kind string, a, b token.Pos, repl string) {
				p, q := fs.Position(a), fs.Position(b)
				enc.Encode(map[string]interface{}{"id": fmt.Sprintf("%s:%d:%d:%s", f, p.Line, p.Column, kind), "file": f, "func": fd.Name.Name,
					"line": p.Line, "kind": kind, "start": p.Offset, "end": q.Offset, "new": repl, "old": string(src[p.Offset:q.Offset])})
			}
			text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }

			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					t := text(x.Cond)
					// plain error propagation is not worth judging unless the call's failure is all it has
					emit("if-never", x.Cond.Pos(), x.Cond.End(), "false && ("+t+")")
					if x.Else != nil || !endsInReturn(x.Body) {
						emit("if-always", x.Cond.Pos(), x.Cond.End(), "true || ("+t+")")
					}
				case *ast.BinaryExpr:
					switch x.Op {
					case token.LAND, token.LOR:
						emit("drop-right", x.Pos(), x.End(), keep(text(x.X), text(x.Y), x.Op, true))
						emit("drop-left", x.Pos(), x.End(), keep(text(x.X), text(x.Y), x.Op, false))
					case token.LSS:
						emit("lss-leq", x.OpPos, x.OpPos+1, "<=")
					case token.GTR:
						emit("gtr-geq", x.OpPos, x.OpPos+1, ">=")
					case token.LEQ:
						emit("leq-lss", x.OpPos, x.OpPos+2, "<")
					case token.GEQ:
						emit("geq-gtr", x.OpPos, x.OpPos+2, ">")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
						if _, isID := x.Lhs[0].(*ast.Ident); isID {
							if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
								if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
									emit("drop-append", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
								}
							}
						} else {
							emit("drop-assign", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
						}
					}
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if strings.Contains(text(c.Fun), "ogger") || strings.Contains(text(c.Fun), "panic") {
							return true
						}
						emit("drop-call", x.Pos(), x.End(), "if false { "+text(x)+" }")
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit("continue-break", x.Pos(), x.End(), "break")
					} else if x.Label == nil && x.Tok == token.BREAK {
						emit("break-continue", x.Pos(), x.End(), "continue")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i, e := range x.List {
							if i == len(x.List)-1 {
								emit("drop-case", x.List[i-1].End(), e.End(), "")
							} else {
								emit("drop-case", e.Pos(), x.List[i+1].Pos(), "")
							}
						}
					}
				}

				return true
			})
		}
	}
}

func keep(l, r string, op token.Token, left bool) string {
	unit := "true"
	if op == token.LOR {
		unit = "false"
	}
	// the dropped operand stays mentioned, so that nothing becomes unused
	if left {
		if op == token.LAND {
			return "(" + l + ") && (true || (" + r + "))"
		}
		return "(" + l + ") || (false && (" + r + "))"
	}
	if op == token.LAND {
		return "((" + unit + " || (" + l + ")) && (" + r + "))"
	}
	return "((false && (" + l + ")) || (" + r + "))"
}

func endsInReturn(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}
