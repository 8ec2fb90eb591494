// Command mutate lists small changes of Go files, one JSON object per line: {file, line, off, end, new, kind}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Kind, Old, New string
	Line, Off, End       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		emit := func(kind string, a, b token.Pos, s string) {
			m := mut{File: file, Kind: kind, Line: fset.Position(a).Line, Off: fset.Position(a).Offset, End: fset.Position(b).Offset, New: s}
			m.Old = string(src[m.Off:m.End])
			if m.Old != m.New {
				_ = enc.Encode(m)
			}
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		isLog := func(n ast.Node) bool {
			s := text(n)
			return strings.HasPrefix(s, "log.") || strings.Contains(s, ".Debugf(") || strings.Contains(s, "t.Helper")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				for i, s := range n.List {
					del(s, emit, isLog)
					if i+1 < len(n.List) { // two neighbours swapped
						_, a := s.(*ast.ExprStmt)
						_, b := n.List[i+1].(*ast.ExprStmt)
						_, a2 := s.(*ast.AssignStmt)
						_, b2 := n.List[i+1].(*ast.AssignStmt)
						if (a || a2) && (b || b2) && !isLog(s) && !isLog(n.List[i+1]) {
							emit("swap", s.Pos(), n.List[i+1].End(), text(n.List[i+1])+"\n"+text(s))
						}
					}
				}
				// a lock taken and released in this block
				for _, s := range n.List {
					t := text(s)
					if strings.HasSuffix(t, ".Lock()") || strings.HasSuffix(t, ".RLock()") {
						if _, ok := s.(*ast.ExprStmt); ok {
							for _, u := range n.List {
								if tu := text(u); strings.Contains(tu, "Unlock()") && u.Pos() > s.Pos() && len(tu) < 60 {
									emit("nolock", s.Pos(), u.End(), string(src[fset.Position(s.End()).Offset:fset.Position(u.Pos()).Offset]))
									break
								}
							}
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, emit, isLog)
				}
				if len(n.List) > 1 {
					emit("case", n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End(), "")
					emit("case", n.List[0].Pos(), n.List[1].Pos(), "")
				}
			case *ast.CommClause:
				for _, s := range n.Body {
					del(s, emit, isLog)
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				emit("if-true", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
				emit("if-false", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit("for-false", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
				}
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.SHL: {">>"},
				}[n.Op] {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n.Pos(), n.End(), text(n.X))
					emit("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.Pos(), n.End(), text(n.X))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if n.Value == `""` {
						emit("str", n.Pos(), n.End(), `"x"`)
					} else if !strings.Contains(n.Value, "%") && !strings.Contains(n.Value, "/") && !strings.HasPrefix(n.Value, "`json") {
						emit("str", n.Pos(), n.End(), `""`)
					}
				}
			case *ast.ReturnStmt:
				for _, x := range n.Results {
					switch t := text(x); {
					case t == "err":
						emit("ret", x.Pos(), x.End(), "nil")
					case t == "true":
						emit("ret", x.Pos(), x.End(), "false")
					case t == "false":
						emit("ret", x.Pos(), x.End(), "true")
					case strings.HasPrefix(t, "ctx.NewErrorf("), strings.HasPrefix(t, "ctx.WrapError("), strings.HasPrefix(t, "fmt.Errorf("):
						emit("ret", x.Pos(), x.End(), "nil")
					}
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE {
					emit("branch", n.Pos(), n.End(), "break")
				} else if n.Tok == token.BREAK && n.Label == nil {
					emit("branch", n.Pos(), n.End(), "continue")
				}
			case *ast.SliceExpr:
				if n.Slice3 {
					emit("slice3", n.High.End(), n.Max.End(), "")
				}
			}
			return true
		})
	}
}

func del(s ast.Stmt, emit func(kind string, a, b token.Pos, s string), isLog func(ast.Node) bool) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if !isLog(s) {
			emit("del", s.Pos(), s.End(), "")
		}
	case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit("del", s.Pos(), s.End(), "")
		}
	case *ast.BranchStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit("del", s.Pos(), s.End(), "")
		}
	}
}
