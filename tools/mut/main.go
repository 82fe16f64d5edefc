// Command mut lists small changes to a Go file: mut FILE prints one JSON per
// change, {"pos","line","op","start","end","new"}; byte offsets into the file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Func       string `json:"func"`
	Op         string `json:"op"`
	Start, End int
	New        string `json:"new"`
	Old        string `json:"old"`
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(op string, from, to token.Pos, new string) {
				s, e := off(from), off(to)
				if strings.Contains(string(src[s:e]), "log.") {
					return
				}
				old := string(src[s:e])
				if len(old) > 120 {
					old = old[:120]
				}
				_ = enc.Encode(change{file, fs.Position(from).Line, fd.Name.Name, op, s, e, new, old})
			}
			text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					rep := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
						token.REM: {"/"}, token.QUO: {"*"}, token.MUL: {"+"},
					}[x.Op]
					for _, r := range rep {
						emit("op "+x.Op.String()+" "+r, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left only", x.Pos(), x.End(), text(x.X.Pos(), x.X.End()))
						emit("right only", x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()))
					}
				case *ast.IfStmt:
					c := text(x.Cond.Pos(), x.Cond.End())
					if strings.Contains(c, "err ") {
						emit("ignore error", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
					} else {
						emit("never", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
						emit("always", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
					}
				case *ast.ExprStmt:
					emit("drop call", x.Pos(), x.End(), "")
				case *ast.DeferStmt:
					emit("drop defer", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						// keep the variables used
						var l []string
						for _, v := range x.Lhs {
							l = append(l, text(v.Pos(), v.End()))
						}
						emit("drop assignment", x.Pos(), x.End(), "_, _ = "+l[0]+", 0")
					}
					if x.Tok == token.ADD_ASSIGN {
						emit("sub", x.TokPos, x.TokPos+2, "-=")
					}
				case *ast.IncDecStmt:
					emit("drop inc", x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit("break continue", x.Pos(), x.End(), "continue")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit("continue break", x.Pos(), x.End(), "break")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						t := text(l.Pos(), l.End())
						if t == "err" || strings.HasPrefix(t, "Err") {
							emit("return nil", l.Pos(), l.End(), "nil")
						}
						if t == "true" {
							emit("return false", l.Pos(), l.End(), "false")
						}
						if t == "false" {
							emit("return true", l.Pos(), l.End(), "true")
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.OpPos, x.OpPos+1, "")
					}
				case *ast.CallExpr:
					// exchange two plain arguments
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						ta, tb := text(a.Pos(), a.End()), text(b.Pos(), b.End())
						if ta != tb && len(ta) < 40 && len(tb) < 40 {
							emit("exchange", a.Pos(), b.End(), tb+", "+ta)
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("low", x.Low.Pos(), x.Low.End(), "("+text(x.Low.Pos(), x.Low.End())+")+1")
					}
					if x.High != nil {
						emit("high", x.High.Pos(), x.High.End(), "("+text(x.High.Pos(), x.High.End())+")-1")
					}
				}
				return true
			})
		}
	}
}
