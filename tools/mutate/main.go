// mutate: lists or applies small changes of the source code of gtfstidy, to measure what the checks notice.
// go run . list DIR FILE...   |   go run . apply DIR FILE N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	pos, end int
	text     string
	desc     string
	line     int
}

func main() {
	dir := os.Args[2]
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[3:] {
			for i, m := range muts(filepath.Join(dir, f)) {
				fmt.Printf("%s\t%d\t%d\t%s\n", f, i, m.line, m.desc)
			}
		}
	case "apply":
		p := filepath.Join(dir, os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		m := muts(p)[n]
		b, _ := os.ReadFile(p)
		os.WriteFile(p, []byte(string(b[:m.pos])+m.text+string(b[m.end:])), 0o644)
	}
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
}

func muts(path string) (out []mut) {
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text, desc string) {
		s := strings.ReplaceAll(string(src[off(a):off(b)]), "\n", " ")
		if len(s) > 60 {
			s = s[:60]
		}
		out = append(out, mut{off(a), off(b), text, desc + ": " + s, fs.Position(a).Line})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.CallExpr: // no output texts, no option declarations
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "flag" || id.Name == "os") {
					return false
				}
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "op "+x.Op.String()+" -> "+t+" in "+string(src[off(x.X.Pos()):off(x.Y.End())]))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.X.End(), x.Y.End(), "", "drop right operand of "+x.Op.String())
				add(x.X.Pos(), x.Y.Pos(), "", "drop left operand of "+x.Op.String())
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", "drop !")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "const+1")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.Itoa(v-1), "const-1")
					}
				}
			}
			if x.Kind == token.FLOAT {
				add(x.Pos(), x.End(), "(1.3*"+x.Value+")", "const*1.3")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true->false")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false->true")
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "continue->break")
				add(x.Pos(), x.End(), "", "drop continue")
			}
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "", "drop break")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				add(x.Pos(), x.End(), "_ = 0", "drop assignment")
			}
			if x.Tok == token.ADD_ASSIGN {
				add(x.Pos(), x.End(), "", "drop assignment")
			}
		case *ast.IncDecStmt:
			if _, ok := x.X.(*ast.Ident); ok {
				add(x.Pos(), x.End(), "", "drop inc/dec")
			}
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok {
				s := string(src[off(c.Pos()):off(c.End())])
				if !strings.HasPrefix(s, "fmt.") && !strings.HasPrefix(s, "os.") && !strings.HasPrefix(s, "flag.") {
					add(x.Pos(), x.End(), "", "drop call")
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate if")
		}
		return true
	})
	return
}
