// mutate lists or writes single-point mutants of Go files.
//
//	mutate list FILE...          one line per mutant: FILE:OFFSET:LINE:KIND:TEXT
//	mutate apply FILE N OUT      writes mutant N of FILE to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int // offsets
	text     string
	kind     string
	line     int
}

func skipCall(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	n := s.Sel.Name
	for _, p := range []string{"Debug", "Info", "Warn", "Error", "Fatal", "Print", "With", "Set", "Observe", "Inc", "Add", "Capture", "Finish", "LogFields", "SetTag", "LogKV"} {
		if strings.HasPrefix(n, p) {
			if p == "Add" && n != "Add" {
				continue
			}
			return true
		}
	}
	return false
}

func find(name string) ([]byte, []mutant) {
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mutant
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(kind string, a, b token.Pos, text string) {
		out = append(out, mutant{off(a), off(b), text, kind, fset.Position(a).Line})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.AND_NOT: {"&"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ExprStmt:
				if skipCall(x.X) {
					return false
				}
				add("drop", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
					var l []string
					for _, e := range x.Rhs {
						l = append(l, str(e))
					}
					blank := strings.TrimSuffix(strings.Repeat("_, ", len(x.Rhs)), ", ")
					if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
						blank = strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
					}
					add("drop", x.Pos(), x.End(), blank+" = "+strings.Join(l, ", "))
				}
			case *ast.IncDecStmt:
				add("drop", x.Pos(), x.End(), "")
			case *ast.GoStmt:
				add("nogo", x.Pos(), x.Call.Pos(), "")
			case *ast.DeferStmt:
				add("drop", x.Pos(), x.End(), "")
			case *ast.BranchStmt:
				add("drop", x.Pos(), x.End(), "")
				if x.Label == nil && x.Tok == token.CONTINUE {
					add("break", x.Pos(), x.End(), "break")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					add("continue", x.Pos(), x.End(), "continue")
				}
			case *ast.IfStmt:
				add("false", x.Cond.Pos(), x.Cond.End(), "false && ("+str(x.Cond)+")")
				add("true", x.Cond.Pos(), x.Cond.End(), "true || ("+str(x.Cond)+")")
			case *ast.SendStmt:
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("not", x.Pos(), x.Pos()+1, "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add("int", x.Pos(), x.End(), strconv.FormatInt(v+1, 10))
						if v > 0 {
							add("int", x.Pos(), x.End(), strconv.FormatInt(v-1, 10))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					add("bool", x.Pos(), x.End(), "true")
				}
			case *ast.CallExpr:
				if skipCall(x) {
					return false
				}
			}
			return true
		})
	}
	return src, out
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			src, l := find(f)
			for i, m := range l {
				old := string(src[m.from:m.to])
				old = strings.ReplaceAll(old, "\n", " ")
				if len(old) > 60 {
					old = old[:60]
				}
				fmt.Printf("%s\t%d\t%d\t%s\t%s\t=>\t%.60s\n", f, i, m.line, m.kind, old, strings.ReplaceAll(m.text, "\n", " "))
			}
		}
	case "apply":
		src, l := find(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		m := l[n]
		var b bytes.Buffer
		b.Write(src[:m.from])
		b.WriteString(m.text)
		b.Write(src[m.to:])
		os.WriteFile(os.Args[4], b.Bytes(), 0644)
	}
}
