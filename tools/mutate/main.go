// mutate lists or applies small syntactic changes to the library:
//
//	mutate list ROOT            one line per change
//	mutate apply ROOT N         applies change N in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	file     string
	from, to int
	text     string
	what     string
	line     int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
}

func main() {
	root := os.Args[2]
	var files []string
	filepath.Walk(filepath.Join(root, "vtdxml"), func(p string, fi os.FileInfo, err error) error {
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var all []change
	for _, f := range files {
		all = append(all, changes(f)...)
	}
	if os.Args[1] == "list" {
		for i, c := range all {
			rel, _ := filepath.Rel(root, c.file)
			fmt.Printf("%d\t%s:%d\t%s\n", i, rel, c.line, c.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	c := all[n]
	b, _ := os.ReadFile(c.file)
	out := string(b[:c.from]) + c.text + string(b[c.to:])
	os.WriteFile(c.file, []byte(out), 0o644)
}

func changes(file string) []change {
	fs := token.NewFileSet()
	src, _ := os.ReadFile(file)
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var l []change
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text, what string) {
		orig := string(src[off(a):off(b)])
		if len(orig) > 60 {
			orig = orig[:60] + "…"
		}
		w := what + ": " + strings.Join(strings.Fields(orig), " ") + " => " + text
		if len(text) > 60 {
			w = what + ": " + strings.Join(strings.Fields(orig), " ")
		}
		l = append(l, change{file, off(a), off(b), text, w, fs.Position(a).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "_ = 0", "drop")
				}
			case *ast.ExprStmt:
				add(s.Pos(), s.End(), "_ = 0", "drop")
			case *ast.IncDecStmt:
				add(s.Pos(), s.End(), "_ = 0", "drop")
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "_ = 0", "drop")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "operator in "+clip(txt(x)))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), "number")
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), "number")
					}
				}
			case token.CHAR:
				add(x.Pos(), x.End(), "'~'", "character")
			case token.STRING:
				if len(x.Value) > 2 && len(x.Value) < 12 && !strings.Contains(x.Value, " ") {
					add(x.Pos(), x.End(), "\"~\"", "string")
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never")
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always")
			if x.Else != nil {
				if b, ok := x.Else.(*ast.BlockStmt); ok {
					add(b.Pos(), b.End(), "{}", "empty else")
				}
			}
		case *ast.IncDecStmt:
			t := "++"
			if x.Tok == token.INC {
				t = "--"
			}
			add(x.TokPos, x.TokPos+2, t, "step")
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.Pos()+1, "", "negation")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "constant")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "constant")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 1 {
				add(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
			}
			if len(x.List) > 1 {
				for i := range x.List {
					if i+1 < len(x.List) {
						add(x.List[i].Pos(), x.List[i+1].Pos(), "", "case value")
					}
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				t := txt(x.Results[0])
				if t == "err" || strings.HasPrefix(t, "erroring.New") || strings.HasPrefix(t, "p.parseError") {
					add(x.Results[0].Pos(), x.Results[0].End(), "nil", "swallow")
				}
			}
		}
		return true
	})
	return l
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}
