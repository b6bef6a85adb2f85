// Command automut is a development aid: it writes all first-order mutants of a
// Go file. usage: automut FILE OUTDIR
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	lo, hi int
	text   string
	what   string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(n ast.Node, text, what string) {
		es = append(es, edit{off(n.Pos()), off(n.End()), text, what})
	}
	logish := func(s ast.Node) bool { return strings.Contains(txt(s), "Logger.") || strings.Contains(txt(s), "logger.") }
	block := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				if logish(s) && len(txt(s)) < 200 {
					continue
				}
				add(s, "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "", "delete")
				}
			case *ast.BranchStmt:
				add(s, "", "delete")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add(s, "", "delete return")
				}
				for _, r := range x.Results {
					if t := txt(r); t == "err" || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "Err") {
						add(r, "nil", "return nil")
					}
				}
			}
			switch x := s.(type) {
			case *ast.DeferStmt:
				add(s, txt(x.Call), "no defer")
			case *ast.GoStmt:
				add(s, txt(x.Call), "no go")
			case *ast.ExprStmt:
				if !logish(s) {
					add(s, "go "+txt(s), "async")
				}
				if _, ok := x.X.(*ast.CallExpr); ok && !logish(s) {
					add(s, txt(s)+"; "+txt(s), "twice")
				}
			case *ast.SendStmt:
				add(s, "go func() { "+txt(s)+" }()", "async")
				add(s, "select { case "+txt(s)+": default: }", "try")
			}
			if i+1 < len(list) {
				n := list[i+1]
				if !logish(s) && !logish(n) {
					es = append(es, edit{off(s.Pos()), off(n.End()), txt(n) + "\n" + txt(s), "swap"})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
			if len(x.List) > 0 {
				add(x, "", "delete case")
			}
			for _, e := range x.List {
				if len(x.List) > 1 {
					add(e, txt(x.List[0]), "case")
				}
			}
		case *ast.CommClause:
			block(x.Body)
			add(x, "", "delete comm")
		case *ast.IfStmt:
			add(x.Cond, "!("+txt(x.Cond)+")", "negate")
			add(x.Cond, "true || "+"("+txt(x.Cond)+")", "true")
			add(x.Cond, "false && "+"("+txt(x.Cond)+")", "false")
			if x.Else != nil {
				es = append(es, edit{off(x.Body.End()), off(x.Else.End()), "", "no else"})
			}
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
				token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}[x.Op]
			for _, a := range alt {
				add(x, txt(x.X)+" "+a+" "+txt(x.Y), "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, txt(x.X), "left only")
				add(x, txt(x.Y), "right only")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if x.Value == "0" {
					add(x, "1", "const")
				} else {
					add(x, "0", "const")
					add(x, x.Value+"+1", "const")
				}
			}
			if x.Kind == token.FLOAT {
				add(x, x.Value+"*1.05", "const")
				add(x, x.Value+"*0.95", "const")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "bool")
			} else if x.Name == "false" {
				add(x, "true", "bool")
			}
		case *ast.SelectorExpr:
			switch x.Sel.Name {
			case "Dying":
				add(x.Sel, "Dead", "dead")
			case "Dead":
				add(x.Sel, "Dying", "dying")
			case "ErrorDelay":
				add(x.Sel, "BounceDelay", "delay")
			case "BounceDelay":
				add(x.Sel, "ErrorDelay", "delay")
			case "Kill":
				// handled by deletion
			}
		case *ast.RangeStmt:
			add(x.X, "("+txt(x.X)+")", "") // placeholder, dropped below
		case *ast.KeyValueExpr:
			if _, ok := x.Key.(*ast.Ident); ok {
				hi := off(x.End())
				if hi < len(src) && src[hi] == ',' {
					es = append(es, edit{off(x.Pos()), hi + 1, "", "drop field"})
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].lo < es[j].lo })
	out := os.Args[2]
	os.MkdirAll(out, 0o777)
	n := 0
	for _, e := range es {
		if e.what == "" {
			continue
		}
		m := string(src[:e.lo]) + e.text + string(src[e.hi:])
		line := 1 + strings.Count(string(src[:e.lo]), "\n")
		name := fmt.Sprintf("%04d", n)
		n++
		os.WriteFile(filepath.Join(out, name+".go"), []byte(m), 0o666)
		old := strings.Join(strings.Fields(string(src[e.lo:e.hi])), " ")
		if len(old) > 90 {
			old = old[:90]
		}
		nw := strings.Join(strings.Fields(e.text), " ")
		if len(nw) > 90 {
			nw = nw[:90]
		}
		os.WriteFile(filepath.Join(out, name+".txt"), []byte(fmt.Sprintf("%s:%d %s: %s => %s", filepath.Base(os.Args[1]), line, e.what, old, nw)), 0o666)
	}
	fmt.Println(n, "mutants")
}
