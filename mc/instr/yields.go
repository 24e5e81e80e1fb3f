package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Yields inserts a call of sched.Y before each statement of the packages below
// dir, except in the directories skip. It returns the number of calls.
//
// Calls are numbered from 0.
func Yields(dir string, skip ...string) (n int, err error) {
	err = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			for _, s := range skip {
				if info.Name() == s {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return err
		}
		ins := map[int]int{} // offset, level
		put := func(ss []ast.Stmt, first int) {
			for i, s := range ss {
				l := 0
				if i == 0 {
					l = first
				}
				if o := fset.Position(s.Pos()).Offset; ins[o] <= l {
					ins[o] = l
				}
			}
		}
		entry := map[*ast.BlockStmt]bool{}
		clauses := map[*ast.BlockStmt]bool{}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					entry[x.Body] = true
				}
			case *ast.FuncLit:
				entry[x.Body] = true
			case *ast.ForStmt:
				entry[x.Body] = true
			case *ast.RangeStmt:
				entry[x.Body] = true
			case *ast.SwitchStmt:
				clauses[x.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[x.Body] = true
			case *ast.SelectStmt:
				clauses[x.Body] = true
			case *ast.BlockStmt:
				if !clauses[x] {
					l := 0
					if entry[x] {
						l = 1
					}
					put(x.List, l)
				}
			case *ast.CaseClause:
				put(x.Body, 0)
			case *ast.CommClause:
				put(x.Body, 0)
			}
			return true
		})
		if len(ins) == 0 {
			return nil
		}
		var offs []int
		for o := range ins {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var b strings.Builder
		at := fset.Position(f.Name.End()).Offset
		b.Write(src[:at])
		b.WriteString("; import mcsched \"verifmc/sched\"")
		for _, o := range offs {
			b.Write(src[at:o])
			at = o
			fmt.Fprintf(&b, "mcsched.Y(%d, %d); ", ins[o], n)
			n++
		}
		b.Write(src[at:])
		return os.WriteFile(p, []byte(b.String()), 0o644)
	})
	return
}
