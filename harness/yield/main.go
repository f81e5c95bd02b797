// Puts a call of vy before every statement of the given Go file, on the same line: places where the
// harness may let other goroutines go first.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			return x.Name.Name != "init"
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	sort.Ints(at)
	var base int
	fmt.Sscan(os.Args[2], &base)
	last := 0
	for i, o := range at {
		os.Stdout.Write(src[last:o])
		fmt.Printf("vy(%d);", base+i)
		last = o
	}
	os.Stdout.Write(src[last:])
}
