// instr copies the Go files of a package tree, with a yield point before every statement and package sync replaced.
//
//	instr SRC DST OLDPATH NEWPATH
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off, del int
	text     string
}

func main() {
	src, dst, old, new := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	site := 0
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if n := fi.Name(); rel != "." && (strings.HasPrefix(n, ".") || n == "node_modules" || n == "emsdk" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		var is []ins
		is = append(is, ins{off(f.Name.End()), 0, "; import verifsim \"verifgo/sim\""})
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			n := ""
			switch {
			case path == "sync":
				n = "verifgo/simsync"
				if im.Name == nil {
					n = "sync " + strconv.Quote(n)
				} else {
					n = strconv.Quote(n)
				}
			case path == old || strings.HasPrefix(path, old+"/"):
				n = strconv.Quote(new + path[len(old):])
			default:
				continue
			}
			is = append(is, ins{off(im.Path.Pos()), len(im.Path.Value), n})
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); empty {
					continue
				}
				site++
				is = append(is, ins{off(s.Pos()), 0, fmt.Sprintf("verifsim.Yield(%d); ", site)})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		// the bodies of switch and select hold clauses, which are no places for a statement
		bad := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				bad[off(n.Pos())] = true
			}
			return true
		})
		sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
		var o strings.Builder
		at := 0
		for _, i := range is {
			if i.del == 0 && bad[i.off] {
				continue
			}
			o.Write(b[at:i.off])
			o.WriteString(i.text)
			at = i.off + i.del
		}
		o.Write(b[at:])
		o.WriteString("\nvar _ = verifsim.Yield\n")
		q := filepath.Join(dst, rel)
		os.MkdirAll(filepath.Dir(q), 0o755)
		return os.WriteFile(q, []byte(o.String()), 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
