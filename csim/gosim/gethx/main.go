// gethx takes the Falcon precompile out of geth's contracts.go, with everything of that file that it reaches.
//
//	gethx FILE OUT FALCONPATH
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// what stands in for packages of go-ethereum
var stubs = map[string]string{
	"github.com/ethereum/go-ethereum/common":       "verifgo/gethcommon",
	"github.com/ethereum/go-ethereum/accounts/abi": "verifgo/gethabi",
}

// of other files of geth's package vm
var others = `
var (
	ErrOutOfGas = verifNewError("out of gas")
	ErrExecutionReverted = verifNewError("execution reverted")
	ErrInputOutOfBounds = verifNewError("input out of bounds")
)
`

type decl struct {
	from, to token.Pos
	node     ast.Node
	tok      string // var, const, type or nothing (a function)
	group    bool   // a whole group of constants
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	die(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], b, parser.SkipObjectResolution)
	die(err)
	decls := map[string][]*decl{}
	methods := map[string]map[string]bool{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			e := &decl{from: x.Pos(), to: x.End(), node: x}
			if x.Recv == nil {
				if x.Name.Name != "init" && x.Name.Name != "_" {
					decls[x.Name.Name] = append(decls[x.Name.Name], e)
				}
				continue
			}
			t := x.Recv.List[0].Type
			for {
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				} else if s, ok := t.(*ast.ParenExpr); ok {
					t = s.X
				} else if s, ok := t.(*ast.IndexExpr); ok {
					t = s.X
				} else {
					break
				}
			}
			if id, ok := t.(*ast.Ident); ok {
				decls[id.Name] = append(decls[id.Name], e)
				if methods[id.Name] == nil {
					methods[id.Name] = map[string]bool{}
				}
				methods[id.Name][x.Name.Name] = true
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			for _, s := range x.Specs {
				var names []*ast.Ident
				switch y := s.(type) {
				case *ast.ValueSpec:
					names = y.Names
				case *ast.TypeSpec:
					names = []*ast.Ident{y.Name}
				}
				e := &decl{from: s.Pos(), to: s.End(), node: s, tok: x.Tok.String()}
				if x.Tok == token.CONST && x.Lparen.IsValid() {
					e = &decl{from: x.Pos(), to: x.End(), node: x, group: true}
				}
				for _, n := range names {
					decls[n.Name] = append(decls[n.Name], e)
				}
			}
		}
	}
	imports := map[string]string{} // local name: path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := path.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	reach := func(name string) (map[*decl]bool, map[string]bool) {
		seen, used := map[*decl]bool{}, map[string]bool{}
		var visit func(n ast.Node)
		add := func(name string) {
			for _, d := range decls[name] {
				if !seen[d] {
					seen[d] = true
					visit(d.node)
				}
			}
		}
		visit = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						if _, ok := imports[id.Name]; ok {
							used[id.Name] = true
						}
					}
					visit(x.X)
					return false
				case *ast.Ident:
					add(x.Name)
				}
				return true
			})
		}
		add(name)
		return seen, used
	}
	isFalcon := func(p string) bool { return p == os.Args[3] || strings.HasPrefix(p, os.Args[3]+"/") }
	var found []string
	for t, m := range methods {
		if m["Run"] && m["RequiredGas"] {
			_, used := reach(t)
			for n := range used {
				if isFalcon(imports[n]) {
					found = append(found, t)
					break
				}
			}
		}
	}
	sort.Strings(found)
	if len(found) == 0 {
		die(fmt.Errorf("no precompile that uses %s", os.Args[3]))
	}
	// as it is registered
	t := found[0]
	value := "new(" + t + ")"
	if m := regexp.MustCompile(`(?m)\}\)?:\s*(&` + t + `\{[^\n]*\}),?\s*(//.*)?$`).FindSubmatch(b); m != nil {
		value = string(m[1])
	}
	seen, used := reach(t)
	var ds []*decl
	for d := range seen {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].from < ds[j].from })
	var o strings.Builder
	fmt.Fprintln(&o, "package geth")
	for n := range used {
		p := imports[n]
		if s, ok := stubs[p]; ok {
			p = s
		} else if !isFalcon(p) && strings.Contains(strings.Split(p, "/")[0], ".") {
			die(fmt.Errorf("the precompile uses package %s, which is not available", p))
		}
		fmt.Fprintf(&o, "import %s %q\n", n, p)
	}
	fmt.Fprintln(&o, "import verifErrors \"errors\"")
	at := token.NoPos
	for _, d := range ds {
		if d.from < at {
			continue
		}
		at = d.to
		fmt.Fprintf(&o, "%s %s\n\n", d.tok, b[fs.Position(d.from).Offset:fs.Position(d.to).Offset])
	}
	for _, l := range strings.Split(others, "\n") {
		if w := strings.Fields(l); len(w) > 2 && len(decls[w[0]]) == 0 {
			fmt.Fprintln(&o, "var "+l)
		}
	}
	fmt.Fprintf(&o, "func verifNewError(s string) error { return verifErrors.New(s) }\n")
	fmt.Fprintf(&o, "type verifContract interface { RequiredGas([]byte) uint64; Run([]byte) ([]byte, error) }\n")
	fmt.Fprintf(&o, "// Contract is the one instance that a node has.\nvar Contract verifContract = %s\n", value)
	die(os.WriteFile(os.Args[2], []byte(o.String()), 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
