// Command yield makes a copy of the non-test Go files of a repository in which
// every statement is preceded by a point at which the simulator may switch to
// another goroutine (runtime.SimYield, which the overlay of the standard library
// provides, and which does nothing unless the simulator asks for it). It is
// inserted on the same line, so that positions are as in the original.
//
//	yield ROOT OUT SKIP...
//
// It prints a JSON object which maps the files to their copies. What it can not
// handle is left as it is.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
)

func main() {
	root, out, skip := os.Args[1], os.Args[2], os.Args[3:]
	over := make(map[string]string)
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if d.IsDir() {
			if rel != "." && strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || slices.Contains(skip, filepath.ToSlash(rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		text, ok := instrument(src)
		if !ok {
			return nil
		}
		dst := filepath.Join(out, rel)
		if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, text) {
			os.MkdirAll(filepath.Dir(dst), 0o777)
			if err := os.WriteFile(dst, text, 0o666); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return nil
			}
		}
		over[path] = dst
		return nil
	})
	b, _ := json.Marshal(over)
	os.Stdout.Write(b)
}

func instrument(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	if bytes.Contains(src, []byte("simrt")) {
		return nil, false
	}
	type edit struct {
		at   int
		text string
	}
	var edits []edit
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				edits = append(edits, edit{fset.Position(s.Pos()).Offset, "simrt.SimYield(); "})
			}
		}
	}
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Doc != nil {
			for _, c := range fn.Doc.List {
				if strings.HasPrefix(c.Text, "//go:") {
					return nil, false
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true // The body of a switch.
				}
			}
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	edits = append(edits, edit{fset.Position(f.Name.End()).Offset, `; import simrt "runtime"`})
	slices.SortStableFunc(edits, func(a, b edit) int { return a.at - b.at })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.at])
		out.WriteString(e.text)
		last = e.at
	}
	out.Write(src[last:])
	// It has to be valid.
	if _, err := format.Source(out.Bytes()); err != nil {
		return nil, false
	}
	return out.Bytes(), true
}
