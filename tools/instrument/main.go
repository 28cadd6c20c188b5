// Command instrument rewrites the sources of the libraries of a repository, for the build overlay of the check A10:
// a call to zzpoint.P is added at the beginning of each function and, in the packages of the applications, before
// each statement. The lines keep their numbers, nothing else changes.
//
// usage: instrument REPO OUT_DIR OVERLAY_JSON
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/steve-care-software/rodkina"

var libs = []string{"libs/asts", "libs/queries", "libs/interpreters"}

type insertion struct {
	offset int
	text   string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func instrument(path string, statements bool) ([]byte, bool) {
	src, err := os.ReadFile(path)
	die(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		// the build reports it
		return src, false
	}
	at := map[int]string{}
	offset := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at[offset(s.Pos())] = "zzpoint.P(); "
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.FuncDecl:
			if t.Body != nil && !(statements && len(t.Body.List) > 0) {
				at[offset(t.Body.Lbrace)+1] = " zzpoint.P(); "
			}
		case *ast.FuncLit:
			if !(statements && len(t.Body.List) > 0) {
				at[offset(t.Body.Lbrace)+1] = " zzpoint.P(); "
			}
		case *ast.BlockStmt:
			if statements && !clauses(t) {
				stmts(t.List)
			}
		case *ast.CaseClause:
			if statements {
				stmts(t.Body)
			}
		case *ast.CommClause:
			if statements {
				stmts(t.Body)
			}
		}
		return true
	})
	if len(at) == 0 {
		return src, false
	}
	at[offset(f.Name.End())] = "; import zzpoint \"" + module + "/libs/zzpoint\""
	list := []insertion{}
	for o, t := range at {
		list = append(list, insertion{o, t})
	}
	sort.Slice(list, func(i, j int) bool { return list[i].offset > list[j].offset })
	out := string(src)
	for _, i := range list {
		out = out[:i.offset] + i.text + out[i.offset:]
	}
	return []byte(out), true
}

// clauses tells if a block is the body of a switch or a select
func clauses(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

func main() {
	repo, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	doc := struct{ Replace map[string]string }{}
	data, err := os.ReadFile(overlay)
	die(err)
	die(json.Unmarshal(data, &doc))
	n := 0
	for _, lib := range libs {
		die(filepath.Walk(filepath.Join(repo, lib), func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, changed := instrument(path, strings.HasSuffix(filepath.Dir(path), "applications") && !strings.Contains(path, "/domain/"))
			if !changed {
				return nil
			}
			n++
			dst := filepath.Join(out, fmt.Sprintf("zz%d.go", n))
			doc.Replace[path] = dst
			return os.WriteFile(dst, src, 0644)
		}))
	}
	data, err = json.MarshalIndent(doc, "", " ")
	die(err)
	die(os.WriteFile(overlay, data, 0644))
}
