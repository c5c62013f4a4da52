// hooks REPO OVERLAY.json OUTFILE NEWOVERLAY.json: replaces the hook into the history walk of the application by one
// that looks for it under other names and signatures.  Used only if the hook in the repository does not compile.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	repo, overlay, out, result := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	dir := filepath.Join(repo, "pkg/app")
	hook := filepath.Join(dir, "hooks_verif.go")
	names := map[string]string{}
	recv := ""
	pkg, err := build.Default.ImportDir(dir, 0)
	if err == nil {
		for _, name := range pkg.GoFiles {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, name), nil, 0)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Type.Params.NumFields() != 0 {
					continue
				}
				t := fd.Recv.List[0].Type
				star := ""
				if s, ok := t.(*ast.StarExpr); ok {
					t, star = s.X, "*"
				}
				id, ok := t.(*ast.Ident)
				if !ok {
					continue
				}
				if fd.Name.Name == "Persistence" && fd.Body != nil {
					recv = star + id.Name // the implementation of App
				}
			}
		}
		for _, name := range pkg.GoFiles {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, name), nil, 0)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Type.Params.NumFields() != 0 {
					continue
				}
				t := fd.Recv.List[0].Type
				star := ""
				if s, ok := t.(*ast.StarExpr); ok {
					t, star = s.X, "*"
				}
				if id, ok := t.(*ast.Ident); !ok || star+id.Name != recv {
					continue
				}
				n := strings.ToLower(fd.Name.Name)
				for k, words := range map[string][]string{"Undo": {"undo", "revert", "back"}, "Redo": {"redo", "reapply", "forward", "again"}} {
					for _, w := range words {
						if strings.Contains(n, w) && !strings.HasPrefix(n, "can") && !strings.HasPrefix(n, "has") && names[k] == "" {
							names[k] = fd.Name.Name
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString(`package app

import "errors"

// VerifMissing says that the history walk was not found.
var VerifMissing = errors.New("verif: no such method")

func verifResult(l ...any) (err error, n int) {
	for _, x := range l {
		switch x := x.(type) {
		case error:
			err = x
		case int:
			n = x
		}
	}
	return
}
`)
	for _, k := range []string{"Undo", "Redo"} {
		if names[k] == "" {
			fmt.Fprintf(&b, "\nfunc Verif%s(a App) (error, int) { return VerifMissing, 0 }\n", k)
		} else {
			fmt.Fprintf(&b, "\nfunc Verif%s(a App) (error, int) { return verifResult(a.(%s).%s()) }\n", k, recv, names[k])
		}
	}
	var ov struct{ Replace map[string]string }
	raw, err := os.ReadFile(overlay)
	if err == nil {
		err = json.Unmarshal(raw, &ov)
	}
	if err == nil {
		err = os.WriteFile(out, []byte(b.String()), 0644)
	}
	if err == nil {
		ov.Replace[hook] = out
		raw, err = json.Marshal(ov)
	}
	if err == nil {
		err = os.WriteFile(result, raw, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "hooks:", err)
		os.Exit(1)
	}
}
