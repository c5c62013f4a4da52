// globals REPO OVERLAY.json OUTDIR: gives every package of REPO a generated file (through the overlay) that tells the
// simulator where its package-level variables are and how to initialise them, so that each simulated process has
// its own.  The packages themselves are compiled as they are, except that init functions get a name to call.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "globals:", err)
		os.Exit(1)
	}
}

var version = regexp.MustCompile(`^v[0-9]+$`)

func importName(s *ast.ImportSpec) string {
	if s.Name != nil {
		return s.Name.Name
	}
	p, _ := strconv.Unquote(s.Path.Value)
	b := path.Base(p)
	if version.MatchString(b) {
		b = path.Base(path.Dir(p))
	}
	return strings.TrimPrefix(b, "go-")
}

func main() {
	repo, overlay, out := os.Args[1], os.Args[2], os.Args[3]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	must(err)
	must(json.Unmarshal(b, &ov))
	var dirs []string
	must(filepath.WalkDir(filepath.Join(repo, "pkg"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			dirs = append(dirs, p)
		}
		return err
	}))
	ctx := build.Default
	ctx.BuildTags = append(ctx.BuildTags, "verif")
	virtual := map[string]string{} // generated directory -> where the compiler finds it
	sim, err := filepath.Abs(filepath.Join(out, "..", "..", "sim"))
	must(err)
	for _, f := range []struct{ dir, name, goos, goarch string }{{"cmd/wasm", "wasmfront", "js", "wasm"}, {"cmd/cli", "clifront", "linux", "amd64"}} {
		gen := filepath.Join(out, f.name)
		must(os.RemoveAll(gen))
		must(os.MkdirAll(gen, 0755))
		c := ctx
		c.GOOS, c.GOARCH = f.goos, f.goarch
		if front(filepath.Join(repo, f.dir), gen, f.name, &c) {
			virtual[gen] = filepath.Join(sim, f.name)
			dirs = append(dirs, gen)
			l, _ := os.ReadDir(gen)
			for _, e := range l {
				ov.Replace[filepath.Join(sim, f.name, e.Name())] = filepath.Join(gen, e.Name())
			}
		}
	}
	n := 0
	for _, dir := range dirs {
		pkg, err := ctx.ImportDir(dir, 0)
		if err != nil || len(pkg.GoFiles) == 0 || pkg.Name == "main" {
			continue
		}
		sort.Strings(pkg.GoFiles)
		at := dir // where the compiler looks
		if v, ok := virtual[dir]; ok {
			at = v
		}
		var ptrs, resets []string
		inits := 0
		for _, name := range pkg.GoFiles {
			file := filepath.Join(dir, name)
			if r, ok := ov.Replace[file]; ok {
				file = r
			}
			src, err := os.ReadFile(file)
			must(err)
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
			must(err)
			text := func(n ast.Node) string {
				return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			imports := map[string]string{}
			for _, s := range f.Imports {
				l := s.Path.Value
				if s.Name != nil {
					l = s.Name.Name + " " + l
				}
				imports[importName(s)] = l
			}
			used := map[string]bool{}
			use := func(n ast.Node) {
				ast.Inspect(n, func(x ast.Node) bool {
					if s, ok := x.(*ast.SelectorExpr); ok {
						if id, ok := s.X.(*ast.Ident); ok && imports[id.Name] != "" {
							used[id.Name] = true
						}
					}
					return true
				})
			}
			var body []string
			type cut struct{ at int }
			var cuts []int
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.Name == "init" {
						inits++
						cuts = append(cuts, fset.Position(d.Name.End()).Offset)
					}
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						s := s.(*ast.ValueSpec)
						if d.Doc != nil && strings.Contains(d.Doc.Text(), "go:embed") || s.Doc != nil && strings.Contains(text(s.Doc), "go:embed") {
							continue
						}
						var names []string
						blank := true
						for _, id := range s.Names {
							names = append(names, id.Name)
							if id.Name != "_" {
								blank = false
								ptrs = append(ptrs, "&"+id.Name)
							}
						}
						if blank {
							continue
						}
						if len(s.Values) > 0 {
							var vals []string
							for _, v := range s.Values {
								use(v)
								vals = append(vals, text(v))
							}
							body = append(body, strings.Join(names, ", ")+" = "+strings.Join(vals, ", "))
						} else {
							use(s.Type)
							for _, id := range names {
								if id != "_" {
									body = append(body, "{\n\t\tvar verifZero "+text(s.Type)+"\n\t\t"+id+" = verifZero\n\t}")
								}
							}
						}
					}
				}
			}
			var ins []insert
			for i, c := range cuts { // func init() becomes func initVerifN()
				ins = append(ins, insert{c, "Verif" + strconv.Itoa(inits-len(cuts)+i+1)})
			}
			if at == dir {
				ins = append(ins, yields(fset, f, src)...)
			}
			if len(ins) > 0 {
				sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
				o, last := "", 0
				for _, c := range ins {
					o += string(src[last:c.at]) + c.text
					last = c.at
				}
				o += string(src[last:])
				dst := filepath.Join(out, fmt.Sprintf("repo%d_%s", n, name))
				write(dst, o)
				ov.Replace[filepath.Join(at, name)] = dst
			}
			if len(body) > 0 {
				fn := fmt.Sprintf("verifReset%d", len(resets)+1)
				o := "package " + pkg.Name + "\n\n"
				for _, k := range keys(used) {
					o += "import " + imports[k] + "\n"
				}
				o += "\nfunc " + fn + "() {\n\t" + strings.Join(body, "\n\t") + "\n}\n"
				dst := filepath.Join(out, fmt.Sprintf("reset%d_%s", n, name))
				write(dst, o)
				ov.Replace[filepath.Join(at, fmt.Sprintf("zz_verif_reset%d.go", len(resets)+1))] = dst
				resets = append(resets, fn)
			}
		}
		if len(ptrs) > 0 || inits > 0 {
			o := "package " + pkg.Name + "\n\nimport \"runtime\"\n\nfunc init() {\n"
			call := ""
			for i := 1; i <= inits; i++ {
				call += fmt.Sprintf("\t\tinitVerif%d()\n", i)
			}
			o += call
			o += "\truntime.SimRegister([]any{" + strings.Join(ptrs, ", ") + "}, func() {\n"
			for pass := 0; pass < 2; pass++ { // twice: an initialiser may use a variable declared later
				for _, fn := range resets {
					o += "\t\t" + fn + "()\n"
				}
			}
			o += call + "\t})\n}\n"
			dst := filepath.Join(out, fmt.Sprintf("register%d.go", n))
			write(dst, o)
			ov.Replace[filepath.Join(at, "zz_verif_globals.go")] = dst
		}
		n++
	}
	b, err = json.MarshalIndent(ov, "", " ")
	must(err)
	must(os.WriteFile(overlay, b, 0644))
}

type insert struct {
	at   int
	text string
}

var sites int

// yields puts a call before every statement, at which the simulator may give the turn to another goroutine; in
// generated code only at the beginning of functions.
func yields(fset *token.FileSet, f *ast.File, src []byte) (l []insert) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	put := func(s ast.Stmt) {
		sites++
		l = append(l, insert{off(s.Pos()), fmt.Sprintf("simrt.SimYield(%d); ", sites)})
	}
	head := src
	if len(head) > 300 {
		head = head[:300]
	}
	generated := strings.Contains(string(head), "Code generated") || len(src) > 60000
	list := func(b []ast.Stmt) {
		for _, s := range b {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			default:
				put(s)
			}
		}
	}
	body := func(b *ast.BlockStmt) {
		if generated && b != nil && len(b.List) > 0 {
			put(b.List[0])
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			body(x.Body)
		case *ast.FuncLit:
			body(x.Body)
		case *ast.BlockStmt:
			if !generated {
				list(x.List)
			}
		case *ast.CaseClause:
			if !generated {
				list(x.Body)
			}
		case *ast.CommClause:
			if !generated {
				list(x.Body)
			}
		}
		return true
	})
	if len(l) > 0 {
		l = append(l, insert{off(f.Name.End()), "; import simrt \"runtime\""})
	}
	return
}

func keys(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// write leaves an unchanged file alone, so that the build cache stays warm.
func write(p, s string) {
	if b, err := os.ReadFile(p); err == nil && string(b) == s {
		return
	}
	must(os.WriteFile(p, []byte(s), 0644))
}

// front copies a program as a library package: main becomes Main, its prompt and its way to wait forever are the
// simulator's.
func front(dir, gen, name string, ctx *build.Context) bool {
	l, err := os.ReadDir(dir)
	if err != nil {
		return false
	}
	found := false
	for _, e := range l {
		fn := e.Name()
		if !strings.HasSuffix(fn, ".go") || strings.HasSuffix(fn, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, fn); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, fn))
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil || f.Name.Name != "main" {
			return false
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		type edit struct {
			from, to int
			text     string
		}
		edits := []edit{{0, off(f.Name.End()), "package " + name}}
		jsName := ""
		for _, s := range f.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			switch p {
			case "syscall/js":
				jsName = "js"
				if s.Name != nil {
					jsName = s.Name.Name
				}
			case "github.com/c-bata/go-prompt":
				edits = append(edits, edit{off(s.Path.Pos()), off(s.Path.End()), strconv.Quote("verif/sim/prompt")})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "main" {
					edits = append(edits, edit{off(x.Name.Pos()), off(x.Name.End()), "Main"})
					found = true
				}
			case *ast.SelectStmt:
				if len(x.Body.List) == 0 && jsName != "" {
					edits = append(edits, edit{off(x.Pos()), off(x.End()), jsName + ".SimPark()"})
				}
			}
			return true
		})
		sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
		o, last := "", 0
		for _, e := range edits {
			o += string(src[last:e.from]) + e.text
			last = e.to
		}
		write(filepath.Join(gen, strings.TrimSuffix(fn, ".go")+"_front.go"), o+string(src[last:]))
	}
	return found
}
