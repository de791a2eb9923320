package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// rewrite makes an instrumented copy of one package of the repository; the copy replaces it in the overlay.
type rewrite struct {
	pkg string
	// imports are replaced by path (the package name in the file stays the same)
	imports map[string]string
	// mapRange makes every range over a map take its order from zz_verif/vmap
	mapRange bool
}

type edit struct {
	at   int
	del  int
	text string
}

func instrument(rws []rewrite, dir string, repl map[string]string) {
	for _, rw := range rws {
		src := filepath.Join(repo, rw.pkg)
		ents, err := os.ReadDir(src)
		if err != nil {
			fatal("%s", err)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		text := map[string][]byte{}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, n))
			if err != nil {
				fatal("%s", err)
			}
			f, err := parser.ParseFile(fset, filepath.Join(src, n), b, parser.ParseComments)
			if err != nil {
				fatal("%s", err)
			}
			files, names = append(files, f), append(names, n)
			text[n] = b
		}
		var info *types.Info
		if rw.mapRange {
			info = typeCheck(fset, rw.pkg, files)
		}
		out := filepath.Join(dir, rw.pkg)
		if err := os.MkdirAll(out, 0755); err != nil {
			fatal("%s", err)
		}
		for i, f := range files {
			var eds []edit
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				to, ok := rw.imports[path]
				if !ok {
					continue
				}
				name := path[strings.LastIndex(path, "/")+1:] + " "
				if im.Name != nil {
					name = ""
				}
				eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), fmt.Sprintf(`%s"%s/zz_verif/%s"`, name, modulePath, to)})
			}
			if rw.mapRange {
				used := false
				n := 0
				ast.Inspect(f, func(nd ast.Node) bool {
					r, ok := nd.(*ast.RangeStmt)
					if !ok {
						return true
					}
					t := info.TypeOf(r.X)
					if t == nil {
						return true
					}
					if _, ok := t.Underlying().(*types.Map); !ok {
						return true
					}
					used = true
					n++
					x := string(text[names[i]][off(r.X.Pos()):off(r.X.End())])
					id := func(e ast.Expr) string {
						if e == nil {
							return "_"
						}
						return string(text[names[i]][off(e.Pos()):off(e.End())])
					}
					k, v := id(r.Key), id(r.Value)
					op := ":="
					if r.Tok == token.ASSIGN {
						op = "="
					}
					zk := fmt.Sprintf("zzk%d", n)
					head := fmt.Sprintf("for _, %s := range zzvmap.Pairs(%s) {", zk, x)
					body := ""
					if k != "_" {
						body += fmt.Sprintf(" %s %s %s.K;", k, op, zk)
					}
					if v != "_" {
						body += fmt.Sprintf(" %s %s %s.V();", v, op, zk)
					}
					body += fmt.Sprintf(" if !%s.Has() { continue };", zk)
					eds = append(eds, edit{off(r.Pos()), off(r.Body.Lbrace) + 1 - off(r.Pos()), head + body})
					return true
				})
				if used {
					eds = append(eds, edit{off(f.Name.End()), 0, fmt.Sprintf("; import zzvmap \"%s/zz_verif/vmap\"", modulePath)})
				}
			}
			if len(eds) == 0 {
				continue
			}
			sort.SliceStable(eds, func(a, b int) bool { return eds[a].at < eds[b].at })
			var buf bytes.Buffer
			p := 0
			b := text[names[i]]
			for _, e := range eds {
				if e.at < p { // an edit inside a replaced head: does not occur for these rules
					fatal("overlapping edits in %s", names[i])
				}
				buf.Write(b[p:e.at])
				buf.WriteString(e.text)
				p = e.at + e.del
			}
			buf.Write(b[p:])
			body := buf.Bytes()
			if rw.mapRange && !bytes.Contains(b, []byte("//go:build")) {
				// generics need a newer language version than the module's
				body = append([]byte(fmt.Sprintf("//go:build go1.21\n\n//line %s:1\n", filepath.Join(src, names[i]))), body...)
			}
			to := filepath.Join(out, names[i])
			if err := os.WriteFile(to, body, 0644); err != nil {
				fatal("%s", err)
			}
			repl[filepath.Join(src, names[i])] = to
		}
	}
}

func typeCheck(fset *token.FileSet, pkg string, files []*ast.File) *types.Info {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "./"+pkg)
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %s\n%s", err, clip(eb.String(), 4000))
	}
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %s", err)
		}
		exports[p.ImportPath] = p.Export
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
	_, _ = conf.Check(modulePath+"/"+pkg, fset, files, info)
	return info
}
