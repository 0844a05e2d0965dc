package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed sched.go.txt
var schedText string

//go:embed vsync.go.txt
var vsyncText string

// site is a statement before which a thread can be preempted.
type site struct {
	At     string
	Shared bool // may touch a package variable or take a lock
}

// sched puts a scheduling point in front of every statement of the packages of
// /repo that serve requests, and replaces package sync there.
func sched(o *overlay, repo string) {
	o.put(repo+"/verifsched/verifsched.go", "verifsched.go", schedText)
	o.put(repo+"/verifsched/vsync/vsync.go", "vsync.go", vsyncText)
	dirs := map[string][]string{}
	check(filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(repo, p)
			if rel == "cmd" || rel == "commands" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	}))
	var sites []site
	spawns := false
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		fset := token.NewFileSet()
		type src struct {
			path string
			text []byte
			f    *ast.File
		}
		var files []src
		globals := map[string]bool{} // package variables
		types := map[string]bool{}   // types they mention
		for _, p := range dirs[d] {
			b, err := os.ReadFile(p)
			check(err)
			f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
			if err != nil {
				continue // the build will say so
			}
			if f.Name.Name == "main" {
				continue
			}
			files = append(files, src{p, b, f})
			for _, dc := range f.Decls {
				g, ok := dc.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for _, n := range v.Names {
						globals[n.Name] = true
					}
					ast.Inspect(v, func(n ast.Node) bool {
						if i, ok := n.(*ast.Ident); ok {
							types[i.Name] = true
						}
						return true
					})
				}
			}
		}
		for _, s := range files {
			var edits []schedEdit
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			used := false
			add := func(st ast.Stmt, all bool) {
				shared := all
				ast.Inspect(st, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt:
						return false
					case *ast.Ident:
						shared = shared || globals[x.Name]
					}
					return true
				})
				edits = append(edits, schedEdit{off(st.Pos()), off(st.Pos()), fmt.Sprintf("verifsched.Yield(%d); ", len(sites))})
				sites = append(sites, site{strings.TrimPrefix(fset.Position(st.Pos()).String(), repo+"/"), shared})
				used = true
			}
			for _, dc := range s.f.Decls {
				all := false
				if fd, ok := dc.(*ast.FuncDecl); ok {
					if fd.Recv != nil {
						ast.Inspect(fd.Recv, func(n ast.Node) bool {
							if i, ok := n.(*ast.Ident); ok && types[i.Name] {
								all = true
							}
							return true
						})
					}
					if fd.Name.Name == "init" {
						continue
					}
				}
				ast.Inspect(dc, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt:
						for _, st := range x.List {
							switch st.(type) {
							case *ast.CaseClause, *ast.CommClause:
							default:
								add(st, all)
							}
						}
					case *ast.CaseClause:
						for _, st := range x.Body {
							add(st, all)
						}
					case *ast.CommClause:
						for _, st := range x.Body {
							add(st, all)
						}
					case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
						spawns = true
					}
					return true
				})
			}
			for _, im := range s.f.Imports {
				if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
					t := `"github.com/dhamidi/texted/verifsched/vsync"`
					if im.Name == nil {
						t = "sync " + t
					}
					edits = append(edits, schedEdit{off(im.Path.Pos()), off(im.Path.End()), t})
				}
			}
			if used {
				at := off(s.f.Name.End())
				edits = append(edits, schedEdit{at, at, `; import verifsched "github.com/dhamidi/texted/verifsched"`})
			}
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			text := string(s.text)
			for _, e := range edits {
				text = text[:e.from] + e.text + text[e.to:]
			}
			rel, _ := filepath.Rel(repo, s.path)
			o.put(s.path, strings.ReplaceAll(rel, "/", "__"), text)
		}
	}
	b, err := json.Marshal(map[string]any{"Sites": sites, "Spawns": spawns})
	check(err)
	check(os.WriteFile(filepath.Join(o.dir, "sites.json"), b, 0o644))
}

type schedEdit struct {
	from, to int
	text     string
}
