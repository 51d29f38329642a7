// Command rewrite derives, from the working tree, the overlay with which the
// command line tool is compiled for the simulator: every source file of the
// tool with package os, fmt, flag, log and io/ioutil replaced by the simulated
// ones, built-in println sent to the simulated standard error, iteration over
// maps ordered by the simulator, package variables initialised again at the
// start of every simulated process, and package main made importable.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shim = map[string]string{
	"os": "verifsim/simos", "fmt": "verifsim/simfmt", "flag": "verifsim/simflag",
	"log": "verifsim/simlog", "io/ioutil": "verifsim/simioutil",
}

type edit struct {
	at, end int
	text    string
}

type pkg struct {
	dir, name string
	files     []*ast.File
	paths     []string
	src       [][]byte
	fset      *token.FileSet
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(1)
}

type imp struct{}

// Import: imported types stay unknown; only maps spelled in the package itself
// matter here.
func (imp) Import(p string) (*types.Package, error) {
	i := strings.LastIndex(p, "/")
	name := p[i+1:]
	if name == "go-mp4" {
		name = "mp4"
	}
	t := types.NewPackage(p, name)
	t.MarkComplete()
	return t, nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var err error
	if err = os.RemoveAll(out); err != nil {
		die("%v", err)
	}
	replace := map[string]string{}
	dirs := map[string]bool{}
	filepath.Walk(filepath.Join(repo, "cmd"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			die("%v", err)
		}
		if fi.IsDir() && (fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), ".")) {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	mainDir := filepath.Join(repo, "cmd", "mp4tool")
	seq := 0
	for _, d := range names {
		p := load(d)
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
		conf.Check(d, p.fset, p.files, info)
		for i, f := range p.files {
			seq++
			b := rewrite(p, i, f, info, seq, p.name)
			rel, _ := filepath.Rel(repo, p.paths[i])
			dst := filepath.Join(out, rel)
			write(dst, b)
			replace[p.paths[i]] = dst
			if p.name == "main" && d == mainDir {
				b = rewrite(p, i, f, info, seq, "verifcli")
				dst = filepath.Join(out, "verifcli", filepath.Base(rel))
				write(dst, b)
				replace[filepath.Join(mainDir, "verifcli", filepath.Base(rel))] = dst
			}
		}
	}
	dst := filepath.Join(out, "verifcli", "zz_verif_run.go")
	write(dst, []byte("package verifcli\n\n// Run is the command line tool's main.\nfunc Run() { main() }\n"))
	replace[filepath.Join(mainDir, "verifcli", "zz_verif_run.go")] = dst
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	os.Stdout.Write(j)
}

func write(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func load(dir string) *pkg {
	p := &pkg{dir: dir, fset: token.NewFileSet()}
	l, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range l {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		path := filepath.Join(dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(p.fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		p.name = f.Name.Name
		p.files = append(p.files, f)
		p.paths = append(p.paths, path)
		p.src = append(p.src, src)
	}
	return p
}

func rewrite(p *pkg, i int, f *ast.File, info *types.Info, seq int, pkgName string) []byte {
	src := p.src[i]
	off := func(pos token.Pos) int { return p.fset.Position(pos).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	if pkgName != f.Name.Name {
		es = append(es, edit{off(f.Name.Pos()), off(f.Name.End()), pkgName})
	}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if to, ok := shim[path]; ok {
			name := filepath.Base(path)
			if s.Name != nil {
				name = s.Name.Name
			}
			es = append(es, edit{off(s.Pos()), off(s.End()), name + " " + strconv.Quote(to)})
		}
	}
	generic := false
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			labels[l.Stmt] = l
		}
		return true
	})
	k := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || id.Name != "println" && id.Name != "print" {
				return true
			}
			if o := info.Uses[id]; o != nil {
				if _, b := o.(*types.Builtin); !b {
					return true
				}
			}
			es = append(es, edit{off(id.Pos()), off(id.End()), map[string]string{"println": "verifsimos.Println", "print": "verifsimos.Print"}[id.Name]})
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			generic = true
			k++
			m, kn := fmt.Sprintf("verifm%d", k), fmt.Sprintf("verifk%d", k)
			at := x.Pos()
			pre := ""
			if l := labels[x]; l != nil {
				at = l.Pos()
				pre = text(l.Label) + ": "
			}
			isBlank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || ok && id.Name == "_"
			}
			head := "{ " + m + " := " + text(x.X) + "; "
			loop := "for _, " + kn + " := range verifsimos.Keys(" + m + ") { "
			switch {
			case isBlank(x.Key) && isBlank(x.Value):
				loop += "if !verifsimos.Has(" + m + ", " + kn + ") { continue }; "
			case x.Tok == token.DEFINE:
				if !isBlank(x.Key) {
					loop = "for _, " + text(x.Key) + " := range verifsimos.Keys(" + m + ") { "
					kn = text(x.Key)
				}
				if !isBlank(x.Value) {
					v := text(x.Value)
					head += v + " := verifsimos.Zero(" + m + "); "
					loop += "if !verifsimos.Get(" + m + ", " + kn + ", &" + v + ") { continue }; "
				} else {
					loop += "if !verifsimos.Has(" + m + ", " + kn + ") { continue }; "
				}
			default:
				loop += "if !verifsimos.Has(" + m + ", " + kn + ") { continue }; "
				if !isBlank(x.Key) {
					loop += text(x.Key) + " = " + kn + "; "
				}
				if !isBlank(x.Value) {
					loop += text(x.Value) + " = " + m + "[" + kn + "]; "
				}
			}
			es = append(es, edit{off(at), off(x.Body.Lbrace) + 1, head + pre + loop})
			es = append(es, edit{off(x.Body.Rbrace), off(x.Body.Rbrace) + 1, "} }"})
		}
		return true
	})
	// package variables and init functions of this file
	reset := ""
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				continue
			}
			for _, s := range x.Specs {
				v := s.(*ast.ValueSpec)
				var ns []string
				blank := true
				for _, n := range v.Names {
					ns = append(ns, n.Name)
					blank = blank && n.Name == "_"
				}
				for _, e := range v.Values {
					ast.Inspect(e, func(n ast.Node) bool {
						if _, ok := n.(*ast.FuncLit); ok {
							blank = true // a function: nothing to initialise again
						}
						return true
					})
				}
				if blank {
					continue
				}
				if len(v.Values) > 0 {
					var vs []string
					for _, e := range v.Values {
						vs = append(vs, text(e))
					}
					reset += "\t" + strings.Join(ns, ", ") + " = " + strings.Join(vs, ", ") + "\n"
				} else {
					for _, n := range ns {
						if n != "_" {
							reset += "\t" + n + " = *new(" + text(v.Type) + ")\n"
						}
					}
				}
			}
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				k++
				n := fmt.Sprintf("verifInit%d_%d", seq, k)
				es = append(es, edit{off(x.Name.Pos()), off(x.Name.End()), n})
				reset += "\t" + n + "()\n"
			}
		}
	}
	sort.SliceStable(es, func(a, b int) bool { return es[a].at < es[b].at })
	var o strings.Builder
	if generic {
		o.WriteString("//go:build go1.21\n\n")
	}
	last := 0
	for _, e := range es {
		if e.at < last {
			continue // inside a replaced header (a map expression with a call in it)
		}
		o.Write(src[last:e.at])
		o.WriteString(e.text)
		last = e.end
	}
	o.Write(src[last:])
	body := o.String()
	// one more import, on the package clause's line so that line numbers stay
	at := strings.Index(body, "package "+pkgName)
	if at < 0 {
		die("no package clause in %s", p.paths[i])
	}
	at += len("package " + pkgName)
	body = body[:at] + "; import verifsimos \"verifsim/simos\"" + body[at:]
	body += fmt.Sprintf("\n\nfunc verifReset%d() {\n%s}\n\nfunc init() { verifsimos.RegisterReset(verifReset%d) }\n", seq, reset, seq)
	return []byte(body)
}
