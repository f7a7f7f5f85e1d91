// Command instr reads the packages of the module under test (as they are in the
// working tree), and writes instrumented copies of their non-test files plus an
// overlay file for 'go build -overlay':
//
//   - a call of simhookverif.Y(site) before every statement and in every block,
//   - 'range' over builtin maps goes through simhookverif.MapStart,
//   - copy and append of whole slices go through simhookverif, which counts their cost,
//   - 'import "sync"' goes to simhookverif/vsync,
//   - the golang.org/x/exp/maps and slices in use are instrumented as well.
//
// It judges nothing; the code runs as written, line for line.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const hookPkg = "simhookverif"

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path string }
}

type edit struct {
	off  int
	end  int // replaced up to end; insertion when end == off
	text string
	seq  int
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	hook := flag.String("hook", "", "directory of the hook package")
	out := flag.String("out", "", "output directory")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,DepOnly,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	modpath := ""
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			pkgs = append(pkgs, p)
			if p.Module != nil {
				modpath = p.Module.Path
			}
		} else if p.ImportPath == "golang.org/x/exp/maps" || p.ImportPath == "golang.org/x/exp/slices" {
			pkgs = append(pkgs, p) // generic helpers that run the library's loops
		}
	}
	if len(pkgs) == 0 || modpath == "" {
		fatal("no packages")
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })

	replace := map[string]string{}
	var sites []string
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	for _, p := range pkgs {
		if p.Name == "main" {
			continue
		}
		var files []*ast.File
		var names []string
		for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info) // best effort: only map ranges need it
		for i, af := range files {
			src, err := os.ReadFile(names[i])
			if err != nil {
				fatal("%v", err)
			}
			rel, _ := filepath.Rel(*repo, names[i])
			if p.DepOnly {
				rel = p.ImportPath + "/" + filepath.Base(names[i])
			}
			text := instrument(fset, af, src, rel, modpath, info, &sites)
			dst := filepath.Join(*out, "src", strings.ReplaceAll(rel, "/", "__"))
			from := names[i]
			if p.DepOnly {
				// the module cache cannot be overlaid: the copy gets a place of its own
				from = filepath.Join(*repo, hookPkg, "x"+p.Name, filepath.Base(from))
			}
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				fatal("%v", err)
			}
			replace[from] = dst
		}
	}
	if len(sites) >= 1<<14 {
		fatal("too many sites: %d", len(sites))
	}
	// the hook package, and its site table
	err = filepath.Walk(*hook, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*hook, path)
		replace[filepath.Join(*repo, hookPkg, rel)] = path
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// Sites names the yield points.\nvar Sites = []string{\n", hookPkg)
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	st := filepath.Join(*out, "sites.go")
	if err := os.WriteFile(st, b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	replace[filepath.Join(*repo, hookPkg, "sites.go")] = st
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fatal("%v", err)
	}
}

func coreMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		found := false
		for i := 0; i < it.NumEmbeddeds(); i++ {
			switch e := it.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if _, ok := e.Term(j).Type().Underlying().(*types.Map); !ok {
						return false
					}
					found = true
				}
			default:
				if _, ok := e.Underlying().(*types.Map); ok {
					found = true
				}
			}
		}
		return found
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && strict(m.Key(), 0)
}

// strict tells whether comparing never panics; before Go 1.20 only such types satisfy
// comparable. Other maps are ranged over as they are.
func strict(t types.Type, depth int) bool {
	if _, ok := t.(*types.TypeParam); ok || depth > 20 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strict(u.Field(i).Type(), depth+1) {
				return false
			}
		}
	case *types.Array:
		return strict(u.Elem(), depth+1)
	}
	return true
}

// sliceType accepts slices of ordinary types; values of type parameters are left alone.
func sliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func instrument(fset *token.FileSet, af *ast.File, src []byte, rel, modpath string, info *types.Info, sites *[]string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, e int, text string) { edits = append(edits, edit{o, e, text, len(edits)}) }
	site := func(p token.Pos) string {
		pos := fset.PositionFor(p, false)
		*sites = append(*sites, fmt.Sprintf("%s:%d", rel, pos.Line))
		return fmt.Sprintf("vsimhook__.Y(%d); ", len(*sites)-1)
	}
	used := false
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			used = true
			add(off(s.Pos()), off(s.Pos()), site(s.Pos()))
		}
	}
	nit := 0
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if x.Lbrace.IsValid() {
				if len(x.List) == 0 || allEmpty(x.List) {
					used = true
					add(off(x.Lbrace)+1, off(x.Lbrace)+1, " "+site(x.Lbrace))
				}
			}
			// the body of a switch or select holds clauses only
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || !info.Types[id].IsBuiltin() || len(x.Args) != 2 || !sliceType(info.Types[x.Args[0]].Type) || !sliceType(info.Types[x.Args[1]].Type) {
				break
			}
			if id.Name == "copy" {
				used = true
				add(off(id.Pos()), off(id.End()), "vsimhook__.Copy")
			} else if id.Name == "append" && x.Ellipsis.IsValid() {
				used = true
				add(off(id.Pos()), off(id.End()), "vsimhook__.Append")
			}
		case *ast.RangeStmt:
			if tv, ok := info.Types[x.X]; ok && coreMap(tv.Type) {
				used = true
				nit++
				it := fmt.Sprintf("vsimit__%d", nit)
				txt := func(e ast.Expr) string {
					if e == nil {
						return "_"
					}
					return string(src[off(e.Pos()):off(e.End())])
				}
				xs := string(src[off(x.X.Pos()):off(x.X.End())])
				k, v := txt(x.Key), txt(x.Value)
				var h string
				if x.Tok == token.ASSIGN {
					h = fmt.Sprintf("%s, %sk, %sv, %sok := vsimhook__.MapStart(%s); %sok; %sk, %sv, %sok = %s.Next() ", it, it, it, it, xs, it, it, it, it, it)
					as := fmt.Sprintf(" _, _ = %sk, %sv; ", it, it)
					if x.Key != nil {
						as += fmt.Sprintf("%s = %sk; ", k, it)
					}
					if x.Value != nil {
						as += fmt.Sprintf("%s = %sv; ", v, it)
					}
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, as)
				} else {
					h = fmt.Sprintf("%s, %s, %s, %sok := vsimhook__.MapStart(%s); %sok; %s, %s, %sok = %s.Next() ", it, k, v, it, xs, it, k, v, it, it)
				}
				// replaces everything between "for" and "{"
				add(off(x.For)+3, off(x.Body.Lbrace), " "+h)
			}
		}
		return true
	})
	imports := ""
	if used {
		imports = fmt.Sprintf("; import vsimhook__ %q", modpath+"/"+hookPkg)
	}
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{"sync": "vsync", "golang.org/x/exp/maps": "xmaps", "golang.org/x/exp/slices": "xslices"}[p]
		if to == "" {
			continue
		}
		name := p[strings.LastIndex(p, "/")+1:] + " "
		if im.Name != nil {
			name = ""
		}
		add(off(im.Path.Pos()), off(im.Path.End()), name+strconv.Quote(modpath+"/"+hookPkg+"/"+to))
	}
	if imports != "" {
		add(off(af.Name.End()), off(af.Name.End()), imports)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // nested in a replaced header (function literal in a range expression)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return b.Bytes()
}

func allEmpty(l []ast.Stmt) bool {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			return false
		}
	}
	return true
}
