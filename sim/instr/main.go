// Command instr writes simulator-ready copies of the Go sources of a module,
// as a module of their own, DIR/mod. It never changes the module itself.
//
//	instr -repo /repo -out DIR -sim /verif/sim -level N
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module  = "github.com/bodgit/sevenzip"
	simPath = module + "/zzverif/vsim"
	synPath = module + "/zzverif/vsync"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

type pkgInfo struct {
	dir   string
	path  string
	names []string
	files []*ast.File
	srcs  [][]byte
}

var (
	repo  = flag.String("repo", "/repo", "module root")
	out   = flag.String("out", "", "output directory")
	sim   = flag.String("sim", "/verif/sim", "simulator sources")
	level = flag.Int("level", 3, "3 everything, 2 no type-based rewrites, 1 yield points and seams only, 0 seams only")
)

func main() {
	flag.Parse()
	if *out == "" {
		fatal("need -out")
	}
	fset := token.NewFileSet()
	pkgs := load(fset)
	mod := filepath.Join(*out, "mod")
	put := func(rel string, b []byte) {
		dst := filepath.Join(mod, rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, b, 0o644))
	}
	infos := map[string]*types.Info{}
	if *level >= 3 {
		infos = check(fset, pkgs)
	}
	stats := map[string]int{}
	for _, p := range pkgs {
		for i, f := range p.files {
			name := filepath.Join(p.dir, p.names[i])
			txt := rewrite(fset, f, p.srcs[i], infos[p.path], stats)
			rel, _ := filepath.Rel(*repo, name)
			put(rel, txt)
		}
	}
	// whatever else the packages may need
	must(filepath.WalkDir(*repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "testdata") {
			return filepath.SkipDir
		}
		if fi, err := d.Info(); err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(path, ".go") && fi.Size() < 4<<20 {
			b, err := os.ReadFile(path)
			must(err)
			rel, _ := filepath.Rel(*repo, path)
			put(rel, b)
		}

		return nil
	}))
	for _, d := range []string{"vsim", "vsync", "harness"} {
		ents, err := os.ReadDir(filepath.Join(*sim, d))
		must(err)
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(*sim, d, e.Name()))
			must(err)
			put(filepath.Join("zzverif", d, e.Name()), b)
		}
	}
	s, _ := json.Marshal(stats)
	fmt.Println(string(s))
}

func load(fset *token.FileSet) []*pkgInfo {
	var pkgs []*pkgInfo
	must(filepath.WalkDir(*repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		if path != *repo && (n == "testdata" || n == "vendor" || n == "zzverif" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
			return filepath.SkipDir
		}
		if path != *repo {
			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		ents, err := os.ReadDir(path)
		if err != nil {
			return err
		}
		p := &pkgInfo{dir: path}
		rel, _ := filepath.Rel(*repo, path)
		p.path = module
		if rel != "." {
			p.path += "/" + filepath.ToSlash(rel)
		}
		for _, e := range ents {
			fn := e.Name()
			if e.IsDir() || !strings.HasSuffix(fn, ".go") || strings.HasSuffix(fn, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(path, fn); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(filepath.Join(path, fn))
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, filepath.Join(path, fn), src, parser.ParseComments)
			if err != nil {
				return err
			}
			if f.Name.Name == "main" {
				continue
			}
			p.names = append(p.names, fn)
			p.files = append(p.files, f)
			p.srcs = append(p.srcs, src)
		}
		if len(p.files) > 0 {
			pkgs = append(pkgs, p)
		}
		return nil
	}))

	return pkgs
}

// check type-checks the packages against the compiler's export data. Failure
// is not fatal: the type-based rewrites are then left out.
func check(fset *token.FileSet, pkgs []*pkgInfo) map[string]*types.Info {
	infos := map[string]*types.Info{}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return infos
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.SplitN(l, "\t", 2); len(f) == 2 {
			exp[f[0]] = f[1]
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exp[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pkgs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.path, fset, p.files, info); err != nil {
			fmt.Fprintln(os.Stderr, "instr: type check:", err)
			continue
		}
		infos[p.path] = info
	}

	return infos
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, stats map[string]int) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(pos, end int, text string) {
		edits = append(edits, edit{pos, end, text, len(edits)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	// seams
	imports := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
		if path == "sync" && *level >= 1 {
			alias := ""
			if im.Name == nil {
				alias = "sync "
			}
			add(off(im.Path.Pos()), off(im.Path.End()), alias+strconv.Quote(synPath))
			stats["sync"]++
		}
	}
	keep := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := se.X.(*ast.Ident)
		if !ok || x.Obj != nil {
			return true
		}
		switch imports[x.Name] + "." + se.Sel.Name {
		case "github.com/spf13/afero.NewOsFs":
			add(off(se.Pos()), off(se.End()), "vsim__.NewOsFs")
			keep[x.Name+".NewOsFs"] = true
			stats["osfs"]++
		case "github.com/spf13/afero.OsFs":
			add(off(se.Pos()), off(se.End()), "vsim__.OsFs")
			keep[x.Name+".NewOsFs"] = true
			stats["osfs"]++
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			add(off(se.Pos()), off(se.End()), "vsim__."+se.Sel.Name)
			keep[x.Name+".NumCPU"] = true
			stats["numcpu"]++
		case "runtime.SetFinalizer", "runtime.GC":
			// collection is not part of a simulated run: the harness keeps
			// references to everything, and finalizers might never run
			add(off(se.Pos()), off(se.End()), "vsim__."+se.Sel.Name)
			keep[x.Name+".NumCPU"] = true
			stats["finalizer"]++
		}

		return true
	})

	if *level >= 1 {
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt:
					continue
				}
				add(off(s.Pos()), off(s.Pos()), "vsim__.P();")
				stats["points"]++
			}
		}
		skip := map[*ast.BlockStmt]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				skip[n.Body] = true
			case *ast.TypeSwitchStmt:
				skip[n.Body] = true
			case *ast.SelectStmt:
				skip[n.Body] = true
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, "vsim__.P();")
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, "vsim__.P();")
				}
			case *ast.BlockStmt:
				if !skip[n] {
					list(n.List)
				}
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}

			return true
		})
	}

	if *level >= 1 {
		// the simulator unwinds tasks by panics of its own, which pass through
		direct := map[*ast.CallExpr]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.DeferStmt:
				direct[n.Call] = true
			case *ast.GoStmt:
				direct[n.Call] = true
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" && id.Obj == nil && len(n.Args) == 0 && !direct[n] {
					add(off(n.Pos()), off(n.Pos()), "vsim__.Recovered(")
					add(off(n.End()), off(n.End()), ")")
					stats["recover"]++
				}
			}

			return true
		})
	}

	if *level >= 3 && info != nil {
		typeEdits(f, info, add, off, text, stats)
	}

	// import and keep-alives
	p := off(f.Name.End())
	add(p, p, "; import vsim__ "+strconv.Quote(simPath))
	tail := "\nvar _ = vsim__.P\n"
	ks := make([]string, 0, len(keep))
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		tail += "var _ = " + k + "\n"
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		if ei, ej := edits[i].end == edits[i].pos, edits[j].end == edits[j].pos; ei != ej {
			return ei
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	b.WriteString("//line " + fset.Position(f.Pos()).Filename + ":1\n")
	last := 0
	for _, e := range edits {
		if e.pos < last {
			fatal("overlapping edits at offset %d", e.pos)
		}
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString(tail)

	return []byte(b.String())
}

// typeEdits rewrites map iteration, goroutines and channel operations.
func typeEdits(f *ast.File, info *types.Info, add func(int, int, string), off func(token.Pos) int, text func(ast.Node) string, stats map[string]int) {
	under := func(e ast.Expr) types.Type {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return nil
		}
		return tv.Type.Underlying()
	}
	comm := map[ast.Node]bool{}
	wrap := func(e ast.Node, pre, post string) {
		add(off(e.Pos()), off(e.Pos()), pre)
		add(off(e.End()), off(e.End()), post)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectStmt:
			hasDefault, cont := false, false
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					hasDefault = true
				} else {
					ast.Inspect(cc.Comm, func(m ast.Node) bool {
						if m != nil {
							comm[m] = true
						}
						return true
					})
				}
				for _, s := range cc.Body {
					ast.Inspect(s, func(m ast.Node) bool {
						switch m := m.(type) {
						case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
							return false
						case *ast.BranchStmt:
							if m.Tok == token.CONTINUE {
								cont = true
							}
						}
						return true
					})
				}
			}
			if !hasDefault && !cont && len(n.Body.List) > 0 {
				add(off(n.Pos()), off(n.Pos()), "for s__ := true; s__; { s__ = false; ")
				add(off(n.Body.Rbrace), off(n.Body.Rbrace), "\ndefault: vsim__.Wait(); s__ = true\n")
				add(off(n.Body.Rbrace)+1, off(n.Body.Rbrace)+1, " }")
				stats["select"]++
			}
		case *ast.SendStmt:
			if comm[n] {
				return true
			}
			add(off(n.Pos()), off(n.Pos()), "vsim__.Send(")
			add(off(n.Arrow), off(n.Arrow)+2, ",")
			add(off(n.End()), off(n.End()), ")")
			stats["chan"]++
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				fn := "vsim__.Recv("
				if tv, ok := info.Types[n]; ok {
					if _, ok := tv.Type.(*types.Tuple); ok {
						fn = "vsim__.Recv2("
					}
				}
				add(off(n.OpPos), off(n.OpPos)+2, fn)
				add(off(n.End()), off(n.End()), ")")
				stats["chan"]++
			}
		case *ast.RangeStmt:
			switch under(n.X).(type) {
			case *types.Map:
				wrap(n.X, "vsim__.RangeMap(", ")")
				stats["maprange"]++
			case *types.Chan:
				wrap(n.X, "vsim__.RangeChan(", ")")
				stats["chan"]++
			}
		case *ast.GoStmt:
			stats["go"]++
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				add(off(n.Go), off(n.Go)+2, "vsim__.Go(")
				add(off(fl.End()), off(n.Call.End()), ")")
				return true
			}
			names := []string{"f__"}
			vals := []string{text(n.Call.Fun)}
			args := []string{}
			for i, a := range n.Call.Args {
				v := "a" + strconv.Itoa(i) + "__"
				names = append(names, v)
				vals = append(vals, text(a))
				args = append(args, v)
			}
			dots := ""
			if n.Call.Ellipsis.IsValid() {
				dots = "..."
			}
			// function literals inside lose their yield points; that is fine
			add(off(n.Pos()), off(n.End()), "{ "+strings.Join(names, ", ")+" := "+strings.Join(vals, ", ")+
				"; vsim__.Go(func() { f__("+strings.Join(args, ", ")+dots+") }) }")
			return false
		}

		return true
	})
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}
