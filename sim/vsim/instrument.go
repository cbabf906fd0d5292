package main

import (
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const repoModule = "github.com/Ptt-official-app/go-bbs"

type insertion struct {
	off  int
	del  int
	text string
}

// instrumentFile rewrites one source file of the repository: a simulator step
// before every statement, the module path of this copy, and (for programs) a
// per-copy flag package and the simulated argument vector. Line numbers stay.
func instrumentFile(src []byte, module string, isMain bool, pkgName string, steps bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	osName := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		np := path
		if path == repoModule || strings.HasPrefix(path, repoModule+"/") {
			np = module + strings.TrimPrefix(path, repoModule)
		}
		name := ""
		if path == "flag" && isMain {
			np = module + "/zsimflag"
			if im.Name == nil {
				name = "flag "
			}
		}
		if path == repoModule && im.Name == nil {
			name = "bbs "
		}
		if path == "os" {
			osName = "os"
			if im.Name != nil {
				osName = im.Name.Name
			}
		}
		if np != path || name != "" {
			ins = append(ins, insertion{off(im.Path.Pos()), len(im.Path.Value), name + strconv.Quote(np)})
		}
	}
	usesOS := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && osName != "" {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == osName {
				if s.Sel.Name == "Args" && isMain {
					ins = append(ins, insertion{off(s.Pos()), int(s.End() - s.Pos()), "zsimrt.Args()"})
				} else {
					usesOS = true
				}
			}
		}
		return true
	})
	stepAt := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			stepAt[off(s.Pos())] = true
		}
	}
	if steps {
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				list(b.List)
				if len(b.List) == 0 {
					stepAt[off(b.Lbrace)+1] = true
				}
			case *ast.SwitchStmt:
				// the body holds clauses, not statements
				for _, c := range b.Body.List {
					delete(stepAt, off(c.Pos()))
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
		// Clauses of switch and select statements were listed as block members.
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.SwitchStmt:
				clauses(b.Body, off, stepAt)
			case *ast.TypeSwitchStmt:
				clauses(b.Body, off, stepAt)
			case *ast.SelectStmt:
				clauses(b.Body, off, stepAt)
			}
			return true
		})
	}
	for o := range stepAt {
		ins = append(ins, insertion{o, 0, "zsimrt.Y(); "})
	}
	if isMain {
		ins = append(ins, insertion{off(f.Name.Pos()), len(f.Name.Name), pkgName})
	}
	tail := `; import zsimrt "simrt"; var _ = zsimrt.Y`
	// Imports must precede declarations, so the dummy use goes to the end.
	tail = `; import zsimrt "simrt"`
	ins = append(ins, insertion{off(f.Name.End()), 0, tail})
	end := "\nvar _ = zsimrt.Y\n"
	if isMain && osName != "" && !usesOS && osName != "_" {
		end += "var _ = " + osName + ".Args\n"
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	pos := 0
	for _, in := range ins {
		if in.off < pos {
			return nil, fmt.Errorf("overlapping edits")
		}
		out = append(out, src[pos:in.off]...)
		out = append(out, in.text...)
		pos = in.off + in.del
	}
	out = append(out, src[pos:]...)
	out = append(out, end...)
	return out, nil
}

func clauses(b *ast.BlockStmt, off func(token.Pos) int, stepAt map[int]bool) {
	for _, c := range b.List {
		delete(stepAt, off(c.Pos()))
	}
	if len(b.List) == 0 {
		delete(stepAt, off(b.Lbrace)+1)
	}
}

// packageVars lists the package-level variables of a file.
func packageVars(src []byte) (r []string) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					r = append(r, n.Name)
				}
			}
		}
	}
	return
}

var moduleLine = regexp.MustCompile(`(?m)^module\s+\S+`)

// cloneRepo copies the repository's non-test sources into dir as module.
func cloneRepo(repo, dir, module, glueDir, flagSrc string) error {
	vars := map[string][]string{} // directory -> package-level variables
	names := map[string]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			b := filepath.Base(rel)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, ".s") || strings.HasSuffix(rel, ".h") {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return writeFile(filepath.Join(dir, rel), b)
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		isMain := false
		fset := token.NewFileSet()
		pf, err := parser.ParseFile(fset, p, src, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		pkg := pf.Name.Name
		if pkg == "main" {
			isMain = true
			pkg = "prog"
		}
		steps := true
		d := filepath.Dir(rel)
		if ok, err := gobuild.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err == nil && ok && pkg != "documentation" {
			names[d] = pkg
			vars[d] = append(vars[d], packageVars(src)...)
		}
		if d == "crypt" {
			steps = false // straight-line arithmetic, thousands of steps per call
		}
		out, err := instrumentFile(src, module, isMain, pkg, steps)
		if err != nil {
			return fmt.Errorf("%s: %v", rel, err)
		}
		return writeFile(filepath.Join(dir, rel), out)
	})
	if err != nil {
		return err
	}
	// Programs get an entry point the simulator can call.
	for _, d := range []string{"serverlet", "cmd/bbstool"} {
		if _, err := os.Stat(filepath.Join(dir, d)); err == nil {
			if err := writeFile(filepath.Join(dir, d, "zsim_entry.go"), []byte("package prog\n\n// SimMain runs the program.\nfunc SimMain() { main() }\n")); err != nil {
				return err
			}
		}
	}
	// The package-level variables of a process that has just started.
	reset := "package zsimglue\n\nimport (\n\tzsimflag \"" + module + "/zsimflag\"\n"
	body := ""
	var dirs []string
	for d := range names {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for i, d := range dirs {
		if len(vars[d]) == 0 || strings.Contains("/"+d+"/", "/internal/") {
			continue
		}
		src := "package " + names[d] + "\n\n// SimVars are the variables of this package.\nfunc SimVars() []interface{} {\n\treturn []interface{}{&" + strings.Join(vars[d], ", &") + "}\n}\n"
		if err := writeFile(filepath.Join(dir, d, "zsim_vars.go"), []byte(src)); err != nil {
			return err
		}
		ip := module
		if d != "." {
			ip += "/" + filepath.ToSlash(d)
		}
		reset += fmt.Sprintf("\tp%d %q\n", i, ip)
		body += fmt.Sprintf("\tr = append(r, p%d.SimVars()...)\n", i)
	}
	reset += ")\n\n// Vars are the package-level variables of this copy.\nfunc Vars() (r []interface{}) {\n" + body + "\treturn\n}\n\n// ResetFlags forgets the command line.\nfunc ResetFlags() { zsimflag.SimReset() }\n"
	if err := writeFile(filepath.Join(dir, "zsimglue", "zsim_vars.go"), []byte(reset)); err != nil {
		return err
	}
	fl, err := os.ReadFile(flagSrc)
	if err != nil {
		return err
	}
	s := string(fl)
	s = strings.ReplaceAll(s, "os.Args", "zsimrt.Args()")
	s = strings.Replace(s, "import (", "import (\n\tzsimrt \"simrt\"", 1)
	s += "\n// SimReset makes the command line as it is before it is parsed.\nfunc SimReset() {\n\tCommandLine.VisitAll(func(f *Flag) { f.Value.Set(f.DefValue) })\n\tCommandLine.actual, CommandLine.args, CommandLine.parsed = nil, nil, false\n}\n"
	s = "//go:build go1.21\n\n" + strings.Replace(s, "package flag", "package zsimflag", 1)
	if err := writeFile(filepath.Join(dir, "zsimflag", "flag.go"), []byte(s)); err != nil {
		return err
	}
	gl, err := filepath.Glob(filepath.Join(glueDir, "*.go"))
	if err != nil {
		return err
	}
	for _, g := range gl {
		b, err := os.ReadFile(g)
		if err != nil {
			return err
		}
		t := strings.ReplaceAll(string(b), repoModule, module)
		if err := writeFile(filepath.Join(dir, "zsimglue", filepath.Base(g)), []byte(t)); err != nil {
			return err
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	m := moduleLine.ReplaceAllString(string(mod), "module "+module)
	m += "\nrequire simrt v0.0.0\nrequire simapi v0.0.0\n"
	if err := writeFile(filepath.Join(dir, "go.mod"), []byte(m)); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	return writeFile(filepath.Join(dir, "go.sum"), sum)
}

func writeFile(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0644)
}
