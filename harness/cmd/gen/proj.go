package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Snapshot is the content of every file below a directory, keyed by relative
// path; directories are listed with a trailing slash.
type Snapshot map[string]string

func snap(root string) Snapshot {
	s := Snapshot{}
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			s[rel+"/"] = ""
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			l, err := os.Readlink(p)
			s[rel] = "-> " + l
			return err
		}
		b, err := os.ReadFile(p)
		s[rel] = string(b)
		return err
	})
	if err != nil {
		die("snapshot: %v", err)
	}
	return s
}

// diff lists the paths at which the snapshots differ.
func (s Snapshot) diff(o Snapshot) []string {
	var out []string
	for k, v := range s {
		w, ok := o[k]
		switch {
		case !ok:
			out = append(out, "-"+k)
		case v != w:
			out = append(out, "~"+k)
		}
	}
	for k := range o {
		if _, ok := s[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][1:] < out[j][1:] })
	return out
}

func (s Snapshot) write(root string) {
	for k, v := range s {
		if strings.HasSuffix(k, "/") {
			os.MkdirAll(filepath.Join(root, k), 0o755)
			continue
		}
		write(filepath.Join(root, k), v)
	}
}

func (s Snapshot) clone() Snapshot {
	o := Snapshot{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

// globSegs is the reference meaning of a source pattern: ** stands for any
// number of directories, * for any part of one name.
func globSegs(pat, path []string) bool {
	if len(pat) == 0 {
		return len(path) == 0
	}
	if pat[0] == "**" {
		for i := 0; i <= len(path); i++ {
			if globSegs(pat[1:], path[i:]) {
				return true
			}
		}
		return false
	}
	return len(path) > 0 && globName(pat[0], path[0]) && globSegs(pat[1:], path[1:])
}

func globName(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globName(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && globName(pat[1:], s[1:])
}

// selected says whether source src, relative to directory cwd, selects the Go
// file at the absolute path file; all paths are inside root.
func selected(cwd, src, file string) bool {
	src = strings.TrimSpace(src)
	if !filepath.IsAbs(src) {
		src = filepath.Join(cwd, src)
	}
	src = filepath.Clean(src)
	if !strings.Contains(src, "*") {
		return src == file || src == filepath.Dir(file)
	}
	segs := strings.Split(src, "/")
	last := segs[len(segs)-1]
	if last == "**" {
		segs = append(segs, "*.go")
	} else if strings.HasSuffix(last, "*") {
		segs[len(segs)-1] = last + ".go"
	}
	return globSegs(segs, strings.Split(file, "/"))
}

// GoFile is what a generated file declares.
type GoFile struct {
	Pkg     string
	Methods map[string]map[string]*ast.FuncDecl // receiver type -> method
	Funcs   map[string]bool
	Imports map[string]bool
	Header  bool
}

func (g *GoFile) types() []string {
	var out []string
	for t := range g.Methods {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func (g *GoFile) has(t, m string) bool { return g.Methods[t][m] != nil }

func parseGo(src string) (*GoFile, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	g := &GoFile{Pkg: f.Name.Name, Methods: map[string]map[string]*ast.FuncDecl{}, Funcs: map[string]bool{}, Imports: map[string]bool{}, Header: ast.IsGenerated(f)}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		g.Imports[p] = true
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fn.Recv == nil {
			g.Funcs[fn.Name.Name] = true
			continue
		}
		t := fn.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		n := t.(*ast.Ident).Name
		if g.Methods[n] == nil {
			g.Methods[n] = map[string]*ast.FuncDecl{}
		}
		g.Methods[n][fn.Name.Name] = fn
	}
	return g, nil
}

// stringsOf are the string literals in a method's body, in order.
func stringsOf(fn *ast.FuncDecl) []string {
	var out []string
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if s, err := strconv.Unquote(l.Value); err == nil {
				out = append(out, s)
			}
		}
		return true
	})
	return out
}

// parallel runs f(0..n-1) on several workers.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}()
	}
	wg.Wait()
}

// modFor is the go.mod of a scratch module that uses sqlgen's runtime.
func (e *env) modFor(name string) string {
	return "module " + name + "\n\ngo 1.24.0\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => " + e.repo + "\n"
}
