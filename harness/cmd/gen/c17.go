package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func init() { direct["C17"] = c17 }

// model17 is one exported struct in a project.
type model17 struct{ dir, file, name string }

// proj17 is a project tree with what the reference knows about it.
type proj17 struct {
	files  Snapshot
	dirs   []string
	models []model17
	plain  map[string]bool // dir/file that declares no struct
	rng    *rand.Rand
}

var dirPool17 = []string{"model", "model/sub", "model/sub/deep", "entity", "entity/v1", "store_model", "x", "app/user/model", "modelx", "app"}
var filePool17 = []string{"user.go", "user_model.go", "order_model.go", "types.go", "a.model.go", "model.go", "usermodel.go", "z.go"}

func pkgOf(dir string) string { return filepath.Base(dir) }

func newProj17(rng *rand.Rand, e *env, dirs int) *proj17 {
	p := &proj17{files: Snapshot{}, plain: map[string]bool{}, rng: rng}
	p.files["go.mod"] = e.modFor("work")
	p.files["README.md"] = "# project\n"
	perm := rng.Perm(len(dirPool17))
	for _, i := range perm[:2+rng.Intn(dirs-1)] {
		p.dirs = append(p.dirs, dirPool17[i])
	}
	sort.Strings(p.dirs)
	for di, dir := range p.dirs {
		pkg := pkgOf(dir)
		// a package others embed from, always in the first directory
		if di == 0 {
			p.files[dir+"/base.go"] = "package " + pkg + "\n\nimport \"time\"\n\ntype Stamp struct {\n\tMade time.Time\n\tMark *string\n}\n"
			p.models = append(p.models, model17{dir, "base.go", "Stamp"})
		}
		fs := rng.Perm(len(filePool17))
		n := 0
		for _, k := range fs[:1+rng.Intn(4)] {
			f := filePool17[k]
			if rng.Intn(5) == 0 {
				p.files[dir+"/"+f] = fmt.Sprintf("package %s\n\nconst C%d = %d\n\nfunc F%d() int { return C%d }\n\ntype Kind%d uint8\n", pkg, k, k, k, k, k)
				p.plain[dir+"/"+f] = true
				continue
			}
			var imps, body strings.Builder
			use := map[string]bool{}
			for j := 0; j < 1+rng.Intn(3); j++ {
				n++
				name := fmt.Sprintf("%s%d", []string{"User", "Order", "Zone", "Abc", "Item"}[rng.Intn(5)], n)
				p.models = append(p.models, model17{dir, f, name})
				fmt.Fprintf(&body, "type %s struct {\n", name)
				switch rng.Intn(4) {
				case 0:
					body.WriteString("\tID int64 `sql:\",auto_increment\"`\n")
				case 1:
					body.WriteString("\tID string `sql:\"id,pk\"`\n")
				case 2:
					body.WriteString("\tA int32 `sql:\"a,pk\"`\n\tB string `sql:\"b,pk\"`\n")
				}
				if di > 0 && rng.Intn(2) == 0 {
					use["work/"+p.dirs[0]] = true
					fmt.Fprintf(&body, "\t%s%s.Stamp\n", []string{"", "*"}[rng.Intn(2)], pkgOf(p.dirs[0]))
				}
				for c := 0; c < 1+rng.Intn(6); c++ {
					t := []string{"string", "*string", "time.Time", "json.RawMessage", "[]byte", "map[string]int", "struct{ X, Y int }", "netip.Addr", "*url.URL", "sql.NullString", "[4]byte", "uint8", "Own"}[rng.Intn(13)]
					switch {
					case strings.Contains(t, "time."):
						use["time"] = true
					case strings.Contains(t, "json."):
						use["encoding/json"] = true
					case strings.Contains(t, "netip."):
						use["net/netip"] = true
					case strings.Contains(t, "url."):
						use["net/url"] = true
					case strings.Contains(t, "sql."):
						use["database/sql"] = true
					}
					fmt.Fprintf(&body, "\tF%d %s\n", c, t)
				}
				body.WriteString("}\n\n")
				if rng.Intn(6) == 0 {
					fmt.Fprintf(&body, "type hidden%d struct{ A int }\n\ntype Alias%d = %s\n\n", n, n, name)
				}
				if rng.Intn(6) == 0 {
					// the code uses what is generated for it
					fmt.Fprintf(&body, "func table%d() string { return %s{}.TableName() }\n\n", n, name)
				}
				if rng.Intn(8) == 0 {
					fmt.Fprintf(&body, "func (%s) TableName() string { return \"own_%d\" }\n\n", name, n)
				}
			}
			var l []string
			for i := range use {
				l = append(l, i)
			}
			sort.Strings(l)
			for _, i := range l {
				if i == "work/"+p.dirs[0] {
					fmt.Fprintf(&imps, "import %s %q\n", pkgOf(p.dirs[0]), i)
				} else {
					fmt.Fprintf(&imps, "import %q\n", i)
				}
			}
			p.files[dir+"/"+f] = "package " + pkg + "\n\n" + imps.String() + "\n" + body.String()
		}
		p.files[dir+"/own.go"] = "package " + pkg + "\n\ntype Own string\n"
		p.plain[dir+"/own.go"] = true
		switch rng.Intn(3) {
		case 0:
			p.files[dir+"/user_test.go"] = "package " + pkg + "\n\ntype TestThing struct{ A int }\n"
		case 1:
			p.files[dir+"/tool_model.go"] = "//go:build ignore\n\npackage main\n\ntype Tool struct{ A int }\n"
			p.files[dir+"/user_windows.go"] = "package " + pkg + "\n\ntype WinUser struct{ A int }\n"
		}
		if rng.Intn(3) == 0 {
			p.files[dir+"/notes.txt"] = "generated.go\n"
			p.files[dir+"/zz_generated.go"] = "// Code generated by other; DO NOT EDIT.\n\npackage " + pkg + "\n\ntype Foreign struct{ A int }\n"
		}
	}
	return p
}

// conf17 is one configuration of a run.
type conf17 struct {
	src      []string
	cwd      string // relative
	yaml     string
	how      string // -c, cwd, generate
	cfgPath  string
	gen      string // generated file name
	db       string // relative to the root
	op       string
	skipEmpt bool
}

func (p *proj17) sources(cwd string) []string {
	rng := p.rng
	up := ""
	if cwd != "." {
		up = strings.Repeat("../", strings.Count(cwd, "/")+1)
	}
	var out []string
	for i := 0; i < 1+rng.Intn(3); i++ {
		d := p.dirs[rng.Intn(len(p.dirs))]
		top := strings.SplitN(d, "/", 2)[0]
		f := filePool17[rng.Intn(len(filePool17))]
		pats := []string{d, d + "/", d + "/*.go", d + "/*", d + "/*_model.go", d + "/user*.go", d + "/**/*.go", d + "/**/*", d + "/**",
			"**/*_model.go", "**/*.go", d + "/" + f, "nowhere/*.go", "nowhere", top + "/**/*_model.go", d + "/u*r*.go", "**/" + f, "./" + d, "./" + top + "/**/*",
			"*/*.go", "*/" + f, top + "/*/*.go", "**/" + pkgOf(d) + "/*.go", "**/sub/**/*.go", "a*/**/user*.go", "m*l/*.go", "**"}
		s := pats[rng.Intn(len(pats))]
		if rng.Intn(6) == 0 {
			s = "@ROOT@/" + strings.TrimPrefix(s, "./")
		} else if up != "" {
			s = up + strings.TrimPrefix(s, "./")
		}
		if rng.Intn(8) == 0 {
			s = " " + s + " "
		}
		out = append(out, s)
	}
	return out
}

func (p *proj17) conf() *conf17 {
	rng := p.rng
	c := &conf17{cwd: ".", gen: "generated.go"}
	if rng.Intn(4) == 0 {
		c.cwd = []string{"tools", "cmd/gen"}[rng.Intn(2)]
	}
	c.src = p.sources(c.cwd)
	c.how = []string{"-c", "cwd", "generate"}[rng.Intn(3)]
	if c.how == "generate" {
		c.src = c.src[:1]
	}
	var y strings.Builder
	if c.how != "generate" || rng.Intn(2) == 0 {
		y.WriteString("src:\n")
		for _, s := range c.src {
			fmt.Fprintf(&y, "  - %q\n", s)
		}
	}
	fmt.Fprintf(&y, "driver: %s\nquote_identifier: %v\nskip_mod_tidy: true\n", dialects[rng.Intn(3)], rng.Intn(2) == 0)
	fmt.Fprintf(&y, "naming_convention: %s\n", []string{"snake_case", "camelCase", "PascalCase"}[rng.Intn(3)])
	if rng.Intn(4) == 0 {
		y.WriteString("omit_getters: true\n")
	}
	ex := ""
	if rng.Intn(4) == 0 {
		c.gen = "models_gen.go"
		ex += "  filename: models_gen.go\n"
	}
	if rng.Intn(3) == 0 {
		c.skipEmpt = true
		ex += "  skip_empty: true\n"
	}
	if ex != "" {
		y.WriteString("exec:\n" + ex)
	}
	dir, file := "db", "db.go"
	odir, ofile := "", "operator.go"
	switch rng.Intn(4) {
	case 0:
		dir = "internal/store"
		fmt.Fprintf(&y, "database:\n  dir: %s\n  package: store\n", dir)
	case 1:
		dir, file, odir, ofile = "db", "database.go", "db/op", "ops.go"
		y.WriteString("database:\n  dir: db\n  package: db\n  filename: database.go\n  operator:\n    dir: db/op\n    package: op\n    filename: ops.go\n")
	}
	if odir == "" {
		odir = dir
	}
	c.db, c.op = filepath.Join(c.cwd, dir, file), filepath.Join(c.cwd, odir, ofile)
	c.yaml = y.String()
	if rng.Intn(4) == 0 {
		at := "dir: @ROOT@/"
		if c.cwd != "." {
			at += c.cwd + "/"
		}
		c.yaml = strings.ReplaceAll(c.yaml, "dir: ", at)
	}
	switch c.how {
	case "-c":
		c.cfgPath = []string{"conf/sql.yml", "sqlgen.custom.yaml"}[rng.Intn(2)]
	default:
		c.cfgPath = filepath.Join(c.cwd, []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"}[rng.Intn(4)])
	}
	return c
}

// text is the configuration file of a tree: paths may be absolute.
func (c *conf17) text(root string) string { return strings.ReplaceAll(c.yaml, "@ROOT@", root) }

func (c *conf17) run(e *env, root string) (string, error) {
	cwd := filepath.Join(root, c.cwd)
	switch c.how {
	case "-c":
		return e.sqlgenRO(cwd, "-c", filepath.Join(root, c.cfgPath))
	case "generate":
		return e.sqlgenRO(cwd, "generate", strings.ReplaceAll(c.src[0], "@ROOT@", root))
	default:
		return e.sqlgenRO(cwd)
	}
}

func (c *conf17) String() string {
	return fmt.Sprintf("%s in %s, src %q, %s:\n%s", c.how, c.cwd, c.src, c.cfgPath, c.yaml)
}

// want says per directory whether it is selected, and which structs are.
func (p *proj17) want(root string, c *conf17) (sel map[string]bool, models map[string][]string) {
	sel, models = map[string]bool{}, map[string][]string{}
	cwd := filepath.Join(root, c.cwd)
	chosen := func(dir, file string) bool {
		for _, s := range c.src {
			if selected(cwd, strings.ReplaceAll(s, "@ROOT@", root), filepath.Join(root, dir, file)) {
				return true
			}
		}
		return false
	}
	for f := range p.files {
		if strings.HasSuffix(f, ".go") && chosen(filepath.Dir(f), filepath.Base(f)) {
			sel[filepath.Dir(f)] = true
		}
	}
	for _, m := range p.models {
		if chosen(m.dir, m.file) {
			models[m.dir] = append(models[m.dir], m.name)
		}
	}
	for _, l := range models {
		sort.Strings(l)
	}
	return
}

func roEnv() []string {
	return append(os.Environ(), "GOWORK=off", "GOFLAGS=-buildvcs=false", "GOGC=off", "GOMEMLIMIT=800MiB")
}

// sqlgenRO runs the generator without letting the go command touch go.mod.
func (e *env) sqlgenRO(dir string, args ...string) (string, error) {
	return e.run(dir, roEnv(), e.cli, args...)
}

func c17(e *env) {
	r := e.r
	r.Rule = "one evaluation per file or directory judged after a run of the generator; distinct counts (scenario, run, path)"
	r.Assume = append(r.Assume,
		"source trees are drawn from the harness' grammar (several packages, embedded structs across packages, partial selections, stale files of earlier runs)",
		"a change of exec.filename between runs is a change of the sources and not explored",
		"after a kill only whole old or whole new files are required, plus the same result when run again")
	n := r.N(30, 400)
	parallel(n, func(i int) { e.c17history(i) })
	parallel(len(fail17)*r.N(1, 8), func(i int) { e.c17failure(i) })
	parallel(len(block17)*r.N(1, 4), func(i int) { e.c17blocked(i) })
	parallel(r.N(4, 24), func(i int) { e.c17kill(i) })
}

func stale17(rng *rand.Rand, pkg string, dep bool) string {
	switch k := rng.Intn(4); {
	case k == 0:
		return "// Code generated by sqlgen, version 0.9.0; DO NOT EDIT.\n\npackage " + pkg + "\n\nfunc (User1) TableName() string {\n\treturn \"stale\"\n}\nfunc (User1) Columns() []string {\n\treturn []string{\"stale\"}\n}\nfunc (v *User1) Addrs() []any { return nil }\nfunc (User1) HasPK() {}\nfunc (v Gone) PK() (string, int, any) { return \"x\", 0, 1 }\nfunc (Stamp) TableName() string { return \"stamps\" }\nfunc (Stamp) Values() []any { return nil }\n"
	case k == 1:
		return "// Code generated by sqlgen, version 0.9.0; DO NOT EDIT.\n\npackage " + pkg + "\n\nimport (\n\t\"strings\"\n\nfunc (Order1) TableName() stri"
	case k == 2 && !dep:
		return ""
	default:
		return "// Code generated by sqlgen, version 0.9.0; DO NOT EDIT.\n\npackage " + pkg + "\n\ntype User2 struct{ Twice bool }\n\ntype Order2 struct{}\n\ntype Own int\n"
	}
}

// c17history runs one configuration on a tree after some history and on a
// pristine copy, and again.
func (e *env) c17history(i int) {
	r := e.r
	rng := r.Rand(fmt.Sprintf("history%d", i))
	p := newProj17(rng, e, []int{3, 6}[i%2])
	c := p.conf()
	name := fmt.Sprintf("history/%d", i)
	root := filepath.Join(e.work, "c17", fmt.Sprint(i), "proj")
	clean := filepath.Join(e.work, "c17", fmt.Sprint(i), "elsewhere", "a", "checkout")
	defer os.RemoveAll(filepath.Join(e.work, "c17", fmt.Sprint(i)))
	bad := func(key, format string, x ...any) {
		r.Violate(key, "%s: %s\nconfiguration: %s\nfiles: %v", name, fmt.Sprintf(format, x...), c, p.keys())
	}
	p.files.write(clean)
	p.files.write(root)
	write(filepath.Join(clean, c.cfgPath), c.text(clean))
	os.MkdirAll(filepath.Join(clean, c.cwd), 0o755)
	os.MkdirAll(filepath.Join(root, c.cwd), 0o755)
	sel, models := p.want(root, c)
	pristine := p.files.with(c, clean)
	if i%3 == 0 {
		// the first use of sqlgen in a module: it isn't required yet
		pristine["go.mod"] = "module work\n\ngo 1.24.0\n"
		write(filepath.Join(clean, "go.mod"), pristine["go.mod"])
		r.Count("first_uses", 1)
	}

	if out, err := c.run(e, clean); err != nil {
		r.Eval(name, true)
		bad("fails", "generating an accepted tree fails: %v\n%s", err, logTail(out))
		return
	}
	ref := snap(clean)

	// the history of the tree
	steps := []string{}
	for k := rng.Intn(4); k > 0; k-- {
		switch rng.Intn(4) {
		case 0, 1:
			o := p.conf()
			o.gen = c.gen
			o.yaml = strings.ReplaceAll(o.yaml, "  filename: models_gen.go\n", "")
			if c.gen != "generated.go" {
				if strings.Contains(o.yaml, "exec:\n") {
					o.yaml = strings.Replace(o.yaml, "exec:\n", "exec:\n  filename: models_gen.go\n", 1)
				} else {
					o.yaml += "exec:\n  filename: models_gen.go\n"
				}
			} else if strings.HasSuffix(o.yaml, "exec:\n") || strings.Contains(o.yaml, "exec:\ndata") {
				o.yaml = strings.Replace(o.yaml, "exec:\n", "", 1)
			}
			o.yaml = strings.Replace(o.yaml, "exec:\ndatabase:", "database:", 1)
			write(filepath.Join(root, o.cfgPath), o.text(root))
			os.MkdirAll(filepath.Join(root, o.cwd), 0o755)
			out, err := o.run(e, root)
			steps = append(steps, fmt.Sprintf("run %s -> %v", o, err))
			if err != nil {
				r.Eval(name+"/earlier", true)
				bad("fails", "generating an accepted tree fails: %v (%s)\n%s", err, o, logTail(out))
				return
			}
			os.Remove(filepath.Join(root, o.cfgPath))
		case 2:
			for di, d := range p.dirs {
				if rng.Intn(2) == 0 {
					s := stale17(rng, pkgOf(d), di == 0)
					write(filepath.Join(root, d, c.gen), s)
					steps = append(steps, fmt.Sprintf("stale %s/%s: %q", d, c.gen, head(s, 60)))
				}
			}
		case 3:
			if rng.Intn(2) == 0 {
				write(filepath.Join(root, c.db), "// Code generated by sqlgen, version 0.9.0; DO NOT EDIT.\n\npackage nonsense\n\nfunc {")
				steps = append(steps, "garbage "+c.db)
			} else {
				write(filepath.Join(root, filepath.Dir(c.db), "mine.go"), "package "+filepath.Base(filepath.Dir(c.db))+"\n\nfunc Mine() {}\n")
				steps = append(steps, "own file next to "+c.db)
			}
		}
	}
	write(filepath.Join(root, c.cfgPath), c.text(root))
	before := snap(root)
	out, err := c.run(e, root)
	after := snap(root)
	hist := strings.Join(steps, "\n  ")
	if err != nil {
		r.Eval(name, true)
		bad("fails", "generating fails after history\n  %s\n%v\n%s", hist, err, logTail(out))
		return
	}
	r.Count("runs", 3)
	outputs := map[string]bool{c.db: true, c.op: true}
	dbDirs := map[string]bool{filepath.Dir(c.db): true, filepath.Dir(c.op): true}
	for _, d := range p.dirs {
		gen := d + "/" + c.gen
		r.Eval(name+"/"+gen, true)
		if !sel[d] || dbDirs[d] {
			continue // must be untouched, judged below
		}
		if len(models[d]) == 0 {
			// nothing to generate there: at most what was generated earlier goes
			if x, ok := after[gen]; ok && x != before[gen] {
				bad("selection", "%s has no selected struct but %s was written", d, gen)
			}
			if _, ok := ref[gen]; ok {
				bad("selection", "%s has no selected struct but %s was written in the pristine tree", d, gen)
			}
			if x, ok := before[gen]; ok {
				if g, err := parseGo(x); err == nil && !g.Header {
					if _, ok := after[gen]; !ok {
						bad("confined", "%s, which is not generated, was removed", gen)
					}
				}
			}
			outputs[gen] = true
			continue
		}
		outputs[gen] = true
		x, ok := after[gen]
		if !ok {
			bad("selection", "%s has selected structs %v but no %s", d, models[d], gen)
			continue
		}
		g, err := parseGo(x)
		if err != nil {
			bad("selection", "%s does not parse: %v", gen, err)
			continue
		}
		if fmt.Sprint(g.types()) != fmt.Sprint(models[d]) {
			bad("selection", "%s has methods for %v, the sources select %v", gen, g.types(), models[d])
		}
		r.Count("structs_generated", int64(len(g.types())))
		if x != ref[gen] {
			bad("deterministic", "%s depends on what was there before; history:\n  %s\n%s", gen, hist, firstDiff(ref[gen], x))
		}
	}
	for _, f := range []string{c.db, c.op} {
		r.Eval(name+"/"+f, true)
		if x, ok := after[f]; !ok || x != ref[f] {
			bad("deterministic", "%s depends on what was there before (present %v); history:\n  %s\n%s", f, ok, hist, firstDiff(ref[f], x))
		}
	}
	for _, set := range []struct {
		what string
		b, a Snapshot
	}{{"", before, after}, {"pristine tree: ", pristine, ref}} {
		for _, k := range set.b.diff(set.a) {
			f := k[1:]
			if outputs[f] || (strings.HasSuffix(f, "/") && k[0] == '+' && (strings.HasPrefix(c.db, f) || strings.HasPrefix(c.op, f))) {
				continue
			}
			if strings.HasSuffix(f, "/") && set.what != "" {
				continue // the file list has no directories
			}
			bad("confined", "%sthe run changed %s", set.what, k)
		}
		r.Eval(name+"/confined/"+set.what, true)
		r.Count("paths_compared", int64(len(set.a)))
	}
	// once more
	out, err = c.run(e, root)
	again := snap(root)
	r.Eval(name+"/again", true)
	if err != nil {
		bad("idempotent", "running again fails: %v\n%s", err, logTail(out))
	} else if d := after.diff(again); len(d) > 0 {
		bad("idempotent", "running again changes %v", d)
	}
	r.Count("runs", 1)
	r.Sample(c.how, map[string]any{"src": c.src, "cwd": c.cwd, "selected": models, "history": steps})
}

func (p *proj17) keys() []string {
	var l []string
	for k := range p.files {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s Snapshot) with(c *conf17, root string) Snapshot {
	o := s.clone()
	o[c.cfgPath] = c.text(root)
	return o
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("line %d: %q against %q", i+1, x[i], strings.Join(y[i:min(i+1, len(y))], ""))
		}
	}
	return "one is a prefix of the other"
}

// fail17 are sources or settings the generator refuses.
var fail17 = []struct{ name, src, yaml string }{
	{"column name", "type Bad struct{ A string `sql:\"a b\"` }", ""},
	{"quote in column name", "type Bad struct{ A string `sql:\"a\\\"b\"` }", ""},
	{"duplicate column", "type Bad struct{ A string; B int `sql:\"a\"` }", ""},
	{"duplicate field", "type E1 struct{ A string `sql:\"x\"` }\ntype E2 struct{ A string `sql:\"y\"` }\ntype Bad struct{ E1; E2 }", ""},
	{"two auto increments", "type Bad struct{ A int64 `sql:\",auto_increment\"`; B int64 `sql:\",auto_increment\"` }", ""},
	{"readonly key", "type Bad struct{ A int64 `sql:\",pk,readonly\"` }", ""},
	{"pointer of pointer", "type Bad struct{ A **int }", ""},
	{"method taken", "type Bad struct{ A int64 `sql:\",pk\"` }\nfunc (Bad) PK() bool { return true }", ""},
	{"getter taken", "type Bad struct{ A int64 }\nfunc (Bad) ColumnA() {}", ""},
	{"field taken", "type Bad struct{ A int64; Columns []string `sql:\"cols\"` }", ""},
	{"wrong TableName", "type Bad struct{ A int64 }\nfunc (Bad) TableName() int { return 1 }", ""},
	{"wrong Values", "type Bad struct{ A int64 }\nfunc (Bad) Values(x int) []any { return nil }", ""},
	{"wrong DatabaseName of Bad", "type Bad struct{ A int64 }\nfunc (Bad) DatabaseName(x int) string { return \"\" }", ""},
	{"wrong DatabaseName of *Bad", "type Bad struct{ A int64 }\nfunc (*Bad) DatabaseName(x int) string { return \"\" }", ""},
	{"wrong Columns of Bad", "type Bad struct{ A int64 }\nfunc (Bad) Columns() []int { return nil }", ""},
	{"wrong Columns of *Bad", "type Bad struct{ A int64 }\nfunc (*Bad) Columns() []int { return nil }", ""},
	{"wrong SQLColumns of Bad", "type Bad struct{ A int64 }\nfunc (Bad) SQLColumns() string { return \"\" }", ""},
	{"wrong SQLColumns of *Bad", "type Bad struct{ A int64 }\nfunc (*Bad) SQLColumns() string { return \"\" }", ""},
	{"wrong Addrs of Bad", "type Bad struct{ A int64 }\nfunc (Bad) Addrs() []*int { return nil }", ""},
	{"wrong Addrs of *Bad", "type Bad struct{ A int64 }\nfunc (*Bad) Addrs() []*int { return nil }", ""},
	{"unknown driver", "", "driver: oracle\n"},
	{"no configuration", "", "-"},
	{"broken yaml", "", "driver: [\n"},
	{"unknown type in yaml", "", "strict: {a: b}\n"},
	{"same file twice", "", "database:\n  dir: db\n  package: db\n  filename: operator.go\n"},
}

// c17failure makes one of several selected packages fail and wants the tree
// as it was.
func (e *env) c17failure(i int) {
	r := e.r
	f := fail17[i%len(fail17)]
	rng := r.Rand(fmt.Sprintf("fail%d", i))
	name := fmt.Sprintf("failure/%s/%d", f.name, i)
	root := filepath.Join(e.work, "c17f", fmt.Sprint(i))
	defer os.RemoveAll(root)
	p := newProj17(rng, e, 2)
	p.files.write(root)
	cfg := func(driver string) string {
		return "src:\n  - \"**/*.go\"\ndriver: " + driver + "\nskip_mod_tidy: true\n"
	}
	prior := rng.Intn(3) > 0
	if prior {
		write(filepath.Join(root, "sqlgen.yml"), cfg("postgres"))
		if out, err := e.sqlgenRO(root); err != nil {
			r.Eval(name, true)
			r.Violate("fails", "%s: generating an accepted tree fails: %v\n%s\nfiles %v", name, err, logTail(out), p.keys())
			return
		}
	}
	y := cfg("mysql")
	if f.yaml != "" {
		y = strings.Replace(y, "driver: mysql\n", f.yaml, 1)
		if !strings.Contains(f.yaml, "driver") {
			y += "driver: mysql\n"
		}
	}
	if f.src != "" {
		d := p.dirs[rng.Intn(len(p.dirs))]
		if rng.Intn(3) == 0 {
			d = []string{"aaa", "zzz"}[rng.Intn(2)]
		}
		write(filepath.Join(root, d, "bad.go"), "package "+pkgOf(d)+"\n\n"+f.src+"\n")
	}
	write(filepath.Join(root, "sqlgen.yml"), y)
	args := []string{"-c", "sqlgen.yml"}
	if f.yaml == "-" {
		args[1] = "missing.yml"
	}
	before := snap(root)
	out, err := e.sqlgenRO(root, args...)
	after := snap(root)
	r.Eval(name, true)
	r.Count("failures", 1)
	if err == nil {
		r.Violate("accepted/"+f.name, "%s: the generator does not refuse it\n%s", name, logTail(out))
		return
	}
	for _, k := range before.diff(after) {
		if k[0] != '+' { // what is new is no file that was there
			r.Violate("failure-leaves", "%s: generation failed (%v) but changed %v", name, err, k)
		}
	}
	r.Sample("failure/"+f.name, map[string]any{"message": tail(strings.TrimSpace(out), 200), "prior_run": prior})
}

// block17 are obstacles met while the files are written.
var block17 = []string{"generated-dir", "db-dir", "operator-dir", "db-parent-file", "limit"}

func (e *env) c17blocked(i int) {
	r := e.r
	what := block17[i%len(block17)]
	rng := r.Rand(fmt.Sprintf("block%d", i))
	name := fmt.Sprintf("blocked/%s/%d", what, i)
	root := filepath.Join(e.work, "c17b", fmt.Sprint(i))
	defer os.RemoveAll(root)
	p := newProj17(rng, e, 2)
	p.files.write(root)
	yaml := "src:\n  - \"**/*.go\"\ndriver: %s\nskip_mod_tidy: true\ndatabase:\n  dir: out/db\n  package: db\n"
	write(filepath.Join(root, "sqlgen.yml"), fmt.Sprintf(yaml, "postgres"))
	if out, err := e.sqlgenRO(root); err != nil {
		r.Eval(name, true)
		r.Violate("fails", "%s: generating an accepted tree fails: %v\n%s", name, err, logTail(out))
		return
	}
	write(filepath.Join(root, "sqlgen.yml"), fmt.Sprintf(yaml, "mysql"))
	switch what {
	case "generated-dir":
		f := filepath.Join(root, p.dirs[rng.Intn(len(p.dirs))], "generated.go")
		os.Remove(f)
		os.MkdirAll(filepath.Join(f, "x"), 0o755)
	case "db-dir":
		os.Remove(filepath.Join(root, "out/db/db.go"))
		os.MkdirAll(filepath.Join(root, "out/db/db.go/x"), 0o755)
	case "operator-dir":
		os.Remove(filepath.Join(root, "out/db/operator.go"))
		os.MkdirAll(filepath.Join(root, "out/db/operator.go/x"), 0o755)
	case "db-parent-file":
		os.RemoveAll(filepath.Join(root, "out"))
		write(filepath.Join(root, "out"), "a file\n")
	}
	before := snap(root)
	var out string
	var err error
	if what == "limit" {
		// no file may become larger than 16 kB, which the database file does
		out, err = e.run(root, roEnv(), "bash", "-c", "ulimit -f 16; exec \"$0\"", e.cli)
	} else {
		out, err = e.sqlgenRO(root)
	}
	after := snap(root)
	r.Eval(name, true)
	r.Count("blocked_writes", 1)
	if err == nil {
		r.Violate("unreported/"+what, "%s: a file that cannot be written is not reported\n%s", name, logTail(out))
		return
	}
	for _, k := range before.diff(after) {
		if k[0] != '+' { // what is new is no file that was there
			r.Violate("failure-leaves", "%s: writing failed but %s changed", name, k)
		}
	}
	r.Sample("blocked/"+what, map[string]any{"message": tail(strings.TrimSpace(out), 200), "left_behind": before.diff(after)})
}

// c17kill kills the generator at each rename or removal it makes (found by
// strace): every file is whole afterwards and the next run gives what it gives
// on a pristine tree.
func (e *env) c17kill(i int) {
	r := e.r
	if _, err := exec.LookPath("strace"); err != nil {
		r.Count("kill_skipped", 1)
		return
	}
	rng := r.Rand(fmt.Sprintf("kill%d", i))
	name := fmt.Sprintf("kill/%d", i)
	root := filepath.Join(e.work, "c17k", fmt.Sprint(i))
	defer os.RemoveAll(root)
	p := newProj17(rng, e, 2)
	p.files.write(root)
	yaml := "src:\n  - \"**/*.go\"\ndriver: %s\nskip_mod_tidy: true\n"
	gen := func(d string) {
		write(filepath.Join(root, "sqlgen.yml"), fmt.Sprintf(yaml, d))
		if out, err := e.sqlgenRO(root); err != nil {
			r.Eval(name, true)
			r.Violate("fails", "%s: generating an accepted tree fails: %v\n%s", name, err, logTail(out))
		}
	}
	gen("postgres")
	old := snap(root)
	gen("mysql")
	new := snap(root)
	gen("postgres")
	write(filepath.Join(root, "sqlgen.yml"), fmt.Sprintf(yaml, "mysql"))
	when := 1 + rng.Intn(4)
	call := []string{"renameat,rename,renameat2", "unlinkat,unlink", "write"}[i%3]
	if call == "write" {
		when = 5 + rng.Intn(120)
	}
	out, err := e.run(root, roEnv(), "strace", "-o", "/dev/null", "-f", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, when), e.cli)
	mid := snap(root)
	if strings.Contains(out, "strace:") {
		r.Count("kill_skipped", 1)
		return
	}
	r.Eval(name, true)
	if err == nil {
		r.Count("kill_not_reached", 1)
	} else {
		r.Count("kills", 1)
	}
	for k, v := range mid {
		if o, ok := old[k]; ok && k != "sqlgen.yml" && v != o && v != new[k] {
			r.Violate("torn", "%s: after a kill at %s number %d the file %s is neither the old nor the new one", name, call, when, k)
		}
	}
	for k := range old {
		if _, ok := mid[k]; !ok && k != "sqlgen.yml" {
			if _, ok := new[k]; ok {
				r.Violate("torn", "%s: after a kill at %s number %d the file %s is gone", name, call, when, k)
			}
		}
	}
	if out, err := e.sqlgenRO(root); err != nil {
		r.Violate("after-kill", "%s: the run after a kill fails: %v\n%s", name, err, logTail(out))
		return
	}
	for _, k := range new.diff(snap(root)) {
		if strings.HasSuffix(k, ".tmp") {
			continue
		}
		r.Violate("after-kill", "%s: the run after a kill at %s number %d gives a different %s", name, call, when, k)
	}
	r.Sample("kill", map[string]any{"call": call, "when": when, "left_behind": old.diff(mid)})
}
