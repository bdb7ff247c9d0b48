package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/conf"
	"verif/harness/ev"
	"verif/harness/spec"
)

func init() { direct["C20"] = c20 }

//go:embed tpl/cfg.go.tpl
var cfgTpl string

// buildCfg builds the program that uses the configuration package.
func (e *env) buildCfg() string {
	dir := filepath.Join(e.work, "cfg")
	mod, err := os.ReadFile(filepath.Join(e.repo, "cmd/sqlgen/go.mod"))
	if err != nil {
		die("%v", err)
	}
	lines := strings.Split(string(mod), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "module ") {
			lines[i] = "module cfgprog"
		}
	}
	write(filepath.Join(dir, "go.mod"), strings.Join(lines, "\n")+
		"\nrequire (\n\tgithub.com/si3nloong/sqlgen/cmd/sqlgen v0.0.0\n\tverif/harness v0.0.0\n)\n\nreplace (\n\tgithub.com/si3nloong/sqlgen => "+e.repo+
		"\n\tgithub.com/si3nloong/sqlgen/cmd/sqlgen => "+e.repo+"/cmd/sqlgen\n\tverif/harness => "+ev.Root()+"/harness\n)\n")
	sum, _ := os.ReadFile(filepath.Join(e.repo, "cmd/sqlgen/go.sum"))
	write(filepath.Join(dir, "go.sum"), string(sum))
	write(filepath.Join(dir, "main.go"), cfgTpl)
	bin := filepath.Join(e.work, "cfgprog")
	if out, err := e.run(dir, e.goEnv(), "go", "build", "-o", bin, "."); err != nil {
		die("building the configuration monitor: %v\n%s", err, out)
	}
	return bin
}

func c20(e *env) {
	bin := e.buildCfg()
	e.c20effects(bin)
	e.c20init(bin)
	if e.r.Failed() {
		e.r.Finish()
	}
	prep := filepath.Join(e.work, "prep.json")
	e.r.Dump(prep)
	cmd := exec.Command(bin, "-prep", prep)
	cmd.Dir = e.work
	e.r.Child(cmd, nil)
}

// The part of the settings the runs of the generator are judged by.
var pools20 = map[string][]string{
	"driver": {"mysql", "postgres", "sqlite"}, "naming_convention": {"snake_case", "camelCase", "PascalCase"},
	"struct_tag": {"sql", "db", "orm"}, "exec.filename": {"generated.go", "gen.go", "zz_sql.go"}, "getter.prefix": {"Column", "Get", "Col"},
	"database.package": {"db", "store", "sqldb"}, "database.dir": {"db", "store", "out/db"}, "database.filename": {"db.go", "store.go"},
	"database.operator.package": {"op", "store", "db"}, "database.operator.dir": {"op", "store", "out/op", "db"}, "database.operator.filename": {"operator.go", "op.go"},
}

var src20 = []string{"./**/*", "m", "m/a.go", "m/*.go", "n/**/*.go", "n/sub/*.go", "e", "n/*", "./n/sub", "e/e.go", "**/a.go"}

func random20(rng *rand.Rand, k int, file bool) conf.Layer {
	l := conf.Random(rng, k, file)
	for p, pool := range pools20 {
		if _, ok := l[p]; ok {
			l[p] = pool[rng.Intn(len(pool))]
		}
	}
	if _, ok := l["src"]; ok {
		var v []string
		for n := 1 + rng.Intn(3); n > 0; n-- {
			v = append(v, src20[rng.Intn(len(src20))])
		}
		l["src"] = v
	}
	if _, ok := l["data_types"]; ok {
		m := map[string]conf.DataType{}
		if rng.Intn(3) > 0 {
			x := string(rune('A' + rng.Intn(3)))
			d := conf.DataType{DataType: "bigint", Scanner: "work/e.Scan" + x + "({{addrOfGoPath}})", Valuer: "work/e.Val" + x + "({{goPath}})"}
			s, v := "SCAN_"+x+"({{.}})", "VAL_"+x+"({{.}})"
			if rng.Intn(2) == 0 {
				d.SQLScanner = &s
			}
			if rng.Intn(2) == 0 {
				d.SQLValuer = &v
			}
			m["time.Time"] = d
		}
		if rng.Intn(3) > 0 {
			x := string(rune('A' + rng.Intn(3)))
			m["work/e.Kind"] = conf.DataType{DataType: "text", Scanner: "work/e.KScan" + x + "({{addrOfGoPath}})", Valuer: "work/e.KVal" + x + "({{goPath}})"}
		}
		l["data_types"] = m
	}
	return l
}

var models20 = map[string]string{
	"m/a.go":     "package m\n\nimport (\n\t\"time\"\n\n\t\"work/e\"\n)\n\ntype UserRecord struct {\n\tMainKey int64 `sql:\"sql_id,pk\" db:\"db_id,pk\" orm:\"orm_id,pk\"`\n\tFirstName string `sql:\"sql_first\" db:\"db_first\" orm:\"orm_first\"`\n\tHomeAddr string\n\tMadeOn time.Time\n\tSort e.Kind\n}\n",
	"n/sub/b.go": "package sub\n\ntype BlogPost struct {\n\tOwnKey string `orm:\"orm_id,pk\" db:\"db_id,pk\" sql:\"sql_id,pk\"`\n\tBodyText string\n}\n",
	"e/e.go":     "package e\n\nimport \"time\"\n\ntype Kind string\n\ntype Empty struct{}\n\n" + funcs20(),
}

// vals the methods of a generated file are judged by
type model20 struct {
	dir, file, name string
	fields          []string
	tagged          map[string]string // field -> suffix of the tagged name
}

var judged20 = []model20{
	{"m", "a.go", "UserRecord", []string{"MainKey", "FirstName", "HomeAddr", "MadeOn", "Sort"}, map[string]string{"MainKey": "_id", "FirstName": "_first"}},
	{"n/sub", "b.go", "BlogPost", []string{"OwnKey", "BodyText"}, map[string]string{"OwnKey": "_id"}},
}

func funcs20() string {
	var b strings.Builder
	for _, x := range "ABC" {
		fmt.Fprintf(&b, "func Scan%c(t *time.Time) any { return t }\nfunc Val%c(t time.Time) any { return t }\nfunc KScan%c(t *Kind) any { return t }\nfunc KVal%c(t Kind) any { return t }\n", x, x, x, x)
	}
	return b.String()
}

func text(v any) string { s, _ := v.(string); return s }
func on(v any) bool     { b, _ := v.(bool); return b }

// goWrapper is a go command that only notes that it was asked to tidy.
func (e *env) goWrapper() (dir string) {
	real, err := exec.LookPath("go")
	if err != nil {
		die("%v", err)
	}
	dir = filepath.Join(e.work, "bin20")
	write(filepath.Join(dir, "go"), "#!/bin/sh\nif [ \"$1\" = mod ]; then echo \"$*\" >> \"$TIDY_LOG\"; exit 0; fi\nexec "+real+" \"$@\"\n")
	os.Chmod(filepath.Join(dir, "go"), 0o755)
	return dir
}

// withoutPackage is a Go source without its package clause, and the package.
func withoutPackage(s string) (string, string) {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "package ") {
			return strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), "\n"), strings.TrimPrefix(l, "package ")
		}
	}
	return s, ""
}

// c20effects runs the generator under layered configurations.
func (e *env) c20effects(bin string) {
	r := e.r
	wrap := e.goWrapper()
	runIn := func(dir, log, name string, args ...string) (string, error) {
		env := append(roEnv(), "TIDY_LOG="+log)
		for i, v := range env {
			if strings.HasPrefix(v, "PATH=") {
				env[i] = "PATH=" + wrap + ":" + strings.TrimPrefix(v, "PATH=")
			}
		}
		return e.run(dir, env, name, args...)
	}
	project := func(dir string, extra bool) {
		write(filepath.Join(dir, "go.mod"), e.modFor("work"))
		for f, s := range models20 {
			write(filepath.Join(dir, f), s)
		}
		if extra {
			write(filepath.Join(dir, "s/s.go"), "package s\n\ntype Odd struct{ A string }\n\nfunc (Odd) TableName() int { return 1 }\n")
		}
	}
	// what each driver's helpers look like
	var base sync.Map
	parallel(3, func(i int) {
		dir := filepath.Join(e.work, "c20", "base", dialects[i])
		project(dir, false)
		write(filepath.Join(dir, "c.yml"), "driver: "+dialects[i]+"\nskip_mod_tidy: true\nsrc: [e]\n")
		if out, err := runIn(dir, "/dev/null", e.cli, "-c", "c.yml"); err != nil {
			r.Eval("base", true)
			r.Violate("fails", "generating with only driver %s set fails: %v\n%s", dialects[i], err, logTail(out))
			return
		}
		for _, f := range []string{"db.go", "operator.go"} {
			b, err := os.ReadFile(filepath.Join(dir, "db", f))
			s, p := withoutPackage(string(b))
			if err != nil || p != "db" {
				r.Violate("database", "%s: db/%s: %v, package %q", dialects[i], f, err, p)
			}
			base.Store(dialects[i]+f, s)
		}
	})
	if r.Failed() {
		return
	}
	helpers := func(driver, f string) string { v, _ := base.Load(driver + f); return v.(string) }
	if helpers("mysql", "db.go") == helpers("postgres", "db.go") {
		r.Violate("driver", "the helpers of mysql and postgres are the same")
	}

	parallel(r.N(56, 900), func(i int) {
		rng := r.Rand(fmt.Sprintf("effects%d", i))
		root := filepath.Join(e.work, "c20", fmt.Sprint(i))
		dir := filepath.Join(root, "proj")
		defer os.RemoveAll(root)
		extra := i%7 == 3
		project(dir, extra)
		var desc strings.Builder
		var file, explicit, eff conf.Layer
		files := map[string]string{}
		how := []string{"cwd", "-c", "generate", "library", "library", "cwd"}[i%6]
		k := 1 + rng.Intn(4)
		for {
			desc.Reset()
			files = map[string]string{}
			file, explicit = conf.Layer{}, conf.Layer{}
			found := false
			for _, f := range []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"} {
				if rng.Intn(2) > 0 {
					continue
				}
				l := random20(rng, k, true)
				y := l.YAML(rng)
				if how == "-c" && rng.Intn(4) == 0 {
					y = "src: {\n"
				}
				files[f] = y
				if !found {
					file, found = l, true
				}
			}
			switch how {
			case "-c":
				file = random20(rng, k, true)
				files["conf/my.yaml"] = file.YAML(rng)
			case "generate":
				explicit["src"] = []string{src20[rng.Intn(len(src20))]}
			case "library":
				explicit = random20(rng, 1+rng.Intn(4), false)
			}
			if extra {
				l := file
				if how == "library" && rng.Intn(2) == 0 {
					l = explicit
				}
				if how != "generate" {
					delete(file, "src")
					delete(explicit, "src")
					l["src"] = []string{"s", "m"}
				} else {
					explicit["src"] = []string{"s"}
				}
				if how == "-c" {
					files["conf/my.yaml"] = file.YAML(rng)
				} else {
					files = map[string]string{"sqlgen.yml": file.YAML(rng)}
				}
			}
			eff = conf.Effective(explicit, file)
			// two packages in one directory make no Go package
			if eff["database.dir"] == eff["database.operator.dir"] && eff["database.package"] != eff["database.operator.package"] {
				continue
			}
			break
		}
		var names []string
		for f, y := range files {
			write(filepath.Join(dir, f), y)
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			fmt.Fprintf(&desc, "--- %s\n%s", f, files[f])
		}
		log := filepath.Join(root, "tidy")
		before := snap(dir)
		var out string
		var err error
		switch how {
		case "cwd":
			out, err = runIn(dir, log, e.cli)
		case "-c":
			p := "conf/my.yaml"
			if rng.Intn(2) == 0 {
				p = filepath.Join(dir, p)
			}
			out, err = runIn(dir, log, e.cli, "-c", p)
		case "generate":
			a := explicit["src"].([]string)[0]
			out, err = runIn(dir, log, e.cli, "generate", a)
			fmt.Fprintf(&desc, "sqlgen generate %q\n", a)
		case "library":
			write(filepath.Join(root, "explicit.json"), string(explicit.JSON()))
			out, err = runIn(dir, log, bin, "-generate", filepath.Join(root, "explicit.json"))
			fmt.Fprintf(&desc, "Generate with %s\n", explicit)
		}
		name := fmt.Sprintf("%s/%d", how, i)
		bad := func(key, format string, x ...any) {
			r.Violate(key, "%s: %s\nin effect: %s\n%s", name, fmt.Sprintf(format, x...), eff, desc.String())
		}
		r.Eval("run/"+name+desc.String(), true)
		r.Count("runs_"+how, 1)
		if strings.Contains(out, "ALTERED") {
			bad("generate-alters", "Generate alters the configuration passed in: %s", head(out[strings.Index(out, "ALTERED"):], 1500))
		}
		after := snap(dir)
		chosen := func(d, f string) bool {
			for _, s := range eff["src"].([]string) {
				if selected(dir, s, filepath.Join(dir, d, f)) {
					return true
				}
			}
			return false
		}
		if extra && on(eff["strict"]) {
			r.Count("strict_failures", 1)
			if err == nil {
				bad("strict", "a struct whose TableName has the wrong footprint is accepted although strict is on")
			}
			if d := before.diff(after); len(d) > 0 {
				bad("strict", "a refused run changes %v", d)
			}
			return
		}
		if err != nil {
			bad("fails", "generating fails: %v\n%s", err, logTail(out))
			return
		}
		if extra {
			r.Count("lenient_runs", 1)
		}

		// the files
		gen := text(eff["exec.filename"])
		want := map[string]bool{}
		for _, m := range judged20 {
			if chosen(m.dir, m.file) {
				want[m.dir+"/"+gen] = true
			}
		}
		if chosen("e", "e.go") && !on(eff["exec.skip_empty"]) {
			want["e/"+gen] = true
		}
		if extra && chosen("s", "s.go") {
			want["s/"+gen] = true
		}
		db := filepath.Join(text(eff["database.dir"]), text(eff["database.filename"]))
		op := filepath.Join(text(eff["database.operator.dir"]), text(eff["database.operator.filename"]))
		want[db], want[op] = true, true
		for _, d := range before.diff(after) {
			p := d[1:]
			if strings.HasSuffix(p, "/") && d[0] == '+' {
				continue
			}
			if d[0] != '+' || !want[p] {
				bad("files", "%s: the run should write %v", d, keys(want))
			}
			delete(want, p)
		}
		if len(want) > 0 {
			bad("files", "%v are not written", keys(want))
			return
		}
		driver := text(eff["driver"])
		for _, x := range [][4]string{{db, "db.go", "database", "database.package"}, {op, "operator.go", "database.operator", "database.operator.package"}} {
			s, p := withoutPackage(after[x[0]])
			r.Eval("helpers/"+name+x[0], true)
			if p != eff[x[3]] {
				bad("database", "%s is of package %s, %s is %v", x[0], p, x[3], eff[x[3]])
			}
			if s != helpers(driver, x[1]) {
				bad("driver", "%s is not the one for %s:\n%s", x[0], driver, firstDiff(helpers(driver, x[1]), s))
			}
		}
		// go mod tidy
		tidy, _ := os.ReadFile(log)
		if w := map[bool]string{true: "", false: "mod tidy\n"}[on(eff["skip_mod_tidy"])]; string(tidy) != w {
			bad("skip_mod_tidy", "the module commands run are %q", tidy)
		}
		// the models
		for _, m := range judged20 {
			if !chosen(m.dir, m.file) {
				continue
			}
			r.Eval("model/"+name+m.name, true)
			r.Count("models_judged", 1)
			e.c20model(m, after[m.dir+"/"+gen], eff, bad)
		}
		for f := range after {
			if strings.HasSuffix(f, "/"+gen) || f == db || f == op {
				head := strings.Contains(after[f], "// Code generated by sqlgen")
				if !head && !on(eff["skip_header"]) {
					bad("header", "%s has no header", f)
				}
				if head && on(eff["skip_header"]) {
					bad("skip-header", "%s has a header although skip_header is on", f)
				}
			}
		}
		r.Sample("effects", desc.String())
	})

	// source_map leaves a trace
	trees := [2]Snapshot{}
	for i := range trees {
		dir := filepath.Join(e.work, "c20", fmt.Sprint("map", i))
		project(dir, false)
		write(filepath.Join(e.work, "c20", "map.yml"), fmt.Sprintf("skip_mod_tidy: true\nsource_map: %v\n", i == 1))
		r.Eval(fmt.Sprint("source_map", i), true)
		if out, err := runIn(dir, "/dev/null", e.cli, "-c", filepath.Join(e.work, "c20", "map.yml")); err != nil {
			r.Violate("fails", "generating fails: %v\n%s", err, logTail(out))
		}
		trees[i] = snap(dir)
		os.RemoveAll(dir)
	}
	if len(trees[0].diff(trees[1])) == 0 {
		r.Violate("source-map", "source_map: true generates what source_map: false does")
	}
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c20model judges the methods of one model by the settings.
func (e *env) c20model(m model20, src string, eff conf.Layer, bad func(key, format string, x ...any)) {
	g, err := parseGo(src)
	if err != nil {
		bad("output", "%s: %v", m.dir, err)
		return
	}
	ms := g.Methods[m.name]
	driver := text(eff["driver"])
	q := func(s string) string {
		if !on(eff["quote_identifier"]) {
			return s
		}
		if driver == "mysql" {
			return "`" + s + "`"
		}
		return `"` + s + `"`
	}
	lits := func(method string) []string {
		if ms[method] == nil {
			return nil
		}
		return stringsOf(ms[method])
	}
	conv := text(eff["naming_convention"])
	table, _ := spec.Rename(conv, m.name)
	if have := lits("TableName"); len(have) != 1 || have[0] != q(table) {
		bad("naming", "table of %s: %q, want %q", m.name, have, q(table))
	}
	var cols, sel []string
	dt, _ := eff["data_types"].(map[string]conf.DataType)
	for _, f := range m.fields {
		c, _ := spec.Rename(conv, f)
		if t, ok := m.tagged[f]; ok {
			c = text(eff["struct_tag"]) + t
		}
		cols = append(cols, q(c))
		s := q(c)
		if d, ok := dt["time.Time"]; ok && f == "MadeOn" && d.SQLScanner != nil {
			s = strings.ReplaceAll(*d.SQLScanner, "{{.}}", s)
		}
		sel = append(sel, s)
	}
	if have := lits("Columns"); fmt.Sprint(have) != fmt.Sprint(cols) {
		bad("columns", "columns of %s: %q, want %q", m.name, have, cols)
	}
	if have := lits("SQLColumns"); fmt.Sprint(sel) != fmt.Sprint(cols) && fmt.Sprint(have) != fmt.Sprint(sel) {
		bad("data_types", "select columns of %s: %q, want %q", m.name, have, sel)
	}
	// what writes is there unless read_only
	ro := on(eff["read_only"])
	for _, w := range []string{"Values", "InsertPlaceholders", "InsertOneStmt", "UpdateOneByPKStmt"} {
		if (ms[w] == nil) != ro {
			bad("read_only", "%s of %s: present %v", w, m.name, ms[w] != nil)
		}
	}
	for _, w := range []string{"Addrs", "HasPK", "PK", "FindOneByPKStmt"} {
		if ms[w] == nil {
			bad("output", "%s has no %s", m.name, w)
		}
	}
	mark := "?"
	if driver == "postgres" {
		mark = "$1"
	}
	if have := strings.Join(lits("FindOneByPKStmt"), ""); !strings.Contains(have, "= "+mark+" ") {
		bad("driver", "the placeholders of %s: %q", driver, have)
	}
	ins := strings.Join(lits("InsertOneStmt"), "")
	if d, ok := dt["time.Time"]; ok && m.name == "UserRecord" && !ro {
		mark := "?"
		if driver == "postgres" {
			mark = "$4"
		}
		v := mark
		if d.SQLValuer != nil {
			v = strings.ReplaceAll(*d.SQLValuer, "{{.}}", mark)
		}
		if !strings.Contains(ins, ","+v+",") {
			bad("data_types", "the value of MadeOn should be %s: %s", v, ins)
		}
	}
	// getters
	prefix := text(eff["getter.prefix"])
	for n := range ms {
		for _, f := range m.fields {
			if n != f && strings.HasSuffix(n, f) && (on(eff["omit_getters"]) || n != prefix+f) {
				bad("getters", "%s has method %s", m.name, n)
			}
		}
	}
	for _, f := range m.fields {
		if (ms[prefix+f] == nil) != on(eff["omit_getters"]) {
			bad("getters", "%s%s of %s: present %v", prefix, f, m.name, ms[prefix+f] != nil)
		}
	}
	// converters of types
	if m.name != "UserRecord" {
		return
	}
	for _, t := range []struct{ typ, pre string }{{"time.Time", ""}, {"work/e.Kind", "K"}} {
		d, ok := dt[t.typ]
		for _, x := range "ABC" {
			for _, f := range []string{"Scan", "Val"} {
				call := fmt.Sprintf("e.%s%s%c(", t.pre, f, x)
				want := ok && strings.Contains(d.Scanner+d.Valuer, call)
				if want && f == "Val" && ro && on(eff["omit_getters"]) {
					continue
				}
				if strings.Contains(src, call) != want {
					bad("data_types", "%s is used: %v, want %v", call, !want, want)
				}
			}
		}
	}
}

// session20 answers the questions of sqlgen init.
type session20 struct {
	driver, conv int // how far down the lists
	tag          string
	strict, ok   bool
	force        bool
}

// pty runs a program on a terminal of its own and answers each question.
func pty(dir, bin string, args []string, answers [][2]string, pace time.Duration) (out string, code int, answered int, err error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	defer m.Close()
	ioctl := func(req uintptr, p unsafe.Pointer) error {
		if _, _, en := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(p)); en != 0 {
			return en
		}
		return nil
	}
	var lock int32
	if err = ioctl(0x40045431, unsafe.Pointer(&lock)); err != nil {
		return
	}
	var n uint32
	if err = ioctl(0x80045430, unsafe.Pointer(&n)); err != nil {
		return
	}
	size := [4]uint16{50, 200, 0, 0}
	ioctl(syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.Env = append(roEnv(), "TERM=xterm")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	if err = cmd.Start(); err != nil {
		s.Close()
		return
	}
	s.Close()
	var mu sync.Mutex
	var buf bytes.Buffer
	go func() {
		b := make([]byte, 4096)
		for {
			k, err := m.Read(b)
			mu.Lock()
			buf.Write(b[:k])
			mu.Unlock()
			for c := bytes.Count(b[:k], []byte("\x1b[6n")); c > 0; c-- {
				m.WriteString("\x1b[1;1R")
			}
			if err != nil {
				return
			}
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	from := 0
	limit := time.Now().Add(25 * time.Second)
	for {
		select {
		case werr := <-done:
			time.Sleep(20 * time.Millisecond)
			mu.Lock()
			out = buf.String()
			mu.Unlock()
			code = cmd.ProcessState.ExitCode()
			if _, ok := werr.(*exec.ExitError); werr != nil && !ok {
				err = werr
			}
			return
		case <-time.After(15 * time.Millisecond):
		}
		if time.Now().After(limit) {
			cmd.Process.Kill()
			<-done
			err = fmt.Errorf("the session did not end")
			out = buf.String()
			return
		}
		if answered < len(answers) {
			mu.Lock()
			s := buf.String()
			mu.Unlock()
			if i := strings.Index(s[from:], answers[answered][0]); i >= 0 {
				from += i + len(answers[answered][0])
				time.Sleep(4 * pace)
				for _, key := range strings.SplitAfter(strings.ReplaceAll(answers[answered][1], "\x1b", "\x00\x1b"), "\x00") {
					m.WriteString(strings.TrimSuffix(key, "\x00"))
					time.Sleep(pace)
				}
				answered++
			}
		}
	}
}

func (e *env) c20init(bin string) {
	r := e.r
	drivers := []string{"mysql", "postgres", "sqlite"}
	convs := []string{"snake_case", "camelCase", "PascalCase"}
	parallel(r.N(24, 200), func(i int) {
		rng := r.Rand(fmt.Sprintf("init%d", i))
		dir := filepath.Join(e.work, "c20", fmt.Sprint("init", i))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		s := session20{driver: rng.Intn(3), conv: rng.Intn(3), tag: []string{"", "db", "orm", "my_tag"}[rng.Intn(4)], strict: rng.Intn(2) == 0, ok: rng.Intn(5) > 0, force: rng.Intn(2) == 0}
		file := conf.Layer{}
		desc := ""
		exists := false
		found := false
		for _, f := range []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"} {
			if i%4 != 0 && rng.Intn(3) > 0 {
				continue
			}
			l := random20(rng, 1+rng.Intn(4), true)
			y := l.YAML(rng)
			write(filepath.Join(dir, f), y)
			desc += "--- " + f + "\n" + y
			if !found {
				file, found = l, true
			}
			exists = exists || f == "sqlgen.yml"
		}
		down := func(n int) string { return strings.Repeat("\x1b[B", n) + "\r" }
		yes := func(b bool) string { return map[bool]string{true: "y\r", false: "n\r"}[b] }
		answers := [][2]string{{"sql driver:", down(s.driver)}, {"naming convention:", down(s.conv)}, {"tag for parsing:", s.tag + "\r"}, {"strict parsing:", yes(s.strict)}, {"Is this OK?", yes(s.ok)}}
		args := []string{"init"}
		if s.force {
			args = append(args, []string{"-f", "--force"}[rng.Intn(2)])
		}
		files := snap(dir)
		desc = fmt.Sprintf("%s\nanswers %+v\n%s", strings.Join(args, " "), s, desc)
		// the keys of a session may get lost on a busy machine: what counts is
		// what happens every time
		for try := 0; ; try++ {
			dir := fmt.Sprint(dir, "-", try)
			files.write(dir)
			os.MkdirAll(dir, 0o755)
			wrong, count := e.c20session(bin, dir, args, answers, s, exists, drivers, convs, file, time.Duration(15+60*try)*time.Millisecond)
			os.RemoveAll(dir)
			if count == "unfinished" || wrong != "" && try < 2 {
				if try < 2 {
					continue
				}
			}
			r.Count("init_"+count, 1)
			if count != "unfinished" {
				r.Eval("init/"+desc, true)
			}
			if wrong != "" {
				r.Violate("init-command", "sqlgen init: %s\n%s", wrong, desc)
			}
			return
		}
	})
}

// c20session runs one session and says what is wrong with the outcome.
func (e *env) c20session(bin, dir string, args []string, answers [][2]string, s session20, exists bool, drivers, convs []string, file conf.Layer, pace time.Duration) (wrong, count string) {
	before := snap(dir)
	out, code, answered, err := pty(dir, e.cli, args, answers, pace)
	after := snap(dir)
	switch {
	case err != nil:
		fmt.Fprintf(os.Stderr, "note: init session: %v\n%q\n", err, tail(out, 400))
		return "", "unfinished"
	case code != 0:
		return fmt.Sprintf("exit status %d\n%q", code, tail(out, 800)), "failed"
	case exists && !s.force:
		if d := before.diff(after); len(d) > 0 {
			wrong = fmt.Sprintf("an existing configuration is changed without -f: %v", d)
		}
		return wrong, "kept"
	case answered != len(answers):
		return "", "unfinished"
	case !s.ok:
		if d := before.diff(after); len(d) > 0 {
			wrong = fmt.Sprintf("changes %v although the answer was no", d)
		}
		return wrong, "refused"
	}
	for _, d := range before.diff(after) {
		if d[1:] != "sqlgen.yml" {
			return "touches " + d, "written"
		}
	}
	given := conf.Layer{"driver": drivers[s.driver], "naming_convention": convs[s.conv], "struct_tag": s.tag, "strict": s.strict}
	if s.tag == "" {
		given["struct_tag"] = "sql"
	}
	js, err := exec.Command(bin, "-load", filepath.Join(dir, "sqlgen.yml")).Output()
	if err != nil {
		return fmt.Sprintf("what it wrote cannot be read: %v\n%s", err, after["sqlgen.yml"]), "written"
	}
	have, err := conf.Read(js)
	if err != nil {
		die("%v", err)
	}
	if d := have.Diff(conf.Effective(given, file)); len(d) > 0 {
		return fmt.Sprintf("what it wrote is read back as %v\n%s", d, after["sqlgen.yml"]), "written"
	}
	return "", "written"
}
