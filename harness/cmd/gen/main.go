// Command gen prepares the generated code a check needs: it builds the sqlgen
// command from /repo, writes model packages, runs the generator on them, adds
// the glue that drives the generated helpers and builds and runs the monitors.
package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/ev"
	"verif/harness/rt"
	"verif/harness/spec"
)

//go:embed tpl/glue.go.tpl
var glueTpl string

// Plan is one flavour to generate.
type Plan struct {
	Name    string
	Conf    spec.Conf
	Structs []*spec.Struct // seen by the generator
	Hand    []*spec.Struct // hand-written models, in a package of their own
	NoGlue  bool
	Imports []string
}

type env struct {
	r    *ev.Run
	work string
	repo string
	cli  string
	mu   sync.Mutex

	buildOnly bool
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(4)
}

// repoDir is the tree under check: /repo, unless a copy is tried out.
func repoDir() string {
	if dir := os.Getenv("VERIF_REPO"); dir != "" {
		return dir
	}
	return "/repo"
}

func main() {
	prop := flag.String("prop", "", "")
	work := flag.String("work", "", "")
	buildOnly := flag.Bool("build", false, "stop once the monitor binary is built")
	only := flag.String("only", "", "")
	flag.Parse()
	e := &env{r: ev.New(*prop), work: *work, repo: repoDir(), buildOnly: *buildOnly}
	e.buildCLI()
	if f := direct[*prop]; f != nil {
		f(e)
		e.r.Finish()
	}
	p := plans[*prop]
	if p == nil {
		die("unknown property %s", *prop)
	}
	pl := p(e)
	if *only != "" {
		var q []Plan
		for _, x := range pl {
			if strings.Contains(","+*only+",", ","+x.Name+",") {
				q = append(q, x)
			}
		}
		pl = q
	}
	if f := before[*prop]; f != nil && *only == "" {
		f(e)
		if e.r.Failed() {
			e.r.Finish()
		}
	}
	e.runPlans(*prop, pl)
}

func (e *env) buildCLI() {
	e.cli = filepath.Join(e.work, "sqlgen")
	cmd := exec.Command("go", "build", "-o", e.cli, ".")
	cmd.Dir = filepath.Join(e.repo, "cmd/sqlgen")
	if out, err := cmd.CombinedOutput(); err != nil {
		die("building sqlgen: %v\n%s", err, out)
	}
}

func write(path, s string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

func (e *env) goEnv() []string {
	return append(os.Environ(), "GOWORK=off", "GOFLAGS=-buildvcs=false -mod=mod")
}

// module makes dir a module that can import sqlgen and the harness.
func (e *env) module(dir string) {
	write(filepath.Join(dir, "go.mod"), fmt.Sprintf("module work\n\ngo 1.24.0\n\nrequire (\n\tgithub.com/si3nloong/sqlgen v0.0.0\n\tverif/harness v0.0.0\n)\n\nreplace github.com/si3nloong/sqlgen => %s\n\nreplace verif/harness => %s/harness\n", e.repo, ev.Root()))
}

// cmdOut runs a command with a generous limit.
func (e *env) run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if name != e.cli {
		err := ev.Watch(cmd, 600*time.Second, 20<<30)
		return b.String(), err
	}
	err := ev.Watch(cmd, 200*time.Second, 4<<30)
	if errors.Is(err, ev.Stopped) {
		e.r.Violate("stopped", "sqlgen %v in %s: %v", args, dir, err)
	}
	return b.String(), err
}

// sqlgen runs the generator in dir.
func (e *env) sqlgen(dir string, args ...string) (string, error) {
	return e.run(dir, append(e.goEnv(), "GOGC=off", "GOMEMLIMIT=800MiB"), e.cli, args...)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func logTail(out string) string {
	// the generator logs a line per directory; the failure is at the end or in the panic line
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "panic:") {
			return head(out[strings.Index(out, l):], 1200)
		}
	}
	return tail(strings.TrimSpace(out), 800)
}

// genFlavour writes and generates one flavour under dir.
func (e *env) genFlavour(dir string, p Plan) bool {
	base := filepath.Join(dir, p.Name)
	rng := e.r.Rand("files" + p.Name)
	src := []string{p.Name + "/m"}
	if len(p.Imports) > 0 {
		write(filepath.Join(base, "m/models.go"), p.Conf.File("m", true, p.Structs, p.Imports...))
	} else {
		// the models are spread over files, and another package of the same
		// run has structs of the same names
		files := make([][]*spec.Struct, 3)
		for _, s := range p.Structs {
			i := rng.Intn(len(files))
			files[i] = append(files[i], s)
		}
		for i, structs := range files {
			write(filepath.Join(base, "m", []string{"models.go", "a_first.go", "z_last.go"}[i]), p.Conf.File("m", i == 0, structs))
		}
		write(filepath.Join(base, "m0/models.go"), p.Conf.File("m0", true, spec.Shadow(rng, p.Structs)))
		src = append([]string{p.Name + "/m0"}, src...)
	}
	write(filepath.Join(base, "m/anchor.go"), "package m\n\nvar Anchor int\n")
	if len(p.Hand) > 0 {
		write(filepath.Join(base, "hw/hw.go"), p.Conf.File("hw", false, p.Hand, "fmt", "github.com/si3nloong/sqlgen/sequel/encoding"))
	}
	cfg := filepath.Join(base, "cfg.yml")
	write(cfg, p.Conf.Yaml(src, p.Name+"/db"))
	out, err := e.sqlgen(dir, "-c", cfg)
	if err == nil {
		if _, serr := os.Stat(filepath.Join(base, "db/db.go")); serr != nil {
			err = fmt.Errorf("no database file was written")
		}
	}
	if err != nil {
		e.r.Eval("generate/"+p.Name, true)
		e.r.Violate("generate/"+p.Name, "generating flavour %s fails: %v\n%s", p.Name, err, logTail(out))
		return false
	}
	return true
}

// pgOptions gives the options of an upsert in any order, those that ask for
// nothing given or left out.
const pgOptions = `func options(o rt.Upsert) []db.UpsertOption {
	l := []db.UpsertOption{db.WithDoNothing(!o.Override), db.WithOmitFields(o.Omit...), db.WithDuplicateKeys(o.Dup...)}
	all := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	asks := []bool{!o.Override, len(o.Omit) > 0, len(o.Dup) > 0}
	var out []db.UpsertOption
	for _, i := range all[o.Perm%6] {
		if asks[i] || o.Perm/6%2 == 0 {
			out = append(out, l[i])
		}
	}
	return out
}`

func (e *env) glue(dir string, p Plan) {
	imp := "work/" + p.Name
	d := rt.Desc{Name: p.Name, Conf: p.Conf}
	var regs strings.Builder
	one := func(pkg string, s *spec.Struct) {
		m := p.Conf.Model(s)
		if len(m.Cols) == 0 || s.NoGlue {
			return
		}
		d.Models = append(d.Models, m)
		kind := "regKey"
		switch {
		case m.ReadOnly || len(m.Ins()) == 0:
			kind = "reg"
		case !m.HasPK():
			kind = "regIns"
		}
		t := pkg + "." + s.Name
		fmt.Fprintf(&regs, "\tf.Add(%q, %s[%s, *%s](),\n", s.Name, kind, t, t)
		if pkg == "m" {
			for _, c := range m.Cols {
				fn := "anyCol"
				if spec.T(c.Type).Cmp {
					fn = "cmpCol"
				}
				pre := p.Conf.Prefix
				if pre == "" {
					pre = "Column"
				}
				fmt.Fprintf(&regs, "\t\t%s(%q, %s.%s%s),\n", fn, c.Go, t, pre, c.Go)
			}
		}
		regs.WriteString("\t)\n")
	}
	for _, s := range p.Structs {
		one("m", s)
	}
	for _, s := range p.Hand {
		one("hw", s)
	}
	js, _ := json.Marshal(d)
	rep := []string{"PKG", imp, "DESC", strconv.Quote(string(js)), "REGS", regs.String()}
	if len(p.Hand) > 0 {
		rep = append(rep, "HWIMPORT", fmt.Sprintf("hw %q", imp+"/hw"))
	} else {
		rep = append(rep, "HWIMPORT", "")
	}
	if p.Conf.Dialect == "postgres" {
		rep = append(rep, "OPTIONS", pgOptions, "LIMIT", "", "INSERTMANY", "return db.Insert[T, P](ctx, d, x.([]T))",
			"INSERTONE", "return nil, db.InsertOne[T, P](ctx, d, P(x.(*T)))",
			"UPSERTONE", "return nil, db.UpsertOne[T, P](ctx, d, P(x.(*T)), options(o)...)",
			"UPSERTMANY", "return db.Upsert[T, P](ctx, d, x.([]T), options(o)...)")
	} else {
		rep = append(rep, "OPTIONS", "", "LIMIT", ", Limit: e.Limit", "INSERTMANY", "return db.Insert(ctx, d, x.([]T))",
			"INSERTONE", "return db.InsertOne[T, P](ctx, d, P(x.(*T)))",
			"UPSERTONE", "return db.UpsertOne[T, P](ctx, d, P(x.(*T)), o.Override, o.Omit...)",
			"UPSERTMANY", "return db.Upsert[T, P](ctx, d, x.([]T), o.Override, o.Omit...)")
	}
	write(filepath.Join(dir, p.Name, "glue/glue.go"), strings.NewReplacer(rep...).Replace(glueTpl))
}

// runPlans generates every flavour, builds the monitor binary and runs it. It
// does not return.
func (e *env) runPlans(prop string, plans []Plan) {
	dir := filepath.Join(e.work, "w")
	e.module(dir)
	ok := make([]bool, len(plans))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i, p := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ok[i] = e.genFlavour(dir, p)
		}()
	}
	wg.Wait()
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"verif/harness/rt\"\n")
	for i, p := range plans {
		if !ok[i] {
			continue
		}
		if p.NoGlue {
			fmt.Fprintf(&main, "\t_ \"work/%s/db\"\n\t_ \"work/%s/m\"\n", p.Name, p.Name)
		} else {
			e.glue(dir, p)
			fmt.Fprintf(&main, "\t_ \"work/%s/glue\"\n", p.Name)
			if prop == "C06" && len(p.Imports) == 0 {
				fmt.Fprintf(&main, "\t_ \"work/%s/m0\"\n", p.Name)
			}
		}
	}
	main.WriteString(")\n\nfunc main() { rt.Main() }\n")
	write(filepath.Join(dir, "run/main.go"), main.String())
	if e.r.Failed() {
		e.r.Finish()
	}
	bin := filepath.Join(e.work, "run")
	args := []string{"build", "-o", bin}
	if prop == "C15" {
		args = append(args, "-race")
	}
	args = append(args, "./run")
	out, err := e.run(dir, e.goEnv(), "go", args...)
	if err != nil {
		e.r.Eval("compile", true)
		e.r.Violate("compile", "the generated code does not compile with the source it was generated from: %v\n%s", err, head(out, 3000))
		e.r.Finish()
	}
	prep := filepath.Join(e.work, "prep.json")
	e.r.Dump(prep)
	if e.buildOnly {
		os.Exit(0)
	}
	cmd := exec.Command(bin, "-prop", prop, "-prep", prep)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(e.work, "race"))
	cmd.Dir = e.work
	e.r.Child(cmd, func(code int) {
		if prop == "C15" && code == 66 {
			e.raceReports()
		}
	})
}

func (e *env) raceReports() {
	fs, _ := filepath.Glob(filepath.Join(e.work, "race*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		e.r.Eval("race", true)
		e.r.Violate("race", "the race detector reports:\n%s", head(string(b), 4000))
	}
	e.r.Finish()
}
