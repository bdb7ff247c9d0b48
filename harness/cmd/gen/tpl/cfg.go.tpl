// The configuration monitor: loads, merges and writes configurations through
// the real package and compares every setting with the reference.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"verif/harness/conf"
	"verif/harness/ev"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

func js(c *codegen.Config) []byte {
	b, err := json.Marshal(c)
	die(err)
	return b
}

func layer(c *codegen.Config) conf.Layer {
	l, err := conf.Read(js(c))
	die(err)
	return l
}

func config(l conf.Layer) *codegen.Config {
	c := new(codegen.Config)
	die(json.Unmarshal(l.JSON(), c))
	return c
}

// spoil changes everything reachable from c.
func spoil(c *codegen.Config) {
	for i := range c.Source {
		c.Source[i] = "spoilt"
	}
	if c.Strict != nil {
		*c.Strict = !*c.Strict
	}
	if c.Database != nil {
		c.Database.Dir, c.Database.Package = "spoilt", "spoilt"
		if c.Database.Operator != nil {
			c.Database.Operator.Dir = "spoilt"
		}
	}
	if c.DataTypes != nil {
		c.DataTypes["spoilt"] = &codegen.DataType{DataType: "spoilt"}
		delete(c.DataTypes, "time.Time")
	}
}

var names = []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"}

func main() {
	prep := flag.String("prep", "", "")
	gen := flag.String("generate", "", "")
	load := flag.String("load", "", "")
	flag.Parse()
	if *gen != "" {
		// generates with an explicit configuration
		b, err := os.ReadFile(*gen)
		die(err)
		c := new(codegen.Config)
		die(json.Unmarshal(b, c))
		before := string(js(c))
		err = codegen.Generate(c)
		if after := string(js(c)); after != before {
			fmt.Printf("ALTERED %s\n%s\n", before, after)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		return
	}
	if *load != "" {
		c, err := codegen.LoadConfigFrom(*load)
		die(err)
		os.Stdout.Write(js(c))
		return
	}
	r := ev.New("C20")
	r.Absorb(*prep)
	r.Rule = "one evaluation per configuration loaded, merged or written and read back, all settings of which are compared with the layering reference, and per generation whose output is compared with the settings in effect; distinct counts the contents of the layers"
	r.Assume = append(r.Assume, "a setting is given when it is not the zero value of the struct (booleans other than strict can only be switched on) or when its key has a value in the file", "a data_types entry is one setting", "the operator's directory and package default to the database's in effect")
	rng := r.Rand("layers")
	root, err := os.MkdirTemp("", "verif-c20-")
	die(err)
	defer os.RemoveAll(root)
	die(os.Chdir(root))
	check := func(what, desc string, have *codegen.Config, want conf.Layer) {
		r.Eval(what+desc, true)
		r.Count("judged_"+what, 1)
		if d := layer(have).Diff(want); len(d) > 0 {
			r.Violate(what, "%s: %v\n%s", what, d, desc)
		}
	}
	for i, n := 0, r.N(1500, 60000); i < n; i++ {
		for _, f := range append(names, "other.yml") {
			os.Remove(f)
		}
		// files in the directory; the first of the names counts
		k := 1 + rng.Intn(6)
		desc := ""
		var file conf.Layer = conf.Layer{}
		found := false
		if rng.Intn(5) > 0 {
			for _, f := range names {
				if rng.Intn(3) == 0 {
					l := conf.Random(rng, k, true)
					y := l.YAML(rng)
					if rng.Intn(20) == 0 {
						l, y = conf.Layer{}, []string{"", "# nothing\n", "---\n", "\n\n"}[rng.Intn(4)]
					}
					die(os.WriteFile(f, []byte(y), 0o644))
					desc += "--- " + f + "\n" + y
					if !found {
						file, found = l, true
					}
				}
			}
		}
		other := conf.Random(rng, k, true)
		y := other.YAML(rng)
		die(os.WriteFile("other.yml", []byte(y), 0o644))
		explicit := conf.Random(rng, 1+rng.Intn(6), false)
		more := conf.Random(rng, 1+rng.Intn(6), false)
		r.Count("settings_in_files", int64(len(file)+len(other)))
		r.Count("settings_given_explicitly", int64(len(explicit)+len(more)))

		ok := r.Guard("default", "DefaultConfig\n"+desc, func() {
			c := codegen.DefaultConfig()
			check("default", desc, c, conf.Effective(file))
			spoil(c)
			check("default-again", desc, codegen.DefaultConfig(), conf.Effective(file))
		})
		oy := "--- other.yml\n" + y
		ok = r.Guard("load", "LoadConfigFrom\n"+oy, func() {
			src := "other.yml"
			if rng.Intn(2) == 0 {
				src = filepath.Join(root, src)
			}
			c, err := codegen.LoadConfigFrom(src)
			if err != nil {
				r.Violate("load", "LoadConfigFrom: %v\n%s", err, oy)
				return
			}
			check("load", oy, c, conf.Effective(other))
			spoil(c)
			c, err = codegen.LoadConfigFrom(src)
			die(err)
			check("load-again", oy, c, conf.Effective(other))
		}) && ok
		if !ok {
			continue
		}
		ex := "\nexplicit: " + explicit.String()
		merge := func(what, desc string, into *codegen.Config, l conf.Layer, want conf.Layer) *codegen.Config {
			arg := config(l)
			if arg.Database == nil && rng.Intn(4) == 0 {
				arg.Database = new(codegen.DatabaseConfig)
			}
			if arg.Database != nil && arg.Database.Operator == nil && rng.Intn(4) == 0 {
				arg.Database.Operator = new(codegen.DatabaseOperatorConfig)
			}
			before := string(js(arg))
			out := into.Merge(arg)
			check(what, desc, out, want)
			if after := string(js(arg)); after != before {
				r.Violate(what+"-alters", "%s: Merge alters its argument %s into %s", what, before, after)
			}
			keep := string(js(out))
			spoil(arg)
			_ = keep
			return out
		}
		r.Guard("merge", "Merge\n"+desc+ex, func() {
			c := merge("merge-default", desc+ex, codegen.DefaultConfig(), explicit, conf.Effective(explicit, file))
			merge("merge-twice", desc+ex+"\nthen "+more.String(), c, more, conf.Effective(more, explicit, file))
			c, err := codegen.LoadConfigFrom("other.yml")
			die(err)
			merge("merge-loaded", oy+ex, c, explicit, conf.Effective(explicit, other))
			merge("merge-empty", ex, new(codegen.Config), explicit, conf.Effective(explicit))
			// a loaded configuration merged into another one is explicit all over
			c, err = codegen.LoadConfigFrom("other.yml")
			die(err)
			eff := conf.Effective(other)
			for k, v := range eff {
				if v == false && k != "strict" || v == "" {
					delete(eff, k)
				}
			}
			before := string(js(c))
			check("merge-configurations", desc+oy, codegen.DefaultConfig().Merge(c), conf.Effective(eff, file))
			if after := string(js(c)); after != before {
				r.Violate("merge-alters", "Merge alters its argument %s into %s", before, after)
			}
			if !func() bool { x, err := codegen.LoadConfigFrom("other.yml"); die(err); return string(js(x)) == before }() {
				r.Violate("merge-alters", "loading the same file again gives another configuration\n%s", oy)
			}
		})
		r.Guard("init", "Init\n"+desc+ex, func() {
			c := codegen.DefaultConfig().Merge(config(explicit))
			if rng.Intn(3) == 0 {
				for _, f := range names {
					os.Remove(f)
				}
			}
			before, want := string(js(c)), layer(c)
			if err := codegen.Init(c); err != nil {
				r.Violate("init", "Init: %v\n%s", err, before)
				return
			}
			if after := string(js(c)); after != before {
				r.Violate("init-alters", "Init alters the configuration %s into %s", before, after)
			}
			text, _ := os.ReadFile("sqlgen.yml")
			got, err := codegen.LoadConfigFrom("sqlgen.yml")
			if err != nil {
				r.Violate("init", "what Init wrote cannot be read: %v\n%s\nfor %s", err, text, before)
				return
			}
			check("init-load", before, got, want)
			check("init-default", before, codegen.DefaultConfig(), want)
		})
		r.Sample("layers", desc+ex)
	}
	// files nobody can read are reported
	for _, y := range []string{"src: {", "driver: [", "src: text\n", "strict: maybe\n", "exec: 3\n", "\t- x"} {
		die(os.WriteFile("other.yml", []byte(y), 0o644))
		r.Eval("unreadable"+y, true)
		if c, err := codegen.LoadConfigFrom("other.yml"); err == nil {
			r.Violate("unreadable", "%q is read as %s", y, js(c))
		}
	}
	if _, err := codegen.LoadConfigFrom("missing.yml"); err == nil {
		r.Violate("unreadable", "a missing file is read")
	}
	os.Chdir("/")
	os.RemoveAll(root)
	r.Finish()
}
