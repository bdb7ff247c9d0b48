package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { before["C18"] = c18 }

// want18 is what the generated file may declare for a struct.
type want18 struct {
	name     string
	src      string
	readonly bool
	keyed    bool
	auto     bool
	updates  bool     // there is a column an update by key writes
	inserts  bool     // there is a column an insert writes
	cols     []string // Go names of its columns
	own      map[string]bool
}

// gen18 writes the declarations of one package.
type gen18 struct {
	rng    *rand.Rand
	n      int
	models []*want18
	body   strings.Builder
	imps   map[string]bool
}

func (g *gen18) pick(l ...string) string { return l[g.rng.Intn(len(l))] }

// notes are comment lines which say a struct is readonly or ignored.
func (g *gen18) note(word string) string {
	return g.pick(
		"// +sql:"+word+"\n",
		"//+sql:"+word+"\n",
		"// +sql:"+strings.ToUpper(word)+"\n",
		"// +SQL:"+strings.ToUpper(word[:1])+word[1:]+"\n",
		"// It is a struct.\n//\n// +sql:"+word+"\n",
		"// +sql:"+word+"\n// and more text\n",
		"// +sql: "+word+"\n",
		"/*\nA block comment\n\n+sql:"+word+"\n*/\n",
		"// +sql:other,"+word+"\n",
		"// +sql:"+word+" , other\n",
	)
}

// plain comments say nothing.
func (g *gen18) remark() string {
	return g.pick("", "", "// A readonly thing, ignore it.\n", "// sql:readonly\n", "// +build-like text +sqlx:ignore\n", "// +other:readonly\n")
}

// fields writes fields and returns the columns; bad fields may be written for
// structs nobody looks at.
func (g *gen18) fields(w *want18, b *strings.Builder, prefix string) {
	for i, n := 0, 1+g.rng.Intn(6); i < n; i++ {
		name := fmt.Sprintf("%sF%d", prefix, i)
		typ := g.pick("string", "int64", "*string", "[]byte", "bool", "float64", "map[string]int", "*int32")
		switch g.rng.Intn(9) {
		case 0:
			fmt.Fprintf(b, "\t%s %s `sql:\"%s\"`\n", strings.ToLower(name), typ, g.pick("x", "x,readonly", "", ",pk"))
		case 1:
			fmt.Fprintf(b, "\t%s %s `sql:\"%s\"`\n", name, g.pick(typ, "**int", "chan int", "func()"), g.pick("-", "-,pk", " - "))
		case 2:
			fmt.Fprintf(b, "\t%s %s `sql:\"%s\"`\n", name, typ, g.pick(",readonly", ",READONLY", "c"+strings.ToLower(name)+",readonly", ", readonly", ",size:10,readonly"))
			w.cols = append(w.cols, name)
		case 3:
			fmt.Fprintf(b, "\t%s, %sB %s\n", name, name, typ)
			w.cols = append(w.cols, name, name+"B")
			w.inserts, w.updates = true, true
		case 4:
			fmt.Fprintf(b, "\t_ %s\n", typ)
		default:
			fmt.Fprintf(b, "\t%s %s `json:\"a,omitempty\"%s`\n", name, typ, g.pick("", ` sql:""`, ` sql:",size:20"`, ` sql:" "`))
			w.cols = append(w.cols, name)
			w.inserts, w.updates = true, true
		}
	}
}

func (g *gen18) key(w *want18, b *strings.Builder) {
	switch g.rng.Intn(4) {
	case 0:
		b.WriteString("\tID int64 `sql:\"id," + g.pick("auto_increment", "pk,auto_increment", "AUTO_INCREMENT", " auto_increment ") + "\"`\n")
		w.keyed, w.auto = true, true
		w.cols = append(w.cols, "ID")
	case 1:
		b.WriteString("\tKey string `sql:\"" + g.pick("key,pk", ",primary_key", ",PK", ",Primary_Key", ", pk", ",unique,pk") + "\"`\n")
		w.keyed, w.inserts = true, true
		w.cols = append(w.cols, "Key")
	case 2:
		b.WriteString("\tKa, Kb int64 `sql:\"" + g.pick(",pk", ",PK") + "\"`\n")
		w.keyed, w.inserts = true, true
		w.cols = append(w.cols, "Ka", "Kb")
	}
}

// junk is a body nobody may look at.
func (g *gen18) junk() string {
	return g.pick(
		"\tA string\n\tB string `sql:\"a\"`\n",
		"\tA **int\n",
		"\tA string `sql:\"a b\"`\n",
		"\tA int64 `sql:\",pk,readonly\"`\n",
		"\tA, B int64 `sql:\",auto_increment\"`\n",
		"\tTableName string\n",
		"\tA int\n",
	)
}

var userMethods = []string{"TableName", "DatabaseName", "Columns", "Values", "Addrs", "SQLColumns"}

func (g *gen18) one() {
	g.n++
	n := g.n
	name := fmt.Sprintf("%s%d", g.pick("Model", "Thing", "Row"), n)
	b := &g.body
	switch k := g.rng.Intn(16); k {
	case 0: // unexported
		fmt.Fprintf(b, "%stype hidden%d struct {\n%s}\n\n", g.remark(), n, g.junk())
	case 1: // ignored, whatever it holds
		junk := g.junk()
		fmt.Fprintf(b, "%stype %s struct {\n%s}\n\n", g.note("ignore"), name, junk)
		if g.rng.Intn(2) == 0 && !strings.Contains(junk, "TableName") {
			fmt.Fprintf(b, "func (%s) TableName() int { return 0 }\n\n", name)
		}
	case 2: // aliases and other types
		t := name
		if len(g.models) > 0 {
			t = g.models[g.rng.Intn(len(g.models))].name
		} else {
			t = "struct{ A int }"
		}
		fmt.Fprintf(b, "type Alias%d = %s\n\ntype Enum%d int\n\ntype List%d []string\n\ntype Fn%d func() error\n\ntype Face%d interface{ M%d() }\n\n", n, t, n, n, n, n, n)
	case 3: // generic and local ones
		fmt.Fprintf(b, "func fn%d() any {\n\ttype Inner%d struct {\n%s\t}\n\t// +sql:ignore\n\ttype %s struct{ A int }\n\treturn %s{}\n}\n\n", n, n, g.junk(), name, name)
	case 4: // no column at all
		fmt.Fprintf(b, "type Empty%d struct%s\n\n", n, g.pick("{}", "{\n\ta, b int\n}", "{\n\tA int `sql:\"-\"`\n}", "{\n\t_ int\n}"))
	case 5: // embedded parts: one ignored through its tag, one a part
		w := &want18{name: name, own: map[string]bool{}}
		fmt.Fprintf(b, "// +sql:ignore\ntype Part%d struct {\n", n)
		p := &want18{}
		g.fields(p, b, fmt.Sprintf("P%d", n))
		fmt.Fprintf(b, "}\n\n// +sql:readonly,ignore\ntype lost%d struct {\n\tX **int\n\tY string `sql:\"no good\"`\n}\n\n", n)
		fmt.Fprintf(b, "%stype %s struct {\n", g.remark(), name)
		g.key(w, b)
		fmt.Fprintf(b, "\t%sPart%d\n", g.pick("", "*"), n)
		fmt.Fprintf(b, "\tlost%d `sql:\"-\"`\n", n)
		w.cols = append(w.cols, p.cols...)
		w.inserts = w.inserts || p.inserts
		w.updates = w.updates || p.updates
		g.fields(w, b, "")
		b.WriteString("}\n\n")
		g.add(w)
	case 6: // a group: the group's comment is for all, the others for one
		a := &want18{name: name, own: map[string]bool{}, readonly: true}
		c := &want18{name: name + "C", own: map[string]bool{}}
		fmt.Fprintf(b, "%stype (\n", g.remark())
		fmt.Fprintf(b, "\t%s\t%s struct {\n", g.note("readonly"), name)
		g.key(a, b)
		g.fields(a, b, "")
		fmt.Fprintf(b, "}\n\n\t%s\t%sB struct {\n%s}\n\n", g.note("ignore"), name, g.junk())
		fmt.Fprintf(b, "\t%s\t%sC struct {\n", g.remark(), name)
		g.key(c, b)
		g.fields(c, b, "")
		fmt.Fprintf(b, "\t}\n\n\thidden%d struct { %sB }\n)\n\n", n, name)
		g.add(a)
		g.add(c)
	case 7: // the group's comment
		word := g.pick("readonly", "ignore")
		fmt.Fprintf(b, "%stype (\n", g.note(word))
		for _, s := range []string{"A", "B"} {
			w := &want18{name: name + s, own: map[string]bool{}, readonly: true}
			fmt.Fprintf(b, "\t%s struct {\n", w.name)
			g.key(w, b)
			g.fields(w, b, "")
			b.WriteString("\t}\n")
			if word != "ignore" {
				g.add(w)
			}
		}
		b.WriteString(")\n\n")
	default:
		w := &want18{name: name, own: map[string]bool{}}
		doc := g.remark()
		if g.rng.Intn(3) == 0 {
			w.readonly = true
			doc = g.note("readonly")
		} else if g.rng.Intn(4) == 0 {
			// a comment that is not the struct's
			doc = g.note(g.pick("ignore", "readonly")) + "\n"
		}
		fmt.Fprintf(b, "%stype %s struct {\n", doc, name)
		g.key(w, b)
		g.fields(w, b, "")
		b.WriteString("}")
		if g.rng.Intn(6) == 0 {
			b.WriteString(" // +sql:ignore")
		}
		b.WriteString("\n\n")
		for _, m := range userMethods {
			if g.rng.Intn(8) > 0 {
				continue
			}
			w.own[m] = true
			switch m {
			case "TableName", "DatabaseName":
				fmt.Fprintf(b, "func (%s) %s() string { return \"mine\" }\n\n", name, m)
			case "Columns", "SQLColumns":
				fmt.Fprintf(b, "func (%s) %s() []string { return nil }\n\n", name, m)
			case "Values":
				fmt.Fprintf(b, "func (v %s) Values() []any { return nil }\n\n", name)
			case "Addrs":
				fmt.Fprintf(b, "func (v *%s) Addrs() []any { return nil }\n\n", name)
			}
		}
		g.add(w)
	}
}

func (g *gen18) add(w *want18) {
	if len(w.cols) > 0 {
		g.models = append(g.models, w)
	}
}

var writers18 = []string{"Values", "InsertColumns", "InsertPlaceholders", "InsertOneStmt", "UpdateOneByPKStmt", "DeleteOneByPKStmt"}

func c18(e *env) {
	parallel(e.r.N(14, 150), func(i int) {
		r := e.r
		rng := r.Rand(fmt.Sprintf("ast%d", i))
		root := filepath.Join(e.work, "c18", fmt.Sprint(i))
		defer os.RemoveAll(root)
		write(filepath.Join(root, "go.mod"), e.modFor("work"))
		dialect := dialects[i%3]
		all := rng.Intn(5) == 0
		prefix := []string{"Column", "Column", "Get", "Col"}[rng.Intn(4)]
		yaml := fmt.Sprintf("src:\n  - \"m/**/*.go\"\ndriver: %s\nskip_mod_tidy: true\nread_only: %v\ngetter:\n  prefix: %s\n", dialect, all, prefix)
		noGet := rng.Intn(5) == 0
		if noGet {
			yaml += "omit_getters: true\n"
		}
		write(filepath.Join(root, "sqlgen.yml"), yaml)
		pkgs := map[string]*gen18{}
		for k := 0; k < 2; k++ {
			g := &gen18{rng: rng}
			for j := 0; j < 14; j++ {
				g.one()
			}
			dir := fmt.Sprintf("m/p%d", k)
			pkgs[dir] = g
			write(filepath.Join(root, dir, "m.go"), fmt.Sprintf("package p%d\n\n%s", k, g.body.String()))
		}
		key := fmt.Sprintf("ast/%d", i)
		out, err := e.sqlgenRO(root)
		if err != nil {
			r.Eval(key, true)
			src, _ := os.ReadFile(filepath.Join(root, "m/p0/m.go"))
			src1, _ := os.ReadFile(filepath.Join(root, "m/p1/m.go"))
			r.Violate("refused", "%s: an acceptable package is refused: %v\n%s\n%s\n%s", key, err, logTail(out), src, src1)
			return
		}
		for dir, g := range pkgs {
			src, _ := os.ReadFile(filepath.Join(root, dir, "generated.go"))
			f, err := parseGo(string(src))
			if err != nil {
				r.Violate("ast", "%s/%s: %v", key, dir, err)
				continue
			}
			want := map[string]*want18{}
			for _, w := range g.models {
				want[w.name] = w
			}
			bad := func(t, format string, x ...any) {
				r.Violate("ast", "%s %s (%s, read_only %v) %s: %s\n%s", key, dir, dialect, all, t, fmt.Sprintf(format, x...), g.body.String())
			}
			for t := range f.Methods {
				if want[t] == nil {
					r.Eval(key+dir+t, true)
					bad(t, "has generated code, though it is no model")
				}
			}
			for _, w := range g.models {
				r.Eval(key+dir+w.name, true)
				ms := f.Methods[w.name]
				if ms == nil {
					bad(w.name, "is a model without generated code")
					continue
				}
				for m := range w.own {
					if ms[m] != nil {
						bad(w.name, "%s is generated again", m)
					}
				}
				r.Count("own_methods", int64(len(w.own)))
				must := map[string]bool{"TableName": true, "Columns": true, "Addrs": true}
				if w.keyed {
					must["FindOneByPKStmt"] = true
				}
				if w.readonly || all {
					r.Count("readonly_structs", 1)
					for _, m := range writers18 {
						if ms[m] != nil {
							bad(w.name, "is readonly but has the write method %s", m)
						}
					}
				} else {
					if w.inserts {
						must["Values"], must["InsertOneStmt"], must["InsertPlaceholders"] = true, true, true
					}
					if w.keyed && w.updates {
						must["UpdateOneByPKStmt"] = true
					}
				}
				for m := range must {
					if ms[m] == nil && !w.own[m] {
						bad(w.name, "has no %s", m)
					}
				}
				var got []string
				for m := range ms {
					if strings.HasPrefix(m, prefix) && m != "Columns" {
						got = append(got, strings.TrimPrefix(m, prefix))
					}
				}
				var cols []string
				if !noGet {
					cols = append(cols, w.cols...)
				}
				sort.Strings(got)
				sort.Strings(cols)
				if fmt.Sprint(got) != fmt.Sprint(cols) {
					bad(w.name, "has accessors of the columns %v, its columns are %v", got, cols)
				}
			}
		}
		if out, err := e.run(root, append(os.Environ(), "GOWORK=off", "GOFLAGS=-buildvcs=false -mod=mod"), "go", "build", "./m/..."); err != nil {
			r.Violate("ast-compile", "%s: the generated code does not compile: %v\n%s", key, err, head(out, 1500))
		}
		r.Eval(key+"/compile", true)
	})
}
