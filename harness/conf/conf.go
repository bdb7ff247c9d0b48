// Package conf is the reference of how configurations are layered: every
// setting by itself, explicit over file over default.
package conf

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// DataType is a mapping of data_types.
type DataType struct {
	DataType   string
	Scanner    string
	SQLScanner *string
	Valuer     string
	SQLValuer  *string
}

// Layer holds the settings given at one layer, by their path in the file.
type Layer map[string]any

// Setting is one setting.
type Setting struct {
	Path string // in the configuration file
	Go   string // in the configuration struct
	Kind string // string, bool, tri (a bool that can be given as false), list, types
	Pool []string
}

// Settings are all there are.
var Settings = []Setting{
	{"src", "Source", "list", nil},
	{"driver", "Driver", "string", []string{"mysql", "postgres", "sqlite", "mssql", "my driver"}},
	{"naming_convention", "NamingConvention", "string", []string{"snake_case", "camelCase", "PascalCase", "other"}},
	{"struct_tag", "Tag", "string", []string{"sql", "db", "orm", "yes", "12", "x-y"}},
	{"quote_identifier", "QuoteIdentifier", "bool", nil},
	{"read_only", "ReadOnly", "bool", nil},
	{"strict", "Strict", "tri", nil},
	{"exec.skip_empty", "Exec.SkipEmpty", "bool", nil},
	{"exec.filename", "Exec.Filename", "string", []string{"generated.go", "gen.go", "zz sql.go", "model.gen.go"}},
	{"getter.prefix", "Getter.Prefix", "string", []string{"Column", "Get", "Col", "null"}},
	{"migration.dsn", "Migration.DSN", "string", []string{"root:pw@tcp(localhost:3306)/db?x=1&y=%20", "postgres://a:b@h/d", "#none"}},
	{"migration.package", "Migration.Package", "string", []string{"migrate", "mig", "~"}},
	{"migration.dir", "Migration.Dir", "string", []string{"migrate", "./mig", "a/b c"}},
	{"migration.filename", "Migration.Filename", "string", []string{"migrate.go", "m.go"}},
	{"database.package", "Database.Package", "string", []string{"db", "store", "sqldb"}},
	{"database.dir", "Database.Dir", "string", []string{"db", "store", "./out/db", "a/b"}},
	{"database.filename", "Database.Filename", "string", []string{"db.go", "store.go", "helpers.go"}},
	{"database.operator.package", "Database.Operator.Package", "string", []string{"db", "op", "store"}},
	{"database.operator.dir", "Database.Operator.Dir", "string", []string{"db", "op", "store", "out/op"}},
	{"database.operator.filename", "Database.Operator.Filename", "string", []string{"operator.go", "op.go"}},
	{"omit_getters", "OmitGetters", "bool", nil},
	{"source_map", "SourceMap", "bool", nil},
	{"skip_header", "SkipHeader", "bool", nil},
	{"skip_mod_tidy", "SkipModTidy", "bool", nil},
	{"data_types", "DataTypes", "types", nil},
}

var defaults = map[string]any{
	"src": []string{"./**/*"}, "driver": "mysql", "naming_convention": "snake_case", "struct_tag": "sql", "strict": true,
	"exec.filename": "generated.go", "getter.prefix": "Column",
	"migration.package": "migrate", "migration.dir": "migrate", "migration.filename": "migrate.go",
	"database.package": "db", "database.dir": "db", "database.filename": "db.go", "database.operator.filename": "operator.go",
}

// Effective is the value of every setting, the first layer being the most
// explicit one. follow holds back the migration defaults, which are the file's.
func Effective(layers ...Layer) Layer {
	out := Layer{}
	migration := false
	for _, s := range Settings {
		for _, l := range layers {
			if v, ok := l[s.Path]; ok && s.Kind != "types" {
				if strings.HasPrefix(s.Path, "migration.") {
					migration = true
				}
				// a boolean switched on somewhere is on
				if s.Kind == "bool" && v == false {
					continue
				}
				out[s.Path] = v
				break
			}
		}
	}
	for _, s := range Settings {
		if _, ok := out[s.Path]; ok {
			continue
		}
		if strings.HasPrefix(s.Path, "migration.") && !migration {
			continue
		}
		if d, ok := defaults[s.Path]; ok {
			out[s.Path] = d
		} else if s.Kind == "bool" {
			out[s.Path] = false
		} else if s.Kind == "string" && s.Path == "migration.dsn" {
			out[s.Path] = ""
		}
	}
	for _, k := range []string{"package", "dir"} {
		if _, ok := out["database.operator."+k]; !ok {
			out["database.operator."+k] = out["database."+k]
		}
	}
	dt := map[string]DataType{}
	for i := len(layers) - 1; i >= 0; i-- {
		if m, ok := layers[i]["data_types"].(map[string]DataType); ok {
			for k, v := range m {
				dt[k] = v
			}
		}
	}
	out["data_types"] = dt
	return out
}

// Tree is the layer as nested objects under the names go gives.
func (l Layer) Tree(gonames bool) map[string]any {
	out := map[string]any{}
	for _, s := range Settings {
		v, ok := l[s.Path]
		if !ok {
			continue
		}
		p := s.Path
		if gonames {
			p = s.Go
		}
		ks := strings.Split(p, ".")
		m := out
		for _, k := range ks[:len(ks)-1] {
			if m[k] == nil {
				m[k] = map[string]any{}
			}
			m = m[k].(map[string]any)
		}
		m[ks[len(ks)-1]] = v
	}
	return out
}

// JSON is the layer as encoding/json reads it into a configuration struct.
func (l Layer) JSON() []byte {
	b, err := json.Marshal(l.Tree(true))
	if err != nil {
		panic(err)
	}
	return b
}

// Read is the layer a configuration struct, given as JSON, stands for.
func Read(js []byte) (Layer, error) {
	var m map[string]any
	if err := json.Unmarshal(js, &m); err != nil {
		return nil, err
	}
	out := Layer{}
	for _, s := range Settings {
		var v any = m
		for _, k := range strings.Split(s.Go, ".") {
			o, ok := v.(map[string]any)
			if !ok {
				v = nil
				break
			}
			v = o[k]
		}
		switch s.Kind {
		case "types":
			b, _ := json.Marshal(v)
			dt := map[string]DataType{}
			if err := json.Unmarshal(b, &dt); err != nil {
				return nil, err
			}
			if dt == nil {
				dt = map[string]DataType{}
			}
			out[s.Path] = dt
		case "list":
			if a, ok := v.([]any); ok {
				l := []string{}
				for _, x := range a {
					l = append(l, fmt.Sprint(x))
				}
				out[s.Path] = l
			}
		default:
			if v != nil {
				out[s.Path] = v
			}
		}
	}
	return out, nil
}

// Diff names the settings at which two layers differ.
func (l Layer) Diff(o Layer) []string {
	var out []string
	for _, s := range Settings {
		a, _ := json.Marshal(l[s.Path])
		b, _ := json.Marshal(o[s.Path])
		if string(a) != string(b) {
			out = append(out, fmt.Sprintf("%s: %s, want %s", s.Path, a, b))
		}
	}
	return out
}

func (l Layer) String() string {
	b, _ := json.Marshal(l)
	return string(b)
}

var sources = []string{"./**/*", "model/**/*.go", "m", "*.go", "./a b/*.go", "x/[a].go", "!m", "- m", "m # not a comment", "'m'", "{m}", "m: n", "@m", "%m"}

func strPtr(s string) *string { return &s }

// Random gives each setting with the probability of one in k.
func Random(rng *rand.Rand, k int, file bool) Layer {
	l := Layer{}
	for _, s := range Settings {
		if rng.Intn(k) > 0 {
			continue
		}
		switch s.Kind {
		case "string":
			l[s.Path] = s.Pool[rng.Intn(len(s.Pool))]
		case "bool":
			l[s.Path] = !file || rng.Intn(3) > 0
		case "tri":
			l[s.Path] = rng.Intn(2) == 0
		case "list":
			var v []string
			for n := 1 + rng.Intn(3); n > 0; n-- {
				v = append(v, sources[rng.Intn(len(sources))])
			}
			l[s.Path] = v
		case "types":
			m := map[string]DataType{}
			for n := 1 + rng.Intn(3); n > 0; n-- {
				d := DataType{DataType: []string{"varchar(255)", "bigint", "enum('a','b')", "text: x"}[rng.Intn(4)],
					Scanner: []string{"pkg.Scan({{addrOfGoPath}})", "", "github.com/a/b.New({{goPath}})"}[rng.Intn(3)],
					Valuer:  []string{"{{goPath}}.X()", "", "\"quoted\"", "`raw`"}[rng.Intn(4)]}
				if rng.Intn(2) == 0 {
					d.SQLScanner = strPtr([]string{"ST_AsBinary({{.}}, 4326)", "f({{ . }})", "#{{.}}"}[rng.Intn(3)])
				}
				if rng.Intn(2) == 0 {
					d.SQLValuer = strPtr([]string{"ST_GeomFromWKB({{.}})", "{{.}}", "'it''s' || {{.}}"}[rng.Intn(3)])
				}
				m[[]string{"time.Time", "github.com/a/b.C", "[]string", "*int", "string", "map[string]any"}[rng.Intn(6)]] = d
			}
			l[s.Path] = m
		}
	}
	return l
}

// scalar writes a YAML scalar in one of its styles.
func scalar(rng *rand.Rand, v any) string {
	switch v := v.(type) {
	case bool:
		return fmt.Sprint(v)
	case string:
		switch rng.Intn(3) {
		case 0:
			if plain(v) {
				return v
			}
		case 1:
			return "'" + strings.ReplaceAll(v, "'", "''") + "'"
		}
		b, _ := json.Marshal(v)
		return strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(string(b))
	}
	panic(fmt.Sprintf("%T", v))
}

// plain says whether a string needs no quotes whatever the reader.
func plain(s string) bool {
	switch strings.ToLower(s) {
	case "", "yes", "no", "on", "off", "y", "n", "true", "false", "null", "~":
		return false
	}
	for i, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z':
		case i > 0 && (r >= '0' && r <= '9' || r == '_' || r == '/' || r == '.' && i < len(s)-1):
		default:
			return false
		}
	}
	return true
}

// YAML writes the layer as a configuration file: keys in any order, block and
// flow style, comments, sections without content.
func (l Layer) YAML(rng *rand.Rand) string {
	t := l.Tree(false)
	for _, k := range []string{"exec", "database", "getter", "data_types", "src", "strict", "naming_convention"} {
		if _, ok := t[k]; !ok && rng.Intn(12) == 0 {
			t[k] = nil
		}
	}
	var b strings.Builder
	if rng.Intn(6) == 0 {
		b.WriteString("---\n")
	}
	block(&b, rng, t, "")
	if rng.Intn(8) == 0 {
		b.WriteString("unknown_setting: 1\n")
	}
	return b.String()
}

func keysOf(rng *rand.Rand, m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

func norm(v any) any {
	switch v := v.(type) {
	case map[string]DataType:
		m := map[string]any{}
		for k, d := range v {
			e := map[string]any{"data_type": d.DataType, "scan": d.Scanner, "value": d.Valuer}
			if d.SQLScanner != nil {
				e["sql_scan"] = *d.SQLScanner
			}
			if d.SQLValuer != nil {
				e["sql_value"] = *d.SQLValuer
			}
			m[k] = e
		}
		return m
	}
	return v
}

func flow(rng *rand.Rand, v any) string {
	switch v := norm(v).(type) {
	case nil:
		return "null"
	case []string:
		var l []string
		for _, s := range v {
			l = append(l, flow(rng, s))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case map[string]any:
		var l []string
		for _, k := range keysOf(rng, v) {
			l = append(l, key(k)+": "+flow(rng, v[k]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	default:
		return scalar(rng, v)
	}
}

func key(k string) string {
	if plain(k) {
		return k
	}
	b, _ := json.Marshal(k)
	return string(b)
}

func block(b *strings.Builder, rng *rand.Rand, m map[string]any, ind string) {
	for _, k := range keysOf(rng, m) {
		if rng.Intn(10) == 0 {
			b.WriteString(ind + "# " + k + ": 'not a setting'\n")
		}
		v := norm(m[k])
		end := "\n"
		if rng.Intn(8) == 0 {
			end = " # a remark\n\n"
		}
		switch x := v.(type) {
		case nil:
			b.WriteString(ind + key(k) + ":" + end)
		case map[string]any:
			if rng.Intn(4) == 0 {
				b.WriteString(ind + key(k) + ": " + flow(rng, x) + end)
				continue
			}
			b.WriteString(ind + key(k) + ":" + end)
			block(b, rng, x, ind+"  ")
		case []string:
			if rng.Intn(3) == 0 {
				b.WriteString(ind + key(k) + ": " + flow(rng, x) + end)
				continue
			}
			b.WriteString(ind + key(k) + ":" + end)
			for _, s := range x {
				b.WriteString(ind + "  - " + scalar(rng, s) + "\n")
			}
		default:
			b.WriteString(ind + key(k) + ": " + scalar(rng, v) + end)
		}
	}
}
