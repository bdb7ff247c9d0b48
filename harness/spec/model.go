package spec

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// Field is one field of a model's source.
type Field struct {
	Go     string
	More   []string // further names of the same declaration: A, B int
	Type   string   // catalogue key
	Tag    string   // content of the struct tag, e.g. "name,pk"
	Emb    *Struct  // embedded struct
	EmbPtr bool
}

// Struct is one struct declaration.
type Struct struct {
	Name   string
	Doc    string // comment lines without //
	Fields []Field
	Table  string // name given through sequel.TableName
	Extra  string // methods
	Ext    string // import path when declared outside the model package
	// HandTable is the table name returned by a hand-written TableName.
	HandTable string
	DBName    string // returned by a hand-written DatabaseName
	OmitUps   []string
	Dup       []string
	NoGlue    bool // not driven (embedded only, ignored, ...)
	HandCode  bool // entirely hand-written, not seen by the generator
	Uniques   [][]string
	Src       string // full source override for unusual declarations
}

// Col is one table column derived from a model.
type Col struct {
	Name   string
	Go     string
	Path   []string
	Type   string
	RO     bool
	PK     bool
	Auto   bool
	EmbPtr bool // behind an embedded pointer
	Loose  bool // only the letters of the name are agreed upon
}

// Model is the table a struct stands for.
type Model struct {
	Go       string
	Table    string
	Loose    bool // only the letters of the table's name are agreed upon
	DBName   string
	Cols     []Col
	Keys     []int
	Auto     int
	ReadOnly bool
	Hand     bool
	Uniques  [][]string
	OmitUps  []string
	Dup      []string
}

func (m *Model) HasPK() bool { return m.Auto >= 0 || len(m.Keys) > 0 }

// PK is the identifying key.
func (m *Model) PK() []int {
	if m.Auto >= 0 {
		return []int{m.Auto}
	}
	return m.Keys
}

// Ins are the columns an insert writes.
func (m *Model) Ins() []int {
	var out []int
	for i, c := range m.Cols {
		if !c.RO && !c.Auto {
			out = append(out, i)
		}
	}
	return out
}

// Upd are the columns an update by key writes.
func (m *Model) Upd() []int {
	var out []int
	for i, c := range m.Cols {
		if !c.RO && !c.Auto && !c.PK {
			out = append(out, i)
		}
	}
	return out
}

func (m *Model) Col(name string) int {
	for i, c := range m.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// Conf is the generator configuration of a flavour.
type Conf struct {
	Dialect string // mysql, postgres, sqlite
	Quote   bool
	Naming  string
	Tag     string
	Prefix  string
	Point   bool // map the Mapped types
	Extra   string
}

func (c Conf) tag() string {
	if c.Tag == "" {
		return "sql"
	}
	return c.Tag
}

// Model derives the table of s.
func (c Conf) Model(s *Struct) *Model {
	table, exact := Rename(c.Naming, s.Name)
	m := &Model{Go: s.Name, Table: table, Loose: !exact, Auto: -1, ReadOnly: strings.Contains(strings.ToLower(s.Doc), "+sql:readonly"), Hand: s.HandCode, Uniques: s.Uniques, OmitUps: s.OmitUps, Dup: s.Dup, DBName: s.DBName}
	if s.Table != "" {
		m.Table, m.Loose = strings.TrimSpace(s.Table), false
	}
	if s.HandTable != "" {
		m.Table, m.Loose = s.HandTable, false
	}
	c.flatten(m, s, nil, false)
	return m
}

func (c Conf) flatten(m *Model, s *Struct, path []string, ptr bool) {
	for _, f := range s.Fields {
		if f.Emb != nil {
			c.flatten(m, f.Emb, append(append([]string{}, path...), f.Emb.Name), ptr || f.EmbPtr)
			continue
		}
		for _, n := range append([]string{f.Go}, f.More...) {
			if unicode.IsLower([]rune(n)[0]) {
				continue
			}
			parts := strings.Split(f.Tag, ",")
			parts[0] = strings.TrimSpace(parts[0])
			if parts[0] == "-" {
				continue
			}
			name, exact := Rename(c.Naming, n)
			col := Col{Name: name, Loose: !exact, Go: n, Path: append(append([]string{}, path...), n), Type: f.Type, EmbPtr: ptr}
			if parts[0] != "" {
				col.Name, col.Loose = parts[0], false
			}
			for _, o := range parts[1:] {
				switch strings.ToLower(strings.TrimSpace(o)) {
				case "pk", "primary_key":
					col.PK = true
				case "auto_increment":
					col.Auto = true
				case "readonly":
					col.RO = true
				}
			}
			if col.Auto {
				m.Auto = len(m.Cols)
				col.PK = true
			} else if col.PK {
				m.Keys = append(m.Keys, len(m.Cols))
			}
			m.Cols = append(m.Cols, col)
		}
	}
}

func pkgName(path string) string {
	if i := strings.IndexByte(path, ' '); i > 0 {
		return path[:i]
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func (s *Struct) imports(set map[string]bool) {
	if s.Src != "" {
		return
	}
	for _, f := range s.Fields {
		if f.Emb != nil {
			if f.Emb.Ext != "" {
				set[f.Emb.Ext] = true
			}
			continue
		}
		for _, i := range T(f.Type).Imports {
			set[i] = true
		}
	}
	if s.Table != "" {
		set["github.com/si3nloong/sqlgen/sequel"] = true
	}
}

// Source renders the declaration.
func (c Conf) Source(s *Struct) string {
	if s.Src != "" {
		return s.Src
	}
	var b strings.Builder
	if s.Doc != "" {
		for _, l := range strings.Split(s.Doc, "\n") {
			fmt.Fprintf(&b, "// %s\n", l)
		}
	}
	fmt.Fprintf(&b, "type %s struct {\n", s.Name)
	if s.Table != "" {
		fmt.Fprintf(&b, "\t_ sequel.TableName `%s:\"%s\"`\n", c.tag(), s.Table)
	}
	for _, f := range s.Fields {
		b.WriteByte('\t')
		switch {
		case f.Emb != nil:
			if f.EmbPtr {
				b.WriteByte('*')
			}
			if f.Emb.Ext != "" {
				b.WriteString(pkgName(f.Emb.Ext) + ".")
			}
			b.WriteString(f.Emb.Name)
		default:
			b.WriteString(strings.Join(append([]string{f.Go}, f.More...), ", ") + " " + T(f.Type).Expr)
		}
		if f.Tag != "" {
			fmt.Fprintf(&b, " `%s:\"%s\"`", c.tag(), f.Tag)
		}
		b.WriteByte('\n')
	}
	b.WriteString("}\n" + s.Extra + "\n")
	return b.String()
}

// File renders a source file of package pkg with the given declarations.
func (c Conf) File(pkg string, local bool, structs []*Struct, imports ...string) string {
	set := map[string]bool{}
	for _, i := range imports {
		set[i] = true
	}
	var body strings.Builder
	for _, s := range structs {
		if s.Ext != "" {
			continue
		}
		s.imports(set)
		body.WriteString(c.Source(s))
	}
	var imps []string
	for i := range set {
		imps = append(imps, i)
	}
	sort.Strings(imps)
	out := "package " + pkg + "\n\n"
	for _, i := range imps {
		if k := strings.IndexByte(i, ' '); k > 0 {
			out += fmt.Sprintf("import %s %q\n", i[:k], i[k+1:])
			continue
		}
		out += fmt.Sprintf("import %q\n", i)
	}
	out += "\n"
	if local {
		out += LocalDecls
	}
	return out + body.String()
}

// Yaml renders the configuration file.
func (c Conf) Yaml(src []string, dbDir string) string {
	var b strings.Builder
	b.WriteString("src:\n")
	for _, s := range src {
		fmt.Fprintf(&b, "  - %q\n", s)
	}
	fmt.Fprintf(&b, "driver: %s\nskip_mod_tidy: true\nquote_identifier: %v\n", c.Dialect, c.Quote)
	if c.Naming != "" {
		fmt.Fprintf(&b, "naming_convention: %s\n", c.Naming)
	}
	if c.Tag != "" {
		fmt.Fprintf(&b, "struct_tag: %s\n", c.Tag)
	}
	if c.Prefix != "" {
		fmt.Fprintf(&b, "getter:\n  prefix: %s\n", c.Prefix)
	}
	fmt.Fprintf(&b, "database:\n  package: db\n  dir: %s\n  operator:\n    package: db\n    dir: %s\n", dbDir, dbDir)
	if c.Point {
		b.WriteString(`data_types:
  verif/harness/mt.Point:
    data_type: geometry
    scan: "verif/harness/mt.PointScanner({{addrOfGoPath}})"
    sql_scan: "geoout({{.}})"
    value: "verif/harness/mt.PointText({{goPath}})"
    sql_value: "geoin({{.}})"
  verif/harness/mt.Cent:
    data_type: varchar(30)
    scan: "verif/harness/mt.CentScanner({{addrOfGoPath}})"
    value: "verif/harness/mt.CentText({{goPath}})"
  verif/harness/mt.Vault:
    data_type: vault
    sql_scan: "geoout({{.}})"
    sql_value: "geoin({{.}})"
  time.Time:
    data_type: bigint
    scan: "verif/harness/mt.MicroScanner({{addrOfGoPath}})"
    value: "{{goPath}}.UnixMicro()"
`)
	}
	b.WriteString(c.Extra)
	return b.String()
}
