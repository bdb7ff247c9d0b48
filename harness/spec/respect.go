package spec

import (
	"fmt"
	"math/rand"
	"strings"
)

func (c Conf) q(n string) string {
	if !c.Quote {
		return n
	}
	if c.Dialect == "mysql" {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

// ReadonlyModels have readonly columns in every place a column can be.
func ReadonlyModels() []*Struct {
	mixed := &Struct{Name: "Mixed", NoGlue: true, Fields: []Field{f("Open", "*string"), f("Shut", "int64", "shut,readonly"), f("Lost", "string", "-")}}
	shut := &Struct{Name: "Stamped", NoGlue: true, Fields: []Field{f("Made", "level", "made_on, readonly"), f("Host", "*string", ",READONLY")}}
	return []*Struct{
		{Name: "RoFirst", Fields: []Field{f("Seen", "*int64", ",readonly"), f("ID", "int64", "id,pk,auto_increment"), f("Text", "string")}},
		{Name: "RoLast", Fields: []Field{f("ID", "string", "id,PK"), f("Text", "*string"), f("Seen", "int32", "seen , readonly")}},
		{Name: "RoMost", Fields: []Field{f("A", "string", ",readonly"), f("K", "int64", "k,Primary_Key"), f("B", "float64", ",readonly"), f("C", "*bool", ",readonly")}},
		{Name: "RoMany", Fields: []Field{f("A", "string", ",readonly"), f("X", "int64"), f("B", "s_string", ",readonly"), f("ID", "int32", "id,Auto_Increment"), f("Y", "*string"), f("C", "bytes", ",readonly")}, Uniques: [][]string{{"x"}}},
		{Name: "RoPair", Fields: []Field{f("A", "int64", "a,pk"), f("Z", "level", ",readonly"), f("B", "string", "b,pk")}},
		{Name: "RoGroup", Fields: []Field{{Go: "L", More: []string{"M", "N"}, Type: "int64", Tag: ",readonly"}, f("ID", "int64", "id,pk"), f("W", "uint8")}},
		{Name: "RoEmb", Fields: []Field{emb(mixed, false), f("ID", "int64", "id,pk"), emb(shut, false), f("Kind", "string")}},
		{Name: "RoEmbP", Fields: []Field{f("ID", "int64", "id,auto_increment"), emb(mixed, true), emb(shut, true)}},
		{Name: "RoLog", Fields: []Field{f("Made", "int64", ",readonly"), f("Msg", "string"), f("skip", "int"), f("Gone", "int", "-")}},
		{Name: "RoAll", Fields: []Field{f("A", "string", ",readonly"), f("B", "*int64", ",readonly")}},
		{Name: "RoStruct", Doc: "RoStruct is looked at.\n+sql:READONLY", Fields: []Field{emb(mixed, true), f("ID", "int64", "id,pk,auto_increment"), emb(shut, false)}},
		mixed, shut,
	}
}

// RespectModels have methods of the user's for what the generated statements
// take from a model. Amounts are stored as the hand-written values and
// addresses say; secrets are readable through the hand-written select list
// only.
func RespectModels(c Conf) []*Struct {
	one := func(s *Struct, methods string) *Struct {
		m := c.Model(s)
		var b strings.Builder
		var cols, sel, vals, addrs []string
		for _, col := range m.Cols {
			path := "v." + strings.Join(col.Path, ".")
			name := c.q(col.Name)
			cols = append(cols, fmt.Sprintf("%q", name))
			switch col.Type {
			case "cent":
				sel = append(sel, fmt.Sprintf("%q", name))
				addrs = append(addrs, "mt.CentScanner(&"+path+")")
				if !col.RO {
					vals = append(vals, "mt.CentText("+path+")")
				}
				continue
			case "vault":
				sel = append(sel, fmt.Sprintf("%q", "geoout("+name+")"))
			default:
				sel = append(sel, fmt.Sprintf("%q", name))
			}
			addrs = append(addrs, "&"+path)
			if !col.RO && !col.Auto {
				vals = append(vals, path)
			}
		}
		for _, k := range strings.Fields(methods) {
			switch k {
			case "columns":
				fmt.Fprintf(&b, "func (%s) Columns() []string { return []string{%s} }\n", s.Name, strings.Join(cols, ", "))
			case "select":
				fmt.Fprintf(&b, "func (%s) SQLColumns() []string { return []string{%s} }\n", s.Name, strings.Join(sel, ", "))
			case "values":
				fmt.Fprintf(&b, "func (v %s) Values() []any { return []any{%s} }\n", s.Name, strings.Join(vals, ", "))
			case "addrs":
				fmt.Fprintf(&b, "func (v *%s) Addrs() []any { return []any{%s} }\n", s.Name, strings.Join(addrs, ", "))
			case "table":
				s.HandTable = "own_" + strings.ToLower(s.Name)
				fmt.Fprintf(&b, "func (%s) TableName() string { return %q }\n", s.Name, c.q(s.HandTable))
			case "database":
				s.DBName = "own_db"
				fmt.Fprintf(&b, "func (%s) DatabaseName() string { return %q }\n", s.Name, c.q(s.DBName))
			}
		}
		s.Extra = b.String()
		return s
	}
	named := &Struct{Name: "Named", NoGlue: true, HandTable: "named_by_part", Fields: []Field{f("Rev", "int64")},
		Extra: fmt.Sprintf("func (Named) TableName() string { return %q }\n", c.q("named_by_part"))}
	return []*Struct{
		one(&Struct{Name: "OwnVals", Fields: []Field{f("Name", "string"), f("ID", "int64", "id,pk,auto_increment"), f("Seen", "int64", "seen,readonly"), f("Pay", "cent"), f("Note", "*string")}, Uniques: [][]string{{"name"}}}, "values addrs"),
		one(&Struct{Name: "OwnKeyed", Fields: []Field{f("Pay", "cent"), f("ID", "string", "id,pk"), f("Back", "cent")}}, "values addrs"),
		one(&Struct{Name: "OwnMulti", Fields: []Field{f("A", "int64", "a,pk"), f("Pay", "cent"), f("Got", "cent", "got,readonly"), f("B", "string", "b,pk"), f("Memo", "*string")}}, "values addrs table"),
		one(&Struct{Name: "OwnFree", Fields: []Field{f("Pay", "cent"), f("What", "string"), f("Sum", "cent", ",readonly")}}, "values addrs database"),
		one(&Struct{Name: "OwnSel", Fields: []Field{f("ID", "string", "id,pk"), f("Code", "vault", "code,readonly"), f("Label", "*string")}}, "select"),
		one(&Struct{Name: "OwnSelAuto", Fields: []Field{f("Label", "string"), f("Code", "vault", ",readonly"), f("ID", "int64", "id,auto_increment")}}, "select addrs"),
		one(&Struct{Name: "OwnSelPair", Fields: []Field{f("A", "int64", "a,pk"), f("B", "int64", "b,pk"), f("Code", "vault", "code,readonly"), f("Pay", "cent")}}, "select values addrs table database"),
		one(&Struct{Name: "OwnSelFree", Fields: []Field{f("Code", "vault", ",readonly"), f("Word", "string")}}, "select table"),
		one(&Struct{Name: "OwnCols", Fields: []Field{f("Qty", "int64"), f("ID", "int64", "id,pk"), f("Memo", "*string")}}, "columns"),
		one(&Struct{Name: "OwnAll", Fields: []Field{f("Qty", "int64"), f("ID", "string", "id,pk"), f("Pay", "cent"), f("Code", "vault", "code,readonly")}}, "columns values addrs select table database"),
		one(&Struct{Name: "OwnBase", Fields: []Field{f("Qty", "int64"), f("A", "int64", "a,pk"), f("B", "string", "b,pk")}}, "database"),
		{Name: "OwnPart", HandTable: "named_by_part", Fields: []Field{f("ID", "int64", "id,pk"), emb(named, false), f("Text", "string")}},
		named,
	}
}

// RandomRespect are random models with more readonly columns, every tag in
// another spelling.
func RandomRespect(rng *rand.Rand, n int, skip func(*Type) bool) []*Struct {
	out := Random(rng, n, skip)
	for _, s := range out {
		for i := range s.Fields {
			x := &s.Fields[i]
			if x.Emb == nil && x.Tag == "" && rng.Intn(3) == 0 {
				x.Tag = []string{",readonly", ", Readonly", "-", ",READONLY"}[rng.Intn(4)]
			}
		}
	}
	return Respell(rng, out)
}

// Respell writes the tags of the structs in other ways that mean the same:
// the options in any order and case, with space around them, repeated, and
// between empty options and options which say nothing about the statements.
func Respell(rng *rand.Rand, structs []*Struct) []*Struct {
	done := map[*Struct]bool{}
	var walk func(s *Struct)
	walk = func(s *Struct) {
		if done[s] {
			return
		}
		done[s] = true
		for i := range s.Fields {
			x := &s.Fields[i]
			if x.Emb != nil {
				walk(x.Emb)
			} else if x.Tag != "" && x.Tag != "-" {
				x.Tag = respell(rng, x.Tag)
			}
		}
	}
	for _, s := range structs {
		walk(s)
	}
	return structs
}

func respell(rng *rand.Rand, tag string) string {
	parts := strings.Split(tag, ",")
	opts := append([]string{}, parts[1:]...)
	for k := rng.Intn(4); k > 0; k-- {
		o := []string{"", "", " ", "size:20", "unsigned", "unique", "index", "Size: 3"}[rng.Intn(8)]
		if len(opts) > 0 && rng.Intn(4) == 0 {
			o = opts[rng.Intn(len(opts))]
		}
		opts = append(opts, o)
	}
	rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	for i, o := range opts {
		switch rng.Intn(4) {
		case 0:
			o = strings.ToUpper(o)
		case 1:
			o = strings.Title(o)
		}
		opts[i] = []string{"", " ", "  "}[rng.Intn(3)] + o + []string{"", "", " "}[rng.Intn(3)]
	}
	return strings.Join(append(parts[:1:1], opts...), ",")
}
