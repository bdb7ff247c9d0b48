package spec

import (
	"fmt"
	"strings"
)

// hand writes the methods of a hand-written model: what a user writes who
// does not run the generator on it. With own the insert columns are listed,
// otherwise every column is inserted but an auto-increment key.
func (c Conf) hand(s *Struct, own bool) *Struct {
	s.HandCode = true
	m := c.Model(s)
	name := s.Name
	q := func(n string) string {
		if !c.Quote {
			return n
		}
		if c.Dialect == "mysql" {
			return "`" + n + "`"
		}
		return `"` + n + `"`
	}
	var b strings.Builder
	var cols, addrs, vals, ins []string
	for _, col := range m.Cols {
		path := "v." + strings.Join(col.Path, ".")
		cols = append(cols, fmt.Sprintf("%q", q(col.Name)))
		switch col.Type {
		case "int32":
			addrs = append(addrs, "encoding.Int32Scanner[int32](&"+path+")")
		case "level":
			addrs = append(addrs, "encoding.Int8Scanner[mt.Level](&"+path+")")
		default:
			addrs = append(addrs, "&"+path)
		}
		if own && (col.RO || col.Auto) {
			continue
		}
		vals = append(vals, path)
		if !col.Auto {
			ins = append(ins, fmt.Sprintf("%q", q(col.Name)))
		}
	}
	fmt.Fprintf(&b, "func (%s) TableName() string { return %q }\n", name, q(m.Table))
	if s.DBName != "" {
		fmt.Fprintf(&b, "func (%s) DatabaseName() string { return %q }\n", name, q(s.DBName))
	}
	fmt.Fprintf(&b, "func (%s) Columns() []string { return []string{%s} }\n", name, strings.Join(cols, ", "))
	fmt.Fprintf(&b, "func (v %s) Values() []any { return []any{%s} }\n", name, strings.Join(vals, ", "))
	fmt.Fprintf(&b, "func (v *%s) Addrs() []any { return []any{%s} }\n", name, strings.Join(addrs, ", "))
	if own {
		fmt.Fprintf(&b, "func (%s) InsertColumns() []string { return []string{%s} }\n", name, strings.Join(ins, ", "))
	}
	n := len(ins)
	if c.Dialect == "postgres" {
		fmt.Fprintf(&b, "func (%s) InsertPlaceholders(row int) string {\n\ts := \"(\"\n\tfor i := 1; i <= %d; i++ {\n\t\tif i > 1 {\n\t\t\ts += \", \"\n\t\t}\n\t\ts += fmt.Sprintf(\"$%%d\", row*%d+i)\n\t}\n\treturn s + \")\"\n}\n", name, n, n)
	} else {
		fmt.Fprintf(&b, "func (%s) InsertPlaceholders(row int) string { return %q }\n", name, "("+strings.Repeat(",?", n)[1:]+")")
	}
	if m.HasPK() {
		fmt.Fprintf(&b, "func (%s) HasPK() {}\n", name)
		pk := m.PK()
		if len(pk) == 1 {
			k := m.Cols[pk[0]]
			fmt.Fprintf(&b, "func (v %s) PK() (string, int, any) { return %q, %d, v.%s }\n", name, q(k.Name), pk[0], strings.Join(k.Path, "."))
		} else {
			var ns, is, vs []string
			for _, i := range pk {
				ns = append(ns, fmt.Sprintf("%q", q(m.Cols[i].Name)))
				is = append(is, fmt.Sprint(i))
				vs = append(vs, "v."+strings.Join(m.Cols[i].Path, "."))
			}
			fmt.Fprintf(&b, "func (v %s) CompositeKey() ([]string, []int, []any) {\n\treturn []string{%s}, []int{%s}, []any{%s}\n}\n", name, strings.Join(ns, ", "), strings.Join(is, ", "), strings.Join(vs, ", "))
		}
		if m.Auto >= 0 {
			fmt.Fprintf(&b, "func (%s) IsAutoIncr() {}\n", name)
		}
	}
	if len(s.OmitUps) > 0 {
		fmt.Fprintf(&b, "func (%s) OnUpsertOmitColumns() []string { return %s }\n", name, quoteList(s.OmitUps, q))
	}
	if len(s.Dup) > 0 {
		fmt.Fprintf(&b, "func (%s) DuplicateKeys() []string { return %s }\n", name, quoteList(s.Dup, q))
	}
	s.Extra = b.String()
	return s
}

func quoteList(l []string, q func(string) string) string {
	var out []string
	for _, x := range l {
		out = append(out, fmt.Sprintf("%q", q(x)))
	}
	return "[]string{" + strings.Join(out, ", ") + "}"
}

// HandModels are models written by hand: no generated statements, so the
// helpers build them from the lists.
func (c Conf) HandModels() []*Struct {
	part := &Struct{Name: "HPart", NoGlue: true, Extra: "var _ = fmt.Sprint\nvar _ = encoding.Int32Scanner[int32, *int32]\n", Fields: []Field{f("Side", "string"), f("Deep", "*int64")}}
	return []*Struct{
		c.hand(&Struct{Name: "HItem", Fields: []Field{f("Title", "string"), f("Code", "string", "code,pk"), f("Price", "float64"), f("Stock", "*int64")}}, false),
		c.hand(&Struct{Name: "HUser", Fields: []Field{f("ID", "int64", "id,pk,auto_increment"), f("Name", "string"), f("Email", "*string"), f("Active", "bool")}, Uniques: [][]string{{"name"}}}, false),
		c.hand(&Struct{Name: "HTask", Fields: []Field{f("What", "string"), f("ID", "int32", "id,pk,auto_increment"), f("Prio", "*int64"), f("Kind", "level")}, Uniques: [][]string{{"what"}}}, false),
		c.hand(&Struct{Name: "HEvent", Fields: []Field{f("Kind", "string"), f("Seen", "int64", "seen,readonly"), f("Data", "*string"), f("ID", "int64", "id,pk,auto_increment")}, Uniques: [][]string{{"kind"}}}, true),
		c.hand(&Struct{Name: "HLine", DBName: "shop_db", Fields: []Field{f("Qty", "int64"), f("Order", "int64", "order_no,pk"), f("Memo", "*string"), f("Pos", "int64", "pos,pk")}}, false),
		c.hand(&Struct{Name: "HGrid", Fields: []Field{f("X", "int64", "x,pk"), f("Val", "float64"), f("Y", "string", "y,pk"), f("Seq", "int64", "seq,readonly"), f("Z", "int64", "z,pk"), f("Opt", "*float64")}}, true),
		c.hand(&Struct{Name: "HPair", Fields: []Field{f("A", "int64", "a,pk"), f("B", "string", "b,pk")}}, false),
		c.hand(&Struct{Name: "HTag", Fields: []Field{f("Word", "string", "word,pk")}}, true),
		c.hand(&Struct{Name: "HShop", Fields: []Field{f("ID", "string", "id,pk"), emb(part, false), f("Open", "bool")}, OmitUps: []string{"side"}}, false),
		c.hand(&Struct{Name: "HCard", Fields: []Field{f("ID", "int64", "id,pk"), f("Serial", "string", "serial"), f("Owner", "*string"), f("Sum", "float64")}, Uniques: [][]string{{"serial"}}, Dup: []string{"serial"}}, false),
		c.hand(&Struct{Name: "HLog", Fields: []Field{f("Level", "int64"), f("Msg", "string"), f("Extra", "*string")}}, false),
		part,
	}
}

// OwnModels are generated models with methods of the user's.
func OwnModels(c Conf) []*Struct {
	q := func(n string) string {
		if !c.Quote {
			return n
		}
		if c.Dialect == "mysql" {
			return "`" + n + "`"
		}
		return `"` + n + `"`
	}
	return []*Struct{
		{Name: "Depot", DBName: "shop_db", Fields: []Field{f("Qty", "int64"), f("Site", "string", "site,pk"), f("Pos", "int16", "pos,pk"), f("Memo", "*string")},
			Extra: fmt.Sprintf("func (Depot) DatabaseName() string { return %q }\n", q("shop_db"))},
		{Name: "Coupon", HandTable: "vouchers", OmitUps: []string{"hits"}, Dup: []string{"code"}, Uniques: [][]string{{"code"}},
			Fields: []Field{f("ID", "int64", "id,auto_increment"), f("Code", "string"), f("Hits", "int32"), f("Until", "*time"), f("Rate", "float64")},
			Extra:  fmt.Sprintf("func (Coupon) TableName() string { return %q }\nfunc (Coupon) OnUpsertOmitColumns() []string { return %s }\nfunc (Coupon) DuplicateKeys() []string { return %s }\n", q("vouchers"), quoteList([]string{"hits"}, q), quoteList([]string{"code"}, q))},
		{Name: "Ticket", OmitUps: []string{"seat"}, Fields: []Field{f("Show", "string", "show_id,pk"), f("Seat", "*string"), f("Row", "int8", "row_no,pk"), f("Paid", "bool")},
			Extra: fmt.Sprintf("func (Ticket) OnUpsertOmitColumns() []string { return %s }\n", quoteList([]string{"seat"}, q))},
	}
}
