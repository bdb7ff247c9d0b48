package spec

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
)

func upper(r rune) bool { return r >= 'A' && r <= 'Z' }
func lower(r rune) bool { return r >= 'a' && r <= 'z' }
func digit(r rune) bool { return r >= '0' && r <= '9' }

// words splits a Go name where its words part: at underscores, between
// letters and digits, before a capital after a small letter, and before the
// capital that starts the word after an acronym. loose says the conventions
// leave room: letters beyond ASCII (whose case is not agreed upon), a word
// right after an acronym (httpServer and httpserver are both in use), and
// underscores at the ends or in a row.
func words(s string) (out []string, acronym, loose bool) {
	rs := []rune(s)
	cur := ""
	flush := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for i, r := range rs {
		if r > 127 {
			loose = true
		}
		if r == '_' {
			if i == 0 || i == len(rs)-1 || rs[i-1] == '_' {
				loose = true
			}
			flush()
			continue
		}
		if i > 0 {
			p := rs[i-1]
			switch {
			case lower(p) && upper(r), digit(p) != digit(r) && p != '_':
				flush()
			case upper(p) && upper(r) && i+1 < len(rs) && lower(rs[i+1]):
				flush()
				acronym = true
			}
		}
		cur += string(r)
	}
	flush()
	return out, acronym, loose
}

// Rename is the name of a Go identifier in a convention; exact is false when
// only its letters and digits are agreed upon.
func Rename(conv, s string) (name string, exact bool) {
	ws, acronym, loose := words(s)
	switch conv {
	case "", "snake_case":
		for i := range ws {
			ws[i] = strings.ToLower(ws[i])
		}
		return strings.Join(ws, "_"), !loose
	}
	for i := range ws {
		rs := []rune(strings.ToLower(ws[i]))
		if i > 0 || conv == "PascalCase" {
			rs[0] = unicode.ToUpper(rs[0])
		}
		ws[i] = string(rs)
	}
	return strings.Join(ws, ""), !loose && !acronym
}

// Letters is what of a name every spelling of it shares.
func Letters(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

var goWords = []string{"User", "Name", "Id", "ID", "HTTP", "URL", "Api", "API", "X", "Y", "JSON", "Sha", "SHA", "Total", "At", "By", "OAuth", "Is", "No", "Ref", "Tax", "VAT", "Zip", "Code", "Max", "IDs", "Q", "McDonald", "Last", "Row", "Type", "Size"}
var goBits = []string{"1", "2", "42", "256", "_", "_", "1_", "_2", "8x", "v", "b2b", "7Up", "__", "É", "ß", "ñ", "Ω", "名", "x"}

// reserved in at least one of the dialects, as Go names and as explicit ones
var goReserved = []string{"Order", "Group", "Select", "From", "Where", "Table", "Limit", "Offset", "User", "Index", "Key", "Primary", "Default", "Check", "References", "Desc", "Case", "When", "End", "All", "And", "Or", "Not", "Null", "In", "Is", "Like", "Between", "Union", "Create", "Update", "Delete", "Insert", "Into", "Set", "Having", "Join", "Left", "On", "As", "By", "To", "With", "Returning", "Current_Date", "CurrentTime", "Rank", "Row", "Rows", "System", "Window", "Function", "Lateral", "True", "False", "Distinct", "Excluded", "New", "Conflict", "Duplicate"}

// taken are the methods generated code has, and what the databases call
// columns of their own.
var taken = map[string]bool{"rowid": true, "oid": true, "ctid": true, "xmin": true, "xmax": true, "cmin": true, "cmax": true, "tableoid": true, "zzmore": true,
	"tablename": true, "columns": true, "values": true, "addrs": true, "pk": true, "compositekey": true, "databasename": true, "sqlcolumns": true, "isautoincr": true,
	"insertcolumns": true, "insertplaceholders": true, "scanautoincr": true, "hasheadcolumn": true}

func oddName(rng *rand.Rand) string {
	s := goWords[rng.Intn(len(goWords))]
	if rng.Intn(5) == 0 {
		return goReserved[rng.Intn(len(goReserved))]
	}
	for k := rng.Intn(4); k > 0; k-- {
		if rng.Intn(3) == 0 {
			s += goBits[rng.Intn(len(goBits))]
		} else {
			s += goWords[rng.Intn(len(goWords))]
		}
	}
	return s
}

func oddTag(rng *rand.Rand, i int) string {
	switch rng.Intn(7) {
	case 0:
		return strings.ToLower(goReserved[rng.Intn(len(goReserved))])
	case 1:
		return fmt.Sprintf("C%dol_Umn", i)
	case 2:
		return fmt.Sprintf("camelCase%dName", i)
	case 3:
		return fmt.Sprintf("x%d__y_", i)
	case 4:
		return fmt.Sprintf("UPPER_%d", i)
	case 5:
		return fmt.Sprintf("a%d", i)
	default:
		return fmt.Sprintf("%s%d", strings.Repeat("long_name_", 6), i)
	}
}

// NameModels are models with names of every kind. ok judges whether a name
// can be used in the flavour.
func NameModels(rng *rand.Rand, c Conf, n int, ok func(string) bool) []*Struct {
	types := []string{"string", "int64", "*string", "bool"}
	var out []*Struct
	seen := map[string]bool{}
	goName := func(used map[string]bool) string {
		for {
			s := oddName(rng)
			name, _ := Rename(c.Naming, s)
			l := Letters(s)
			if used[l] || taken[l] || strings.HasSuffix(l, "value") || !ok(name) || !ok(s) {
				continue
			}
			used[l] = true
			return s
		}
	}
	var fields func(used map[string]bool, k int) []Field
	fields = func(used map[string]bool, k int) []Field {
		var out []Field
		for i := 0; i < k; i++ {
			fd := f(goName(used), types[rng.Intn(len(types))])
			if rng.Intn(5) == 0 {
				fd.More = []string{goName(used)}
			} else if rng.Intn(3) == 0 {
				for {
					t := oddTag(rng, len(used))
					if l := Letters(t); !used[l] && !taken[l] && ok(t) {
						used[l] = true
						fd.Tag = t
						break
					}
				}
				if rng.Intn(3) == 0 {
					fd.Tag = " " + fd.Tag + " "
				}
			}
			if rng.Intn(8) == 0 {
				fd.Tag += ",readonly"
				if len(fd.More) == 0 && rng.Intn(2) == 0 {
					fd.Tag += ",size:20"
				}
			}
			out = append(out, fd)
		}
		return out
	}
	for i := 0; i < n; i++ {
		used := map[string]bool{}
		s := &Struct{Name: goName(seen)}
		s.Fields = fields(used, 2+rng.Intn(4))
		switch rng.Intn(4) {
		case 0:
			s.Fields = append(s.Fields, f(goName(used), "int64", ",auto_increment"))
		case 1:
			s.Fields = append(s.Fields, f(goName(used), "int64", ",pk"))
		case 2:
			s.Fields = append(s.Fields, Field{Go: goName(used), More: []string{goName(used)}, Type: "int64", Tag: ",pk"})
		}
		if rng.Intn(3) == 0 {
			part := &Struct{Name: goName(seen), NoGlue: true}
			part.Fields = fields(used, 1+rng.Intn(3))
			s.Fields = append(s.Fields, emb(part, rng.Intn(2) == 0))
			used[Letters(part.Name)] = true
			out = append(out, part)
		}
		rng.Shuffle(len(s.Fields), func(a, b int) { s.Fields[a], s.Fields[b] = s.Fields[b], s.Fields[a] })
		switch rng.Intn(4) {
		case 0:
			for s.Table == "" {
				if t := oddTag(rng, i); ok(t) {
					s.Table = t
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// NameFold is a keyed model whose name and columns have capitals in every
// convention but snake_case.
func NameFold(c Conf) []*Struct {
	if c.Dialect != "postgres" || c.Quote || c.Naming == "" || c.Naming == "snake_case" {
		return nil
	}
	return []*Struct{{Name: "FoldedName", Fields: []Field{f("RowKey", "int64", ",pk"), f("SomeText", "string")}}}
}
