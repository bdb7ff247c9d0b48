package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() { before["C19"] = c19 }

// bad19 are sources with a name conflict or an invalid name; NAME stands for
// the struct tag's key.
type src19 struct {
	what, conv, src string
	ok              bool
}

func (s src19) file(tag string) string {
	imp := ""
	if strings.Contains(s.src, "sequel.") {
		imp = "import \"github.com/si3nloong/sqlgen/sequel\"\n\n"
	}
	return "package m\n\n" + imp + strings.ReplaceAll(s.src, "TAG", tag)
}

// spread puts the two clashing field declarations where fields can be.
func spread19(rng *rand.Rand, a, b string) string {
	filler := []string{"\tFillA string\n", "\tFillB *int64\n", "\tFillC, FillD bool\n", "\tfillE int\n"}
	mix := func(fs ...string) string {
		rng.Shuffle(len(filler), func(i, j int) { filler[i], filler[j] = filler[j], filler[i] })
		all := append(append([]string{}, filler[:rng.Intn(3)]...), fs...)
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		return strings.Join(all, "")
	}
	a, b = "\t"+a+"\n", "\t"+b+"\n"
	switch rng.Intn(4) {
	case 0:
		return "type Part struct {\n" + a + "}\n\ntype Model struct {\n" + mix("\t"+[]string{"", "*"}[rng.Intn(2)]+"Part\n", b) + "}\n"
	case 1:
		return "type PartA struct {\n" + a + "}\n\ntype partB struct {\n" + b + "}\n\ntype Model struct {\n" + mix("\tPartA\n", "\tpartB\n") + "}\n"
	}
	return "type Model struct {\n" + mix(a, b) + "}\n"
}

func c19sources(rng *rand.Rand) []src19 {
	var out []src19
	add := func(ok bool, what, conv, src string) { out = append(out, src19{what, conv, src, ok}) }
	pick := func(l ...string) string { return l[rng.Intn(len(l))] }
	// invalid explicit names
	for _, n := range []string{"a b", "1a", "42", "a-b", "a.b", "a;b", "a'b", "a`b", "a(b)", "a*", "a/b", "-a", "a:b", "a$b c", "a=b", "naïve name", "?", "$1"} {
		if rng.Intn(3) > 0 {
			tag := strings.ReplaceAll(n, "`", "\\x60")
			q := "`TAG:\"" + tag + pick("", ",pk", " ", ",readonly") + "\"`"
			if rng.Intn(4) == 0 {
				add(false, "invalid table name "+n, "", "type Model struct {\n\t_ sequel.TableName `TAG:\""+tag+"\"`\n\tID int64\n}\n")
			} else {
				add(false, "invalid name "+n, pick("", "camelCase", "PascalCase"), spread19(rng, "First string "+q, "Second int64"))
			}
		}
	}
	// conflicts
	for i := 0; i < 2; i++ {
		n := pick("same", "order_no", "X9", "value_1")
		add(false, "one name twice: "+n, pick("", "camelCase"), spread19(rng, "First string `TAG:\""+n+"\"`", "Second "+pick("int64", "*string", "bool")+" `TAG:\""+pick("", " ")+n+pick("", " ", ",readonly")+"\"`"))
	}
	for _, c := range []struct{ conv, a, b string }{
		{"", "UserID", "User_ID"}, {"", "UserID", "UserId"}, {"snake_case", "APIKey", "ApiKey"}, {"", "Line1", "Line_1"}, {"", "HTTPServer", "HTTP_Server"},
		{"camelCase", "UserName", "User_Name"}, {"PascalCase", "UserName", "User_Name"}, {"camelCase", "UserID", "UserId"}, {"PascalCase", "UserID", "UserId"},
	} {
		if rng.Intn(2) == 0 {
			add(false, fmt.Sprintf("%s and %s are named alike in %q", c.a, c.b, c.conv), c.conv, spread19(rng, c.a+" string", c.b+" int64"))
		} else {
			// the derived name of one is the explicit one of the other
			name := map[string]string{"": "user_id", "snake_case": "user_id", "camelCase": "userId", "PascalCase": "UserId"}[c.conv]
			add(false, "an explicit name like a derived one in "+c.conv, c.conv, spread19(rng, "UserID string", "Other int64 `TAG:\""+name+"\"`"))
		}
	}
	add(false, "two names of a declaration share its explicit name", "", "type Model struct {\n\tID int64 `TAG:\",pk\"`\n\tA, B string `TAG:\"both\"`\n}\n")
	add(false, "a field named like a generated method", "", "type Model struct {\n\tID int64 `TAG:\",pk\"`\n\t"+pick("Columns", "TableName", "Values", "Addrs", "PK", "ColumnID", "IDValue")+" string\n}\n")
	add(false, "a method named like a generated accessor", "", "type Model struct {\n\tID int64 `TAG:\",pk\"`\n\tName string\n}\n\nfunc (Model) "+pick("ColumnName", "NameValue", "IDValue", "ColumnID")+"() int { return 0 }\n")
	// what only looks like a conflict
	add(true, "an ignored field shares the name", pick("", "camelCase"), spread19(rng, "First string `TAG:\"same\"`", "Second int64 `TAG:\"-\"`"))
	add(true, "an unexported field shares the name", "", "type Model struct {\n\tUserName string\n\tuserName int\n\tuser_name string `TAG:\"user_name\"`\n}\n")
	add(true, "the name is taken under another key", "", "type Model struct {\n\tFirst string `TAG:\"same\" json:\"a b\"`\n\tSecond int64 `other:\"same\" json:\"same\"`\n}\n")
	add(true, "two structs share names", "", "type Model struct {\n\tUserID string\n}\n\ntype Model2 struct {\n\tUserID string\n\tUserIDs string\n\tUser_Id2 bool\n}\n")
	add(true, "distinct in this convention", "PascalCase", "type Model struct {\n\tID int64 `TAG:\"id\"`\n\tCode string\n\tCodes string `TAG:\"code\"`\n}\n")
	return out
}

func c19(e *env) {
	var all []src19
	for i := 0; i < e.r.N(1, 12); i++ {
		all = append(all, c19sources(e.r.Rand(fmt.Sprint("sources", i)))...)
	}
	parallel(len(all), func(i int) {
		s, r := all[i], e.r
		root := filepath.Join(e.work, "c19", fmt.Sprint(i))
		defer os.RemoveAll(root)
		write(filepath.Join(root, "go.mod"), e.modFor("work"))
		tag := []string{"sql", "db", "col_umn"}[i%3]
		yaml := fmt.Sprintf("src:\n  - m\ndriver: %s\nskip_mod_tidy: true\nstruct_tag: %s\nquote_identifier: %v\n", dialects[(i/3)%3], tag, i%2 == 0)
		if s.conv != "" {
			yaml += "naming_convention: " + s.conv + "\n"
		}
		write(filepath.Join(root, "sqlgen.yml"), yaml)
		write(filepath.Join(root, "m/m.go"), s.file(tag))
		out, err := e.sqlgenRO(root)
		_, serr := os.Stat(filepath.Join(root, "m/generated.go"))
		r.Eval("source/"+s.what+s.conv+s.src+tag, true)
		switch {
		case s.ok:
			r.Count("sources_accepted", 1)
			if err != nil || serr != nil {
				r.Violate("accept/"+s.what, "%s: a source without conflict is refused: %v %v\n%s\n%s", s.what, err, serr, s.file(tag), logTail(out))
			}
		default:
			r.Count("sources_rejected", 1)
			if err == nil {
				r.Violate("reject/"+s.what, "%s (naming %q): generating succeeds\n%s", s.what, s.conv, s.file(tag))
			} else if serr == nil {
				r.Violate("reject/"+s.what, "%s (naming %q): the source is refused, yet code is written for it\n%s", s.what, s.conv, s.file(tag))
			} else if strings.Contains(out, "nil pointer") || strings.Contains(out, "index out of range") || strings.Contains(out, "runtime error") {
				r.Violate("reject/"+s.what, "%s: the generator crashes instead of reporting it: %s\n%s", s.what, logTail(out), s.file(tag))
			}
		}
	})
}
