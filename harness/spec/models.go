package spec

import (
	"fmt"
	"math/rand"
)

func f(name, typ string, tag ...string) Field {
	x := Field{Go: name, Type: typ}
	if len(tag) > 0 {
		x.Tag = tag[0]
	}
	return x
}

func emb(s *Struct, ptr bool) Field { return Field{Emb: s, EmbPtr: ptr} }

var auditStruct = &Struct{Name: "Audit", Ext: mtPath, NoGlue: true, Fields: []Field{f("MadeBy", "string"), f("MadeAt", "int64")}}

// Core are the models every flavour has: one per shape of table.
func Core() []*Struct {
	addr := &Struct{Name: "Addr", NoGlue: true, Fields: []Field{f("Street", "string"), f("Zip", "*string"), f("Lat", "float64")}}
	geo := &Struct{Name: "Geo", NoGlue: true, Fields: []Field{f("Country", "lname"), f("Grade", "*int")}}
	place := &Struct{Name: "Place", NoGlue: true, Fields: []Field{f("Label", "string"), emb(geo, true), f("Size", "uint32")}}
	base := &Struct{Name: "base", NoGlue: true, Fields: []Field{f("ID", "int64", "id,pk,auto_increment"), f("Rev", "int32", "rev")}}
	return []*Struct{
		// auto-increment key first, unique column, readonly column
		{Name: "Member", Fields: []Field{f("ID", "int64", "id,pk,auto_increment"), f("Name", "string"), f("Email", "*string"), f("Age", "uint8"), f("Score", "float64"), f("Active", "bool"), f("Made", "time", "made_at,readonly")}, Uniques: [][]string{{"name"}}},
		// key in the middle, named type key
		{Name: "Item", Fields: []Field{f("Title", "string"), f("Code", "lname", "code,pk"), f("Price", "float64"), f("Stock", "*int64"), f("Tags", "s_string")}},
		// key last, readonly before it
		{Name: "Note", Fields: []Field{f("Body", "string"), f("Ver", "int64", "ver,readonly"), f("Num", "uint32", "num,pk"), f("Done", "*bool")}},
		// composite key, not adjacent, with a readonly column between
		{Name: "Line", Fields: []Field{f("Qty", "int"), f("Order", "int64", "order_no,pk"), f("Seq", "int64", "seq,readonly"), f("Pos", "int16", "pos,pk"), f("Memo", "*string")}},
		// composite key of three columns declared first
		{Name: "Grid", Fields: []Field{f("X", "int8", "x,pk"), f("Y", "string", "y,pk"), f("Z", "uint64", "z,pk"), f("Val", "float32"), f("Opt", "*float64")}},
		// key only
		{Name: "Tag", Fields: []Field{f("Word", "string", "word,pk")}},
		{Name: "Pair", Fields: []Field{f("A", "int64", "a,pk"), f("B", "int64", "b,pk")}},
		// auto-increment key last, other types
		{Name: "Event", Fields: []Field{f("Kind", "level"), f("At", "time"), f("Data", "bytes"), f("Note", "*lname"), f("ID", "int64", "id,auto_increment")}},
		// no key
		{Name: "Log", Fields: []Field{f("Level", "int"), f("Msg", "string"), f("Extra", "*string"), f("Host", "string", "host,readonly")}},
		// embedded structs, by value and by pointer, nested
		{Name: "Shop", Fields: []Field{f("ID", "string", "id,pk"), emb(addr, false), f("Open", "bool"), emb(place, true)}},
		{Name: "Dept", Fields: []Field{emb(addr, true), f("ID", "int32", "id,pk"), emb(auditStruct, true), f("Head", "*string")}},
		// embedded unexported struct holding the auto-increment key
		{Name: "Task", Fields: []Field{emb(base, false), f("What", "string"), f("Prio", "*int8")}, Uniques: [][]string{{"what"}}},
		// several names in one declaration, explicit table name, reserved words
		{Name: "Odd", Table: "order", Fields: []Field{f("Key", "string", "select,pk"), {Go: "Left", More: []string{"Right"}, Type: "int"}, f("Group", "string", "group"), f("From", "*int64", "from"), f("skip", "int"), f("Hidden", "string", "-")}},
		// read only struct
		{Name: "View", Doc: "View is a report.\n+sql:readonly", Fields: []Field{f("ID", "int64", "id,pk"), f("Total", "float64"), f("Label", "*string")}},
		addr, geo, place, base,
	}
}

// TypeModels spread the catalogue over models: one keyed model per chunk of
// types, by value and through pointers.
func TypeModels(skip func(*Type) bool) []*Struct {
	var out []*Struct
	for _, ptr := range []bool{false, true} {
		keys := Keys(func(t *Type) bool { return t.Ptr == ptr && !skip(t) })
		for i := 0; i < len(keys); i += 9 {
			n := "Val"
			if ptr {
				n = "Ptr"
			}
			s := &Struct{Name: alpha(n, i/9), Fields: []Field{f("ID", "int64", "id,pk")}}
			for j := i; j < i+9 && j < len(keys); j++ {
				s.Fields = append(s.Fields, f(alpha("F", j), keys[j]))
			}
			out = append(out, s)
		}
	}
	return out
}

// KeyModels have keys of every type usable as one.
func KeyModels() []*Struct {
	var out []*Struct
	for i, k := range Keys(func(t *Type) bool { return t.Key_ && !t.Ptr }) {
		out = append(out, &Struct{Name: alpha("Key", i), Fields: []Field{f("V", "string"), f("K", k, "k,pk"), f("W", "*int64")}})
	}
	return out
}

// Random makes n random models.
func Random(rng *rand.Rand, n int, skip func(*Type) bool) []*Struct {
	all := Keys(func(t *Type) bool { return !skip(t) })
	keyable := Keys(func(t *Type) bool { return t.Key_ && !t.Ptr && !skip(t) })
	var out []*Struct
	var parts []*Struct
	for i := 0; i < 4+n/4; i++ {
		p := &Struct{Name: alpha("Part", i), NoGlue: true}
		if rng.Intn(3) == 0 {
			p.Name = alpha("part", i)
		}
		for j := 0; j < 1+rng.Intn(3); j++ {
			p.Fields = append(p.Fields, f(alpha("P", i)+alpha("F", j), all[rng.Intn(len(all))]))
		}
		// unexported structs cannot be embedded through a pointer
		for len(parts) > 0 && rng.Intn(3) == 0 {
			q := parts[rng.Intn(len(parts))]
			if q.uses(p) || p.uses(q) || p.shares(q) {
				break
			}
			p.Fields = append(p.Fields, emb(q, rng.Intn(2) == 0 && q.Name[0] == 'P'))
		}
		rng.Shuffle(len(p.Fields), func(a, b int) { p.Fields[a], p.Fields[b] = p.Fields[b], p.Fields[a] })
		parts = append(parts, p)
	}
	for i := 0; i < n; i++ {
		s := &Struct{Name: alpha("Rand", i)}
		nf := 1 + rng.Intn(7)
		for j := 0; j < nf; j++ {
			fd := f(alpha("F", j), all[rng.Intn(len(all))])
			switch rng.Intn(10) {
			case 0:
				fd.Tag = fmt.Sprintf("c%d_%d", j, rng.Intn(50))
			case 1:
				fd.Tag = ",readonly"
			case 2:
				fd.Tag = fmt.Sprintf("ro%d,readonly", j)
			case 3:
				fd.Tag = "-"
			case 4:
				fd.More = []string{alpha("G", j)}
			}
			s.Fields = append(s.Fields, fd)
		}
		used := map[*Struct]bool{}
		for k := rng.Intn(3); k > 0; k-- {
			q := parts[rng.Intn(len(parts))]
			clash := false
			for u := range used {
				if u.uses(q) || q.uses(u) || u.shares(q) {
					clash = true
				}
			}
			if clash {
				continue
			}
			used[q] = true
			s.Fields = append(s.Fields, emb(q, rng.Intn(2) == 0 && q.Name[0] == 'P'))
		}
		switch rng.Intn(6) {
		case 0:
			s.Fields = append(s.Fields, f("ID", "int64", "id,pk,auto_increment"))
		case 1, 2:
			s.Fields = append(s.Fields, f("Ka", keyable[rng.Intn(len(keyable))], "k0,pk"))
		case 3, 4:
			for k := 0; k < 2+rng.Intn(2); k++ {
				s.Fields = append(s.Fields, f(alpha("K", k), keyable[rng.Intn(len(keyable))], fmt.Sprintf("k%d,primary_key", k)))
			}
		}
		rng.Shuffle(len(s.Fields), func(a, b int) { s.Fields[a], s.Fields[b] = s.Fields[b], s.Fields[a] })
		if rng.Intn(3) == 0 {
			s.Table = fmt.Sprintf("tbl_%d", i)
		}
		out = append(out, s)
	}
	return Respell(rng, append(out, parts...))
}

func (s *Struct) uses(q *Struct) bool {
	if s == q {
		return true
	}
	for _, fd := range s.Fields {
		if fd.Emb != nil && fd.Emb.uses(q) {
			return true
		}
	}
	return false
}

func (s *Struct) shares(q *Struct) bool {
	if s.uses(q) || q.uses(s) {
		return true
	}
	for _, fd := range s.Fields {
		if fd.Emb != nil && fd.Emb.shares(q) {
			return true
		}
	}
	return false
}

// alpha names the i-th thing: names without digits read the same in every
// convention.
func alpha(prefix string, i int) string {
	s := string(rune('a' + i%26))
	for i /= 26; i > 0; i /= 26 {
		s += string(rune('a' + i%26))
	}
	return prefix + s
}

// OddSources are models declared in unusual ways; the source is given next to
// what it stands for.
func OddSources() []*Struct {
	part := func(name string, fs ...Field) *Struct { return &Struct{Name: name, NoGlue: true, Fields: fs} }
	a, b := f("Aaa", "int"), f("Bbb", "*string")
	audit := []Field{f("MadeBy", "string"), f("MadeAt", "int64")}
	id := f("ID", "int64", "id,pk")
	return []*Struct{
		{Name: "OddOne", Src: "type OneBase struct {\n\tAaa int\n\tBbb *string\n}\n\ntype OneAlias = OneBase\n\ntype OneDef OneBase\n\ntype OddOne struct {\n\tID int64 `sql:\"id,pk\"`\n\tOneAlias\n}\n", Fields: []Field{id, emb(part("OneAlias", a, b), false)}},
		{Name: "OddTwo", Src: "type OddTwo struct {\n\t*OneDef\n\tID int64 `sql:\"id,pk\"`\n}\n", Fields: []Field{emb(part("OneDef", a, b), true), id}},
		{Name: "OddThree", Src: "type OddThree mt.Audit\n", Fields: audit},
		{Name: "OddFour", Src: "type OddFour struct {\n\tID int64 `sql:\"id,pk\"`\n\tOddThree\n}\n", Fields: []Field{id, emb(part("OddThree", audit...), false)}},
		{Name: "OddFive", Src: "type fiveAudit = mt.Audit\n\ntype OddFive struct {\n\tfiveAudit\n\tCcc int\n}\n", Fields: []Field{emb(part("fiveAudit", audit...), false), f("Ccc", "int")}},
		// embeds itself, in one step and in two
		{Name: "OddSix", Src: "type OddSix struct {\n\t*OddSix\n\tCcc int `sql:\"ccc,pk\"`\n}\n", Fields: []Field{f("Ccc", "int", "ccc,pk")}},
		{Name: "OddSeven", Src: "type OddSeven struct {\n\t*SevenPart\n\tCcc int `sql:\"ccc,pk\"`\n}\n\ntype SevenPart struct {\n\tAaa int\n\t*OddSeven\n}\n", Fields: []Field{emb(part("SevenPart", a), true), f("Ccc", "int", "ccc,pk")}},
		// names used inside the generated code
		{Name: "OddEight", Src: "var sequel, encoding, strconv, driver, sqltype, pgtype, v, val, row int\n\ntype OddEight struct {\n\tV, Val, Row, Ctx, Err int\n\tString string\n\tS []string `sql:\",readonly\"`\n\tT *int8\n\tType string `sql:\"type,pk\"`\n}\n", Fields: []Field{{Go: "V", More: []string{"Val", "Row", "Ctx", "Err"}, Type: "int"}, f("String", "string"), f("S", "s_string", ",readonly"), f("T", "*int8"), f("Type", "string", "type,pk")}},
		// groups, aliases, generics, local types
		{Name: "OddNine", Src: "type (\n\tNineA struct{ Aaa int }\n\tNineB = NineA\n\tNineC []NineA\n\tOddNine struct {\n\t\tAaa int\n\t\tBbb *string\n\t}\n)\n\ntype NineBox[T any] struct{ X T }\n\nfunc nine() { type Inner struct{ ID int64 }; _ = Inner{} }\n", Fields: []Field{a, b}},
		{Name: "OddTen", Src: "type tenFn func()\n\ntype OddTen struct {\n\ttenFn\n\t_ int\n\tAaa int\n\thidden string\n\t_ string\n\tBbb *string\n\tOneBase `sql:\"-\"`\n}\n", Fields: []Field{a, b}},
		{Name: "OddEleven", Src: "const elevenLen = 4\n\ntype OddEleven struct {\n\tAaa [elevenLen]byte\n\tBbb tm.Time\n\tCcc *tm.Duration\n\tDdd Addr\n}\n", Fields: []Field{f("Aaa", "arr4b"), f("Bbb", "time"), f("Ccc", "*dur"), f("Ddd", "addr")}},
		// aliases of pointers
		{Name: "OddTwelve", Src: "type twelveInt = *int\n\ntype TwelveTime = *tm.Time\n\ntype TwelveBase = *OneBase\n\ntype OddTwelve struct {\n\tID int64 `sql:\"id,pk\"`\n\tCcc twelveInt\n\tDdd TwelveTime\n\tTwelveBase\n}\n", Fields: []Field{id, f("Ccc", "*int"), f("Ddd", "*time"), emb(part("TwelveBase", a, b), true)}},
		{Name: "OddThirteen", Src: "type ThirteenBase = *thirteenPart\n\ntype thirteenPart struct {\n\tAaa int\n\tBbb *string\n}\n\ntype OddThirteen struct {\n\tThirteenBase\n\tID int64 `sql:\"id,pk\"`\n}\n", Fields: []Field{emb(part("ThirteenBase", a, b), true), id}},
	}
}

// EmbModels have every type behind an embedded pointer, and behind two.
func EmbModels(skip func(*Type) bool) []*Struct {
	var out []*Struct
	keys := Keys(func(t *Type) bool { return !skip(t) && t.Key != "time" })
	for i := 0; i < len(keys); i += 6 {
		n := i / 6
		inner := &Struct{Name: alpha("Inn", n), NoGlue: true}
		outer := &Struct{Name: alpha("Out", n), NoGlue: true}
		for j := i; j < i+6 && j < len(keys); j++ {
			fd := f(alpha("F", j), keys[j])
			if j < i+3 {
				inner.Fields = append(inner.Fields, fd)
			} else {
				outer.Fields = append(outer.Fields, fd)
			}
		}
		if len(outer.Fields) == 0 {
			outer.Fields = []Field{f("Fzz", "int")}
		}
		outer.Fields = append(outer.Fields[:1:1], append([]Field{emb(inner, n%3 != 0)}, outer.Fields[1:]...)...)
		s := &Struct{Name: alpha("Emb", n), Fields: []Field{f("ID", "int64", "id,pk"), emb(outer, true)}}
		out = append(out, s, outer, inner)
	}
	return out
}

// KnownModels reproduce listed findings of C08.
func KnownModels() []*Struct {
	in := &Struct{Name: "KnownTimePart", NoGlue: true, Fields: []Field{f("At", "time")}}
	return []*Struct{{Name: "KnownTime", Fields: []Field{f("ID", "int64", "id,pk"), emb(in, true)}}, in}
}
