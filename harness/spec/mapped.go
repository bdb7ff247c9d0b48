package spec

import "math/rand"

// Uses says whether a column of the struct has the type.
func (s *Struct) Uses(typ string) bool {
	for _, f := range s.Fields {
		if f.Type == typ || f.Emb != nil && f.Emb.Uses(typ) {
			return true
		}
	}
	return false
}

// MapModels have columns of types with a mapping of their own, everywhere a
// column can be.
func MapModels() []*Struct {
	pos := &Struct{Name: "Pos", NoGlue: true, Fields: []Field{f("Here", "point"), f("There", "point"), f("Fee", "cent")}}
	seal := &Struct{Name: "Seal", NoGlue: true, Fields: []Field{f("Code", "vault"), f("Made", "micro")}}
	return []*Struct{
		{Name: "Spot", Fields: []Field{f("ID", "int64", "id,pk,auto_increment"), f("At", "point"), f("Name", "string"), f("Moment", "micro"), f("Price", "cent"), f("Secret", "vault")}, Uniques: [][]string{{"name"}}},
		{Name: "Cell", Fields: []Field{f("N", "int64"), f("At", "point", "at,pk"), f("Seen", "*int64")}},
		{Name: "Safe", Fields: []Field{f("Code", "vault", "code,pk"), f("Place", "point")}},
		{Name: "Edge", Fields: []Field{f("Start", "point", "start,pk"), f("Weight", "float64"), f("Finish", "point", "finish,pk"), f("Cap", "cent", "cap,pk"), f("Memo", "*string"), f("Used", "micro")}},
		{Name: "Mark", Fields: []Field{f("Seen", "point", "seen,readonly"), f("ID", "string", "id,pk"), f("At", "point"), f("Won", "cent", "won,readonly"), f("Made", "micro", "made,readonly")}},
		{Name: "Ship", Fields: []Field{f("Name", "string"), emb(pos, false), f("ID", "int32", "id,auto_increment")}},
		{Name: "Boat", Fields: []Field{emb(pos, true), f("ID", "int64", "id,pk"), emb(seal, true), f("Crew", "uint8")}},
		{Name: "Trail", Fields: []Field{f("At", "point"), f("Z", "int"), f("Latch", "vault")}},
		{Name: "Bill", Fields: []Field{f("ID", "int64", "id,pk"), f("Sum", "cent"), f("At", "micro"), f("Opt", "*int64"), f("Paid", "cent")}},
		{Name: "Day", Fields: []Field{f("At", "micro", "at,pk"), f("Text", "string"), f("Fee", "cent", "fee,pk")}},
		{Name: "Bank", Fields: []Field{f("Total", "cent", "total,pk"), f("Note", "*string")}},
		{Name: "Solo", Fields: []Field{f("At", "point", "at,pk")}},
		{Name: "Lid", Fields: []Field{f("ID", "int64", "id,pk"), f("Opt", "*vault"), f("At", "point")}},
		// a pointer to a mapped type
		{Name: "PinP", Fields: []Field{f("ID", "int64", "id,pk"), f("At", "*point")}},
		{Name: "PinC", Fields: []Field{f("ID", "int64", "id,pk"), f("Sum", "*cent")}},
		{Name: "PinM", Fields: []Field{f("ID", "int64", "id,pk"), f("Moment", "*micro")}},
		pos, seal,
	}
}

// RandomMapped are random models with mapped columns, none a pointer.
func RandomMapped(rng *rand.Rand, n int) []*Struct {
	skip := func(t *Type) bool {
		return t.Mapped && t.Ptr && !(t.Class == CVault) || t.Class == CTime || t.Key == "time" || t.Key == "*time"
	}
	out := Random(rng, n, skip)
	mapped := []string{"point", "cent", "vault", "micro"}
	for _, s := range out {
		for i := range s.Fields {
			x := &s.Fields[i]
			if x.Emb == nil && x.Type != "" && !T(x.Type).Key_ && rng.Intn(2) == 0 {
				x.Type = mapped[rng.Intn(4)]
			}
		}
	}
	return out
}
