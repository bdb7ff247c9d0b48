package spec

import (
	"fmt"
	"math/rand"
)

// WideModels have more than a hundred columns each: one with a generated key
// in between, one whose composite key has a column beyond the hundredth.
func WideModels(rng *rand.Rand) []*Struct {
	kinds := []string{"int64", "string", "*string", "int", "*int64", "bool", "float64", "uint8", "lname"}
	wide := func(name string, n int, at map[int]Field) *Struct {
		s := &Struct{Name: name}
		for i := 0; i < n; i++ {
			fd, ok := at[i]
			if !ok {
				fd = f(alpha("W", i), kinds[rng.Intn(len(kinds))])
				if rng.Intn(12) == 0 {
					fd.Tag = fmt.Sprintf("w%d", i)
				}
				if rng.Intn(30) == 0 {
					fd.Tag = fmt.Sprintf("w%d,readonly", i)
				}
			}
			s.Fields = append(s.Fields, fd)
		}
		return s
	}
	return []*Struct{
		wide("WideOne", 108+rng.Intn(20), map[int]Field{rng.Intn(100): f("ID", "int64", "id,pk,auto_increment")}),
		wide("WideTwo", 115+rng.Intn(20), map[int]Field{rng.Intn(80): f("KeyA", "int32", "key_a,pk"), 104 + rng.Intn(9): f("KeyB", "lname", "key_b,pk")}),
	}
}
