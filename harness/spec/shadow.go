package spec

import (
	"fmt"
	"math/rand"
	"strings"
)

// Shadow are structs with the names of the given ones and other content, for
// another package generated in the same run: nothing of it may show in the
// code generated for the given ones.
func Shadow(rng *rand.Rand, structs []*Struct) []*Struct {
	made := map[*Struct]*Struct{}
	var shadow func(s *Struct) *Struct
	shadow = func(s *Struct) *Struct {
		if s.Ext != "" || s.Src != "" {
			return nil
		}
		if q := made[s]; q != nil {
			return q
		}
		q := &Struct{Name: s.Name, NoGlue: true}
		made[s] = q
		id := len(made)
		for i := len(s.Fields) - 1; i >= 0; i-- {
			x := s.Fields[i]
			if x.Emb != nil {
				if x.Emb = shadow(x.Emb); x.Emb == nil {
					continue
				}
				x.EmbPtr = !x.EmbPtr
			} else if x.Tag != "" {
				x.Tag = strings.Split(x.Tag, ",")[0]
				if x.Tag != "-" && rng.Intn(3) == 0 {
					x.Tag += ",readonly"
				}
			}
			q.Fields = append(q.Fields, x)
		}
		q.Fields = append(q.Fields, f("Zz"+s.Name, "int64", fmt.Sprintf("zz_%d", id)))
		if rng.Intn(2) == 0 {
			q.Table = fmt.Sprintf("shadow_%d", id)
		}
		return q
	}
	var out []*Struct
	for _, s := range structs {
		if q := shadow(s); q != nil {
			out = append(out, q)
		}
	}
	return out
}
