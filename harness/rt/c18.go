package rt

import (
	"verif/harness/ev"
)

func init() {
	Checks["C18"] = func(r *ev.Run) {
		r.Rule = "one evaluation per annotated or tagged struct whose generated method set is judged, and per call on a model with readonly columns or hand-written methods compared with the reference on an engine which refuses writes of readonly columns"
		r.Assume = append(r.Assume, "hand-written lists name the columns in the order of the fields; hand-written values are those of the insert columns",
			"a readonly column is a generated column of the instrumented engine: writing it is an error there")
		each(r, func(a *Adapter) {
			rng := r.Rand("c18" + a.String())
			ro := 0
			for _, c := range a.M.Cols {
				if c.RO {
					ro++
				}
			}
			r.Count("readonly_columns", int64(ro))
			for k, n := 0, r.N(25, 400); k < n; k++ {
				if a.Find != nil {
					c09(r, a, rng)
				}
				if a.InsertOne != nil {
					c10(r, a, rng)
					c10(r, a, rng)
				}
				if a.Upsert != nil {
					c11(r, a, rng)
				}
				if a.Paginate != nil && a.HasKey() && a.sortableKey() {
					c14(r, a, rng, k)
				}
			}
		})
	}
}
