package rt

import (
	"fmt"
	"strings"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

func (a *Adapter) has(cols []int, f func(*spec.Type) bool) bool {
	for _, i := range cols {
		if f(spec.T(a.M.Cols[i].Type)) {
			return true
		}
	}
	return false
}

func init() {
	Checks["C22"] = func(r *ev.Run) {
		r.Rule = "one evaluation per call on a model, with or without mapped columns, whose effect and result are compared with the reference; distinct as for the calls' own properties"
		r.Assume = append(r.Assume, "a geometry column of the instrumented engine is readable and writable through its two SQL functions only", "the mapped text and number forms are unreadable for the default scanners")
		each(r, func(a *Adapter) {
			var all []int
			for i := range a.M.Cols {
				all = append(all, i)
			}
			wrapped := a.has(a.M.Ins(), func(t *spec.Type) bool { return t.Wrapped })
			rng := r.Rand("c22" + a.String())
			n := r.N(25, 500)
			if !a.has(all, func(t *spec.Type) bool { return t.Mapped }) {
				n = r.N(4, 100)
			} else {
				r.Count("models-with-mapped-columns", 1)
			}
			if a.has(all, func(t *spec.Type) bool { return t.Mapped && t.Ptr && t.Class != spec.CVault }) {
				c22pin(r, a)
				return
			}
			b := *a
			if wrapped && a.InsertOne != nil {
				c22bulk(r, a)
				b.Insert, b.Upsert = nil, nil
			}
			for k := 0; k < n; k++ {
				if b.Find != nil {
					c09(r, &b, rng)
				}
				if b.InsertOne != nil {
					c10(r, &b, rng)
					c10(r, &b, rng)
					c10(r, &b, rng)
				}
				if a.Upsert != nil && !wrapped {
					c11(r, &b, rng)
					c11(r, &b, rng)
				}
				if len(b.Ops) > 0 {
					c12(r, &b, rng)
				}
				if b.Paginate != nil && b.HasKey() && b.sortableKey() {
					c14(r, &b, rng, k)
				}
			}
		})
	}
}

// c22bulk covers the inserts whose placeholders come from InsertPlaceholders.
func c22bulk(r *ev.Run, a *Adapter) {
	rng := r.Rand("c22bulk" + a.String())
	for _, op := range []string{"insert", "upsert", "upsertone"} {
		if op != "insert" && a.Upsert == nil {
			continue
		}
		g := &G{R: rng, D: a.F.D, NoNil: true}
		w := NewWorld(a)
		recs, ms := g.fresh(a, nil, 3)
		var err error
		switch op {
		case "insert":
			_, err = a.Insert(bg, w.DB, a.Slice(ms...))
		case "upsert":
			_, err = a.Upsert(bg, w.DB, a.Slice(ms...), Upsert{Override: true})
		case "upsertone":
			ms, recs = ms[:1], recs[:1]
			_, err = a.UpsertOne(bg, w.DB, ms[0], Upsert{Override: true})
		}
		r.Eval("bulk/"+op+"/"+a.String(), true)
		if err != nil {
			key := "bulk/" + op + "/" + a.String()
			if strings.Contains(err.Error(), "geo") {
				key = "bulk-insert-wrapper"
			}
			r.Violate(key, "%s %s of %s fails: %v; %s", a, op, show(a, ms[0]), err, w.LastSQL())
		} else {
			got := w.Rows()
			for i := range recs {
				if i >= len(got) {
					r.Violate("bulk/"+op, "%s %s stores %d rows of %d", a, op, len(got), len(recs))
					break
				}
				for _, c := range a.M.Ins() {
					if !SameStored(spec.T(a.M.Cols[c].Type), a.F.D, recs[i][c], got[i][c]) {
						r.Violate("bulk/"+op, "%s %s stores %s for %s", a, op, ShowRow(got[i]), ShowRow(recs[i]))
					}
				}
			}
		}
		w.Close()
	}
}

// c22pin covers pointers to mapped types.
func c22pin(r *ev.Run, a *Adapter) {
	rng := r.Rand("c22pin" + a.String())
	for k := 0; k < 20; k++ {
		g := &G{R: rng, D: a.F.D, NoNil: k%3 != 0}
		w := NewWorld(a)
		w.E.Mode = modes[k%3]
		recs, ms := g.fresh(a, nil, 1)
		id := fmt.Sprintf("%s insert and find of %s", a, show(a, ms[0]))
		r.Eval(id, true)
		if _, err := a.InsertOne(bg, w.DB, a.CopyOf(ms[0])); err != nil {
			key := "pin/" + a.String()
			if recs[0][1] != nil && a.F.D == minisql.Postgres && strings.Contains(err.Error(), "Scan error") {
				key = "ptr-scan"
			}
			r.Violate(key, "%s: insert fails: %v; %s", id, err, w.LastSQL())
			w.Close()
			continue
		}
		rows := w.Rows()
		if len(rows) != 1 {
			r.Violate("pin/"+a.String(), "%s: %d rows", id, len(rows))
		} else if d := a.SameRec(rows[0], recs[0]); d != "" {
			r.Violate("pin/"+a.String(), "%s: %s", id, d)
		}
		m := a.New()
		a.setKey(m, ms[0])
		err := a.Find(bg, w.DB, m)
		d := ""
		if err == nil {
			d = a.SameModel(m, ms[0])
		}
		if err != nil || d != "" {
			key := "pin/" + a.String()
			if recs[0][1] != nil {
				key = "ptr-scan"
			}
			r.Violate(key, "%s: find: %v %s; %s", id, err, d, w.LastSQL())
		}
		w.Close()
	}
}
