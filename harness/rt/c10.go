package rt

import (
	"fmt"
	"math/rand"
	"reflect"

	"verif/harness/ev"
	"verif/harness/minisql"
)

// setAuto gives the auto-increment field a small value.
func (a *Adapter) setAuto(m any, id int64) {
	if a.M.Auto < 0 {
		return
	}
	f, ok := Field(m, &a.M.Cols[a.M.Auto])
	if !ok {
		return
	}
	if f.Kind() == reflect.Pointer {
		p := reflect.New(f.Type().Elem())
		f.Set(p)
		f = p.Elem()
	}
	if f.CanInt() {
		f.SetInt(id)
	} else if f.CanUint() {
		f.SetUint(uint64(id))
	}
}

// stock makes existing rows: distinct keys, unique constraints kept,
// auto-increment keys small so that there is room for more.
func (g *G) stock(a *Adapter, n int) ([]Rec, []any) {
	var recs []Rec
	var ms []any
	_, pop := g.population(a, n, false)
	for i, m := range pop {
		a.setAuto(m, int64(3*i+1+g.R.Intn(3)))
		r, err := RecOf(a, m)
		if err != nil {
			panic(err)
		}
		if a.M.HasPK() && a.find(recs, r) >= 0 || a.clash(recs, r) >= 0 {
			continue
		}
		recs, ms = append(recs, r), append(ms, m)
	}
	return recs, ms
}

// fresh makes n models that can be inserted next to rows: their keys, where
// the caller gives them, and unique values are new.
func (g *G) fresh(a *Adapter, rows []Rec, n int) ([]Rec, []any) {
	var recs []Rec
	var ms []any
	small := *g
	small.Small = true
	for try := 0; len(ms) < n && try < 40*n+40; try++ {
		m := a.New()
		gg := g
		if g.R.Intn(2) == 0 {
			gg = &small
		}
		var r Rec
		if a.M.HasPK() && a.M.Auto < 0 {
			r = gg.fillKeyed(a, m)
			if a.find(rows, r) >= 0 || a.find(recs, r) >= 0 {
				continue
			}
		} else {
			gg.Fill(a, m)
			if a.M.Auto >= 0 {
				if _, ok := Field(m, &a.M.Cols[a.M.Auto]); !ok {
					continue
				}
				// whatever the field holds, the database chooses the key
				a.setAuto(m, pick(g.R, 0, 1, 2, 100, -1, int64(g.R.Intn(60))))
			}
			r, _ = RecOf(a, m)
		}
		if r == nil || a.clash(rows, r) >= 0 || a.clash(recs, r) >= 0 {
			continue
		}
		recs, ms = append(recs, r), append(ms, m)
	}
	return recs, ms
}

func init() {
	Checks["C10"] = func(r *ev.Run) {
		r.Rule = "one evaluation per insert call compared with the whole table before and after; distinct counts (flavour, model, call, number of models, values digest)"
		r.Assume = append(r.Assume, "the instrumented engine stands for the three databases", "rows come back from RETURNING in the order they were given")
		each(r, func(a *Adapter) {
			if a.InsertOne == nil {
				return
			}
			rng := r.Rand("c10" + a.String())
			for k, n := 0, r.N(150, 3000); k < n; k++ {
				c10(r, a, rng)
			}
		})
	}
}

func c10(r *ev.Run, a *Adapter, rng *rand.Rand) {
	g := &G{R: rng, D: a.F.D}
	w := NewWorld(a)
	defer w.Close()
	rows, stock := g.stock(a, rng.Intn(6))
	w.Put(rows)
	w.E.Mode = modes[rng.Intn(3)]
	w.E.Prepared = rng.Intn(2) == 0
	before := w.E.Snapshot(a.M.Table)
	one := rng.Intn(2) == 0 || a.Insert == nil
	n := 1
	if !one {
		n = pick(rng, 0, 1, 2, 3, 5, 12, 40)
	}
	recs, ms := g.fresh(a, rows, n)
	n = len(ms)
	if one && n == 0 {
		return
	}
	// sometimes one of them is there already: the whole call fails
	dup := false
	if len(stock) > 0 && n > 0 && rng.Intn(6) == 0 && a.M.Auto < 0 && a.M.HasPK() {
		i := rng.Intn(n)
		o := stock[rng.Intn(len(stock))]
		if a.keyAlloc(ms[i]) && a.keyAlloc(o) {
			a.setKey(ms[i], o)
			recs[i], _ = RecOf(a, ms[i])
			dup = true
		}
	}
	orig := make([]any, n)
	for i := range ms {
		orig[i] = a.CopyOf(ms[i])
	}
	op := "insertone"
	if !one {
		op = "insert"
	}
	id := fmt.Sprintf("%s %s of %d models into %d rows (%s)", a, op, n, len(rows), w.E.Mode)
	if n > 0 {
		id += fmt.Sprintf(", first %s", show(a, orig[0]))
	}
	key := op + "/" + a.String()
	dig := ""
	for _, x := range recs {
		dig += ShowRow(x)
	}
	r.Eval(fmt.Sprintf("%s/%s/%d/%v/%s", a, op, n, dup, dig), true)
	r.Count(fmt.Sprintf("%s-dup-%v", op, dup), 1)
	bad := func(f string, v ...any) {
		r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
	}
	var cnt int64 = -1
	var err error
	var got []any
	if one {
		res, e := a.InsertOne(bg, w.DB, ms[0])
		err = e
		if err == nil && a.F.D != minisql.Postgres {
			cnt = Affected(res)
		} else if err == nil {
			cnt = 1
		}
		got = ms
	} else {
		sl := a.Slice(ms...)
		if n == 0 && rng.Intn(2) == 0 {
			sl = reflect.Zero(reflect.SliceOf(a.Type)).Interface()
		}
		res, e := a.Insert(bg, w.DB, sl)
		err = e
		if err == nil {
			cnt = Affected(res)
		}
		got = a.Elems(sl)
	}
	after := w.E.Snapshot(a.M.Table)
	if dup {
		if err == nil {
			bad("a key is there already, but it succeeds")
		}
		if d := w.sameTables(after, before); d != "" {
			bad("it failed but changed the table: %s", d)
		}
		return
	}
	if err != nil {
		bad("fails: %v", err)
		return
	}
	if n == 0 {
		if l := w.E.TakeLog(); len(l) > 0 {
			bad("an empty slice sends %s", l[0].SQL)
		}
	}
	if cnt != int64(n) {
		bad("affected count %d, %d models were given", cnt, n)
	}
	if len(after) != len(before)+n {
		bad("the table has %d rows, it had %d", len(after), len(before))
		return
	}
	if d := w.sameTables(after[:len(before)], before); d != "" {
		bad("an existing row was changed: %s", d)
	}
	skip := keysOf(a.unwritten())
	more := w.E.Table(a.M.Table).ColIndex("zz_more")
	for i := 0; i < n; i++ {
		row := w.rec(after[len(before)+i])
		if d := a.SameRec(row, recs[i], skip...); d != "" {
			bad("row of model %d: %s", i, d)
			return
		}
		if after[len(before)+i][more] == nil {
			bad("row of model %d lacks the default of a column the model does not have", i)
		}
		for _, k := range skip {
			if row[k] == nil {
				bad("row of model %d: the database did not fill %s", i, a.M.Cols[k].Name)
			}
		}
		switch {
		case a.F.D == minisql.Postgres:
			if d := a.MatchRow(got[i], row); d != "" {
				bad("model %d did not receive its row: %s", i, d)
			}
		case one:
			var auto []int
			if a.M.Auto >= 0 {
				auto = []int{a.M.Auto}
				f, ok := Field(got[i], &a.M.Cols[a.M.Auto])
				if !ok {
					bad("the generated key %s was not written back", ShowRow(Rec{row[a.M.Auto]}))
				} else if x, _ := RecOf(a, got[i]); !minisql.Equal(x[a.M.Auto], row[a.M.Auto]) {
					bad("the generated key is %s, the model has %s", ShowRow(Rec{row[a.M.Auto]}), Show(f))
				}
			}
			if d := a.SameModel(got[i], orig[i], auto...); d != "" {
				bad("the model was changed: %s", d)
			}
		default:
			if d := a.SameModel(got[i], orig[i]); d != "" {
				bad("model %d was changed: %s", i, d)
			}
		}
	}
	r.Sample(key, map[string]any{"models": n, "rows": len(rows)})
	w.Check(r, "res/"+a.String(), id)
}
