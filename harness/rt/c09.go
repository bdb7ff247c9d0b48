package rt

import (
	"database/sql"
	"errors"
	"fmt"
	"math/rand"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

// noUnique drops the secondary constraints of a table.
func noUnique(t *minisql.Table) { t.Uniques = nil }

// sameKey says whether two rows have the same primary key.
func (a *Adapter) sameKey(x, y Rec) bool {
	for _, i := range a.M.PK() {
		if !minisql.Equal(x[i], y[i]) {
			return false
		}
	}
	return true
}

func (a *Adapter) find(rows []Rec, r Rec) int {
	for i := range rows {
		if a.sameKey(rows[i], r) {
			return i
		}
	}
	return -1
}

// keyOK says whether a row can be stored under its key.
func (a *Adapter) keyOK(r Rec) bool {
	for _, i := range a.M.PK() {
		if r[i] == nil {
			return false
		}
	}
	return true
}

// fillKeyed fills a model whose key is not NULL.
func (g *G) fillKeyed(a *Adapter, m any) Rec {
	for {
		g.Fill(a, m)
		r, err := RecOf(a, m)
		if err != nil {
			panic(err)
		}
		if a.keyOK(r) {
			return r
		}
	}
}

// population makes n rows with different keys that share key components, and
// the models they came from.
func (g *G) population(a *Adapter, n int, uniq bool) (recs []Rec, ms []any) {
	small := *g
	small.Small = true
	for try := 0; len(recs) < n && try < n*20; try++ {
		m := a.New()
		gg := g
		if g.R.Intn(3) > 0 {
			gg = &small
		}
		r := gg.fillKeyed(a, m)
		if len(ms) > 0 && len(a.M.PK()) > 1 && g.R.Intn(2) == 0 {
			// differ from another row in one component only
			o := ms[g.R.Intn(len(ms))]
			keep := g.R.Intn(len(a.M.PK()))
			for j, i := range a.M.PK() {
				if j == keep {
					continue
				}
				d, _ := Field(m, &a.M.Cols[i])
				s, _ := Field(o, &a.M.Cols[i])
				d.Set(s)
			}
			r, _ = RecOf(a, m)
		}
		if len(ms) > 0 && len(a.M.PK()) > 1 && g.R.Intn(4) == 0 {
			// the same components the other way round, where types allow
			a.swapKey(m, ms[g.R.Intn(len(ms))])
			r, _ = RecOf(a, m)
		}
		if a.HasKey() && a.find(recs, r) >= 0 {
			continue
		}
		if uniq && a.clash(recs, r) >= 0 {
			continue
		}
		recs, ms = append(recs, r), append(ms, m)
	}
	return recs, ms
}

// HasKey says whether the model has a primary key.
func (a *Adapter) HasKey() bool { return a.M.HasPK() }

func (a *Adapter) swapKey(m, o any) {
	pk := a.M.PK()
	x, _ := Field(m, &a.M.Cols[pk[0]])
	y, _ := Field(m, &a.M.Cols[pk[1]])
	ox, _ := Field(o, &a.M.Cols[pk[0]])
	oy, _ := Field(o, &a.M.Cols[pk[1]])
	if ox.Type().ConvertibleTo(y.Type()) && oy.Type().ConvertibleTo(x.Type()) && ox.Type() == oy.Type() {
		y.Set(ox)
		x.Set(oy)
	}
}

// clash finds a row with the same value under a unique constraint.
func (a *Adapter) clash(rows []Rec, r Rec, skip ...int) int {
next:
	for i := range rows {
		for _, s := range skip {
			if s == i {
				continue next
			}
		}
		for _, u := range a.M.Uniques {
			same := true
			for _, n := range u {
				k := a.M.Col(n)
				if r[k] == nil || rows[i][k] == nil || !minisql.Equal(rows[i][k], r[k]) {
					same = false
				}
			}
			if same {
				return i
			}
		}
	}
	return -1
}

// others compares whole tables, columns the model does not know included.
func (w *World) sameTables(x, y []minisql.Row) string {
	a := w.A
	if len(x) != len(y) {
		return fmt.Sprintf("%d rows instead of %d", len(x), len(y))
	}
	known := map[int]bool{}
	for _, p := range w.pos {
		known[p] = true
	}
	for i := range x {
		if s := a.SameRec(w.rec(x[i]), w.rec(y[i])); s != "" {
			return fmt.Sprintf("row %d: %s", i, s)
		}
		for j := range x[i] {
			if !known[j] && !minisql.Equal(x[i][j], y[i][j]) {
				return fmt.Sprintf("row %d, a column the model does not have: have %s, want %s", i, ShowRow(Rec{x[i][j]}), ShowRow(Rec{y[i][j]}))
			}
		}
	}
	return ""
}

// changed counts the rows whose stored form differs.
func changed(x, y minisql.Row) bool {
	for j := range x {
		if !minisql.Equal(x[j], y[j]) {
			return true
		}
	}
	return false
}

func cloneRows(rs []minisql.Row) []minisql.Row {
	out := make([]minisql.Row, len(rs))
	for i := range rs {
		out[i] = append(minisql.Row(nil), rs[i]...)
	}
	return out
}

func recsOf(w *World, rows []minisql.Row) []Rec {
	out := make([]Rec, len(rows))
	for i := range rows {
		out[i] = w.rec(rows[i])
	}
	return out
}

// rowWith is row i of the table with the given columns taken from r.
func (w *World) rowWith(row minisql.Row, r Rec, cols []int) minisql.Row {
	out := append(minisql.Row(nil), row...)
	t := w.E.Table(w.A.M.Table)
	for _, c := range cols {
		v, err := minisql.Coerce(t.Cols[w.pos[c]].Kind, t.Cols[w.pos[c]].F32, r[c])
		if err != nil {
			panic(err)
		}
		out[w.pos[c]] = v
	}
	return out
}

func init() {
	Checks["C09"] = func(r *ev.Run) {
		r.Rule = "one evaluation per key operation compared with the whole table before and after; distinct counts (flavour, model, operation, hit or miss, row digest)"
		r.Assume = append(r.Assume, "the instrumented engine stands for the three databases", "MySQL's affected count is the number of rows changed, as its driver reports by default")
		each(r, func(a *Adapter) {
			if a.Find == nil {
				return
			}
			rng := r.Rand("c09" + a.String())
			n := r.N(40, 800)
			for k := 0; k < n; k++ {
				c09(r, a, rng)
			}
		})
	}
}

func c09(r *ev.Run, a *Adapter, rng *rand.Rand) {
	g := &G{R: rng, D: a.F.D}
	w := NewWorld(a, noUnique)
	defer w.Close()
	rows, ms := g.population(a, rng.Intn(9), false)
	w.Put(rows)
	pop := append([]any{}, ms...)
	for s := 0; s < 12; s++ {
		w.E.TakeLog()
		w.E.Mode = modes[rng.Intn(3)]
		w.E.Prepared = rng.Intn(2) == 0
		before := w.E.Snapshot(a.M.Table)
		cur := recsOf(w, before)
		// the model: random content, key of a row (there or deleted) or a new one
		m := a.New()
		gg := *g
		gg.Small = rng.Intn(2) == 0
		want := gg.fillKeyed(a, m)
		if len(pop) > 0 && rng.Intn(4) > 0 {
			o := pop[rng.Intn(len(pop))]
			if a.keyAlloc(m) && a.keyAlloc(o) {
				if len(a.M.PK()) > 1 && rng.Intn(4) == 0 {
					a.swapKey(m, o)
				} else if len(a.M.PK()) > 1 && rng.Intn(4) == 0 {
					// only a part of the key agrees
					i := a.M.PK()[rng.Intn(len(a.M.PK()))]
					d, _ := Field(m, &a.M.Cols[i])
					v, _ := Field(o, &a.M.Cols[i])
					d.Set(v)
				} else {
					a.setKey(m, o)
				}
				want, _ = RecOf(a, m)
			}
		}
		orig := a.CopyOf(m)
		at := a.find(cur, want)
		hit := "miss"
		if at >= 0 {
			hit = "hit"
		}
		op := pick(rng, "find", "lock", "lockshare", "update", "delete", "update", "find")
		id := fmt.Sprintf("%s %s of %s (%s, %d rows)", a, op, show(a, orig), hit, len(cur))
		key := op + "/" + a.String()
		r.Eval(fmt.Sprintf("%s/%s/%s/%d/%s", a, op, hit, len(cur), ShowRow(want)), true)
		r.Count(op+"-"+hit, 1)
		bad := func(f string, v ...any) {
			r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
		}
		exp := cloneRows(before)
		switch op {
		case "find", "lock", "lockshare":
			var err error
			if op == "find" {
				err = a.Find(bg, w.DB, m)
			} else {
				tx, terr := w.DB.Begin()
				if terr != nil {
					panic(terr)
				}
				mode := "update"
				if op == "lockshare" {
					mode = "share"
				}
				err = a.Lock(bg, tx, m, mode)
				lockLog(r, a, w, mode, key, id)
				if rng.Intn(2) == 0 {
					terr = tx.Commit()
				} else {
					terr = tx.Rollback()
				}
				if terr != nil {
					bad("ending the transaction fails: %v", terr)
				}
			}
			if at < 0 {
				if !errors.Is(err, sql.ErrNoRows) {
					bad("no such row, but it returns %v", err)
				}
			} else if err != nil {
				bad("fails: %v", err)
			} else if d := a.MatchRow(m, cur[at]); d != "" {
				bad("%s", d)
			}
		case "update":
			res, err := a.Update(bg, w.DB, m)
			if err != nil {
				bad("fails: %v", err)
				break
			}
			var cnt int64
			if at >= 0 {
				exp[at] = w.rowWith(before[at], want, a.M.Upd())
				if len(a.M.Upd()) > 0 && (a.F.D != minisql.MySQL || changed(w.E.Snapshot(a.M.Table)[at], before[at])) {
					cnt = 1
				}
			}
			if got := Affected(res); got != cnt {
				bad("affected %d rows, the database changed %d", got, cnt)
			}
		case "delete":
			res, err := a.Delete(bg, w.DB, m)
			if err != nil {
				bad("fails: %v", err)
				break
			}
			var cnt int64
			if at >= 0 {
				exp = append(exp[:at], exp[at+1:]...)
				cnt = 1
			}
			if got := Affected(res); got != cnt {
				bad("affected %d rows, the database removed %d", got, cnt)
			}
		}
		if d := w.sameTables(w.E.Snapshot(a.M.Table), exp); d != "" {
			bad("the table is not as it should be: %s", d)
			w.E.SetRows(a.M.Table, exp)
		}
		if op == "update" || op == "delete" {
			if d := a.SameModel(m, orig); d != "" {
				bad("the model itself was changed: %s", d)
			}
		}
		r.Sample(key, map[string]any{"op": op, "hit": hit, "rows": len(cur)})
	}
	w.Check(r, "res/"+a.String(), a.String())
}

// lockLog judges that the row was read under the lock asked for.
func lockLog(r *ev.Run, a *Adapter, w *World, mode, key, id string) {
	log := w.E.TakeLog()
	n := 0
	for _, c := range log {
		if c.Op != "query" || c.Stmt == nil {
			continue
		}
		n++
		want := map[string]string{"update": "FOR UPDATE", "share": "FOR SHARE"}[mode]
		if a.F.D == minisql.SQLite {
			want = ""
		}
		if c.Stmt.Lock != want {
			r.Violate(key, "%s: the lock clause is %q instead of %q in %s", id, c.Stmt.Lock, want, c.SQL)
		}
		if !c.InTx {
			r.Violate(key, "%s: the lock is taken outside of the transaction", id)
		}
		if c.Res.Rows != nil && len(c.Res.Rows) > 1 {
			r.Violate(key, "%s: %d rows are locked by %s", id, len(c.Res.Rows), c.SQL)
		}
	}
	if n == 0 {
		for _, c := range log {
			if c.Err != nil {
				r.Violate(key, "%s: %s fails: %v", id, c.SQL, c.Err)
				return
			}
		}
		r.Violate(key, "%s: no row is read", id)
	}
}

var _ = spec.T
