package rt

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

func init() {
	Checks["C14"] = func(r *ev.Run) {
		r.Rule = "one evaluation per iteration over a paginator whose pages are compared with the reference order of the whole table; distinct counts (flavour, model, direction, cursor, order, limit, filter, table digest)"
		r.Assume = append(r.Assume, "NULLs come last on PostgreSQL and first elsewhere in ascending order", "the table does not change while it is iterated over")
		each(r, func(a *Adapter) {
			if a.Paginate == nil || !a.HasKey() || !a.sortableKey() {
				return
			}
			rng := r.Rand("c14" + a.String())
			for k, n := 0, r.N(40, 700); k < n; k++ {
				c14(r, a, rng, k)
			}
		})
	}
}

// sortableKey says whether the database orders the key as the reference does.
func (a *Adapter) sortableKey() bool {
	for _, i := range a.M.PK() {
		t := spec.T(a.M.Cols[i].Type)
		switch t.ColKind(a.F.D) {
		case minisql.KJSON, minisql.KGeo:
			return false
		}
	}
	return true
}

func c14(r *ev.Run, a *Adapter, rng *rand.Rand, nth int) {
	g := &G{R: rng, D: a.F.D, Small: rng.Intn(4) > 0, Plain: true}
	w := NewWorld(a, noUnique)
	defer w.Close()
	n := pick(rng, 0, 1, 2, 3, 5, 6, 9, 13)
	if nth%40 == 39 {
		n = 230
	}
	rows, ms := g.population(a, n, false)
	w.Put(rows)
	p := &PG{A: a, G: g, R: rng, From: ms}
	var used any
	var usedPred *Pred
	var usedOrd []Ord
	var usedLim int
	for s := 0; s < 8; s++ {
		w.E.TakeLog()
		w.E.Mode = modes[rng.Intn(3)]
		w.E.Prepared = rng.Intn(2) == 0
		pred := &Pred{Holds: func(Rec) tri { return yes }, Text: "true"}
		var where sequel.WhereClause
		var ord []Ord
		if len(a.Ops) > 0 {
			if rng.Intn(2) == 0 {
				pred = p.Gen(rng.Intn(3))
				where = pred.Clause
			}
			ord = p.GenOrder(pick(rng, 0, 1, 1, 2, 2, 3))
		}
		lim := pick(rng, 0, 1, 1, 2, 2, 3, 4, max(1, len(rows)-1), max(1, len(rows)), len(rows)+1, 65535)
		if len(rows) > 200 {
			lim = pick(rng, 0, 100, 7, 229, 230, 231)
		}
		back := rng.Intn(2) == 0
		pg := Page{Back: back, Where: where, OrderBy: a.clause(ord), Limit: uint16(lim), Twice: rng.Intn(3) == 0}
		if used != nil && rng.Intn(2) == 0 {
			// the same paginator again, in any direction and from anywhere
			pg.Reuse = used
			pred, ord, lim = usedPred, usedOrd, usedLim
		} else {
			used = a.NewPager(pg)
			usedPred, usedOrd, usedLim = pred, ord, lim
			pg.Reuse = used
		}
		if lim == 0 {
			lim = 100
		}
		// the reference order
		full := append([]Ord{}, ord...)
		desc := false
		if len(ord) > 0 {
			desc = ord[len(ord)-1].Desc
		}
		for _, k := range a.M.PK() {
			full = append(full, Ord{k, desc})
		}
		if back {
			for i := range full {
				full[i].Desc = !full[i].Desc
			}
		}
		var match []Rec
		for _, x := range rows {
			if pred.Holds(x) == yes {
				match = append(match, x)
			}
		}
		want := sortRecs(a.F.D, full, match)
		cursor := "start"
		if len(rows) > 0 && rng.Intn(5) < 3 {
			k := rng.Intn(len(rows))
			c := a.New()
			if rng.Intn(2) == 0 {
				c = a.CopyOf(ms[k])
			} else {
				// only the key of the cursor counts
				g.Fill(a, c)
				if a.keyAlloc(c) && a.keyAlloc(ms[k]) {
					a.setKey(c, ms[k])
				} else {
					c = a.CopyOf(ms[k])
				}
			}
			pg.Cursor = c
			cursor = a.KeyOf(rows[k])
			var from []Rec
			for _, x := range want {
				if cmpOrd(a.F.D, full, x, rows[k]) >= 0 {
					from = append(from, x)
				}
			}
			want = from
		}
		stop := 0
		if rng.Intn(4) == 0 {
			stop = 1 + rng.Intn(4)
		}
		dir := "next"
		if back {
			dir = "prev"
		}
		id := fmt.Sprintf("%s %s over %d rows from %s where %s order by %s limit %d stop %d", a, dir, len(rows), cursor, pred.Text, orderText(a, ord), lim, stop)
		key := dir + "/" + a.String()
		dig := ""
		for _, x := range rows {
			dig += ShowRow(x)
		}
		r.Eval(id+dig, len(rows) > 0)
		r.Count(fmt.Sprintf("%s-cursor-%v-order-%d", dir, cursor != "start", len(ord)), 1)
		bad := func(f string, v ...any) {
			r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
		}
		passes := [][]any{nil}
		var errs []error
		pages, calls := 0, 0
		stopped := false
		noise := rng.Intn(3) == 0
		a.Paginate(bg, w.DB, pg, func(l any, err error) bool {
			if stopped {
				bad("it goes on after the caller stopped")
				return false
			}
			calls++
			if calls > 3*len(rows)+20 {
				bad("it does not end")
				stopped = true
				return false
			}
			if err == Again {
				passes = append(passes, nil)
				pages = 0
				return true
			}
			if err != nil {
				errs = append(errs, err)
				return true
			}
			pages++
			els := a.Elems(l)
			if len(els) > lim {
				bad("a page of %d rows", len(els))
			}
			cur := &passes[len(passes)-1]
			*cur = append(*cur, els...)
			if v := reflect.ValueOf(l); v.IsValid() && v.Kind() == reflect.Slice {
				// the caller may use what it was given
				reflect.Append(v, reflect.New(a.Type).Elem())
			}
			if noise {
				// and make other calls in the loop
				if s := a.other(w, ms, rng); s != "" {
					bad("%s", s)
				}
			}
			if stop > 0 && pages >= stop {
				stopped = true
				return false
			}
			return true
		})
		for _, e := range errs {
			bad("it fails: %v", e)
		}
		r.Count("pages", int64(pages))
		for np, got := range passes {
			exp := want
			if stopped && np == len(passes)-1 {
				if len(got) > len(exp) {
					bad("%d rows came, there are %d", len(got), len(exp))
				}
				exp = exp[:min(len(got), len(exp))]
			}
			if len(errs) > 0 {
				break
			}
			if len(got) != len(exp) {
				bad("pass %d: %d rows came instead of %d: %s", np, len(got), len(exp), a.keysText(got))
				continue
			}
			for i := range got {
				if d := a.MatchRow(got[i], exp[i]); d != "" {
					bad("pass %d: row %d: %s (keys %s)", np, i, d, a.keysText(got))
					break
				}
			}
		}
		if d := w.sameTables(w.E.Snapshot(a.M.Table), w.snap(rows)); d != "" {
			bad("the table changed: %s", d)
		}
		w.Check(r, "res/"+a.String(), id)
		r.Sample(key, map[string]any{"where": pred.Text, "order": orderText(a, ord), "limit": lim, "rows": len(rows), "pages": pages, "cursor": cursor})
	}
}

// snap is what Put stores for rows.
func (w *World) snap(rows []Rec) []minisql.Row {
	var out []minisql.Row
	for n, r := range rows {
		row := make(minisql.Row, len(w.pos)+1)
		for i := range row {
			row[i] = fmt.Sprint("old", n)
		}
		for i, p := range w.pos {
			row[p] = r[i]
		}
		out = append(out, row)
	}
	return out
}

func (a *Adapter) keysText(ms []any) string {
	s := ""
	for i, m := range ms {
		if i == 20 {
			return s + "..."
		}
		if x, err := RecOf(a, m); err == nil {
			s += a.KeyOf(x) + " "
		}
	}
	return s
}

// other finds a row by its key, in between.
func (a *Adapter) other(w *World, ms []any, rng *rand.Rand) string {
	if len(ms) == 0 {
		return ""
	}
	m := ms[rng.Intn(len(ms))]
	x := a.CopyOf(m)
	if err := a.Find(bg, w.DB, x); err != nil {
		return fmt.Sprintf("finding a row in the loop fails: %v", err)
	}
	rec, err := RecOf(a, m)
	if err != nil {
		return ""
	}
	if d := a.MatchRow(x, rec); d != "" {
		return "finding a row in the loop: " + d
	}
	return ""
}
