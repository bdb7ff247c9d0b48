package rt

import (
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

func init() {
	Checks["C12"] = func(r *ev.Run) {
		r.Rule = "one evaluation per query or statement whose outcome is compared with the reference evaluation over the whole table; distinct counts (flavour, model, condition, order, window, table digest)"
		r.Assume = append(r.Assume, "comparisons with NULL are unknown, as in SQL", "text is compared by its code points", "NULLs come last on PostgreSQL and first elsewhere")
		each(r, func(a *Adapter) {
			if len(a.Ops) == 0 {
				return
			}
			rng := r.Rand("c12" + a.String())
			for k, n := 0, r.N(40, 800); k < n; k++ {
				c12(r, a, rng)
			}
		})
	}
}

// twin adds a second table of the same shape.
func (w *World) twin(name string) {
	t := w.E.Table(w.A.M.Table).Clone()
	t.Name = name
	t.Rows = nil
	w.E.AddTable(t)
}

// ident spells an identifier as the configuration wants it.
func (f *Flavour) ident(n string) string {
	if !f.Conf.Quote {
		return n
	}
	if f.D == minisql.MySQL {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

// pickRows says whether got (models) are the rows want has, each once; sel
// maps a model column to the table column it was read from.
func (a *Adapter) pickRows(got []any, pool []Rec) ([]Rec, string) {
	used := make([]bool, len(pool))
	var out []Rec
	for _, m := range got {
		found := -1
		why := "no such row"
		for i := range pool {
			if used[i] {
				continue
			}
			if s := a.MatchRow(m, pool[i]); s == "" {
				found = i
				break
			} else {
				why = s
			}
		}
		if found < 0 {
			return nil, fmt.Sprintf("%s came back, which is not (or no longer) expected: %s", show(a, m), why)
		}
		used[found] = true
		out = append(out, pool[found])
	}
	return out, ""
}

func c12(r *ev.Run, a *Adapter, rng *rand.Rand) {
	g := &G{R: rng, D: a.F.D, Small: true, Plain: true}
	w := NewWorld(a, noUnique)
	defer w.Close()
	defer a.Hold(nil)
	rows, ms := g.population(a, pick(rng, 0, 1, 3, 6, 9, 14, 10, 12), false)
	w.Put(rows)
	p := &PG{A: a, G: g, R: rng, From: ms}
	table := a.M.Table
	w.twin("other_t")
	rows2, _ := g.population(a, pick(rng, 0, 2, 5), false)
	w.A = &Adapter{F: a.F, M: func() *spec.Model { m := *a.M; m.Table = "other_t"; return &m }(), Type: a.Type, Ops: a.Ops}
	w.Put(rows2)
	w.A = a
	for s := 0; s < 12; s++ {
		w.E.TakeLog()
		w.E.Mode = modes[rng.Intn(3)]
		w.E.Prepared = rng.Intn(2) == 0
		// the columns given to the operators are those of any model
		a.Hold(nil)
		if len(ms) > 0 && rng.Intn(2) == 0 {
			a.Hold(ms[rng.Intn(len(ms))])
			r.Count("columns-of-a-loaded-model", 1)
		}
		if len(w.Rows()) < len(rows)/2 {
			w.Put(rows)
		}
		from, other := "", "other_t"
		table = a.M.Table
		if rng.Intn(6) == 0 {
			from, table, other = a.F.ident("other_t"), "other_t", a.M.Table
		}
		before := w.E.Snapshot(table)
		beforeOther := w.E.Snapshot(other)
		cur := recsOf(w, before)
		var where sequel.WhereClause
		pred := &Pred{Holds: func(Rec) tri { return yes }, Text: "true"}
		if rng.Intn(8) > 0 {
			pred = p.Gen(rng.Intn(4))
			where = pred.Clause
		}
		var match []Rec
		var at []int
		for i, x := range cur {
			if pred.Holds(x) == yes {
				match = append(match, x)
				at = append(at, i)
			}
		}
		ord := p.GenOrder(rng.Intn(4))
		op := pick(rng, "query", "query", "one", "update", "delete")
		if a.InsertOne == nil && (op == "update" || op == "delete") {
			op = "query"
		}
		key := op + "/" + a.String()
		id := fmt.Sprintf("%s %s on %d rows of %s where %s order by %s", a, op, len(cur), table, pred.Text, orderText(a, ord))
		bad := func(f string, v ...any) {
			r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
		}
		dig := ""
		for _, x := range cur {
			dig += ShowRow(x)
		}
		some := "none"
		if len(match) == len(cur) {
			some = "all"
		} else if len(match) > 0 {
			some = "some"
		}
		r.Count(op+"-"+some, 1)
		exp := cloneRows(before)
		switch op {
		case "query", "one":
			sel := Select{From: from, Where: where, OrderBy: a.clause(ord)}
			want := match
			rd := cur
			_ = rd
			perm := allCols(a.M)
			if rng.Intn(4) == 0 {
				// the select list is what the caller says
				names := a.sqlNames()
				if v, ok := call(a.New(), "SQLColumns"); ok {
					names = v.([]string)
				}
				if i, j := a.swappable(rng); i >= 0 {
					names[i], names[j] = names[j], names[i]
					perm[i], perm[j] = perm[j], perm[i]
				}
				sel.Cols = names
			}
			conv := func(l []Rec) []Rec {
				var out []Rec
				for _, x := range l {
					y := make(Rec, len(x))
					for k := range perm {
						y[k] = x[perm[k]]
					}
					out = append(out, y)
				}
				return out
			}
			if op == "query" {
				sel.Limit = uint16(pick(rng, 0, 0, 1, 2, 5, 100, 65535))
				sel.Offset = uint64(pick(rng, 0, 0, 0, 1, 3, 50))
			}
			if a.HasKey() && rng.Intn(8) == 0 && groupable(a) {
				sel.GroupBy = a.sqlNames()
			}
			id += fmt.Sprintf(" limit %d offset %d select %v group %v", sel.Limit, sel.Offset, sel.Cols, len(sel.GroupBy))
			r.Eval(id+dig, len(cur) > 0)
			if op == "one" {
				m, err := a.QueryOne(bg, w.DB, sel)
				switch {
				case len(want) == 0:
					if !errors.Is(err, sql.ErrNoRows) {
						bad("no row satisfies it, but it returns %v, %v", m, err)
					}
					if m != nil && !reflect.ValueOf(m).IsNil() {
						bad("no row satisfies it, but a model is returned")
					}
				case err != nil:
					bad("fails: %v", err)
				default:
					srt := sortRecs(a.F.D, ord, want)
					var firsts []Rec
					for _, x := range srt {
						if cmpOrd(a.F.D, ord, x, srt[0]) == 0 {
							firsts = append(firsts, x)
						}
					}
					if _, d := a.pickRows([]any{m}, conv(firsts)); d != "" {
						bad("%s", d)
					}
				}
				break
			}
			res, err := a.Query(bg, w.DB, sel)
			if err != nil {
				bad("fails: %v", err)
				break
			}
			got := a.Elems(res)
			srt := sortRecs(a.F.D, ord, want)
			lo := min(int(sel.Offset), len(srt))
			hi := len(srt)
			if sel.Limit > 0 {
				hi = min(hi, lo+int(sel.Limit))
			}
			if len(got) != hi-lo {
				bad("%d rows come back instead of %d", len(got), hi-lo)
				break
			}
			if len(got) == 0 {
				break
			}
			// rows equal under the order may come in any order, but the place
			// of each class of equals is fixed
			i := 0
			for i < len(got) {
				j := lo + i
				x := srt[j]
				b, e := j, j+1
				for b > 0 && cmpOrd(a.F.D, ord, srt[b-1], x) == 0 {
					b--
				}
				for e < len(srt) && cmpOrd(a.F.D, ord, srt[e], x) == 0 {
					e++
				}
				n := min(e-j, len(got)-i)
				if _, d := a.pickRows(got[i:i+n], conv(srt[b:e])); d != "" {
					bad("rows %d to %d: %s", i, i+n-1, d)
					break
				}
				i += n
			}
		case "update", "delete":
			ex := Exec{Table: from, Where: where}
			if a.F.D != minisql.Postgres && a.HasKey() && rng.Intn(3) == 0 {
				ex.Limit = uint16(pick(rng, 1, 2, 5, 100))
				for _, k := range a.M.PK() {
					ord = append(ord, Ord{k, rng.Intn(2) == 0})
				}
				id += fmt.Sprintf(" limit %d, then key", ex.Limit)
			}
			ex.OrderBy = a.clause(ord)
			type hit struct {
				at  int
				rec Rec
			}
			var hs []hit
			for k := range match {
				hs = append(hs, hit{at[k], match[k]})
			}
			if ex.Limit > 0 {
				srt := sortRecs(a.F.D, ord, match)
				if len(srt) > int(ex.Limit) {
					srt = srt[:ex.Limit]
				}
				var keep []hit
				for _, h := range hs {
					if a.find(srt, h.rec) >= 0 {
						keep = append(keep, h)
					}
				}
				hs = keep
			}
			if op == "delete" {
				r.Eval(id+dig, len(cur) > 0)
				res, err := a.ExecDelete(bg, w.DB, ex)
				if err != nil {
					bad("fails: %v", err)
					break
				}
				gone := map[int]bool{}
				for _, h := range hs {
					gone[h.at] = true
				}
				exp = nil
				for i := range before {
					if !gone[i] {
						exp = append(exp, before[i])
					}
				}
				if n := Affected(res); n != int64(len(hs)) {
					bad("affected %d rows, %d satisfy it", n, len(hs))
				}
				break
			}
			// update: some of the columns that can be written
			var set []int
			for _, i := range a.M.Upd() {
				if rng.Intn(3) == 0 && !spec.T(a.M.Cols[i].Type).Wrapped {
					set = append(set, i)
				}
			}
			rng.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
			rec := make(Rec, len(a.M.Cols))
			for _, i := range set {
				v, x := p.value(i)
				rec[i] = x
				ex.Set = append(ex.Set, a.Ops[i].via(p.R).Set(v))
				id += fmt.Sprintf(" set %s=%s", a.M.Cols[i].Name, ShowRow(Rec{x}))
			}
			r.Eval(id+dig, len(cur) > 0)
			res, err := a.ExecUpdate(bg, w.DB, ex)
			if err != nil {
				bad("fails: %v", err)
				break
			}
			after := w.E.Snapshot(table)
			var cnt int64
			if len(set) > 0 {
				for _, h := range hs {
					exp[h.at] = w.rowWith(before[h.at], rec, set)
					if a.F.D != minisql.MySQL || h.at < len(after) && changed(after[h.at], before[h.at]) {
						cnt++
					}
				}
			}
			if n := Affected(res); n != cnt {
				bad("affected %d rows, %d satisfy it", n, cnt)
			}
		}
		if d := w.sameTables(w.E.Snapshot(table), exp); d != "" {
			bad("the table is not as it should be: %s", d)
			w.E.SetRows(table, exp)
		}
		if d := w.sameTables(w.E.Snapshot(other), beforeOther); d != "" {
			bad("the other table was changed: %s", d)
			w.E.SetRows(other, beforeOther)
		}
		r.Sample(key, map[string]any{"where": pred.Text, "order": orderText(a, ord), "rows": len(cur), "match": len(match)})
	}
	w.Check(r, "res/"+a.String(), a.String())
}

// groupable says whether every column can be grouped by.
func groupable(a *Adapter) bool {
	for _, c := range a.M.Cols {
		if !eqClass(spec.T(c.Type)) {
			return false
		}
	}
	return true
}

// swappable finds two columns whose fields can hold each other's values.
func (a *Adapter) swappable(rng *rand.Rand) (int, int) {
	n := len(a.M.Cols)
	off := rng.Intn(n)
	for k := 0; k < n; k++ {
		for j := 0; j < n; j++ {
			i := (k + off) % n
			if i < j && a.M.Cols[i].Type == a.M.Cols[j].Type && a.M.Cols[i].EmbPtr == a.M.Cols[j].EmbPtr {
				return i, j
			}
		}
	}
	return -1, -1
}
