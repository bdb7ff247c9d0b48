package rt

import (
	"fmt"
	"math/rand"
	"slices"

	"verif/harness/ev"
	"verif/harness/minisql"
)

// sqlNames are the model's column names as the model itself spells them.
func (a *Adapter) sqlNames() []string {
	v, ok := call(a.New(), "Columns")
	if !ok {
		panic("no Columns")
	}
	return v.([]string)
}

// hits finds the rows agreeing with r under each constraint (column lists).
func hits(rows []Rec, r Rec, cons [][]int) []int {
	out := make([]int, len(cons))
	for k, c := range cons {
		out[k] = -1
		for i := range rows {
			same := true
			for _, j := range c {
				if r[j] == nil || rows[i][j] == nil || !minisql.Equal(rows[i][j], r[j]) {
					same = false
					break
				}
			}
			if same {
				out[k] = i
				break
			}
		}
	}
	return out
}

func init() {
	Checks["C11"] = func(r *ev.Run) {
		r.Rule = "one evaluation per upsert call compared with the whole table before and after; distinct counts (flavour, model, call, mode, omitted columns, conflicts, values digest)"
		r.Assume = append(r.Assume, "the instrumented engine stands for the three databases", "on PostgreSQL no two models of a call have the same key, which PostgreSQL refuses", "each model conflicts with at most one stored row")
		each(r, func(a *Adapter) {
			if a.Upsert == nil {
				return
			}
			rng := r.Rand("c11" + a.String())
			for k, n := 0, r.N(250, 5000); k < n; k++ {
				c11(r, a, rng)
			}
		})
	}
}

func c11(r *ev.Run, a *Adapter, rng *rand.Rand) {
	pg := a.F.D == minisql.Postgres
	g := &G{R: rng, D: a.F.D}
	w := NewWorld(a)
	defer w.Close()
	rows, stock := g.stock(a, rng.Intn(7))
	w.Put(rows)
	w.E.Mode = modes[rng.Intn(3)]
	w.E.Prepared = rng.Intn(2) == 0
	before := w.E.Snapshot(a.M.Table)
	names := a.sqlNames()

	// the constraints and, on PostgreSQL, the one conflicts are decided by
	var cons [][]int
	if a.M.Auto < 0 {
		cons = append(cons, a.M.PK())
	}
	var uniq [][]int
	for _, u := range a.M.Uniques {
		var c []int
		for _, n := range u {
			c = append(c, a.M.Col(n))
		}
		uniq = append(uniq, c)
		cons = append(cons, c)
	}
	opt := Upsert{Override: rng.Intn(3) > 0, Perm: rng.Intn(12)}
	var target []int
	if pg {
		target = a.M.PK()
		if len(a.M.Dup) > 0 {
			target = nil
			for _, n := range a.M.Dup {
				target = append(target, a.M.Col(n))
			}
		}
		if len(uniq) > 0 && rng.Intn(3) > 0 {
			target = uniq[rng.Intn(len(uniq))]
			for _, i := range target {
				opt.Dup = append(opt.Dup, names[i])
			}
		}
	}
	isTarget := func(c []int) bool { return !pg || slices.Equal(c, target) }
	upd := a.M.Upd()
	omit := map[int]bool{}
	for _, i := range upd {
		if rng.Intn(4) == 0 {
			omit[i] = true
			opt.Omit = append(opt.Omit, names[i])
		}
	}
	rng.Shuffle(len(opt.Omit), func(i, j int) { opt.Omit[i], opt.Omit[j] = opt.Omit[j], opt.Omit[i] })
	// the caller's lists have room behind them
	const room = "the caller's"
	opt.Omit = append(opt.Omit, room, room)[:len(opt.Omit)]
	opt.Dup = append(opt.Dup, room, room)[:len(opt.Dup)]
	if pg {
		for _, n := range a.M.OmitUps {
			omit[a.M.Col(n)] = true
		}
	}
	var set []int // columns an override sets
	for _, i := range upd {
		if !omit[i] && !(pg && slices.Contains(target, i)) {
			set = append(set, i)
		}
	}

	one := rng.Intn(2) == 0 || a.Upsert == nil
	n := 1
	if !one {
		n = pick(rng, 0, 1, 2, 3, 4, 7)
	}
	// the reference: what each model does to the table, in turn
	type effect struct {
		at       int // index in cur
		inserted bool
	}
	cur := append([]Rec{}, rows...)
	exp := cloneRows(before)
	var ms []any
	var recs []Rec
	var eff []effect
	touched := map[int]bool{}
	nhit := 0
	for try := 0; len(ms) < n && try < 60; try++ {
		m := a.New()
		gg := *g
		gg.Small = rng.Intn(2) == 0
		gg.fillKeyed(a, m)
		if a.M.Auto >= 0 {
			a.setAuto(m, int64(rng.Intn(30)))
		}
		pool := append([]any{}, stock...)
		if !pg {
			pool = append(pool, ms...)
		}
		if len(pool) > 0 && len(cons) > 0 && rng.Intn(3) > 0 {
			o := pool[rng.Intn(len(pool))]
			c := cons[rng.Intn(len(cons))]
			for _, i := range c {
				d, ok := Field(m, &a.M.Cols[i])
				s, ok2 := Field(o, &a.M.Cols[i])
				if ok && ok2 {
					d.Set(s)
				}
			}
		}
		rec, err := RecOf(a, m)
		if err != nil || !a.keyOK(rec) {
			continue
		}
		at := -1
		fine := true
		for k, h := range hits(cur, rec, cons) {
			if h < 0 {
				continue
			}
			if at >= 0 || !isTarget(cons[k]) {
				fine = false
			}
			at = h
		}
		if !fine || (pg && at >= 0 && touched[at]) {
			continue
		}
		if pg && at < 0 && a.M.Auto < 0 && slices.Equal(target, a.M.PK()) && a.find(recs, rec) >= 0 {
			continue
		}
		e := effect{at: at}
		if at < 0 {
			e = effect{at: len(cur), inserted: true}
			nr := append(Rec{}, rec...)
			for k := range a.unwritten() {
				nr[k] = nil
			}
			cur = append(cur, nr)
			exp = append(exp, nil)
		} else {
			nhit++
			if opt.Override {
				nr := append(Rec{}, cur[at]...)
				for _, i := range set {
					nr[i] = rec[i]
				}
				cur[at] = nr
				if exp[at] != nil {
					exp[at] = w.rowWith(exp[at], rec, set)
				}
			}
		}
		touched[e.at] = true
		eff = append(eff, e)
		ms, recs = append(ms, m), append(recs, rec)
	}
	n = len(ms)
	if one && n == 0 {
		return
	}
	orig := make([]any, n)
	for i := range ms {
		orig[i] = a.CopyOf(ms[i])
	}
	op := "upsertone"
	if !one {
		op = "upsert"
	}
	id := fmt.Sprintf("%s %s %+v of %d models (%d present) into %d rows", a, op, opt, n, nhit, len(rows))
	if n > 0 {
		id += ", first " + show(a, orig[0])
	}
	key := op + "/" + a.String()
	dig := ""
	for _, x := range recs {
		dig += ShowRow(x)
	}
	r.Eval(fmt.Sprintf("%s/%s/%v/%d/%d/%s", a, op, opt, n, nhit, dig), true)
	r.Count(fmt.Sprintf("%s-override-%v-conflict-%v", op, opt.Override, nhit > 0), 1)
	bad := func(f string, v ...any) {
		r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
	}
	var got []any
	var cnt int64 = -1
	var err error
	lists := func() string {
		return fmt.Sprint(opt.Omit[:len(opt.Omit)+2], opt.Dup[:len(opt.Dup)+2])
	}
	given := lists()
	if one {
		res, e := a.UpsertOne(bg, w.DB, ms[0], opt)
		if err = e; e == nil && !pg {
			cnt = Affected(res)
		}
		got = ms
	} else {
		sl := a.Slice(ms...)
		res, e := a.Upsert(bg, w.DB, sl, opt)
		if err = e; e == nil {
			cnt = Affected(res)
		}
		got = a.Elems(sl)
	}
	if err != nil {
		bad("fails: %v", err)
		return
	}
	if l := lists(); l != given {
		bad("the caller's lists of columns %s became %s", given, l)
	}
	log := w.E.TakeLog()
	if n == 0 && len(log) > 0 {
		bad("an empty slice sends %s", log[0].SQL)
	}
	var real int64
	for _, c := range log {
		real += c.Res.Affected
	}
	sql := ""
	if len(log) > 0 {
		sql = log[len(log)-1].SQL + " " + ShowRow(toVals(log[len(log)-1].Args))
	}
	if cnt >= 0 && cnt != real {
		bad("affected count %d, the database reported %d; %s", cnt, real, sql)
	}
	after := w.E.Snapshot(a.M.Table)
	if len(after) != len(cur) {
		bad("the table has %d rows instead of %d; %s", len(after), len(cur), sql)
		return
	}
	skip := keysOf(a.unwritten())
	for i := range cur {
		if exp[i] != nil {
			if d := w.sameTables(after[i:i+1], exp[i:i+1]); d != "" {
				bad("row %d (key %s), which was there: %s; %s", i, a.KeyOf(cur[i]), d, sql)
				return
			}
		} else if d := a.SameRec(w.rec(after[i]), cur[i], skip...); d != "" {
			bad("inserted row %d: %s; %s", i, d, sql)
			return
		}
	}
	for i := range got {
		row := w.rec(after[eff[i].at])
		switch {
		case pg && (opt.Override || one && eff[i].inserted):
			if d := a.MatchRow(got[i], row); d != "" {
				bad("model %d did not receive its row: %s; %s", i, d, sql)
			}
		case !pg && one && a.M.Auto >= 0 && (opt.Override || eff[i].inserted):
			if x, _ := RecOf(a, got[i]); x == nil || !minisql.Equal(x[a.M.Auto], row[a.M.Auto]) {
				bad("the row's key is %s, the model has %s; %s", ShowRow(Rec{row[a.M.Auto]}), show(a, got[i]), sql)
			}
			if d := a.SameModel(got[i], orig[i], a.M.Auto); d != "" {
				bad("the model was changed: %s; %s", d, sql)
			}
		default:
			if pg && one {
				// nothing came back, but the addresses were asked for
				if d := a.sameRead(got[i], orig[i], nil); d != "" {
					bad("the model was changed: %s; %s", d, sql)
				}
			} else if d := a.SameModel(got[i], orig[i]); d != "" {
				bad("model %d was changed: %s; %s", i, d, sql)
			}
		}
	}
	r.Sample(key, map[string]any{"models": n, "present": nhit, "override": opt.Override, "omit": opt.Omit})
	w.Check(r, "res/"+a.String(), id)
}
