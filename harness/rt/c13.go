package rt

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

func init() {
	Checks["C13"] = func(r *ev.Run) {
		r.Rule = "one evaluation per statement the driver received whose placeholders, bindings and text were judged; distinct counts (flavour, model, call shape, statement text, arguments)"
		r.Assume = append(r.Assume, "the harness' SQL grammar stands for the dialects'")
		each(r, func(a *Adapter) {
			rng := r.Rand("c13" + a.String())
			for k, n := 0, r.N(160, 3000); k < n; k++ {
				c13(r, a, rng.Int63(), rng)
			}
		})
	}
}

// bound is one argument with the column it is stored in or compared with.
type bound struct {
	col string
	arg int
	row int // row of an insert
}

// bindings walks a statement for the columns its arguments belong to.
func bindings(st *minisql.Stmt) (out []bound, bad string) {
	row := 0
	add := func(col string, e minisql.Expr) {
		var rec func(e minisql.Expr)
		rec = func(e minisql.Expr) {
			switch x := e.(type) {
			case minisql.EParam:
				out = append(out, bound{col, x.Idx, row})
			case minisql.EFunc:
				for _, y := range x.Args {
					rec(y)
				}
			case minisql.EBin:
				rec(x.L)
				rec(x.R)
			case minisql.ENot:
				rec(x.E)
			}
		}
		rec(e)
	}
	var colOf func(e minisql.Expr) string
	colOf = func(e minisql.Expr) string {
		switch x := e.(type) {
		case minisql.ECol:
			return x.Name
		case minisql.EExcluded:
			return x.Name
		case minisql.EFunc:
			for _, y := range x.Args {
				if c := colOf(y); c != "" {
					return c
				}
			}
		}
		return ""
	}
	var walk func(e minisql.Expr)
	var inner func(st *minisql.Stmt)
	pair := func(l, r minisql.Expr) {
		lr, lok := l.(minisql.ERow)
		rr, rok := r.(minisql.ERow)
		if lok && rok && len(lr.Es) == len(rr.Es) {
			for i := range lr.Es {
				walk(minisql.EBin{Op: "=", L: lr.Es[i], R: rr.Es[i]})
			}
			return
		}
		if s, ok := r.(minisql.ESub); ok {
			inner(s.St)
			return
		}
		if s, ok := l.(minisql.ESub); ok {
			inner(s.St)
			return
		}
		c := colOf(l)
		if c == "" {
			c = colOf(r)
			add(c, l)
			return
		}
		add(c, r)
	}
	walk = func(e minisql.Expr) {
		switch x := e.(type) {
		case nil:
		case minisql.EBin:
			if x.Op == "AND" || x.Op == "OR" || x.Op == "and" || x.Op == "or" {
				walk(x.L)
				walk(x.R)
				return
			}
			pair(x.L, x.R)
		case minisql.ENot:
			walk(x.E)
		case minisql.ESame:
			pair(x.L, x.R)
		case minisql.EIn:
			for _, y := range x.List {
				pair(x.E, y)
			}
		case minisql.EInSub:
			inner(x.St)
		case minisql.ELike:
			pair(x.E, x.P)
		case minisql.EBetween:
			pair(x.E, x.Lo)
			pair(x.E, x.Hi)
		case minisql.EIsNull:
			if s, ok := x.E.(minisql.ESub); ok {
				inner(s.St)
			}
		case minisql.ESub:
			inner(x.St)
		}
	}
	inner = func(s *minisql.Stmt) {
		for i, rw := range s.Rows {
			row = i
			for j, e := range rw {
				if j < len(s.Cols) {
					add(s.Cols[j], e)
				}
			}
		}
		row = 0
		for _, x := range s.Sets {
			add(x.Col, x.E)
		}
		walk(s.Where)
	}
	inner(st)
	seen := map[int]int{}
	for _, b := range out {
		seen[b.arg]++
		if b.col == "" {
			return nil, fmt.Sprintf("argument %d belongs to no column", b.arg+1)
		}
	}
	for i := 0; i < st.NParams; i++ {
		if seen[i] == 0 {
			return nil, fmt.Sprintf("argument %d is not stored in or compared with a column", i+1)
		}
	}
	return out, ""
}

func (a *Adapter) colNamed(n string) int {
	if i := a.M.Col(n); i >= 0 {
		return i
	}
	for i := range a.M.Cols {
		if strings.EqualFold(a.M.Cols[i].Name, n) {
			return i
		}
	}
	return -1
}

// bindsTo says whether an argument is the stored value want of column i.
func (a *Adapter) bindsTo(i int, arg any, want minisql.Value) bool {
	t := spec.T(a.M.Cols[i].Type)
	if minisql.Veiled(arg) {
		var err error
		if arg, err = minisql.Unveil(arg); err != nil {
			return false
		}
	}
	v, err := minisql.Bind(arg)
	if err != nil {
		return false
	}
	if v != nil {
		if v, err = minisql.Coerce(t.ColKind(a.F.D), t.F32, v); err != nil {
			return false
		}
	}
	if want == nil {
		return SameStored(t, a.F.D, v, want)
	}
	if x, err := minisql.Coerce(t.ColKind(a.F.D), t.F32, want); err == nil {
		want = x
	}
	return SameStored(t, a.F.D, v, want)
}

// shape is one call to make with different values.
type shape struct {
	op    string
	seed  int64 // of the structure
	n     int
	ups   Upsert
	page  bool
	lim   uint16
	off   uint64
	back  bool
	cur   bool
	sel   bool
	group bool
	ord   []Ord
	set   []int
	where int // depth or -1
	prep  bool
	mode  minisql.Mode
	lock  string
}

// want is one expected binding.
type want struct {
	col int
	val minisql.Value
}

func (a *Adapter) shapes(rng *rand.Rand) shape {
	s := shape{seed: rng.Int63(), prep: rng.Intn(2) == 0, mode: modes[rng.Intn(3)], where: rng.Intn(5) - 1, n: pick(rng, 1, 2, 3, 7, 1, 2, 3, 30)}
	var ops []string
	if a.InsertOne != nil {
		ops = append(ops, "insertone", "insert")
	}
	if a.UpsertOne != nil {
		ops = append(ops, "upsertone", "upsert")
	}
	if a.Find != nil {
		ops = append(ops, "find")
	}
	if a.Update != nil {
		ops = append(ops, "updatepk")
	}
	if a.Delete != nil {
		ops = append(ops, "deletepk")
	}
	if a.Lock != nil && a.F.D != minisql.SQLite {
		ops = append(ops, "lock")
	}
	if len(a.Ops) > 0 {
		ops = append(ops, "query", "query", "query", "one")
		if a.InsertOne != nil {
			ops = append(ops, "update", "update", "delete")
		}
		if a.Paginate != nil {
			ops = append(ops, "page", "page")
		}
	}
	s.op = ops[rng.Intn(len(ops))]
	s.lock = pick(rng, "update", "share")
	s.lim = uint16(pick(rng, 0, 1, 2, 100))
	s.off = uint64(pick(rng, 0, 0, 1, 7))
	s.back, s.cur, s.sel = rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(3) == 0
	s.group = rng.Intn(8) == 0 && a.HasKey() && groupable(a)
	if len(a.Ops) > 0 {
		s.ord = (&PG{A: a, R: rng}).GenOrder(rng.Intn(3))
		for _, i := range a.M.Upd() {
			if rng.Intn(3) == 0 {
				s.set = append(s.set, i)
			}
		}
		rng.Shuffle(len(s.set), func(i, j int) { s.set[i], s.set[j] = s.set[j], s.set[i] })
	}
	s.ups.Override = rng.Intn(3) > 0
	names := a.sqlNames()
	for _, i := range a.M.Upd() {
		if rng.Intn(4) == 0 {
			s.ups.Omit = append(s.ups.Omit, names[i])
		}
	}
	if len(a.M.Uniques) > 0 && rng.Intn(2) == 0 {
		for _, n := range a.M.Uniques[rng.Intn(len(a.M.Uniques))] {
			s.ups.Dup = append(s.ups.Dup, names[a.M.Col(n)])
		}
	}
	return s
}

// c13 makes the same call with two sets of values and judges every statement.
func c13(r *ev.Run, a *Adapter, seed int64, rng *rand.Rand) {
	s := a.shapes(rng)
	var first []string
	for try := 0; try < 2; try++ {
		vr := rand.New(rand.NewSource(seed + int64(try)))
		texts, ok := c13call(r, a, s, vr, try)
		if !ok {
			return
		}
		if try == 0 {
			first = texts
			continue
		}
		for i := 0; i < min(len(first), len(texts)); i++ {
			if first[i] != texts[i] {
				r.Violate("text/"+s.op+"/"+a.String(), "%s %s: the same call with other values sends another text:\n%.800s\n%.800s", a, s.op, first[i], texts[i])
				break
			}
			if s.op == "page" && !s.cur {
				break // how many pages there are depends on the data
			}
		}
		if s.op != "page" && len(first) != len(texts) {
			r.Violate("count/"+s.op+"/"+a.String(), "%s %s: the same call with other values sends %d statements instead of %d", a, s.op, len(texts), len(first))
		}
	}
}

func c13call(r *ev.Run, a *Adapter, s shape, vr *rand.Rand, try int) ([]string, bool) {
	g := &G{R: vr, D: a.F.D}
	w := NewWorld(a, noUnique)
	defer w.Close()
	rows, stock := g.stock(a, 5)
	w.Put(rows)
	w.E.Mode, w.E.Prepared = s.mode, s.prep
	id := fmt.Sprintf("%s %s", a, s.op)
	key := s.op + "/" + a.String()
	bad := func(f string, v ...any) {
		r.Violate(key, "%s: %s; %s", id, fmt.Sprintf(f, v...), w.LastSQL())
	}
	rec := func(m any) Rec {
		x, err := RecOf(a, m)
		if err != nil {
			panic(err)
		}
		return x
	}
	key1 := func(m any) (out []want) {
		x := rec(m)
		for _, i := range a.M.PK() {
			out = append(out, want{i, x[i]})
		}
		return
	}
	var exp []want // of the first statement
	var rowsWant [][]want
	var any2 []want // what other statements may bind
	for _, m := range stock {
		any2 = append(any2, key1(m)...)
	}
	var vals []Rec // the models given, for their values
	var err error
	model := func() any {
		if len(stock) > 0 && vr.Intn(3) > 0 {
			return a.CopyOf(stock[vr.Intn(len(stock))])
		}
		m := a.New()
		g.fillKeyed(a, m)
		return m
	}
	var cond *Pred
	var where sequel.WhereClause
	if s.where >= 0 && len(a.Ops) > 0 {
		// the structure comes from one generator and the operands from another
		p := &PG{A: a, G: g, R: rand.New(rand.NewSource(s.seed))}
		cond = p.Gen(s.where)
		where = cond.Clause
	}
	predArgs := func() {
		if cond != nil {
			for k, c := range cond.Cols {
				exp = append(exp, want{c, cond.Args[k]})
			}
		}
	}
	switch s.op {
	case "insertone", "insert", "upsertone", "upsert":
		n := s.n
		if s.op == "insertone" || s.op == "upsertone" {
			n = 1
		}
		_, ms := g.fresh(a, rows, n)
		if len(ms) < n {
			return nil, false
		}
		for _, m := range ms {
			x := rec(m)
			vals = append(vals, x)
			var l []want
			for _, i := range a.M.Ins() {
				l = append(l, want{i, x[i]})
			}
			rowsWant = append(rowsWant, l)
			any2 = append(any2, l...)
		}
		switch s.op {
		case "insertone":
			_, err = a.InsertOne(bg, w.DB, ms[0])
		case "insert":
			_, err = a.Insert(bg, w.DB, a.Slice(ms...))
		case "upsertone":
			_, err = a.UpsertOne(bg, w.DB, ms[0], s.ups)
		case "upsert":
			_, err = a.Upsert(bg, w.DB, a.Slice(ms...), s.ups)
		}
	case "find", "deletepk", "updatepk", "lock":
		m := model()
		vals = append(vals, rec(m))
		exp = key1(m)
		switch s.op {
		case "find":
			err = a.Find(bg, w.DB, m)
		case "deletepk":
			_, err = a.Delete(bg, w.DB, m)
		case "updatepk":
			var l []want
			for _, i := range a.M.Upd() {
				l = append(l, want{i, vals[0][i]})
			}
			exp = append(l, exp...)
			_, err = a.Update(bg, w.DB, m)
		case "lock":
			tx, e := w.DB.BeginTx(context.Background(), nil)
			if e != nil {
				panic(e)
			}
			err = a.Lock(bg, tx, m, s.lock)
			tx.Rollback()
		}
	case "query", "one":
		sel := Select{Where: where, OrderBy: a.clause(s.ord), Offset: s.off, Limit: s.lim}
		if s.op == "one" {
			sel.Limit, sel.Offset = 0, 0
		}
		if s.sel {
			sel.Cols = a.sqlNames()
		}
		if s.group {
			sel.GroupBy = a.sqlNames()
		}
		predArgs()
		if s.op == "one" {
			_, err = a.QueryOne(bg, w.DB, sel)
		} else {
			_, err = a.Query(bg, w.DB, sel)
		}
	case "update", "delete":
		ex := Exec{Where: where}
		if a.F.D != minisql.Postgres && s.lim > 0 {
			ex.Limit = s.lim
			ex.OrderBy = a.clause(s.ord)
		}
		if s.op == "update" {
			p := &PG{A: a, G: g, R: rand.New(rand.NewSource(s.seed))}
			for _, i := range s.set {
				v, x := p.value(i)
				exp = append(exp, want{i, x})
				ex.Set = append(ex.Set, a.Ops[i].via(p.R).Set(v))
			}
		}
		predArgs()
		if s.op == "update" {
			_, err = a.ExecUpdate(bg, w.DB, ex)
		} else {
			_, err = a.ExecDelete(bg, w.DB, ex)
		}
	case "page":
		p := Page{Back: s.back, Where: where, OrderBy: a.clause(s.ord), Limit: s.lim}
		if s.cur && len(stock) > 0 {
			c := stock[vr.Intn(len(stock))]
			p.Cursor = a.CopyOf(c)
			exp = key1(c)
		} else {
			predArgs()
		}
		for i := range a.M.Cols {
			for _, x := range rows {
				any2 = append(any2, want{i, x[i]})
			}
		}
		if cond != nil {
			for k, c := range cond.Cols {
				any2 = append(any2, want{c, cond.Args[k]})
			}
		}
		pages := 0
		a.Paginate(bg, w.DB, p, func(ms any, e error) bool {
			if e != nil {
				err = e
			}
			pages++
			return pages < 8
		})
	}
	log := w.E.TakeLog()
	for _, x := range exp {
		y := make(Rec, 1)
		y[0] = x.val
		vals = append(vals, y)
	}
	var texts []string
	nth := 0
	for _, c := range log {
		if c.Op != "exec" && c.Op != "query" && c.Op != "prepare" {
			continue
		}
		texts = append(texts, c.SQL)
		what := func(f string, v ...any) {
			bad("%s: %.1200s %s", fmt.Sprintf(f, v...), c.SQL, ShowRow(toVals(c.Args)))
		}
		if c.Stmt == nil {
			what("the statement is not well formed (%v)", c.Err)
			return nil, false
		}
		if c.Op == "prepare" {
			continue
		}
		st := c.Stmt
		r.Eval(fmt.Sprintf("%s/%d/%s/%s", key, s.seed, c.SQL, ShowRow(toVals(c.Args))), len(c.Args) > 0)
		r.Count("statements-"+st.Kind, 1)
		r.Count("arguments", int64(len(c.Args)))
		if st.NParams != len(c.Args) {
			what("%d placeholders and %d arguments", st.NParams, len(c.Args))
			return nil, false
		}
		if len(st.Params) != len(c.Args) {
			what("the text has %d placeholders, %d arguments are given", len(st.Params), len(c.Args))
		}
		for k, x := range st.Params {
			if x != k {
				what("placeholder number %d stands for argument %d", k+1, x+1)
				break
			}
		}
		bs, d := bindings(st)
		if d != "" {
			what("%s", d)
			return nil, false
		}
		sort.SliceStable(bs, func(i, j int) bool { return bs[i].arg < bs[j].arg })
		if nth == 0 && rowsWant != nil {
			if st.Kind != "insert" || len(st.Rows) != len(rowsWant) {
				what("%d rows for %d models", len(st.Rows), len(rowsWant))
				return nil, false
			}
			for k := range rowsWant {
				var l []bound
				for _, b := range bs {
					if b.row == k {
						l = append(l, b)
					}
				}
				if d := a.sameBindings(l, c.Args, rowsWant[k]); d != "" {
					what("model %d: %s", k, d)
				}
			}
		} else if nth == 0 {
			if d := a.sameBindings(bs, c.Args, exp); d != "" {
				what("%s", d)
			}
		} else {
			for _, b := range bs {
				i := a.colNamed(b.col)
				if i < 0 || !slices.ContainsFunc(any2, func(x want) bool { return x.col == i && a.bindsTo(i, c.Args[b.arg], x.val) }) {
					what("argument %d (%s) is not a value given for column %s", b.arg+1, ShowRow(toVals(c.Args[b.arg:b.arg+1])), b.col)
				}
			}
		}
		for _, x := range vals {
			for _, v := range x {
				if d := leaks(c.SQL, v); d != "" {
					what("the value %s is in the text", d)
				}
			}
		}
		nth++
	}
	if err != nil && !errors.Is(err, sql.ErrNoRows) && len(log) > 0 && log[len(log)-1].Err == nil {
		// failures of the call itself are other properties' business
		r.Count("errors", 1)
	}
	r.Sample(key, map[string]any{"text": firstText(texts)})
	return texts, true
}

func firstText(l []string) string {
	if len(l) == 0 {
		return ""
	}
	if len(l[0]) > 300 {
		return l[0][:300]
	}
	return l[0]
}

// sameBindings compares the bindings of a statement with those asked for.
func (a *Adapter) sameBindings(bs []bound, args []any, exp []want) string {
	if len(bs) != len(exp) {
		return fmt.Sprintf("%d arguments bound instead of %d", len(bs), len(exp))
	}
	left := append([]want{}, exp...)
	for _, b := range bs {
		i := a.colNamed(b.col)
		found := -1
		for k, x := range left {
			if x.col == i && a.bindsTo(i, args[b.arg], x.val) {
				found = k
				break
			}
		}
		if found < 0 {
			return fmt.Sprintf("argument %d (%s) is bound to column %s, which it was not given for", b.arg+1, ShowRow(toVals(args[b.arg:b.arg+1])), b.col)
		}
		left = append(left[:found], left[found+1:]...)
	}
	return ""
}

// leaks finds a value in a statement's text. Only values too peculiar to be
// there by accident are looked for.
func leaks(text string, v minisql.Value) string {
	s := ""
	switch x := v.(type) {
	case string:
		s = x
	case minisql.Blob:
		s = string(x)
	case int64:
		if x > -100000 && x < 100000 {
			return ""
		}
		s = fmt.Sprint(x)
	case uint64:
		s = fmt.Sprint(x)
	default:
		if rv := reflect.ValueOf(v); rv.IsValid() && rv.Kind() == reflect.Float64 {
			s = fmt.Sprint(v)
		}
	}
	if s == "18446744073709551615" { // MySQL's way of saying no limit
		return ""
	}
	if len(s) < 6 || !utf8.ValidString(s) || strings.TrimSpace(s) == "" || s == "NULL" {
		return ""
	}
	if strings.Contains(text, s) {
		return s
	}
	return ""
}
