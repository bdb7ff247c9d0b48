package rt

import (
	"database/sql"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

// Rec is one row in the model's column order.
type Rec []minisql.Value

// World is a database holding the table of one model.
type World struct {
	A   *Adapter
	E   *minisql.DB
	DB  *sql.DB
	pos []int // table position of every model column
	seq int64
}

// defVal is the default of a readonly column for the n-th stored row.
func defVal(t *spec.Type, ft reflect.Type, d minisql.Dialect, n int64) minisql.Value {
	g := &G{R: rand.New(rand.NewSource(n*7919 + 13)), D: d, NoNil: true}
	for try := 0; ; try++ {
		v := reflect.New(ft).Elem()
		g.Set(t, v)
		if x, err := Enc(t, d, v); err == nil && (x != nil || try > 100) {
			return x
		}
	}
}

// NewWorld creates the table of a model. Its columns stand in another order
// than the model's and there is one the model does not know.
func NewWorld(a *Adapter, opt ...func(*minisql.Table)) *World {
	w := &World{A: a, E: minisql.New(a.F.D)}
	w.E.DBName = a.M.DBName
	w.E.Tap = a.tap
	t := &minisql.Table{Name: a.M.Table}
	n := len(a.M.Cols)
	w.pos = make([]int, n)
	pk := map[int]bool{}
	for _, i := range a.M.PK() {
		pk[i] = true
		t.PK = append(t.PK, a.M.Cols[i].Name)
	}
	probe := a.New()
	for j := 0; j < n; j++ {
		i := (j*5 + 3) % n
		if n%5 == 0 {
			i = n - 1 - j
		}
		c := &a.M.Cols[i]
		st := spec.T(c.Type)
		w.pos[i] = len(t.Cols)
		col := minisql.Col{Name: c.Name, Kind: st.ColKind(a.F.D), F32: st.F32, Auto: c.Auto, NotNull: pk[i]}
		if c.RO {
			f, _ := Field(probe, c)
			ft := f.Type()
			col.Generated = true
			col.Default = func(n int64) minisql.Value { return defVal(st, ft, a.F.D, n) }
		}
		t.Cols = append(t.Cols, col)
		if j == n/2 {
			t.Cols = append(t.Cols, minisql.Col{Name: "zz_more", Kind: minisql.KText, Default: func(n int64) minisql.Value { return fmt.Sprint("more", n) }})
		}
	}
	t.Uniques = a.M.Uniques
	for _, f := range opt {
		f(t)
	}
	w.E.AddTable(t)
	w.DB = w.E.Open()
	return w
}

func (w *World) Close() { w.DB.Close() }

// Rows are the stored rows in storage order.
func (w *World) Rows() []Rec {
	var out []Rec
	for _, r := range w.E.Snapshot(w.A.M.Table) {
		out = append(out, w.rec(r))
	}
	return out
}

func (w *World) rec(r minisql.Row) Rec {
	out := make(Rec, len(w.pos))
	for i, p := range w.pos {
		out[i] = r[p]
	}
	return out
}

// Put replaces the table's content.
func (w *World) Put(rs []Rec) {
	var rows []minisql.Row
	for n, r := range rs {
		row := make(minisql.Row, len(w.pos)+1)
		used := make([]bool, len(row))
		for i, p := range w.pos {
			row[p] = r[i]
			used[p] = true
		}
		for p := range used {
			if !used[p] {
				row[p] = fmt.Sprint("old", n)
			}
		}
		rows = append(rows, row)
	}
	w.E.SetRows(w.A.M.Table, rows)
}

// RecOf encodes a model as the row it stands for.
func RecOf(a *Adapter, m any) (Rec, error) {
	out := make(Rec, len(a.M.Cols))
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		v, _ := Field(m, c)
		x, err := Enc(spec.T(c.Type), a.F.D, v)
		if err != nil {
			return nil, err
		}
		out[i] = x
	}
	return out, nil
}

// KeyOf names the key of a row.
func (a *Adapter) KeyOf(r Rec) string {
	var b strings.Builder
	for _, i := range a.M.PK() {
		fmt.Fprintf(&b, "%s|", KeyText(r[i]))
	}
	return b.String()
}

// KeyText tells apart key values.
func KeyText(v minisql.Value) string {
	if n, ok := bits(v); ok {
		return fmt.Sprintf("i%d", n)
	}
	return fmt.Sprintf("%T%v", v, v)
}

// SameRec compares two rows column by column and names the first difference.
func (a *Adapter) SameRec(x, y Rec, skip ...int) string {
next:
	for i := range a.M.Cols {
		for _, s := range skip {
			if s == i {
				continue next
			}
		}
		c := &a.M.Cols[i]
		if !SameStored(spec.T(c.Type), a.F.D, x[i], y[i]) {
			return fmt.Sprintf("column %s (%s): have %s, want %s", c.Name, c.Type, ShowRow(Rec{x[i]}), ShowRow(Rec{y[i]}))
		}
	}
	return ""
}

// SameModel compares two models field by field.
func (a *Adapter) SameModel(x, y any, skip ...int) string {
next:
	for i := range a.M.Cols {
		for _, s := range skip {
			if s == i {
				continue next
			}
		}
		c := &a.M.Cols[i]
		u, _ := Field(x, c)
		v, _ := Field(y, c)
		if !SameGo(spec.T(c.Type), u, v) {
			return fmt.Sprintf("field %s (%s): have %s, want %s", strings.Join(c.Path, "."), c.Type, Show(u), Show(v))
		}
	}
	return ""
}

// MatchRow says whether model m holds exactly row r, as read from the
// database: NULL in a plain field reads as its zero value.
func (a *Adapter) MatchRow(m any, r Rec, skip ...int) string {
next:
	for i := range a.M.Cols {
		for _, s := range skip {
			if s == i {
				continue next
			}
		}
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		v, ok := Field(m, c)
		if r[i] == nil {
			if !ok || zeroish(t, v) {
				continue
			}
			return fmt.Sprintf("field %s (%s): have %s, the row has NULL", strings.Join(c.Path, "."), c.Type, Show(v))
		}
		if !ok {
			return fmt.Sprintf("field %s (%s): not allocated, the row has %s", strings.Join(c.Path, "."), c.Type, ShowRow(Rec{r[i]}))
		}
		x, err := Enc(t, a.F.D, v)
		if err != nil || !SameStored(t, a.F.D, x, r[i]) {
			return fmt.Sprintf("field %s (%s): have %s, the row has %s", strings.Join(c.Path, "."), c.Type, Show(v), ShowRow(Rec{r[i]}))
		}
	}
	return ""
}

func zeroish(t *spec.Type, v reflect.Value) bool {
	if v.IsZero() {
		return true
	}
	if t.Ptr {
		return false
	}
	switch t.Class {
	case spec.CBytes, spec.CRaw:
		return v.Len() == 0
	case spec.CNull:
		return !v.FieldByName("Valid").Bool()
	}
	return false
}

// Affected reads a result's count; pg single inserts give none.
func Affected(r sql.Result) int64 {
	if r == nil {
		return -1
	}
	n, err := r.RowsAffected()
	if err != nil {
		return -2
	}
	return n
}

// Check judges the resource accounting of the engine after a case.
func (w *World) Check(r *ev.Run, key, what string) {
	if s := w.E.Leaks(); s != "" {
		r.Violate(key+"/leak", "%s: after it, %s", what, s)
	}
	if s, _ := w.E.Misuse.Load().(string); s != "" {
		r.Violate(key+"/misuse", "%s: %s", what, s)
	}
}

// LastSQL shows the statements of the case.
func (w *World) LastSQL() string {
	var l []string
	for _, c := range w.E.TakeLog() {
		s := fmt.Sprintf("%s %s %s", c.Op, c.SQL, ShowRow(toVals(c.Args)))
		if c.Err != nil {
			s += " -> " + c.Err.Error()
		}
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		l = append(l, s)
	}
	return strings.Join(l, "; ")
}

func toVals(a []any) []minisql.Value {
	out := make([]minisql.Value, len(a))
	for i := range a {
		out[i] = a[i]
	}
	return out
}
