package rt

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

// Stored is the value a column of type t holds once x is bound to it.
func Stored(t *spec.Type, d minisql.Dialect, x any) (minisql.Value, error) {
	if v, ok := x.(driver.Valuer); ok {
		y, err := driver.DefaultParameterConverter.ConvertValue(v)
		if err != nil {
			return nil, err
		}
		x = y
	} else if rv := reflect.ValueOf(x); rv.IsValid() && rv.CanUint() {
		x = rv.Uint()
	} else {
		y, err := driver.DefaultParameterConverter.ConvertValue(x)
		if err != nil {
			return nil, err
		}
		x = y
	}
	v, err := minisql.Bind(x)
	if err != nil {
		return nil, err
	}
	if t.Wrapped {
		// bound as text, the column's own function makes it a geometry
		return minisql.Geo(textOf(v)), nil
	}
	return minisql.Coerce(t.ColKind(d), t.F32, v)
}

// unquote gives the name an identifier in generated code denotes.
func (f *Flavour) unquote(s string) string {
	q := "`"
	if f.D != minisql.MySQL {
		q = `"`
	}
	if len(s) >= 2 && strings.HasPrefix(s, q) && strings.HasSuffix(s, q) {
		return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
	}
	return s
}

func (f *Flavour) unquoteAll(l []string) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = f.unquote(l[i])
	}
	return out
}

func names(m *spec.Model, idx []int) []string {
	out := []string{}
	for _, i := range idx {
		out = append(out, m.Cols[i].Name)
	}
	return out
}

func allCols(m *spec.Model) []int {
	var out []int
	for i := range m.Cols {
		out = append(out, i)
	}
	return out
}

func sameList(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

// holds says whether value x, as handed to the driver, is column i of m.
func (a *Adapter) holds(m any, i int, x any) string {
	c := &a.M.Cols[i]
	t := spec.T(c.Type)
	f, _ := Field(m, c)
	want, err := Enc(t, a.F.D, f)
	have, err2 := Stored(t, a.F.D, x)
	if err != nil {
		return ""
	}
	if err2 != nil {
		return fmt.Sprintf("column %s: value %#v cannot be stored: %v", c.Name, x, err2)
	}
	if !SameStored(t, a.F.D, have, want) {
		return fmt.Sprintf("column %s: value %s is not the field's %s", c.Name, ShowRow(Rec{have}), Show(f))
	}
	return ""
}

// call invokes a method without arguments.
func call(m any, name string) (any, bool) {
	f := reflect.ValueOf(m).MethodByName(name)
	if !f.IsValid() {
		return nil, false
	}
	return f.Call(nil)[0].Interface(), true
}

func (a *Adapter) freeze(m any) Rec {
	r := make(Rec, len(a.M.Cols))
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		f, ok := Field(m, c)
		r[i] = "<behind nil>"
		if ok {
			r[i] = Show(f)
		}
	}
	return r
}

func init() {
	Checks["C06"] = func(r *ev.Run) {
		r.Rule = "one evaluation per list, address or getter judged on a filled model; distinct counts (flavour, model, what, column, value)"
		r.Assume = append(r.Assume, "models are drawn from the harness' source grammar (every catalogued type, by value, pointer, embedded and embedded pointer; tags; several names per declaration)")
		each(r, func(a *Adapter) {
			rng := r.Rand("c06" + a.String())
			g := &G{R: rng, D: a.F.D}
			for k := 0; k < r.N(6, 40); k++ {
				m := a.New()
				gg := *g
				gg.NoNil = k == 0
				gg.Fill(a, m)
				c06(r, a, m, &gg, k)
			}
		})
	}
}

func c06(r *ev.Run, a *Adapter, m any, g *G, k int) {
	key := "align/" + a.String()
	bad := func(format string, x ...any) {
		r.Violate(key, "%s: %s (model %s)", a, fmt.Sprintf(format, x...), show(a, m))
	}
	desc := ShowRow(a.freeze(m))
	ev1 := func(what string) { r.Eval(a.String()+"/"+what+desc, true) }
	tab, ok := m.(sequel.Tabler)
	if !ok {
		bad("has no TableName")
		return
	}
	ev1("table")
	if s := a.F.unquote(tab.TableName()); s != a.M.Table {
		bad("table name %q, want %q", s, a.M.Table)
	}
	cl, ok := m.(sequel.Columner)
	if !ok {
		bad("has no Columns")
		return
	}
	ev1("columns")
	all := names(a.M, allCols(a.M))
	if l := a.F.unquoteAll(cl.Columns()); !sameList(l, all) {
		bad("columns %v, want %v", l, all)
		return
	}
	if q, ok := m.(sequel.SQLColumner); ok {
		ev1("sqlcolumns")
		if n := len(q.SQLColumns()); n != len(all) {
			bad("%d SQL columns for %d columns", n, len(all))
		}
	}
	// insert lists
	ins := a.M.Ins()
	v, isV := m.(sequel.Valuer)
	if !a.M.ReadOnly && len(ins) > 0 {
		if !isV {
			bad("has no Values")
			return
		}
		il := a.F.unquoteAll(cl.Columns())
		if q, ok := m.(sequel.InsertColumner); ok {
			il = a.F.unquoteAll(q.InsertColumns())
		}
		ev1("insertcolumns")
		if !sameList(il, names(a.M, ins)) {
			bad("insert columns %v, want %v", il, names(a.M, ins))
		}
		vals := v.Values()
		ev1("values")
		if len(vals) != len(ins) {
			bad("%d values for insert columns %v", len(vals), names(a.M, ins))
		} else {
			for j, i := range ins {
				if s := a.holds(m, i, vals[j]); s != "" {
					bad("Values: %s", s)
				}
			}
		}
		if q, ok := m.(sequel.Inserter); ok {
			for _, row := range []int{0, 1, 2, 9, 1000} {
				ev1(fmt.Sprint("placeholders", row))
				s := q.InsertPlaceholders(row)
				toks, err := minisql.Lex(a.F.D, s)
				if err != nil {
					bad("placeholders %q: %v", s, err)
					continue
				}
				n := 0
				for _, t := range toks {
					if t.Kind != minisql.TParam {
						continue
					}
					n++
					if want := row*len(ins) + n; a.F.D == minisql.Postgres && t.N != want {
						bad("placeholders of row %d: %q, number %d is $%d", row, s, n, t.N)
					}
				}
				if n != len(ins) {
					bad("placeholders %q for %d insert columns", s, len(ins))
				}
			}
		} else {
			bad("has no InsertPlaceholders")
		}
	}
	// key
	pk := a.M.PK()
	if a.M.ReadOnly {
		pk = nil
	}
	switch {
	case len(pk) == 0:
	case len(pk) == 1:
		p, ok := m.(sequel.PrimaryKeyer)
		if !ok {
			bad("has no PK")
			break
		}
		ev1("pk")
		n, i, x := p.PK()
		if a.F.unquote(n) != a.M.Cols[pk[0]].Name || i != pk[0] {
			bad("PK is %s at %d, want %s at %d", n, i, a.M.Cols[pk[0]].Name, pk[0])
		} else if s := a.holds(m, pk[0], x); s != "" {
			bad("PK: %s", s)
		}
		_, auto := m.(sequel.AutoIncrKeyer)
		if auto != (a.M.Auto >= 0) {
			bad("auto increment %v, want %v", auto, a.M.Auto >= 0)
		}
	default:
		p, ok := m.(sequel.CompositeKeyer)
		if !ok {
			bad("has no CompositeKey")
			break
		}
		ev1("compositekey")
		n, idx, x := p.CompositeKey()
		if !sameList(a.F.unquoteAll(n), names(a.M, pk)) || len(idx) != len(pk) || len(x) != len(pk) {
			bad("composite key %v at %v (%d values), want %v at %v", n, idx, len(x), names(a.M, pk), pk)
			break
		}
		for j := range pk {
			if idx[j] != pk[j] {
				bad("composite key %v at %v, want %v", n, idx, pk)
			} else if s := a.holds(m, pk[j], x[j]); s != "" {
				bad("CompositeKey: %s", s)
			}
		}
	}
	// getters and accessors
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		if x, ok := call(m, c.Go+"Value"); ok {
			ev1("getter/" + c.Name)
			if s := a.holds(m, i, x); s != "" {
				bad("%sValue: %s", c.Go, s)
			}
		} else {
			bad("no getter %sValue", c.Go)
		}
		if i >= len(a.Ops) {
			continue
		}
		o := a.Ops[i]
		ev1("accessor/" + c.Name)
		if s := a.F.unquote(o.Name()); s != c.Name {
			bad("accessor of %s names column %q", c.Go, s)
		}
		f, ok := Field(m, c)
		if !ok {
			continue
		}
		x := o.Value(m)
		xv := reflect.New(f.Type()).Elem()
		if x != nil {
			xv.Set(reflect.ValueOf(x))
		}
		if !SameGo(spec.T(c.Type), xv, f) {
			bad("accessor of %s yields %s, want %s", c.Go, Show(xv), Show(f))
		}
		if y, ok := o.Convert(x); ok {
			if s := a.holds(m, i, y); s != "" {
				bad("accessor of %s converts: %s", c.Go, s)
			}
		}
	}
	// addresses
	dst := a.New()
	if k%2 == 1 {
		g.Fill(a, dst)
	}
	sc, ok := dst.(sequel.Scanner)
	if !ok {
		bad("has no Addrs")
		return
	}
	addrs := sc.Addrs()
	if len(addrs) != len(a.M.Cols) {
		bad("%d addresses for %d columns", len(addrs), len(a.M.Cols))
		return
	}
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		src, _ := Field(m, c)
		val, err := Enc(t, a.F.D, src)
		if err != nil || val == nil {
			continue
		}
		before := a.freeze(dst)
		ev1("address/" + c.Name)
		if s, ok := addrs[i].(sql.Scanner); ok {
			rep := minisql.Represent(a.F.D, minisql.Mode(k%3), t.ColKind(a.F.D), t.F32, val, time.UTC)
			if t.Wrapped {
				rep = textOf(val)
			}
			if err := s.Scan(rep); err != nil {
				bad("address of %s: scanning %#v: %v", c.Name, rep, err)
				continue
			}
		} else {
			p := reflect.ValueOf(addrs[i])
			f, ok := Field(dst, c)
			if p.Kind() != reflect.Pointer || !ok || p.Type().Elem() != f.Type() {
				// the destination of the pointed-to value
				if ok && f.Kind() == reflect.Pointer && !f.IsNil() && p.Kind() == reflect.Pointer && p.Pointer() == f.Pointer() {
					p.Elem().Set(src.Elem())
				} else {
					bad("address of %s is a %T", c.Name, addrs[i])
					continue
				}
			} else if p.Pointer() != f.Addr().Pointer() {
				bad("address of %s points elsewhere", c.Name)
				continue
			} else {
				p.Elem().Set(src)
			}
		}
		f, ok := Field(dst, c)
		if !ok || !SameGo(t, f, src) {
			bad("address of %s: the field holds %s after scanning %s", c.Name, Show(f), Show(src))
		}
		after := a.freeze(dst)
		for j := range after {
			if j != i && after[j] != before[j] {
				bad("address of %s changes %s", c.Name, a.M.Cols[j].Name)
			}
		}
	}
}
