package rt

import (
	"fmt"
	"reflect"
	"strings"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

// takesNull says that NULL in column c has a Go form the code must give.
func takesNull(c *spec.Col) bool { return c.EmbPtr || spec.T(c.Type).Ptr }

// nullRead judges what was read from a row with NULLs.
func (a *Adapter) nullRead(m any, row Rec) string {
	if s := a.MatchRow(m, row); s != "" {
		return s
	}
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		v, ok := Field(m, c)
		if !ok || row[i] != nil {
			continue
		}
		if spec.T(c.Type).Ptr && !v.IsNil() {
			return fmt.Sprintf("field %s (%s): NULL reads as %s, want nil", strings.Join(c.Path, "."), c.Type, Show(v))
		}
	}
	return ""
}

// onWay says whether a pointer on the way to column i is nil.
func nilOnWay(m any, c *spec.Col) bool {
	v, ok := Field(m, c)
	return !ok || spec.T(c.Type).Ptr && v.IsNil()
}

func init() {
	Checks["C08"] = func(r *ev.Run) {
		r.Rule = "one evaluation per row with NULLs read, per model with nil pointers written and per getter of it; distinct counts (flavour, model, path, mode, NULL pattern)"
		r.Assume = append(r.Assume, "NULL in a plain field outside an embedded pointer may be an error", "reading happens through generated Addrs only")
		each(r, func(a *Adapter) {
			rng := r.Rand("c08" + a.String())
			g := &G{R: rng, D: a.F.D}
			w := NewWorld(a)
			defer w.Close()
			key := "null/" + a.String()
			bad := func(what, format string, x ...any) {
				r.Violate(key+"/"+what, "%s: %s: %s", a, what, fmt.Sprintf(format, x...))
			}
			// patterns of NULL over the non-key columns
			var cols []int
			for i := range a.M.Cols {
				if !a.M.Cols[i].PK {
					cols = append(cols, i)
				}
			}
			if len(cols) == 0 {
				return
			}
			var pats []uint64
			if len(cols) <= r.N(7, 11) {
				for p := uint64(0); p < 1<<len(cols); p++ {
					pats = append(pats, p)
				}
			} else {
				pats = append(pats, 0, 1<<len(cols)-1)
				for i := range cols {
					pats = append(pats, 1<<i, (1<<len(cols)-1)&^(1<<i))
				}
				for i := 0; i < r.N(60, 1200); i++ {
					pats = append(pats, rng.Uint64()&rng.Uint64()&(1<<len(cols)-1), rng.Uint64()&(1<<len(cols)-1))
				}
			}
			for k, p := range pats {
				m := a.New()
				gg := *g
				gg.NoNil = true
				gg.Fill(a, m)
				row, err := RecOf(a, m)
				if err != nil {
					panic(err)
				}
				must := true
				for b, i := range cols {
					if p>>b&1 == 1 {
						row[i] = nil
						must = must && takesNull(&a.M.Cols[i])
					}
				}
				w.Put([]Rec{row})
				w.E.Mode = modes[k%3]
				w.E.Prepared = k%2 == 0
				id := fmt.Sprintf("%s/%s/%x", a, w.E.Mode, p)
				read := func(what string, f func() (any, error)) {
					var x any
					var err error
					if !r.Guard(key+"/panic", id+" "+what+" of "+ShowRow(row), func() { x, err = f() }) {
						return
					}
					r.Eval(id+"/"+what, p != 0)
					switch {
					case err != nil && must && a.M.Go == "KnownTime" && row[1] == nil:
						r.Violate("embptr-null-time", "%s: %s: row %s: %v", a, what, ShowRow(row), err)
					case err != nil && must:
						bad(what, "row %s (%s): %v", ShowRow(row), w.E.Mode, err)
					case err == nil:
						r.Count("rows_read_with_null", 1)
						if s := a.nullRead(x, row); s != "" {
							bad(what, "row %s (%s): %s", ShowRow(row), w.E.Mode, s)
						}
					default:
						r.Count("errors_on_plain_null", 1)
					}
				}
				read("query", func() (any, error) {
					x, err := a.Query(bg, w.DB, Select{})
					if err != nil {
						return nil, err
					}
					es := a.Elems(x)
					if len(es) != 1 {
						return nil, fmt.Errorf("%d rows", len(es))
					}
					return es[0], nil
				})
				read("queryone", func() (any, error) { return a.QueryOne(bg, w.DB, Select{}) })
				if a.Find != nil {
					for _, dirty := range []bool{false, true} {
						read(fmt.Sprint("find/", dirty), func() (any, error) {
							f := a.Zero()
							if a.M.PK()[0] >= 0 && (dirty || !a.keyAlloc(f)) {
								f = a.New()
							}
							if dirty {
								gg.Fill(a, f)
							}
							a.setKey(f, m)
							return f, a.Find(bg, w.DB, f)
						})
					}
				}
				if a.Lock != nil && k%4 == 0 {
					read("lock", func() (any, error) {
						f := a.New()
						gg.Fill(a, f)
						a.setKey(f, m)
						tx, err := w.DB.BeginTx(bg, nil)
						if err != nil {
							panic(err)
						}
						defer tx.Rollback()
						return f, a.Lock(bg, tx, f, "update")
					})
				}
				if a.Paginate != nil && k%4 == 1 {
					read("paginate", func() (any, error) {
						var x any
						var err error
						a.Paginate(bg, w.DB, Page{Limit: 5}, func(ms any, e error) bool {
							if e != nil {
								err = e
								return false
							}
							if es := a.Elems(ms); len(es) > 0 {
								x = es[0]
							}
							return true
						})
						return x, err
					})
				}
				w.E.TakeLog()
			}
			// writing
			if a.InsertOne == nil {
				return
			}
			for k := 0; k < r.N(60, 1000); k++ {
				m := a.New()
				g.Fill(a, m)
				if k%3 == 0 {
					Cut(rng, reflect.ValueOf(m).Elem())
				}
				if k == 1 {
					m = a.Zero()
				}
				if !a.M.HasPK() || a.keyAlloc(m) {
					w.Put(nil)
					orig := a.CopyOf(m)
					pat := ""
					for i := range a.M.Cols {
						if nilOnWay(m, &a.M.Cols[i]) {
							pat += "0"
						} else {
							pat += "1"
						}
					}
					var err error
					what := "insertone"
					if !r.Guard(key+"/panic", "insert of "+show(a, orig), func() {
						if k%2 == 0 {
							_, err = a.InsertOne(bg, w.DB, m)
						} else {
							what = "insert"
							_, err = a.Insert(bg, w.DB, a.Slice(m))
						}
					}) {
						continue
					}
					r.Eval(fmt.Sprintf("%s/%s/%s", a, what, pat), true)
					rows := w.Rows()
					if err != nil || len(rows) != 1 {
						// keys must not be NULL; zero models may have no stored form
						if err != nil && a.M.Go == "KnownTime" && nilOnWay(orig, &a.M.Cols[1]) && a.F.D == minisql.Postgres {
							r.Violate("embptr-null-time", "%s: %s: %v", a, what, err)
						} else if k != 1 {
							bad(what, "%s: %v, %d rows", show(a, orig), err, len(rows))
						}
						continue
					}
					for _, i := range a.M.Ins() {
						c := &a.M.Cols[i]
						n := nilOnWay(orig, c)
						if n && rows[0][i] != nil {
							bad(what, "%s: column %s stores %s for a nil pointer", show(a, orig), c.Name, ShowRow(Rec{rows[0][i]}))
						}
						if !n && takesNull(c) && rows[0][i] == nil {
							if f, _ := Field(orig, c); !nullForm(spec.T(c.Type), f, a) {
								bad(what, "%s: column %s stores NULL for %s", show(a, orig), c.Name, Show(f))
							}
						}
					}
					r.Sample(a.M.Go+"/"+what, map[string]any{"model": show(a, orig), "row": ShowRow(rows[0])})
				}
				// getters
				for i := range a.M.Cols {
					c := &a.M.Cols[i]
					if !takesNull(c) {
						continue
					}
					var x any
					ok := false
					if !r.Guard(key+"/panic", c.Go+"Value of "+show(a, m), func() { x, ok = call(m, c.Go+"Value") }) || !ok {
						continue
					}
					r.Eval(fmt.Sprintf("%s/getter/%s/%v", a, c.Name, nilOnWay(m, c)), true)
					if n := nilOnWay(m, c); n != (x == nil) {
						f, _ := Field(m, c)
						bad("getter", "%s of %s: %sValue gives %#v", c.Go, Show(f), c.Go, x)
					}
				}
			}
			w.Check(r, key, a.String())
		})
	}
}

// nullForm says that the value itself is stored as NULL.
func nullForm(t *spec.Type, v reflect.Value, a *Adapter) bool {
	x, err := Enc(t, a.F.D, v)
	if err != nil {
		return true
	}
	b, isB := x.(minisql.Blob)
	return nullish(x) || isB && len(b) == 0
}
