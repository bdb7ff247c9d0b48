package rt

import (
	"reflect"
	"slices"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

// keywords are the words generated statements are made of.
var keywords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`select insert into values update set delete from where and or not is null in like between
		order by asc desc limit offset group for share nowait skip locked lock mode on conflict do nothing duplicate key as new
		excluded escape rowid ctid returning ignore default last_insert_id true false distinct`) {
		m[w] = true
	}
	return m
}()

// quoted is the identifier denoting exactly name.
func (f *Flavour) quoted(name string) string {
	q := "`"
	if f.D != minisql.MySQL {
		q = `"`
	}
	return q + strings.ReplaceAll(name, q, q+q) + q
}

// resolve takes the spelling of the names whose convention leaves room from
// the generated lists, once their letters agree.
func c19resolve(r *ev.Run, a *Adapter, m any) bool {
	key := "name/" + a.String()
	tab, ok1 := m.(sequel.Tabler)
	cl, ok2 := m.(sequel.Columner)
	if !ok1 || !ok2 {
		r.Violate(key, "%s has no table name or columns", a)
		return false
	}
	if a.M.Loose {
		r.Count("names_with_room", 1)
		if s := a.F.unquote(tab.TableName()); spec.Letters(s) == spec.Letters(a.M.Table) {
			a.M.Table = s
		}
	}
	cols := cl.Columns()
	if len(cols) != len(a.M.Cols) {
		r.Violate(key, "%s has columns %v, want %v", a, cols, names(a.M, allCols(a.M)))
		return false
	}
	for i := range cols {
		c := &a.M.Cols[i]
		if s := a.F.unquote(cols[i]); c.Loose {
			r.Count("names_with_room", 1)
			if spec.Letters(s) == spec.Letters(c.Name) {
				c.Name = s
			}
		}
	}
	return true
}

// c19raw judges how the names in the lists are written.
func c19raw(r *ev.Run, a *Adapter, m any) {
	want := func(what, have, name string) {
		r.Eval(a.String()+"/"+what+"/"+name, true)
		w := name
		if a.F.Conf.Quote {
			w = a.F.quoted(name)
		}
		if have != w {
			r.Violate("name/"+a.String(), "%s (naming %q, tag %q, quote %v): %s is %q, want %q", a, a.F.Conf.Naming, a.F.Conf.Tag, a.F.Conf.Quote, what, have, w)
		}
	}
	want("the table", m.(sequel.Tabler).TableName(), a.M.Table)
	list := func(what string, have []string, idx []int) {
		if len(have) != len(idx) {
			r.Violate("name/"+a.String(), "%s: %s are %v, want %v", a, what, have, names(a.M, idx))
			return
		}
		for j, i := range idx {
			want(what, have[j], a.M.Cols[i].Name)
		}
	}
	list("columns", m.(sequel.Columner).Columns(), allCols(a.M))
	if q, ok := m.(sequel.SQLColumner); ok {
		list("SQL columns", q.SQLColumns(), allCols(a.M))
	}
	if q, ok := m.(sequel.InsertColumner); ok {
		list("insert columns", q.InsertColumns(), a.M.Ins())
	}
	if q, ok := m.(sequel.PrimaryKeyer); ok && len(a.M.PK()) == 1 {
		n, _, _ := q.PK()
		want("PK", n, a.M.Cols[a.M.PK()[0]].Name)
	}
	if q, ok := m.(sequel.CompositeKeyer); ok {
		n, _, _ := q.CompositeKey()
		list("composite key", n, a.M.PK())
	}
	for i, o := range a.Ops {
		want("accessor", o.Name(), a.M.Cols[i].Name)
	}
}

// c19text judges the names in a statement text: each name is quoted if
// configured.
func (a *Adapter) c19text(sql string) string {
	toks, err := minisql.Lex(a.F.D, sql)
	if err != nil {
		return err.Error()
	}
	for i, t := range toks {
		switch t.Kind {
		case minisql.TQuoted:
			if t.Text != a.M.Table && t.Text != a.M.DBName && a.M.Col(t.Text) < 0 && t.Text != "new" && t.Text != "other_t" {
				return "names " + t.Text
			}
		case minisql.TIdent:
			if i+1 < len(toks) && toks[i+1].Kind == minisql.TOp && toks[i+1].Text == "(" || keywords[strings.ToLower(t.Text)] {
				continue
			}
			if a.F.Conf.Quote {
				return t.Text + " is not quoted"
			}
			if t.Text != a.M.Table && a.M.Col(t.Text) < 0 && t.Text != "other_t" {
				return "names " + t.Text
			}
		}
	}
	return ""
}

// c19stmts judges the statements the model carries.
func c19stmts(r *ev.Run, a *Adapter, m any) {
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumMethod(); i++ {
		n := v.Type().Method(i).Name
		f, ok := v.Method(i).Interface().(func() (string, []any))
		if !ok || !strings.HasSuffix(n, "Stmt") {
			continue
		}
		sql, _ := f()
		r.Eval(a.String()+"/"+n, true)
		r.Count("statement_texts", 1)
		bad := func(s string) {
			r.Violate("stmt/"+a.String()+"/"+n, "%s (naming %q, quote %v): %s: %s: %s", a, a.F.Conf.Naming, a.F.Conf.Quote, n, s, sql)
		}
		if s := a.c19text(sql); s != "" {
			bad(s)
			continue
		}
		st, err := minisql.Parse(a.F.D, sql)
		if err != nil {
			bad(err.Error())
			continue
		}
		if st.Table != a.M.Table {
			bad("addresses table " + st.Table)
		}
		var cols []string
		cols = append(cols, st.Cols...)
		if st.Kind == "update" {
			for _, s := range st.Sets {
				cols = append(cols, s.Col)
			}
		}
		want := map[string][]int{"insert": a.M.Ins(), "update": a.M.Upd()}[st.Kind]
		if st.Kind == "insert" || st.Kind == "update" {
			w := names(a.M, want)
			slices.Sort(w)
			slices.Sort(cols)
			if !sameList(cols, w) {
				bad("writes the columns " + strings.Join(cols, ",") + " instead of " + strings.Join(w, ","))
			}
		}
	}
}

func init() {
	Checks["C19"] = func(r *ev.Run) {
		r.Rule = "one evaluation per name in a generated list or accessor compared with the convention, tag and quoting asked for, per generated statement text whose identifiers are judged, and per call executed on a table with exactly those names; sources with conflicting or invalid names count one each"
		r.Assume = append(r.Assume, "the conventions fix every name but those with letters beyond ASCII, doubled or outer underscores, or (camelCase, PascalCase) a word right after an acronym; of these the letters are fixed and the spelling must be the same everywhere",
			"on PostgreSQL without quoting, names with capitals are judged in the lists and statement texts only (unquoted they fold to lower case)")
		each(r, func(a *Adapter) {
			rng := r.Rand("c19" + a.String())
			g := &G{R: rng, D: a.F.D}
			m := a.New()
			g.Fill(a, m)
			if !c19resolve(r, a, m) {
				return
			}
			c19raw(r, a, m)
			c06(r, a, m, g, 0)
			c19stmts(r, a, m)
			if a.F.D == minisql.Postgres && !a.F.Conf.Quote {
				if a.M.Go == "FoldedName" {
					c19fold(r, a, rng.Int63())
				}
				if strings.ToLower(a.M.Table) != a.M.Table {
					return
				}
				for _, c := range a.M.Cols {
					if strings.ToLower(c.Name) != c.Name {
						return
					}
				}
			}
			if !a.M.ReadOnly {
				r.Count("executed_models", 1)
			}
			a.tap = func(sql string) {
				r.Count("executed_statements", 1)
				if s := a.c19text(sql); s != "" && sql != "" {
					r.Violate("executed/"+a.String(), "%s (naming %q, quote %v): a statement %s: %s", a, a.F.Conf.Naming, a.F.Conf.Quote, s, sql)
				}
			}
			for k, n := 0, r.N(6, 40); k < n; k++ {
				if a.Find != nil {
					c09(r, a, rng)
				}
				if a.InsertOne != nil {
					c10(r, a, rng)
				}
				if a.Upsert != nil {
					c11(r, a, rng)
				}
				if len(a.Ops) > 0 {
					c12(r, a, rng)
				}
				if a.Paginate != nil && a.HasKey() && a.sortableKey() {
					c14(r, a, rng, k)
				}
			}
		})
	}
}

// c19fold finds a row through the statement text a model carries in a table
// as its lists name it.
func c19fold(r *ev.Run, a *Adapter, seed int64) {
	m := a.New()
	q, ok := m.(interface{ FindOneByPKStmt() (string, []any) })
	if !ok {
		return
	}
	r.Eval("fold/"+a.String(), true)
	sql, _ := q.FindOneByPKStmt()
	toks, err := minisql.Lex(a.F.D, "SELECT "+m.(sequel.Columner).Columns()[0])
	toks2, err2 := minisql.Lex(a.F.D, sql)
	if err != nil || err2 != nil {
		r.Violate("fold-syntax", "%v %v: %s", err, err2, sql)
		return
	}
	if have, want := toks2[1].Text, toks[1].Text; have != want {
		r.Violate("pg-unquoted-capitals", "%s: without quoting, the column list denotes column %s and the statement %s denotes column %s", a, want, sql, have)
	}
}
