package glue

import (
	"context"
	"database/sql"
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"
	"verif/harness/rt"

	db "PKG/db"
	m "PKG/m"
	HWIMPORT
)

var _ context.Context
var _ *sql.DB

func anyCol[M, V any, C sequel.ColumnClause[V]](name string, f func(M) C) *rt.ColOps {
	o := anyOps[M, V, C](name, f, false)
	o.SQL = anyOps[M, V, C](name, f, true)
	return o
}

// column is the column of the model's method, or one of the same name whose
// values pass through an SQL function.
func column[M, V any, C sequel.ColumnClause[V]](f func(M) C, viaSQL bool) sequel.ColumnClause[V] {
	c := sequel.ColumnClause[V](f(rt.Alloced[M]()))
	if !viaSQL {
		return c
	}
	return sequel.SQLColumn(c.ColumnName(), c.Value(), rt.Unveiling, func(v V) any {
		if conv, ok := c.(sequel.ColumnConvertClause[V]); ok {
			return rt.Veil(conv.Convert(v))
		}
		return rt.Veil(v)
	})
}

func anyOps[M, V any, C sequel.ColumnClause[V]](name string, f func(M) C, viaSQL bool) *rt.ColOps {
	col := func() sequel.ColumnClause[V] { return column[M, V](f, viaSQL) }
	in := func(vs []any) []V {
		if vs == nil {
			return nil
		}
		out := make([]V, len(vs))
		for i := range vs {
			out[i] = to[V](vs[i])
		}
		return out
	}
	return &rt.ColOps{
		Go:    name,
		Name:  func() string { return col().ColumnName() },
		Value: func(x any) any { return f(*(x.(*M))).Value() },
		Convert: func(v any) (any, bool) {
			if c, ok := col().(sequel.ColumnConvertClause[V]); ok {
				return c.Convert(to[V](v)), true
			}
			return nil, false
		},
		In:        func(vs []any) sequel.WhereClause { return db.In(col(), in(vs)) },
		NotIn:     func(vs []any) sequel.WhereClause { return db.NotIn(col(), in(vs)) },
		IsNull:    func() sequel.WhereClause { return db.IsNull(col()) },
		IsNotNull: func() sequel.WhereClause { return db.IsNotNull(col()) },
		Set:       func(v any) sequel.SetClause { return db.Set(col(), to[V](v)) },
		Asc:       func() sequel.OrderByClause { return db.Asc(col()) },
		Desc:      func() sequel.OrderByClause { return db.Desc(col()) },
	}
}

func to[V any](v any) V {
	if v == nil {
		var z V
		return z
	}
	return v.(V)
}

func cmpCol[M any, V comparable, C sequel.ColumnClause[V]](name string, f func(M) C) *rt.ColOps {
	o := cmpOps[M, V, C](name, f, false)
	o.SQL = cmpOps[M, V, C](name, f, true)
	return o
}

func cmpOps[M any, V comparable, C sequel.ColumnClause[V]](name string, f func(M) C, viaSQL bool) *rt.ColOps {
	o := anyOps[M, V, C](name, f, viaSQL)
	col := func() sequel.ColumnClause[V] { return column[M, V](f, viaSQL) }
	o.Eq = func(v any) sequel.WhereClause { return db.Equal(col(), to[V](v)) }
	o.Ne = func(v any) sequel.WhereClause { return db.NotEqual(col(), to[V](v)) }
	o.Gt = func(v any) sequel.WhereClause { return db.GreaterThan(col(), to[V](v)) }
	o.Ge = func(v any) sequel.WhereClause { return db.GreaterThanOrEqual(col(), to[V](v)) }
	o.Lt = func(v any) sequel.WhereClause { return db.LessThan(col(), to[V](v)) }
	o.Le = func(v any) sequel.WhereClause { return db.LessThanOrEqual(col(), to[V](v)) }
	o.Like = func(v any) sequel.WhereClause { return db.Like(col(), to[V](v)) }
	o.NotLike = func(v any) sequel.WhereClause { return db.NotLike(col(), to[V](v)) }
	o.Between = func(a, b any) sequel.WhereClause { return db.Between(col(), to[V](a), to[V](b)) }
	o.NotBetween = func(a, b any) sequel.WhereClause { return db.NotBetween(col(), to[V](a), to[V](b)) }
	return o
}

type queryable[T any] interface {
	*T
	sequel.Scanner
}

func reg[T any, P queryable[T]]() *rt.Adapter {
	a := &rt.Adapter{Type: reflect.TypeFor[T]()}
	a.Query = func(ctx context.Context, d *sql.DB, s rt.Select) (any, error) {
		r, err := db.QueryStmt[T, P](ctx, d, func(T) db.SelectStmt {
			return db.SelectStmt{Select: s.Cols, FromTable: s.From, Where: s.Where, OrderBy: s.OrderBy, GroupBy: s.GroupBy, Offset: s.Offset, Limit: s.Limit}
		})
		return r, err
	}
	a.QueryOne = func(ctx context.Context, d *sql.DB, s rt.Select) (any, error) {
		r, err := db.QueryOneStmt[T, P](ctx, d, func(T) db.SelectOneStmt {
			return db.SelectOneStmt{Select: s.Cols, FromTable: s.From, Where: s.Where, OrderBy: s.OrderBy, GroupBy: s.GroupBy}
		})
		if r == nil {
			return nil, err
		}
		return (*T)(r), err
	}
	a.ExecUpdate = func(ctx context.Context, d *sql.DB, e rt.Exec) (sql.Result, error) {
		return db.ExecStmt[T](ctx, d, func(T) db.UpdateStmt {
			return db.UpdateStmt{Table: e.Table, Set: e.Set, Where: e.Where, OrderBy: e.OrderBy LIMIT}
		})
	}
	a.ExecDelete = func(ctx context.Context, d *sql.DB, e rt.Exec) (sql.Result, error) {
		return db.ExecStmt[T](ctx, d, func(T) db.DeleteStmt {
			return db.DeleteStmt{FromTable: e.Table, Where: e.Where, OrderBy: e.OrderBy LIMIT}
		})
	}
	return a
}

type insertable[T any] interface {
	*T
	sequel.Scanner
	sequel.ColumnValuer
}

func regIns[T sequel.Inserter, P insertable[T]]() *rt.Adapter {
	a := reg[T, P]()
	a.InsertOne = func(ctx context.Context, d *sql.DB, x any) (sql.Result, error) {
		INSERTONE
	}
	a.Insert = func(ctx context.Context, d *sql.DB, x any) (sql.Result, error) {
		INSERTMANY
	}
	return a
}

OPTIONS

type keyed interface {
	sequel.KeyValuer
	sequel.Inserter
}

type keyedPtr[T any] interface {
	sequel.KeyValueScanner[T]
	sequel.Inserter
}

func regKey[T keyed, P keyedPtr[T]]() *rt.Adapter {
	a := regIns[T, P]()
	a.UpsertOne = func(ctx context.Context, d *sql.DB, x any, o rt.Upsert) (sql.Result, error) {
		UPSERTONE
	}
	a.Upsert = func(ctx context.Context, d *sql.DB, x any, o rt.Upsert) (sql.Result, error) {
		UPSERTMANY
	}
	a.Find = func(ctx context.Context, d *sql.DB, x any) error { return db.FindByPK[T, P](ctx, d, P(x.(*T))) }
	a.Update = func(ctx context.Context, d *sql.DB, x any) (sql.Result, error) { return db.UpdateByPK(ctx, d, *x.(*T)) }
	a.Delete = func(ctx context.Context, d *sql.DB, x any) (sql.Result, error) { return db.DeleteByPK(ctx, d, *x.(*T)) }
	a.Lock = func(ctx context.Context, tx *sql.Tx, x any, mode string) error {
		switch mode {
		case "share":
			return db.LockByPK[T, P](ctx, tx, P(x.(*T)), db.LockForShare)
		}
		return db.LockByPK[T, P](ctx, tx, P(x.(*T)), db.LockForUpdate)
	}
	a.NewPager = func(p rt.Page) any {
		return db.Paginate[T, P](db.PaginateStmt{Where: p.Where, OrderBy: p.OrderBy, Limit: p.Limit})
	}
	a.Paginate = func(ctx context.Context, d *sql.DB, p rt.Page, yield func(any, error) bool) {
		var pg *db.Pager[T, P]
		if p.Reuse != nil {
			pg = p.Reuse.(*db.Pager[T, P])
		} else {
			pg = a.NewPager(p).(*db.Pager[T, P])
		}
		var cur []T
		if p.Cursor != nil {
			cur = append(cur, *p.Cursor.(*T))
		}
		it := pg.Next(ctx, d, cur...)
		if p.Back {
			it = pg.Prev(ctx, d, cur...)
		}
		for ms, err := range it {
			if !yield(ms, err) {
				return
			}
		}
		if p.Twice && yield(nil, rt.Again) {
			for ms, err := range it {
				if !yield(ms, err) {
					return
				}
			}
		}
	}
	return a
}

// sequel.KeyValueScanner embeds *T, so it also satisfies insertable and queryable.

// noTable is a type without a table.
type noTable struct{ ID int64 }

func (v *noTable) Addrs() []any { return []any{&v.ID} }

func init() {
	f := rt.NewFlavour(DESC)
	f.NoTable = map[string]func(context.Context, *sql.DB) error{
		"query": func(ctx context.Context, d *sql.DB) error {
			_, err := db.QueryStmt[noTable](ctx, d, func(noTable) db.SelectStmt { return db.SelectStmt{Limit: 3} })
			return err
		},
		"queryone": func(ctx context.Context, d *sql.DB) error {
			_, err := db.QueryOneStmt[noTable](ctx, d, func(noTable) db.SelectOneStmt { return db.SelectOneStmt{Select: []string{"a"}} })
			return err
		},
		"update": func(ctx context.Context, d *sql.DB) error {
			_, err := db.ExecStmt[noTable](ctx, d, func(noTable) db.UpdateStmt { return db.UpdateStmt{} })
			return err
		},
		"delete": func(ctx context.Context, d *sql.DB) error {
			_, err := db.ExecStmt[noTable](ctx, d, func(noTable) db.DeleteStmt { return db.DeleteStmt{} })
			return err
		},
	}
	f.And, f.Or = db.And, db.Or
	f.Acquire = func() sequel.Stmt { return db.AcquireStmt() }
	f.Release = func(s sequel.Stmt) { db.ReleaseStmt(s.(*db.SqlStmt)) }
REGS
}

var _ = m.Anchor
