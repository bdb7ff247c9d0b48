// Package rt drives generated code: the glue written for every flavour
// registers adapters here, and the property monitors run workloads through
// them against the instrumented engine.
package rt

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"sync"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/minisql"
	"verif/harness/spec"
)

// ColOps are the typed operators of one column accessor, untyped.
type ColOps struct {
	Go                                    string
	Name                                  func() string
	Value                                 func(m any) any
	Convert                               func(v any) (any, bool)
	Eq, Ne, Gt, Ge, Lt, Le, Like, NotLike func(v any) sequel.WhereClause
	Between, NotBetween                   func(a, b any) sequel.WhereClause
	In, NotIn                             func(vs []any) sequel.WhereClause
	IsNull, IsNotNull                     func() sequel.WhereClause
	Set                                   func(v any) sequel.SetClause
	Asc, Desc                             func() sequel.OrderByClause
	// SQL is for the column with an SQL value function.
	SQL *ColOps
}

// via is the column itself or, now and then, with an SQL value function.
func (o *ColOps) via(r *rand.Rand) *ColOps {
	if o.SQL != nil && r.Intn(5) == 0 {
		return o.SQL
	}
	return o
}

// Upsert are the options of an upsert.
type Upsert struct {
	Override bool
	Omit     []string
	Dup      []string
	Perm     int // how the options are given, on PostgreSQL
}

// Select, Page, Update and Delete are the statement shapes.
type Select struct {
	Cols    []string
	From    string
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	GroupBy []string
	Offset  uint64
	Limit   uint16
}

type Page struct {
	Back    bool
	Cursor  any // *M or nil
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
	Reuse   any  // pager to reuse, as returned by NewPager
	Twice   bool // range over the same iterator again, after yielding Again
}

// Again separates the two passes over an iterator.
var Again = errors.New("again")

type Exec struct {
	Table   string
	Set     []sequel.SetClause
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

// Adapter is one model of one flavour with every helper that applies to it.
type Adapter struct {
	F     *Flavour
	M     *spec.Model
	Type  reflect.Type // M
	Ops   []*ColOps    // by column
	extra map[string]any
	tap   func(sql string) // sees every statement of the model's worlds

	InsertOne      func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Insert         func(ctx context.Context, db *sql.DB, ms any) (sql.Result, error)
	UpsertOne      func(ctx context.Context, db *sql.DB, m any, o Upsert) (sql.Result, error)
	Upsert         func(ctx context.Context, db *sql.DB, ms any, o Upsert) (sql.Result, error)
	Find, findTx   func(ctx context.Context, db *sql.DB, m any) error
	Update, Delete func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Lock           func(ctx context.Context, tx *sql.Tx, m any, mode string) error
	Query          func(ctx context.Context, db *sql.DB, s Select) (any, error)
	QueryOne       func(ctx context.Context, db *sql.DB, s Select) (any, error)
	ExecUpdate     func(ctx context.Context, db *sql.DB, e Exec) (sql.Result, error)
	ExecDelete     func(ctx context.Context, db *sql.DB, e Exec) (sql.Result, error)
	NewPager       func(p Page) any
	Paginate       func(ctx context.Context, db *sql.DB, p Page, yield func(ms any, err error) bool)
}

// Flavour is one generated package pair.
type Flavour struct {
	Name    string
	Conf    spec.Conf
	D       minisql.Dialect
	Models  []*Adapter
	desc    map[string]*spec.Model
	And, Or func(...sequel.WhereClause) sequel.WhereClause
	Acquire func() sequel.Stmt
	Release func(sequel.Stmt)
	// NoTable makes calls for a type without a table, each refused.
	NoTable map[string]func(context.Context, *sql.DB) error
}

// Desc is what the orchestrator tells the glue about a flavour.
type Desc struct {
	Name   string
	Conf   spec.Conf
	Models []*spec.Model
}

var Flavours []*Flavour

func NewFlavour(js string) *Flavour {
	var d Desc
	if err := json.Unmarshal([]byte(js), &d); err != nil {
		panic(err)
	}
	f := &Flavour{Name: d.Name, Conf: d.Conf, D: minisql.ParseDialect(d.Conf.Dialect), desc: map[string]*spec.Model{}}
	for _, m := range d.Models {
		f.desc[m.Go] = m
	}
	Flavours = append(Flavours, f)
	return f
}

// Add registers a model; ops are in column order.
func (f *Flavour) Add(name string, a *Adapter, ops ...*ColOps) {
	a.F, a.M, a.Ops = f, f.desc[name], ops
	if a.M == nil {
		panic("no descriptor for " + name)
	}
	f.Models = append(f.Models, a)
}

func (a *Adapter) String() string { return a.F.Name + "." + a.M.Go }

// New allocates a model with every embedded pointer allocated.
func (a *Adapter) New() any {
	v := reflect.New(a.Type)
	Alloc(v.Elem())
	return v.Interface()
}

// Zero allocates an untouched model.
func (a *Adapter) Zero() any { return reflect.New(a.Type).Interface() }

// Alloc allocates the embedded pointers of a struct, what they point to is copied.
func Alloc(v reflect.Value) { alloc(v, nil) }

// held are the models whose columns the operators are given, *M by M.
var held sync.Map

// Hold has the operators given the columns of m, or of an empty model.
func (a *Adapter) Hold(m any) {
	if m == nil {
		held.Delete(a.Type)
	} else {
		held.Store(a.Type, m)
	}
}

func alloc(v reflect.Value, up []reflect.Type) {
	t := v.Type()
	up = append(up, t)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.Anonymous {
			continue
		}
		fv := v.Field(i)
		if fv.Kind() == reflect.Pointer && fv.Type().Elem().Kind() == reflect.Struct && fv.CanSet() {
			if slices.Contains(up, fv.Type().Elem()) {
				continue
			}
			np := reflect.New(fv.Type().Elem())
			if !fv.IsNil() {
				np.Elem().Set(fv.Elem())
			}
			fv.Set(np)
			fv = fv.Elem()
		}
		if fv.Kind() == reflect.Struct {
			alloc(fv, up)
		}
	}
}

// Alloced returns a value of T with embedded pointers allocated, for glue.
func Alloced[T any]() T {
	var v T
	if m, ok := held.Load(reflect.TypeFor[T]()); ok {
		v = *m.(*T)
	}
	rv := reflect.ValueOf(&v).Elem()
	if rv.Kind() == reflect.Struct {
		Alloc(rv)
	}
	return v
}

// Field finds a column's field; ok is false behind a nil embedded pointer.
func Field(m any, c *spec.Col) (v reflect.Value, ok bool) {
	v = reflect.ValueOf(m)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	for _, p := range c.Path {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		v = v.FieldByName(p)
		if !v.IsValid() {
			panic(fmt.Sprintf("harness: no field %v", c.Path))
		}
	}
	return v, true
}

// Slice makes a []M from *M values.
func (a *Adapter) Slice(ms ...any) any {
	s := reflect.MakeSlice(reflect.SliceOf(a.Type), 0, len(ms))
	for _, m := range ms {
		s = reflect.Append(s, reflect.ValueOf(m).Elem())
	}
	return s.Interface()
}

// Elems lists pointers to the elements of a []M.
func (a *Adapter) Elems(s any) []any {
	v := reflect.ValueOf(s)
	var out []any
	if !v.IsValid() || v.Kind() != reflect.Slice {
		return nil
	}
	for i := 0; i < v.Len(); i++ {
		out = append(out, v.Index(i).Addr().Interface())
	}
	return out
}

// CopyOf copies a model and everything its pointers reach directly.
func (a *Adapter) CopyOf(m any) any {
	n := reflect.New(a.Type)
	n.Elem().Set(reflect.ValueOf(m).Elem())
	unshare(n.Elem())
	return n.Interface()
}

func unshare(v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.CanSet() && !f.IsNil() {
			p := reflect.New(f.Type().Elem())
			p.Elem().Set(f.Elem())
			f.Set(p)
			f = p.Elem()
			if !t.Field(i).Anonymous {
				continue
			}
		}
		if t.Field(i).Anonymous && f.Kind() == reflect.Struct {
			unshare(f)
		}
	}
}
