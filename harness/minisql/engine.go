package minisql

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Value is a stored value: nil, int64, uint64 (above MaxInt64), float64, bool,
// string, Blob, time.Time or Geo.
type Value any

// Blob is an immutable byte string.
type Blob string

// Geo is the opaque internal form of a KGeo column: only a SQL function can
// produce it (GEOIN) or turn it into text (GEOOUT).
type Geo string

type Kind int

const (
	KInt Kind = iota
	KUint
	KFloat
	KBool
	KText
	KBlob
	KTime
	KJSON
	KArray
	KGeo
	KAny // unknown kind: parameter or literal
)

func (k Kind) String() string {
	return [...]string{"int", "uint", "float", "bool", "text", "blob", "time", "json", "array", "geo", "any"}[k]
}

type Col struct {
	Name      string
	Kind      Kind
	Auto      bool
	NotNull   bool
	F32       bool
	Default   func(n int64) Value // n counts rows ever inserted
	Generated bool                // GENERATED ALWAYS: writing it is an error
}

type Table struct {
	Name    string
	Cols    []Col
	PK      []string
	Uniques [][]string
	Rows    []Row

	nextAuto int64
	seq      int64
}

type Row []Value

func (t *Table) col(d Dialect, name string, quoted bool) int {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return i
		}
	}
	if d != Postgres {
		for i := range t.Cols {
			if strings.EqualFold(t.Cols[i].Name, name) {
				return i
			}
		}
	}
	return -1
}

// Clone copies the table and its rows.
func (t *Table) Clone() *Table {
	c := *t
	c.Rows = make([]Row, len(t.Rows))
	for i, r := range t.Rows {
		c.Rows[i] = append(Row(nil), r...)
	}
	return &c
}

// ColIndex finds a column by its exact name.
func (t *Table) ColIndex(name string) int {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return i
		}
	}
	return -1
}

var ErrDuplicate = errors.New("minisql: duplicate key")

func execerr(f string, a ...any) error { return fmt.Errorf("minisql: "+f, a...) }

// Coerce converts v to what a column of kind k stores, or fails where a
// strict database would.
func Coerce(k Kind, f32 bool, v Value) (Value, error) {
	if v == nil {
		return nil, nil
	}
	switch k {
	case KInt:
		switch x := v.(type) {
		case int64:
			return x, nil
		case uint64:
			return x, nil
		}
	case KUint:
		switch x := v.(type) {
		case int64:
			return x, nil
		case uint64:
			if x <= math.MaxInt64 {
				return int64(x), nil
			}
			return x, nil
		}
	case KFloat:
		var f float64
		switch x := v.(type) {
		case float64:
			f = x
		case int64:
			f = float64(x)
		case uint64:
			f = float64(x)
		default:
			return nil, execerr("%T value for a %s column", v, k)
		}
		if f32 {
			g := float32(f)
			if math.IsInf(float64(g), 0) && !math.IsInf(f, 0) {
				return nil, execerr("value %v out of range for real", f)
			}
			return float64(g), nil
		}
		return f, nil
	case KBool:
		switch x := v.(type) {
		case bool:
			return x, nil
		case int64:
			if x == 0 || x == 1 {
				return x == 1, nil
			}
		}
	case KText, KJSON, KArray:
		var s string
		switch x := v.(type) {
		case string:
			s = x
		case Blob:
			s = string(x)
		default:
			return nil, execerr("%T value for a %s column", v, k)
		}
		if !utf8.ValidString(s) {
			return nil, execerr("invalid UTF-8 for a %s column", k)
		}
		if k == KJSON && !json.Valid([]byte(s)) {
			return nil, execerr("invalid JSON %.200q", s)
		}
		if k == KArray {
			if err := checkArray(s); err != nil {
				return nil, err
			}
		}
		return s, nil
	case KBlob:
		switch x := v.(type) {
		case string:
			return Blob(x), nil
		case Blob:
			return x, nil
		}
	case KTime:
		if x, ok := v.(time.Time); ok {
			return x.UTC().Truncate(time.Microsecond), nil
		}
	case KGeo:
		if x, ok := v.(Geo); ok {
			return x, nil
		}
	case KAny:
		return v, nil
	}
	return nil, execerr("%T value for a %s column", v, k)
}

// checkArray accepts one-dimensional PostgreSQL array literals.
func checkArray(s string) error {
	t := strings.TrimSpace(s)
	if len(t) < 2 || t[0] != '{' || t[len(t)-1] != '}' {
		return execerr("malformed array literal %.200q", s)
	}
	in := t[1 : len(t)-1]
	q := false
	for i := 0; i < len(in); i++ {
		switch c := in[i]; {
		case c == '\\':
			i++
			if i >= len(in) {
				return execerr("malformed array literal %.200q", s)
			}
		case c == '"':
			q = !q
		case !q && (c == '{' || c == '}'):
			return execerr("multi-dimensional or malformed array literal %.200q", s)
		}
	}
	if q {
		return execerr("malformed array literal %.200q", s)
	}
	return nil
}

// Compare orders two non-NULL values of the same kind.
func Compare(a, b Value) (int, error) {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return cmp(x, y), nil
		case uint64:
			if x < 0 || uint64(x) < y {
				return -1, nil
			}
			return cmp(uint64(x), y), nil
		case float64:
			return cmp(float64(x), y), nil
		case bool:
			return Compare(x, b2i(y))
		}
	case uint64:
		switch y := b.(type) {
		case uint64:
			return cmp(x, y), nil
		case int64:
			c, err := Compare(y, x)
			return -c, err
		case float64:
			return cmp(float64(x), y), nil
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return cmp(x, y), nil
		case int64:
			return cmp(x, float64(y)), nil
		case uint64:
			return cmp(x, float64(y)), nil
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return cmp(b2i(x), b2i(y)), nil
		case int64:
			return cmp(b2i(x), y), nil
		}
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y), nil
		case Blob:
			return strings.Compare(x, string(y)), nil
		}
	case Blob:
		switch y := b.(type) {
		case Blob:
			return strings.Compare(string(x), string(y)), nil
		case string:
			return strings.Compare(string(x), y), nil
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			return x.Compare(y), nil
		}
	case Geo:
		if y, ok := b.(Geo); ok {
			return strings.Compare(string(x), string(y)), nil
		}
	}
	return 0, execerr("cannot compare %T with %T", a, b)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func cmp[T int64 | uint64 | float64](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// Equal compares two stored values, NULL being equal to NULL.
func Equal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok && math.IsNaN(x) && math.IsNaN(y) {
			return true
		}
	}
	c, err := Compare(a, b)
	return err == nil && c == 0
}

// Like matches SQL LIKE with % and _ and no escape character.
func Like(s, pat string) bool {
	sr, pr := []rune(s), []rune(pat)
	var m func(i, j int) bool
	m = func(i, j int) bool {
		for j < len(pr) {
			switch pr[j] {
			case '%':
				for k := i; k <= len(sr); k++ {
					if m(k, j+1) {
						return true
					}
				}
				return false
			case '_':
				if i >= len(sr) {
					return false
				}
			default:
				if i >= len(sr) || sr[i] != pr[j] {
					return false
				}
			}
			i++
			j++
		}
		return i == len(sr)
	}
	return m(0, 0)
}

// Func is a SQL function available in statements.
type Func struct {
	NArgs int
	Out   Kind
	F     func(a []Value) (Value, error)
}

type env struct {
	d    Dialect
	t    *Table
	row  Row
	excl Row
	args []Value
	fns  map[string]Func
	kind string // of the statement
	db   string
	subs map[*Stmt]*Result
	last *int64 // set by LAST_INSERT_ID(expr)
}

// sub runs a subquery, which never refers to the outer row, once.
func (e *env) sub(st *Stmt) (*Result, error) {
	if r, ok := e.subs[st]; ok {
		return r, nil
	}
	if st.DB != e.db || st.Table != e.t.Name && !(e.d == SQLite && strings.EqualFold(st.Table, e.t.Name)) {
		return nil, execerr("subquery on another table %q", st.Table)
	}
	if e.d == MySQL && e.kind != "select" {
		return nil, execerr("you can't specify target table %q for update in FROM clause", st.Table)
	}
	in := &env{d: e.d, t: e.t, args: e.args, fns: e.fns, kind: "select", db: e.db}
	res := &Result{}
	if err := e.t.selectRows(st, in, res); err != nil {
		return nil, err
	}
	if e.subs == nil {
		e.subs = map[*Stmt]*Result{}
	}
	e.subs[st] = res
	return res, nil
}

// rowid is the position of the row in the table.
func (e *env) rowid() Value {
	for i, r := range e.t.Rows {
		if len(r) > 0 && len(e.row) > 0 && &r[0] == &e.row[0] {
			return int64(i + 1)
		}
	}
	return nil
}

// eval returns a value and its kind; tri-state booleans are nil/true/false.
func (e *env) eval(x Expr) (Value, Kind, error) {
	switch x := x.(type) {
	case ECol:
		if x.Table != "" && x.Table != e.t.Name && !(e.d != Postgres && strings.EqualFold(x.Table, e.t.Name)) {
			return nil, 0, execerr("unknown table %q", x.Table)
		}
		i := e.t.col(e.d, x.Name, x.Quoted)
		if i < 0 && e.d == SQLite && strings.EqualFold(x.Name, "rowid") {
			return e.rowid(), KInt, nil
		}
		if i < 0 {
			return nil, 0, execerr("unknown column %q in table %q", x.Name, e.t.Name)
		}
		if e.row == nil {
			return nil, 0, execerr("column %q not allowed here", x.Name)
		}
		return e.row[i], e.t.Cols[i].Kind, nil
	case EExcluded:
		i := e.t.col(e.d, x.Name, true)
		if i < 0 {
			return nil, 0, execerr("unknown column %q in table %q", x.Name, e.t.Name)
		}
		return e.excl[i], e.t.Cols[i].Kind, nil
	case EParam:
		if x.Idx >= len(e.args) {
			return nil, 0, execerr("missing argument %d", x.Idx+1)
		}
		return e.args[x.Idx], KAny, nil
	case ELit:
		return x.V, KAny, nil
	case EBin:
		switch x.Op {
		case "AND", "OR":
			l, err := e.cond(x.L)
			if err != nil {
				return nil, 0, err
			}
			r, err := e.cond(x.R)
			if err != nil {
				return nil, 0, err
			}
			if x.Op == "AND" {
				if l == false || r == false {
					return false, KBool, nil
				}
				if l == nil || r == nil {
					return nil, KBool, nil
				}
				return true, KBool, nil
			}
			if l == true || r == true {
				return true, KBool, nil
			}
			if l == nil || r == nil {
				return nil, KBool, nil
			}
			return false, KBool, nil
		}
		if lr, ok := x.L.(ERow); ok {
			rr, ok := x.R.(ERow)
			if !ok || len(lr.Es) != len(rr.Es) {
				return nil, 0, execerr("row value mismatch")
			}
			v, err := e.rowCmp(x.Op, lr, rr)
			return v, KBool, err
		}
		c, null, err := e.cmp2(x.L, x.R)
		if err != nil || null {
			return nil, KBool, err
		}
		return opHolds(x.Op, c), KBool, nil
	case ENot:
		v, err := e.cond(x.E)
		if err != nil || v == nil {
			return nil, KBool, err
		}
		return !v.(bool), KBool, nil
	case EIsNull:
		v, _, err := e.eval(x.E)
		if err != nil {
			return nil, 0, err
		}
		return (v == nil) != x.Not, KBool, nil
	case EIn:
		found, null := false, false
		for _, y := range x.List {
			c, n, err := e.cmp2(x.E, y)
			if err != nil {
				return nil, 0, err
			}
			if n {
				null = true
			} else if c == 0 {
				found = true
			}
		}
		if len(x.List) == 0 {
			if _, _, err := e.eval(x.E); err != nil {
				return nil, 0, err
			}
		}
		if found {
			return !x.Not, KBool, nil
		}
		if null {
			return nil, KBool, nil
		}
		return x.Not, KBool, nil
	case ELike:
		l, lk, err := e.eval(x.E)
		if err != nil {
			return nil, 0, err
		}
		r, _, err := e.eval(x.P)
		if err != nil {
			return nil, 0, err
		}
		if lk != KText && lk != KAny && lk != KBlob {
			return nil, 0, execerr("LIKE on a %s column", lk)
		}
		if l == nil || r == nil {
			return nil, KBool, nil
		}
		ls, ok1 := text(l)
		rs, ok2 := text(r)
		if !ok1 || !ok2 {
			return nil, 0, execerr("LIKE on %T and %T", l, r)
		}
		return Like(ls, rs) != x.Not, KBool, nil
	case EBetween:
		c1, n1, err := e.cmp2(x.E, x.Lo)
		if err != nil {
			return nil, 0, err
		}
		c2, n2, err := e.cmp2(x.E, x.Hi)
		if err != nil {
			return nil, 0, err
		}
		lo, hi := Value(nil), Value(nil)
		if !n1 {
			lo = c1 >= 0
		}
		if !n2 {
			hi = c2 <= 0
		}
		var v Value
		switch {
		case lo == false || hi == false:
			v = false
		case lo == nil || hi == nil:
			return nil, KBool, nil
		default:
			v = true
		}
		return v.(bool) != x.Not, KBool, nil
	case ESub:
		r, err := e.sub(x.St)
		if err != nil {
			return nil, 0, err
		}
		switch len(r.Rows) {
		case 0:
			return nil, r.Kinds[0], nil
		case 1:
			return r.Rows[0][0], r.Kinds[0], nil
		}
		if e.d == SQLite {
			return r.Rows[0][0], r.Kinds[0], nil
		}
		return nil, 0, execerr("subquery returns more than one row")
	case EInSub:
		r, err := e.sub(x.St)
		if err != nil {
			return nil, 0, err
		}
		in := EIn{E: x.E, Not: x.Not}
		for _, row := range r.Rows {
			in.List = append(in.List, ELit{row[0]})
		}
		return e.eval(in)
	case ESame:
		c, null, err := e.cmp2(x.L, x.R)
		if err != nil {
			return nil, 0, err
		}
		same := c == 0
		if null {
			l, _, _ := e.eval(x.L)
			r, _, _ := e.eval(x.R)
			same = l == nil && r == nil
		}
		return same != x.Not, KBool, nil
	case EFunc:
		if e.d == MySQL && x.Name == "last_insert_id" && len(x.Args) == 1 {
			v, k, err := e.eval(x.Args[0])
			if err != nil {
				return nil, 0, err
			}
			if id, ok := v.(int64); ok {
				e.last = &id
			}
			return v, k, nil
		}
		f, ok := e.fns[x.Name]
		if !ok {
			return nil, 0, execerr("unknown function %q", x.Name)
		}
		if len(x.Args) != f.NArgs {
			return nil, 0, execerr("function %q takes %d arguments", x.Name, f.NArgs)
		}
		var a []Value
		for _, y := range x.Args {
			v, _, err := e.eval(y)
			if err != nil {
				return nil, 0, err
			}
			a = append(a, v)
		}
		v, err := f.F(a)
		return v, f.Out, err
	case ERow:
		return nil, 0, execerr("row value where a scalar is needed")
	}
	return nil, 0, execerr("bad expression %T", x)
}

func text(v Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case Blob:
		return string(x), true
	}
	return "", false
}

func opHolds(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	}
	return c >= 0
}

func (e *env) cond(x Expr) (Value, error) {
	v, _, err := e.eval(x)
	if err != nil {
		return nil, err
	}
	switch y := v.(type) {
	case nil:
		return nil, nil
	case bool:
		return y, nil
	case int64:
		if e.d != Postgres {
			return y != 0, nil
		}
	}
	return nil, execerr("condition is a %T, not a boolean", v)
}

// cmp2 compares two scalar expressions, coercing parameters to the column kind.
func (e *env) cmp2(l, r Expr) (int, bool, error) {
	a, ka, err := e.eval(l)
	if err != nil {
		return 0, false, err
	}
	b, kb, err := e.eval(r)
	if err != nil {
		return 0, false, err
	}
	if ka != KAny && kb == KAny {
		if b, err = coerceCmp(ka, b); err != nil {
			return 0, false, err
		}
	} else if kb != KAny && ka == KAny {
		if a, err = coerceCmp(kb, a); err != nil {
			return 0, false, err
		}
	}
	if (ka == KJSON || kb == KJSON) && e.d == Postgres {
		return 0, false, execerr("operator does not exist: json = json")
	}
	if a == nil || b == nil {
		return 0, true, nil
	}
	c, err := Compare(a, b)
	return c, false, err
}

func coerceCmp(k Kind, v Value) (Value, error) {
	switch k {
	case KInt, KUint:
		if f, ok := v.(float64); ok {
			return f, nil
		}
		if f, ok := v.(bool); ok {
			return b2i(f), nil
		}
	}
	return Coerce(k, false, v)
}

// rowCmp compares row values the SQL way: for = and <> all elements count, for
// the orderings the first unequal (or NULL) pair decides.
func (e *env) rowCmp(op string, l, r ERow) (Value, error) {
	null, differ := false, false
	for i := range l.Es {
		c, n, err := e.cmp2(l.Es[i], r.Es[i])
		if err != nil {
			return nil, err
		}
		switch op {
		case "=", "<>":
			if n {
				null = true
			} else if c != 0 {
				differ = true
			}
		default:
			if n {
				return nil, nil
			}
			if c != 0 {
				strict := op[:1]
				return opHolds(strict, c), nil
			}
		}
	}
	switch op {
	case "=", "<>":
		if differ {
			return op == "<>", nil
		}
		if null {
			return nil, nil
		}
		return op == "=", nil
	case "<=", ">=":
		return true, nil
	}
	return false, nil
}

// result of executing a statement.
type Result struct {
	Cols     []string
	Kinds    []Kind
	F32      []bool
	Rows     []Row
	LastID   int64
	HasID    bool
	Affected int64
}

func (t *Table) conflict(row Row, cols []string, skip int) int {
	for i, r := range t.Rows {
		if i == skip {
			continue
		}
		same := true
		for _, c := range cols {
			k := t.ColIndex(c)
			if row[k] == nil || r[k] == nil || !Equal(row[k], r[k]) {
				same = false
				break
			}
		}
		if same {
			return i
		}
	}
	return -1
}

func (t *Table) keys() [][]string {
	var ks [][]string
	if len(t.PK) > 0 {
		ks = append(ks, t.PK)
	}
	return append(ks, t.Uniques...)
}

func (t *Table) check(row Row, skip int) (int, []string) {
	for _, k := range t.keys() {
		if i := t.conflict(row, k, skip); i >= 0 {
			return i, k
		}
	}
	return -1, nil
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (t *Table) checkNulls(row Row) error {
	for i, c := range t.Cols {
		if row[i] == nil {
			if c.NotNull {
				return execerr("column %q cannot be null", c.Name)
			}
			for _, k := range t.PK {
				if k == c.Name {
					return execerr("primary key column %q cannot be null", c.Name)
				}
			}
		}
	}
	return nil
}

// Exec runs a parsed statement on the table. The table is changed in place;
// on error the caller must restore it.
func (t *Table) Exec(d Dialect, st *Stmt, args []Value, fns map[string]Func, lastID int64) (*Result, error) {
	e := &env{d: d, t: t, args: args, fns: fns, kind: st.Kind, db: st.DB}
	res := &Result{LastID: lastID, HasID: d != Postgres}
	switch st.Kind {
	case "insert":
		return res, t.insert(d, st, e, res)
	case "select":
		return res, t.selectRows(st, e, res)
	case "update":
		return res, t.update(d, st, e, res)
	case "delete":
		return res, t.del(st, e, res)
	}
	return nil, execerr("bad statement")
}

func (t *Table) colIdx(d Dialect, names []string) ([]int, error) {
	seen := map[int]bool{}
	out := make([]int, len(names))
	for i, n := range names {
		k := t.col(d, n, true)
		if k < 0 {
			return nil, execerr("unknown column %q in table %q", n, t.Name)
		}
		if seen[k] {
			return nil, execerr("column %q specified more than once", n)
		}
		seen[k] = true
		out[i] = k
	}
	return out, nil
}

func (t *Table) insert(d Dialect, st *Stmt, e *env, res *Result) error {
	idx, err := t.colIdx(d, st.Cols)
	if err != nil {
		return err
	}
	var target []string
	if len(st.Target) > 0 {
		ti, err := t.colIdx(d, st.Target)
		if err != nil {
			return err
		}
		for _, i := range ti {
			target = append(target, t.Cols[i].Name)
		}
		ok := false
		for _, k := range t.keys() {
			if sameSet(k, target) {
				ok = true
			}
		}
		if !ok {
			return execerr("there is no unique constraint matching ON CONFLICT (%s)", strings.Join(target, ","))
		}
	}
	setIdx := make([]int, len(st.Sets))
	for i, s := range st.Sets {
		if setIdx[i] = t.col(d, s.Col, true); setIdx[i] < 0 {
			return execerr("unknown column %q in table %q", s.Col, t.Name)
		}
		if t.Cols[setIdx[i]].Generated {
			return execerr("column %q is generated and cannot be written", s.Col)
		}
		if x, ok := s.E.(EExcluded); ok && t.col(d, x.Name, true) < 0 {
			return execerr("unknown column %q in table %q", x.Name, t.Name)
		}
	}
	// the returning list must be valid even when no row comes back
	if len(st.Sel) > 0 {
		if err := t.describe(st, e, res); err != nil {
			return err
		}
	}
	firstAuto := int64(0)
	hasAuto := false
	touched := map[int]bool{}
	for _, exprs := range st.Rows {
		row := make(Row, len(t.Cols))
		given := make([]bool, len(t.Cols))
		for j, x := range exprs {
			k := idx[j]
			if _, ok := x.(EDefault); ok {
				continue
			}
			if t.Cols[k].Generated {
				return execerr("column %q is generated and cannot be written", t.Cols[k].Name)
			}
			v, _, err := e.eval(x)
			if err != nil {
				return err
			}
			if row[k], err = Coerce(t.Cols[k].Kind, t.Cols[k].F32, v); err != nil {
				return fmt.Errorf("column %q: %w", t.Cols[k].Name, err)
			}
			given[k] = true
		}
		t.seq++
		auto := int64(0)
		for k, c := range t.Cols {
			if c.Auto && (!given[k] || (row[k] == nil && d != Postgres) || (d == MySQL && Equal(row[k], int64(0)))) {
				t.nextAuto++
				auto = t.nextAuto
				row[k] = auto
				given[k] = true
			} else if c.Auto {
				if v, ok := row[k].(int64); ok && v > t.nextAuto && d != Postgres {
					t.nextAuto = v
				}
			}
			if !given[k] && c.Default != nil {
				row[k] = c.Default(t.seq)
			}
		}
		if err := t.checkNulls(row); err != nil {
			return err
		}
		ci, key := t.check(row, -1)
		if ci >= 0 {
			switch {
			case st.Ignore:
				continue
			case st.OnConf && d == MySQL:
			case st.OnConf && (len(target) == 0 || sameSet(target, key)):
				if st.Nothing {
					continue
				}
			default:
				// another constraint may be the conflict target
				if st.OnConf {
					if j := t.conflict(row, target, -1); j >= 0 {
						ci = j
						if st.Nothing {
							continue
						}
						break
					}
				}
				return fmt.Errorf("%w (%s)", ErrDuplicate, strings.Join(key, ","))
			}
			// update the existing row
			if d == Postgres && touched[ci] {
				return execerr("ON CONFLICT DO UPDATE command cannot affect row a second time")
			}
			old := t.Rows[ci]
			if st.Where != nil {
				e.row, e.excl = old, row
				c, err := e.cond(st.Where)
				e.row = nil
				if err != nil {
					return err
				}
				if c != true {
					continue
				}
			}
			nw := append(Row(nil), old...)
			for i, s := range st.Sets {
				e.row, e.excl = nw, row
				if d != MySQL {
					e.row = old
				}
				v, _, err := e.eval(s.E)
				e.row = nil
				if err != nil {
					return err
				}
				c := t.Cols[setIdx[i]]
				if nw[setIdx[i]], err = Coerce(c.Kind, c.F32, v); err != nil {
					return err
				}
			}
			if err := t.checkNulls(nw); err != nil {
				return err
			}
			if j, k := t.check(nw, ci); j >= 0 {
				return fmt.Errorf("%w (%s)", ErrDuplicate, strings.Join(k, ","))
			}
			changed := false
			for i := range nw {
				if !Equal(nw[i], old[i]) {
					changed = true
				}
			}
			t.Rows[ci] = nw
			touched[ci] = true
			if d == MySQL {
				if changed {
					res.Affected += 2
				}
			} else {
				res.Affected++
			}
			if len(st.Sel) > 0 {
				if err := t.project(st, e, nw, res); err != nil {
					return err
				}
			}
			continue
		}
		t.Rows = append(t.Rows, row)
		touched[len(t.Rows)-1] = true
		res.Affected++
		if auto != 0 {
			if !hasAuto || d == SQLite {
				firstAuto = auto
			}
			hasAuto = true
		} else if d == SQLite {
			for k, c := range t.Cols {
				if c.Auto {
					if v, ok := row[k].(int64); ok {
						firstAuto, hasAuto = v, true
					}
				}
			}
		} else if d == MySQL && !hasAuto && len(st.Rows) == 1 {
			for k, c := range t.Cols {
				if c.Auto {
					if v, ok := row[k].(int64); ok {
						firstAuto, hasAuto = v, true
					}
				}
			}
		}
		if len(st.Sel) > 0 {
			if err := t.project(st, e, row, res); err != nil {
				return err
			}
		}
	}
	if hasAuto {
		res.LastID = firstAuto
	} else if e.last != nil {
		res.LastID = *e.last
	} else if d == MySQL {
		res.LastID = 0
	}
	return nil
}

func isAgg(x Expr) bool {
	f, ok := x.(EFunc)
	if !ok {
		return false
	}
	switch f.Name {
	case "count", "sum", "max", "min":
		return true
	}
	return false
}

// describe fills the result columns.
func (t *Table) describe(st *Stmt, e *env, res *Result) error {
	probe := make(Row, len(t.Cols))
	for _, it := range st.Sel {
		if _, ok := it.E.(EStar); ok {
			for _, c := range t.Cols {
				res.Cols = append(res.Cols, c.Name)
				res.Kinds = append(res.Kinds, c.Kind)
				res.F32 = append(res.F32, c.F32)
			}
			continue
		}
		name, kind, f32 := it.Text, KAny, false
		if c, ok := it.E.(ECol); ok {
			i := t.col(e.d, c.Name, c.Quoted)
			if i < 0 && e.d == SQLite && strings.EqualFold(c.Name, "rowid") {
				res.Cols, res.Kinds, res.F32 = append(res.Cols, "rowid"), append(res.Kinds, KInt), append(res.F32, false)
				continue
			}
			if i < 0 {
				return execerr("unknown column %q in table %q", c.Name, t.Name)
			}
			kind, f32 = t.Cols[i].Kind, t.Cols[i].F32
			if it.Text == "" || strings.ContainsAny(it.Text, "`\"") {
				name = t.Cols[i].Name
			}
		} else if isAgg(it.E) {
			kind = KInt
			f := it.E.(EFunc)
			if !f.Star && len(f.Args) == 1 {
				e.row = probe
				_, k, err := e.eval(f.Args[0])
				e.row = nil
				if err != nil {
					return err
				}
				if f.Name != "count" {
					kind = k
				}
			}
		} else if f, ok := it.E.(EFunc); ok {
			fn, ok := e.fns[f.Name]
			if !ok {
				return execerr("unknown function %q", f.Name)
			}
			kind = fn.Out
			e.row = probe
			for _, a := range f.Args {
				if _, _, err := e.eval(a); err != nil {
					e.row = nil
					return err
				}
			}
			e.row = nil
		} else {
			e.row = probe
			_, k, err := e.eval(it.E)
			e.row = nil
			if err != nil {
				return err
			}
			kind = k
		}
		res.Cols = append(res.Cols, name)
		res.Kinds = append(res.Kinds, kind)
		res.F32 = append(res.F32, f32)
	}
	return nil
}

func (t *Table) project(st *Stmt, e *env, row Row, res *Result) error {
	var out Row
	for _, it := range st.Sel {
		if _, ok := it.E.(EStar); ok {
			out = append(out, row...)
			continue
		}
		e.row = row
		v, _, err := e.eval(it.E)
		e.row = nil
		if err != nil {
			return err
		}
		out = append(out, v)
	}
	res.Rows = append(res.Rows, out)
	return nil
}

func (t *Table) match(where Expr, e *env) ([]int, error) {
	if where != nil { // names are resolved even on an empty table
		e.row = make(Row, len(t.Cols))
		_, err := e.cond(where)
		e.row = nil
		if err != nil {
			return nil, err
		}
	}
	var out []int
	for i, r := range t.Rows {
		if where == nil {
			out = append(out, i)
			continue
		}
		e.row = r
		v, err := e.cond(where)
		e.row = nil
		if err != nil {
			return nil, err
		}
		if v == true {
			out = append(out, i)
		}
	}
	return out, nil
}

// NullsFirst reports where NULL sorts for ascending order.
func NullsFirst(d Dialect) bool { return d != Postgres }

type sortKey struct {
	vals []Value
	desc []bool
}

func (t *Table) sortKeys(order []OrderItem, e *env, row Row) (sortKey, error) {
	var k sortKey
	for _, o := range order {
		es := []Expr{o.E}
		if r, ok := o.E.(ERow); ok {
			es = r.Es
		}
		for _, x := range es {
			e.row = row
			v, kind, err := e.eval(x)
			e.row = nil
			if err != nil {
				return k, err
			}
			if kind == KJSON && e.d == Postgres {
				return k, execerr("could not identify an ordering operator for type json")
			}
			k.vals = append(k.vals, v)
			k.desc = append(k.desc, o.Desc)
		}
	}
	return k, nil
}

func lessKeys(d Dialect, a, b sortKey) bool {
	for i := range a.vals {
		x, y := a.vals[i], b.vals[i]
		c := 0
		switch {
		case x == nil && y == nil:
		case x == nil:
			c = -1
			if !NullsFirst(d) {
				c = 1
			}
		case y == nil:
			c = 1
			if !NullsFirst(d) {
				c = -1
			}
		default:
			c, _ = Compare(x, y)
		}
		if a.desc[i] {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func (t *Table) orderRows(st *Stmt, e *env, idx []int) ([]int, error) {
	if len(st.Order) == 0 {
		// no order was asked for: give an inconvenient but fixed one
		n := len(idx)
		out := make([]int, 0, n)
		for i := 0; i < n; i += 2 {
			out = append(out, idx[i])
		}
		for i := 1; i < n; i += 2 {
			out = append(out, idx[i])
		}
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		return out, nil
	}
	keys := make([]sortKey, len(idx))
	if len(idx) == 0 {
		if _, err := t.sortKeys(st.Order, e, make(Row, len(t.Cols))); err != nil {
			return nil, err
		}
	}
	for i, r := range idx {
		k, err := t.sortKeys(st.Order, e, t.Rows[r])
		if err != nil {
			return nil, err
		}
		keys[i] = k
	}
	ord := make([]int, len(idx))
	for i := range ord {
		ord[i] = i
	}
	// ties come out in reverse storage order
	for i, j := 0, len(ord)-1; i < j; i, j = i+1, j-1 {
		ord[i], ord[j] = ord[j], ord[i]
	}
	sort.SliceStable(ord, func(a, b int) bool { return lessKeys(e.d, keys[ord[a]], keys[ord[b]]) })
	out := make([]int, len(idx))
	for i, o := range ord {
		out[i] = idx[o]
	}
	return out, nil
}

func window(st *Stmt, n int) (int, int) {
	lo, hi := 0, n
	if st.Offset != nil {
		if *st.Offset >= int64(n) {
			lo = n
		} else if *st.Offset > 0 {
			lo = int(*st.Offset)
		}
	}
	if st.Limit != nil && *st.Limit >= 0 && *st.Limit < int64(hi-lo) {
		hi = lo + int(*st.Limit)
	}
	return lo, hi
}

func (t *Table) selectRows(st *Stmt, e *env, res *Result) error {
	if err := t.describe(st, e, res); err != nil {
		return err
	}
	idx, err := t.match(st.Where, e)
	if err != nil {
		return err
	}
	agg := false
	for _, it := range st.Sel {
		if isAgg(it.E) {
			agg = true
		}
	}
	if len(st.Group) > 0 || agg {
		return t.group(st, e, idx, res)
	}
	if idx, err = t.orderRows(st, e, idx); err != nil {
		return err
	}
	lo, hi := window(st, len(idx))
	for _, i := range idx[lo:hi] {
		if err := t.project(st, e, t.Rows[i], res); err != nil {
			return err
		}
	}
	res.Affected = int64(len(res.Rows))
	return nil
}

func (t *Table) group(st *Stmt, e *env, idx []int, res *Result) error {
	grouped := map[int]bool{}
	for _, g := range st.Group {
		c, ok := g.(ECol)
		if !ok {
			return execerr("GROUP BY expression not supported")
		}
		i := t.col(e.d, c.Name, c.Quoted)
		if i < 0 {
			return execerr("unknown column %q in table %q", c.Name, t.Name)
		}
		if t.Cols[i].Kind == KJSON && e.d == Postgres {
			return execerr("could not identify an equality operator for type json")
		}
		grouped[i] = true
	}
	pkAll := len(t.PK) > 0
	for _, k := range t.PK {
		if !grouped[t.ColIndex(k)] {
			pkAll = false
		}
	}
	legal := func(x Expr) error {
		if c, ok := x.(ECol); ok {
			if i := t.col(e.d, c.Name, c.Quoted); !pkAll && !grouped[i] && e.d != SQLite {
				return execerr("column %q must appear in GROUP BY", c.Name)
			}
		}
		if _, ok := x.(EStar); ok && !pkAll && e.d != SQLite {
			return execerr("* must be grouped")
		}
		return nil
	}
	for _, it := range st.Sel {
		if err := legal(it.E); err != nil {
			return err
		}
	}
	for _, o := range st.Order {
		if err := legal(o.E); err != nil {
			return err
		}
	}
	var groups [][]int
next:
	for _, i := range idx {
		for gi, g := range groups {
			same := true
			for c := range grouped {
				if !Equal(t.Rows[g[0]][c], t.Rows[i][c]) {
					same = false
				}
			}
			if same {
				groups[gi] = append(g, i)
				continue next
			}
		}
		groups = append(groups, []int{i})
	}
	if len(st.Group) == 0 {
		groups = [][]int{idx}
	}
	type gr struct {
		k   sortKey
		out Row
	}
	var outs []gr
	for _, g := range groups {
		var out Row
		for _, it := range st.Sel {
			if isAgg(it.E) {
				v, err := t.aggregate(it.E.(EFunc), e, g)
				if err != nil {
					return err
				}
				out = append(out, v)
				continue
			}
			if len(g) == 0 {
				out = append(out, nil)
				continue
			}
			if _, ok := it.E.(EStar); ok {
				out = append(out, t.Rows[g[0]]...)
				continue
			}
			e.row = t.Rows[g[0]]
			v, _, err := e.eval(it.E)
			e.row = nil
			if err != nil {
				return err
			}
			out = append(out, v)
		}
		x := gr{out: out}
		if len(g) > 0 {
			k, err := t.sortKeys(st.Order, e, t.Rows[g[0]])
			if err != nil {
				return err
			}
			x.k = k
		}
		outs = append(outs, x)
	}
	sort.SliceStable(outs, func(a, b int) bool { return lessKeys(e.d, outs[a].k, outs[b].k) })
	lo, hi := window(st, len(outs))
	for _, o := range outs[lo:hi] {
		res.Rows = append(res.Rows, o.out)
	}
	return nil
}

func (t *Table) aggregate(f EFunc, e *env, g []int) (Value, error) {
	if f.Star {
		return int64(len(g)), nil
	}
	if len(f.Args) != 1 {
		return nil, execerr("aggregate arguments")
	}
	var acc Value
	n := int64(0)
	for _, i := range g {
		e.row = t.Rows[i]
		v, _, err := e.eval(f.Args[0])
		e.row = nil
		if err != nil {
			return nil, err
		}
		if v == nil {
			continue
		}
		n++
		if acc == nil {
			acc = v
			continue
		}
		c, err := Compare(v, acc)
		if err != nil {
			return nil, err
		}
		switch f.Name {
		case "max":
			if c > 0 {
				acc = v
			}
		case "min":
			if c < 0 {
				acc = v
			}
		case "sum":
			a, ok1 := acc.(int64)
			b, ok2 := v.(int64)
			if !ok1 || !ok2 {
				return nil, execerr("sum of %T", v)
			}
			acc = a + b
		}
	}
	if f.Name == "count" {
		return n, nil
	}
	return acc, nil
}

func (t *Table) update(d Dialect, st *Stmt, e *env, res *Result) error {
	setIdx := make([]int, len(st.Sets))
	for i, s := range st.Sets {
		if setIdx[i] = t.col(d, s.Col, true); setIdx[i] < 0 {
			return execerr("unknown column %q in table %q", s.Col, t.Name)
		}
		if t.Cols[setIdx[i]].Generated {
			return execerr("column %q is generated and cannot be written", s.Col)
		}
		// types are checked even when no row matches
		e.row = make(Row, len(t.Cols))
		v, _, err := e.eval(s.E)
		e.row = nil
		if err != nil {
			return err
		}
		c := t.Cols[setIdx[i]]
		if _, err := Coerce(c.Kind, c.F32, v); err != nil {
			return fmt.Errorf("column %q: %w", c.Name, err)
		}
	}
	idx, err := t.match(st.Where, e)
	if err != nil {
		return err
	}
	if idx, err = t.orderRows(st, e, idx); err != nil {
		return err
	}
	lo, hi := window(st, len(idx))
	for _, i := range idx[lo:hi] {
		old := t.Rows[i]
		nw := append(Row(nil), old...)
		changed := false
		for j, s := range st.Sets {
			e.row = old
			if d == MySQL {
				e.row = nw
			}
			v, _, err := e.eval(s.E)
			e.row = nil
			if err != nil {
				return err
			}
			c := t.Cols[setIdx[j]]
			if nw[setIdx[j]], err = Coerce(c.Kind, c.F32, v); err != nil {
				return fmt.Errorf("column %q: %w", c.Name, err)
			}
		}
		for j := range nw {
			if !Equal(nw[j], old[j]) {
				changed = true
			}
		}
		if err := t.checkNulls(nw); err != nil {
			return err
		}
		if j, k := t.check(nw, i); j >= 0 {
			return fmt.Errorf("%w (%s)", ErrDuplicate, strings.Join(k, ","))
		}
		t.Rows[i] = nw
		if changed || d != MySQL {
			res.Affected++
		}
	}
	return nil
}

func (t *Table) del(st *Stmt, e *env, res *Result) error {
	idx, err := t.match(st.Where, e)
	if err != nil {
		return err
	}
	if idx, err = t.orderRows(st, e, idx); err != nil {
		return err
	}
	lo, hi := window(st, len(idx))
	gone := map[int]bool{}
	for _, i := range idx[lo:hi] {
		gone[i] = true
	}
	var keep []Row
	for i, r := range t.Rows {
		if !gone[i] {
			keep = append(keep, r)
		}
	}
	t.Rows = keep
	res.Affected = int64(len(gone))
	return nil
}

// NormalizeJSON renders a JSON text the way MySQL returns it: one space after
// each comma and colon, object keys sorted by length then bytes.
func NormalizeJSON(s string) string {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v any
	if dec.Decode(&v) != nil {
		return s
	}
	var b bytes.Buffer
	writeJSON(&b, v)
	return b.String()
}

func writeJSON(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if len(keys[i]) != len(keys[j]) {
				return len(keys[i]) < len(keys[j])
			}
			return keys[i] < keys[j]
		})
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSONString(b, k)
			b.WriteString(": ")
			writeJSON(b, x[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, y)
		}
		b.WriteByte(']')
	case string:
		writeJSONString(b, x)
	case json.Number:
		b.WriteString(x.String())
	case bool:
		b.WriteString(strconv.FormatBool(x))
	default:
		b.WriteString("null")
	}
}

func writeJSONString(b *bytes.Buffer, s string) {
	enc := json.NewEncoder(b)
	enc.SetEscapeHTML(false)
	_ = enc.Encode(s)
	b.Truncate(b.Len() - 1)
}
