package minisql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Mode selects how the driver hands values back.
type Mode int

const (
	ModeNative Mode = iota // each kind in its own Go type
	ModeText               // text protocol: everything but times as text
	ModeAlt                // the other spelling: string instead of []byte and so on
	NModes
)

func (m Mode) String() string { return [...]string{"native", "text", "alt"}[m] }

// Call is one statement as the driver received it.
type Call struct {
	Seq   int
	Op    string // exec, query, prepare, begin, commit, rollback
	SQL   string
	Args  []any // copies
	Stmt  *Stmt
	Err   error
	Res   Result
	InTx  bool
	Reads int // rows fetched
	Tag   any // value of the context under TagKey
	sum   string
}

// TagKey is the context key whose value is recorded with every call.
type TagKey struct{}

// Point is a place where a fault can be injected.
type Point struct {
	Name string
	N    int // ordinal in this arming
}

// Fault is what happens at a point.
type Fault struct {
	Err    error // returned at the point
	BadCol int   // at rows.next: 1-based column to replace by an undecodable value
	// Text makes the undecodable value text: what is stored with a character
	// after it, for the kinds whose values have a syntax.
	Text bool
	// Raw columns take any text.
	Raw map[string]bool
	Cancel func()
	// Applied is set when a row was spoilt.
	Applied bool
}

var ErrInjected = errors.New("injected failure")

type DB struct {
	Dialect Dialect
	Mode    Mode
	// Prepared makes the connection refuse direct execution, so that
	// database/sql goes through Prepare.
	Prepared bool
	Funcs    map[string]Func
	DBName   string // name accepted as qualifier
	// Tap is given every statement text.
	Tap  func(sql string)
	Zone *time.Location
	// HighUint accepts uint64 arguments above MaxInt64 as the MySQL driver does.
	HighUint bool
	// Delay is called at every statement and row when set.
	Delay func(what string)
	// OnPoint is asked at every fault point.
	OnPoint func(Point) *Fault
	KeepLog bool
	// Frozen undoes every statement, so that each sees the same content.
	Frozen bool

	mu     sync.Mutex
	tables map[string]*Table
	log    []*Call
	points int
	lastID int64

	OpenRows, OpenStmts, OpenConns, OpenTxs atomic.Int64
	NCalls, NRows                           atomic.Int64
	Misuse                                  atomic.Value // string: protocol misuse seen
}

func New(d Dialect) *DB {
	db := &DB{Dialect: d, tables: map[string]*Table{}, Funcs: map[string]Func{}, KeepLog: true,
		Zone: time.FixedZone("X", 2*3600+1800), HighUint: d == MySQL}
	db.Funcs["geoin"] = Func{1, KGeo, func(a []Value) (Value, error) {
		if a[0] == nil {
			return nil, nil
		}
		s, ok := text(a[0])
		if !ok {
			return nil, execerr("GEOIN of %T", a[0])
		}
		return Geo(s), nil
	}}
	db.Funcs["unveil"] = Func{1, KAny, unveil}
	db.Funcs["geoout"] = Func{1, KText, func(a []Value) (Value, error) {
		if a[0] == nil {
			return nil, nil
		}
		g, ok := a[0].(Geo)
		if !ok {
			return nil, execerr("GEOOUT of %T", a[0])
		}
		return string(g), nil
	}}
	return db
}

func (db *DB) Open() *sql.DB {
	return sql.OpenDB(connector{db})
}

func (db *DB) AddTable(t *Table) {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.tables[t.Name] = t
}

// Table returns the live table; use only when nothing is running.
func (db *DB) Table(name string) *Table { return db.tables[name] }

// Snapshot copies a table's rows.
func (db *DB) Snapshot(name string) []Row {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.tables[name].Clone().Rows
}

// SetRows replaces a table's rows.
func (db *DB) SetRows(name string, rows []Row) {
	db.mu.Lock()
	defer db.mu.Unlock()
	t := db.tables[name]
	t.Rows = nil
	for _, r := range rows {
		t.Rows = append(t.Rows, append(Row(nil), r...))
		for i, c := range t.Cols {
			if v, ok := r[i].(int64); c.Auto && ok && v > t.nextAuto {
				t.nextAuto = v
			}
		}
	}
}

// TakeLog returns and clears the statement log.
func (db *DB) TakeLog() []*Call {
	db.mu.Lock()
	defer db.mu.Unlock()
	l := db.log
	db.log = nil
	return l
}

// ResetPoints restarts the fault point numbering and returns how many were passed.
func (db *DB) ResetPoints() int {
	db.mu.Lock()
	defer db.mu.Unlock()
	n := db.points
	db.points = 0
	return n
}

// Leaks describes what is still open, or "".
func (db *DB) Leaks() string {
	var out []string
	if n := db.OpenRows.Load(); n != 0 {
		out = append(out, fmt.Sprintf("%d result sets", n))
	}
	if n := db.OpenStmts.Load(); n != 0 {
		out = append(out, fmt.Sprintf("%d prepared statements", n))
	}
	if n := db.OpenTxs.Load(); n != 0 {
		out = append(out, fmt.Sprintf("%d transactions", n))
	}
	return strings.Join(out, ", ")
}

func (db *DB) point(name string) *Fault {
	db.mu.Lock()
	n := db.points
	db.points++
	f := db.OnPoint
	db.mu.Unlock()
	if f == nil {
		return nil
	}
	ft := f(Point{name, n})
	if ft != nil && ft.Cancel != nil {
		ft.Cancel()
	}
	return ft
}

func (db *DB) fail(name string) error {
	if f := db.point(name); f != nil {
		return f.Err
	}
	return nil
}

func (db *DB) delay(what string) {
	if db.Delay != nil {
		db.Delay(what)
	}
}

type connector struct{ db *DB }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	if err := c.db.fail("connect"); err != nil {
		return nil, err
	}
	c.db.OpenConns.Add(1)
	return &conn{db: c.db}, nil
}
func (c connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use Open") }

type conn struct {
	db     *DB
	tx     *tx
	busy   *rows
	closed bool
	broken bool
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		c.db.OpenConns.Add(-1)
		if c.tx != nil {
			c.tx.Rollback()
		}
	}
	return nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := c.db.fail("prepare"); err != nil {
		return nil, err
	}
	c.db.delay("prepare")
	st, err := Parse(c.db.Dialect, q)
	if err != nil {
		c.db.record(ctx, "prepare", q, nil, nil, Result{}, err, c.tx != nil)
		return nil, err
	}
	c.db.OpenStmts.Add(1)
	return &stmt{c: c, q: q, n: st.NParams}, nil
}

type stmt struct {
	c      *conn
	q      string
	n      int
	closed bool
}

func (s *stmt) Close() error {
	if !s.closed {
		s.closed = true
		s.c.db.OpenStmts.Add(-1)
	}
	return nil
}
func (s *stmt) NumInput() int { return s.n }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) { return nil, errors.New("not supported") }
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.exec(ctx, s.q, a)
}
func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.query(ctx, s.q, a)
}
func (s *stmt) CheckNamedValue(nv *driver.NamedValue) error { return s.c.CheckNamedValue(nv) }

type tx struct {
	c    *conn
	save map[string]*Table
	done bool
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.db.fail("begin"); err != nil {
		return nil, err
	}
	c.db.mu.Lock()
	defer c.db.mu.Unlock()
	t := &tx{c: c, save: map[string]*Table{}}
	for k, v := range c.db.tables {
		t.save[k] = v.Clone()
	}
	c.tx = t
	c.db.OpenTxs.Add(1)
	return t, nil
}

func (t *tx) Commit() error {
	if t.done {
		return errors.New("transaction done")
	}
	if err := t.c.db.fail("commit"); err != nil {
		t.Rollback()
		return err
	}
	t.done = true
	t.c.tx = nil
	t.c.db.OpenTxs.Add(-1)
	return nil
}

func (t *tx) Rollback() error {
	if t.done {
		return nil
	}
	t.done = true
	t.c.tx = nil
	t.c.db.OpenTxs.Add(-1)
	t.c.db.mu.Lock()
	defer t.c.db.mu.Unlock()
	for k, v := range t.save {
		t.c.db.tables[k] = v
	}
	return nil
}

// CheckNamedValue is the default conversion, plus the large unsigned integers
// the MySQL driver takes.
func (c *conn) CheckNamedValue(nv *driver.NamedValue) error {
	if c.db.HighUint {
		if _, ok := nv.Value.(driver.Valuer); !ok {
			switch x := reflect.ValueOf(nv.Value); x.Kind() {
			case reflect.Uint, reflect.Uint64, reflect.Uintptr:
				if x.Uint() > math.MaxInt64 {
					nv.Value = x.Uint()
					return nil
				}
			}
		}
	}
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err != nil {
		return err
	}
	nv.Value = v
	return nil
}

func (db *DB) record(ctx context.Context, op, q string, args []any, st *Stmt, res Result, err error, inTx bool) *Call {
	db.NCalls.Add(1)
	if db.Tap != nil {
		db.Tap(q)
	}
	if !db.KeepLog {
		return nil
	}
	db.mu.Lock()
	defer db.mu.Unlock()
	c := &Call{Seq: len(db.log), Op: op, SQL: q, Args: args, Stmt: st, Err: err, Res: res, InTx: inTx, Tag: ctx.Value(TagKey{}), sum: strings.Clone(q)}
	db.log = append(db.log, c)
	return c
}

// Mutated reports whether the text the caller handed over changed after the call.
func (c *Call) Mutated() bool { return c.sum != c.SQL }

// Bind converts a driver argument to an engine value.
func Bind(v any) (Value, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case int64, float64, bool, string:
		return x, nil
	case uint64:
		if x <= math.MaxInt64 {
			return int64(x), nil
		}
		return x, nil
	case []byte:
		if x == nil {
			return nil, nil
		}
		return Blob(x), nil
	case time.Time:
		return x, nil
	}
	return nil, execerr("unsupported argument type %T", v)
}

func (c *conn) run(ctx context.Context, op, q string, nvs []driver.NamedValue) (*Result, *Call, error) {
	db := c.db
	if c.busy != nil && db.Dialect != SQLite {
		db.Misuse.Store("statement on a connection whose result set is still open: " + q)
	}
	args := make([]any, len(nvs))
	vals := make([]Value, len(nvs))
	for i, nv := range nvs {
		v := nv.Value
		if b, ok := v.([]byte); ok && b != nil {
			v = append([]byte{}, b...)
		}
		args[i] = v
		var err error
		if vals[i], err = Bind(nv.Value); err != nil {
			return nil, nil, err
		}
	}
	db.delay(op)
	st, err := Parse(db.Dialect, q)
	if err != nil {
		db.record(ctx, op, q, args, nil, Result{}, err, c.tx != nil)
		return nil, nil, err
	}
	if st.NParams != len(args) {
		err := execerr("statement has %d parameters, %d arguments given", st.NParams, len(args))
		db.record(ctx, op, q, args, st, Result{}, err, c.tx != nil)
		return nil, nil, err
	}
	if err := db.fail(op); err != nil {
		db.record(ctx, op, q, args, st, Result{}, err, c.tx != nil)
		return nil, nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, nil, err
	}
	db.mu.Lock()
	t := db.tables[st.Table]
	if t == nil && db.Dialect != Postgres {
		for k, v := range db.tables {
			if strings.EqualFold(k, st.Table) {
				t = v
			}
		}
	}
	var res *Result
	if t == nil {
		err = execerr("table %q does not exist", st.Table)
	} else if st.DB != "" && st.DB != db.DBName {
		err = execerr("database %q does not exist", st.DB)
	} else if st.Kind == "select" && op == "exec" {
		err = execerr("SELECT through Exec")
	} else if op == "query" && st.Kind != "select" && len(st.Sel) == 0 {
		err = execerr("%s without result set through Query", st.Kind)
	} else if st.Lock != "" && c.tx == nil {
		err = execerr("row lock outside a transaction")
	} else {
		save := t.Clone()
		res, err = t.Exec(db.Dialect, st, vals, db.Funcs, db.lastID)
		if err == nil && db.Frozen {
			*t = *save
		} else if err != nil {
			t.Rows = save.Rows
		} else if st.Kind == "insert" {
			db.lastID = res.LastID
		}
	}
	db.mu.Unlock()
	if err != nil {
		db.record(ctx, op, q, args, st, Result{}, err, c.tx != nil)
		return nil, nil, err
	}
	call := db.record(ctx, op, q, args, st, *res, nil, c.tx != nil)
	db.delay("after-" + op)
	return res, call, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if c.db.Prepared {
		return nil, driver.ErrSkip
	}
	return c.exec(ctx, q, a)
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	if c.db.Prepared {
		return nil, driver.ErrSkip
	}
	return c.query(ctx, q, a)
}

func (c *conn) exec(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	res, _, err := c.run(ctx, "exec", q, a)
	if err != nil {
		return nil, err
	}
	return result{c.db, res}, nil
}

func (c *conn) query(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	res, call, err := c.run(ctx, "query", q, a)
	if err != nil {
		return nil, err
	}
	c.db.OpenRows.Add(1)
	r := &rows{c: c, ctx: ctx, res: res, call: call}
	c.busy = r
	return r, nil
}

type result struct {
	db  *DB
	res *Result
}

func (r result) LastInsertId() (int64, error) {
	if err := r.db.fail("lastid"); err != nil {
		return 0, err
	}
	if !r.res.HasID {
		return 0, errors.New("LastInsertId is not supported by this driver")
	}
	return r.res.LastID, nil
}

func (r result) RowsAffected() (int64, error) {
	if err := r.db.fail("rowsaffected"); err != nil {
		return 0, err
	}
	return r.res.Affected, nil
}

type rows struct {
	c      *conn
	ctx    context.Context
	res    *Result
	call   *Call
	i      int
	bufs   [][]byte
	closed bool
}

func (r *rows) Columns() []string { return r.res.Cols }

func (r *rows) poison() {
	for _, b := range r.bufs {
		for i := range b {
			b[i] = 0xAA
		}
	}
	r.bufs = nil
}

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.c.busy = nil
	r.poison()
	r.c.db.OpenRows.Add(-1)
	return r.c.db.fail("rows.close")
}

func (r *rows) Next(dest []driver.Value) error {
	r.poison()
	r.c.db.delay("next")
	f := r.c.db.point("rows.next")
	if f != nil && f.Err != nil {
		return f.Err
	}
	if err := r.ctx.Err(); err != nil {
		return err
	}
	if r.i >= len(r.res.Rows) {
		return io.EOF
	}
	row := r.res.Rows[r.i]
	r.i++
	r.c.db.NRows.Add(1)
	if r.call != nil {
		r.call.Reads++
	}
	for j := range dest {
		v := Represent(r.c.db.Dialect, r.c.db.Mode, r.res.Kinds[j], r.res.F32[j], row[j], r.c.db.Zone)
		if b, ok := v.([]byte); ok {
			r.bufs = append(r.bufs, b)
		}
		dest[j] = v
	}
	if f != nil && f.BadCol > 0 && f.BadCol <= len(dest) {
		if j := f.BadCol - 1; !f.Text {
			dest[j] = badValue{}
			f.Applied = true
		} else if b, ok := damage(r.res.Kinds[j], dest[j]); ok && !f.Raw[r.res.Cols[j]] {
			dest[j] = b
			r.bufs = append(r.bufs, b)
			f.Applied = true
		}
	}
	return nil
}

// damage gives text which is no value of the kind.
func damage(k Kind, v any) ([]byte, bool) {
	switch k {
	case KInt, KUint, KFloat, KBool, KTime, KJSON, KArray:
	default:
		return nil, false
	}
	switch x := v.(type) {
	case []byte:
		return append(append([]byte(nil), x...), '~'), true
	case string:
		return append([]byte(x), '~'), true
	case int64, uint64, float64, bool:
		return append(fmt.Append(nil, x), '~'), true
	}
	return []byte("~"), true
}

// badValue is a driver value no destination can take.
type badValue struct{}

// Represent turns a stored value into what a driver of the dialect returns.
func Represent(d Dialect, m Mode, k Kind, f32 bool, v Value, zone *time.Location) any {
	asText := func(s string) any {
		switch {
		case d == MySQL, m == ModeText:
			return []byte(s)
		default:
			return s
		}
	}
	switch x := v.(type) {
	case nil:
		return nil
	case int64:
		if m == ModeText && d == MySQL {
			return []byte(strconv.FormatInt(x, 10))
		}
		return x
	case uint64:
		if d == MySQL && m == ModeAlt {
			return x
		}
		return []byte(strconv.FormatUint(x, 10))
	case float64:
		bits := 64
		if f32 {
			bits = 32
		}
		if m == ModeText && d == MySQL {
			return []byte(strconv.FormatFloat(x, 'g', -1, bits))
		}
		if f32 && d == MySQL && m == ModeNative {
			return float32(x)
		}
		return x
	case bool:
		if d == Postgres {
			return x
		}
		if d == MySQL && m == ModeText {
			return []byte(strconv.FormatInt(b2i(x), 10))
		}
		if d == SQLite && m == ModeNative {
			return x
		}
		return b2i(x)
	case string:
		switch k {
		case KJSON:
			if d == MySQL {
				return []byte(NormalizeJSON(x))
			}
			if d == Postgres && m != ModeAlt {
				return []byte(x)
			}
			return asText(x)
		case KArray:
			if d == Postgres && m != ModeAlt {
				return []byte(x)
			}
			return asText(x)
		}
		if d == Postgres {
			return x
		}
		return asText(x)
	case Blob:
		return append([]byte{}, x...)
	case Geo:
		return append([]byte{0, 1, 0xff}, x...)
	case time.Time:
		if zone != nil {
			return x.In(zone)
		}
		return x
	}
	panic(fmt.Sprintf("represent %T", v))
}
