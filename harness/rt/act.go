package rt

import (
	"context"
	"database/sql"
	"fmt"
	"math/rand"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/minisql"
)

// Act is one call of a helper that can be made again and again: its models
// and operands are made anew each time, from the same seed.
type Act struct {
	W     *World
	A     *Adapter
	S     shape
	Seed  int64
	World int64 // seed of the stored rows
	Pager any   // shared by all calls when set
	// Pages is asked after every page of an iteration, when set.
	Pages func(n int) bool
}

// Out is what a call gave.
type Out struct {
	Err    error
	Digest string // of everything returned or filled in
	Pages  int
	Called bool // the helper was called at all
}

func (x *Act) String() string {
	return fmt.Sprintf("%s %s (seed %d, %d models, condition %d, order %s, limit %d)", x.A, x.S.op, x.Seed, x.S.n, x.S.where, orderText(x.A, x.S.ord), x.S.lim)
}

// stored makes the rows the world holds and the models they came from; the
// models belong to the caller.
func (x *Act) stored() ([]Rec, []any) {
	g := &G{R: rand.New(rand.NewSource(x.World)), D: x.A.F.D}
	return g.stock(x.A, 5)
}

func (a *Adapter) digest(ms ...any) string {
	var l []string
	for _, m := range ms {
		r, err := RecOf(a, m)
		if err != nil {
			l = append(l, "error "+err.Error())
			continue
		}
		l = append(l, ShowRow(r))
	}
	return strings.Join(l, "\n")
}

func (x *Act) Do(ctx context.Context, db *sql.DB) (o Out) {
	a, s := x.A, x.S
	vr := rand.New(rand.NewSource(x.Seed))
	rows, stock := x.stored()
	g := &G{R: vr, D: a.F.D}
	var where sequel.WhereClause
	if s.where >= 0 && len(a.Ops) > 0 {
		p := &PG{A: a, G: g, R: rand.New(rand.NewSource(s.seed))}
		where = p.Gen(s.where).Clause
	}
	o.Called = true
	count := func(r sql.Result, err error) {
		o.Err = err
		if err == nil && r != nil {
			o.Digest += fmt.Sprint("affected ", Affected(r), "\n")
		}
	}
	switch s.op {
	case "insertone", "insert", "upsertone", "upsert":
		n := s.n
		if s.op == "insertone" || s.op == "upsertone" {
			n = 1
		}
		_, ms := g.fresh(a, rows, n)
		if len(ms) < n {
			o.Called = false
			return
		}
		switch s.op {
		case "insertone":
			count(a.InsertOne(ctx, db, ms[0]))
		case "insert":
			l := a.Slice(ms...)
			count(a.Insert(ctx, db, l))
			ms = a.Elems(l)
		case "upsertone":
			count(a.UpsertOne(ctx, db, ms[0], s.ups))
		case "upsert":
			l := a.Slice(ms...)
			count(a.Upsert(ctx, db, l, s.ups))
			ms = a.Elems(l)
		}
		o.Digest += a.digest(ms...)
	case "find", "deletepk", "updatepk", "lock":
		if len(stock) == 0 {
			o.Called = false
			return
		}
		m := a.CopyOf(stock[vr.Intn(len(stock))])
		switch s.op {
		case "find", "lock":
			// the key alone
			k := a.New()
			g.Fill(a, k)
			if a.keyAlloc(k) && a.keyAlloc(m) {
				a.setKey(k, m)
				m = k
			}
		}
		switch s.op {
		case "find":
			o.Err = a.Find(ctx, db, m)
		case "deletepk":
			count(a.Delete(ctx, db, m))
		case "updatepk":
			count(a.Update(ctx, db, m))
		case "lock":
			tx, err := db.BeginTx(ctx, nil)
			if err != nil {
				o.Called = false
				return
			}
			o.Err = a.Lock(ctx, tx, m, s.lock)
			tx.Rollback()
		}
		o.Digest += a.digest(m)
	case "query", "one":
		sel := Select{Where: where, OrderBy: a.clause(s.ord), Offset: s.off, Limit: s.lim}
		if s.op == "one" {
			sel.Limit, sel.Offset = 0, 0
		}
		if s.sel {
			sel.Cols = a.sqlNames()
		}
		if s.group {
			sel.GroupBy = a.sqlNames()
		}
		if s.op == "one" {
			m, err := a.QueryOne(ctx, db, sel)
			if o.Err = err; err == nil {
				o.Digest = a.digest(m)
			}
			break
		}
		l, err := a.Query(ctx, db, sel)
		if o.Err = err; err == nil {
			o.Digest = a.digest(a.Elems(l)...)
		}
	case "update", "delete":
		ex := Exec{Where: where}
		if a.F.D != minisql.Postgres && s.lim > 0 {
			ex.Limit = s.lim
			ex.OrderBy = a.clause(s.ord)
		}
		if s.op == "delete" {
			count(a.ExecDelete(ctx, db, ex))
			break
		}
		p := &PG{A: a, G: g, R: rand.New(rand.NewSource(s.seed))}
		for _, i := range s.set {
			v, _ := p.value(i)
			ex.Set = append(ex.Set, a.Ops[i].via(p.R).Set(v))
		}
		count(a.ExecUpdate(ctx, db, ex))
	case "page":
		p := Page{Back: s.back, Where: where, OrderBy: a.clause(s.ord), Limit: s.lim, Reuse: x.Pager}
		if s.cur && len(stock) > 0 {
			p.Cursor = a.CopyOf(stock[vr.Intn(len(stock))])
		}
		a.Paginate(ctx, db, p, func(l any, err error) bool {
			if o.Pages++; o.Pages > 50 {
				o.Digest += "endless"
				return false
			}
			if err != nil {
				o.Err = err
				return true
			}
			o.Digest += a.digest(a.Elems(l)...) + "\npage\n"
			if x.Pages != nil {
				return x.Pages(o.Pages)
			}
			return true
		})
	}
	return
}
