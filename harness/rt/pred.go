package rt

import (
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/minisql"
	"verif/harness/spec"
)

// tri is SQL's three-valued truth.
type tri int

const (
	no tri = iota
	unknown
	yes
)

func truth(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri { return yes - t }

// Pred is a condition with its meaning.
type Pred struct {
	Clause sequel.WhereClause
	Holds  func(Rec) tri
	Text   string
	Args   []minisql.Value // operands in order, as the database receives them
	Cols   []int           // their columns
}

// comparable classes: equality of stored forms is equality of values.
func eqClass(t *spec.Type) bool {
	switch t.Class {
	case spec.CInt, spec.CUint, spec.CUint64, spec.CFloat, spec.CBool, spec.CString, spec.CTime, spec.CText, spec.CRune, spec.CByteA, spec.CRuneA, spec.CNull, spec.CValuer, spec.CCent, spec.CMicro:
		return true
	}
	return false
}

// ordClass: stored forms are ordered like the values.
func ordClass(t *spec.Type) bool {
	switch t.Class {
	case spec.CInt, spec.CUint, spec.CUint64, spec.CFloat, spec.CBool, spec.CString, spec.CTime, spec.CMicro:
		return true
	}
	return false
}

// PG makes predicates over a model's columns.
type PG struct {
	A *Adapter
	G *G
	R *rand.Rand
	// From draws operands from these rows' models now and then.
	From []any
	// NoNil avoids nil operands.
	NoNil bool
}

func (p *PG) value(i int) (any, minisql.Value) {
	c := &p.A.M.Cols[i]
	t := spec.T(c.Type)
	for {
		if len(p.From) > 0 && p.R.Intn(2) == 0 {
			if v, ok := Field(p.From[p.R.Intn(len(p.From))], c); ok {
				if x, err := Enc(t, p.A.F.D, v); err == nil && (x != nil || !p.NoNil) {
					return v.Interface(), x
				}
			}
		}
		f, _ := Field(p.A.New(), c)
		v := reflect.New(f.Type()).Elem()
		p.G.Set(t, v)
		x, err := Enc(t, p.A.F.D, v)
		if err != nil || x == nil && p.NoNil {
			continue
		}
		return v.Interface(), x
	}
}

func cmpTri(a, b minisql.Value, f func(int) bool) tri {
	if a == nil || b == nil {
		return unknown
	}
	c, err := minisql.Compare(a, b)
	if err != nil {
		panic(err)
	}
	return truth(f(c))
}

func (p *PG) leaf() *Pred {
	a := p.A
	for {
		i := p.R.Intn(len(a.Ops))
		o := a.Ops[i].via(p.R)
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		stored := func(r Rec) minisql.Value { return r[i] }
		coerce := func(x minisql.Value) minisql.Value {
			y, err := minisql.Coerce(t.ColKind(a.F.D), t.F32, x)
			if err != nil {
				panic(err)
			}
			return y
		}
		op := p.R.Intn(14)
		if op < 2 {
			if op == 0 {
				return &Pred{Clause: o.IsNull(), Text: c.Name + " is null", Holds: func(r Rec) tri { return truth(stored(r) == nil) }}
			}
			return &Pred{Clause: o.IsNotNull(), Text: c.Name + " is not null", Holds: func(r Rec) tri { return truth(stored(r) != nil) }}
		}
		if !eqClass(t) || t.Mapped && !a.F.Conf.Point {
			continue
		}
		switch op {
		case 2, 3:
			n := pick(p.R, 0, 1, 1, 2, 3, 5)
			var vs []any
			var xs []minisql.Value
			var l []string
			for k := 0; k < n; k++ {
				v, x := p.value(i)
				vs, xs = append(vs, v), append(xs, x)
				l = append(l, ShowRow(Rec{x}))
			}
			if n == 0 && p.R.Intn(2) == 0 {
				vs = []any{}
			}
			in := func(r Rec) tri {
				res := no
				for _, x := range xs {
					if x != nil {
						x = coerce(x)
					}
					switch cmpTri(stored(r), x, func(c int) bool { return c == 0 }) {
					case yes:
						return yes
					case unknown:
						res = unknown
					}
				}
				return res
			}
			q := &Pred{Args: xs, Text: fmt.Sprintf("%s in (%s)", c.Name, strings.Join(l, " ")), Holds: in, Clause: o.In(vs)}
			for range xs {
				q.Cols = append(q.Cols, i)
			}
			if op == 3 {
				q.Text = "not " + q.Text
				q.Holds = func(r Rec) tri { return in(r).not() }
				q.Clause = o.NotIn(vs)
			}
			return q
		}
		if o.Eq == nil {
			continue
		}
		v, x := p.value(i)
		bin := func(name string, cl func(any) sequel.WhereClause, f func(int) bool) *Pred {
			return &Pred{Clause: cl(v), Args: []minisql.Value{x}, Cols: []int{i}, Text: fmt.Sprintf("%s %s %s", c.Name, name, ShowRow(Rec{x})), Holds: func(r Rec) tri {
				if x == nil {
					return unknown
				}
				return cmpTri(stored(r), coerce(x), f)
			}}
		}
		switch op {
		case 4:
			return bin("=", o.Eq, func(c int) bool { return c == 0 })
		case 5:
			return bin("<>", o.Ne, func(c int) bool { return c != 0 })
		}
		if t.Class == spec.CString && op >= 12 {
			pat := reflect.New(reflect.TypeOf(v)).Elem()
			s := pick(p.G.R, "%", "_", "a%", "%b", "a_", "%b%", "", "B", "it's", "%'%", "%?%", "é%", "__%")
			var px minisql.Value = s
			if pat.Kind() == reflect.Pointer {
				if p.G.R.Intn(8) > 0 || p.NoNil {
					q := reflect.New(pat.Type().Elem())
					q.Elem().SetString(s)
					pat.Set(q)
				} else {
					px = nil
				}
			} else {
				pat.SetString(s)
			}
			like := func(r Rec) tri {
				if stored(r) == nil || px == nil {
					return unknown
				}
				return truth(minisql.Like(stored(r).(string), s))
			}
			q := &Pred{Args: []minisql.Value{px}, Cols: []int{i}, Text: fmt.Sprintf("%s like %q", c.Name, s), Holds: like}
			if op == 12 {
				q.Clause = o.Like(pat.Interface())
				return q
			}
			q.Clause = o.NotLike(pat.Interface())
			q.Text = "not " + q.Text
			q.Holds = func(r Rec) tri { return like(r).not() }
			return q
		}
		if !ordClass(t) {
			continue
		}
		switch op {
		case 6:
			return bin(">", o.Gt, func(c int) bool { return c > 0 })
		case 7:
			return bin(">=", o.Ge, func(c int) bool { return c >= 0 })
		case 8:
			return bin("<", o.Lt, func(c int) bool { return c < 0 })
		case 9:
			return bin("<=", o.Le, func(c int) bool { return c <= 0 })
		case 10, 11:
			v2, y := p.value(i)
			btw := func(r Rec) tri {
				lo, hi := unknown, unknown
				if x != nil {
					lo = cmpTri(stored(r), coerce(x), func(c int) bool { return c >= 0 })
				}
				if y != nil {
					hi = cmpTri(stored(r), coerce(y), func(c int) bool { return c <= 0 })
				}
				return min(lo, hi)
			}
			q := &Pred{Args: []minisql.Value{x, y}, Cols: []int{i, i}, Text: fmt.Sprintf("%s between %s and %s", c.Name, ShowRow(Rec{x}), ShowRow(Rec{y})), Holds: btw}
			if op == 10 {
				q.Clause = o.Between(v, v2)
				return q
			}
			q.Clause = o.NotBetween(v, v2)
			q.Text = "not " + q.Text
			q.Holds = func(r Rec) tri { return btw(r).not() }
			return q
		}
	}
}

// Gen makes a random condition.
func (p *PG) Gen(depth int) *Pred {
	if depth == 0 || p.R.Intn(3) == 0 {
		return p.leaf()
	}
	n := pick(p.R, 0, 1, 2, 2, 3, 4)
	var ps []*Pred
	var cs []sequel.WhereClause
	q := &Pred{}
	var l []string
	for k := 0; k < n; k++ {
		x := p.Gen(depth - 1)
		ps, cs = append(ps, x), append(cs, x.Clause)
		q.Args = append(q.Args, x.Args...)
		q.Cols = append(q.Cols, x.Cols...)
		l = append(l, x.Text)
	}
	if p.R.Intn(2) == 0 {
		q.Clause = p.A.F.And(cs...)
		q.Text = "all(" + strings.Join(l, "; ") + ")"
		q.Holds = func(r Rec) tri {
			t := yes
			for _, x := range ps {
				t = min(t, x.Holds(r))
			}
			return t
		}
		return q
	}
	q.Clause = p.A.F.Or(cs...)
	q.Text = "any(" + strings.Join(l, "; ") + ")"
	q.Holds = func(r Rec) tri {
		t := no
		for _, x := range ps {
			t = max(t, x.Holds(r))
		}
		return t
	}
	return q
}

// Ord is one item of an order.
type Ord struct {
	Col  int
	Desc bool
}

// orderable columns of the model.
func (a *Adapter) orderable() []int {
	var out []int
	for i := range a.Ops {
		if ordClass(spec.T(a.M.Cols[i].Type)) {
			out = append(out, i)
		}
	}
	return out
}

func (a *Adapter) clause(o []Ord) []sequel.OrderByClause {
	var out []sequel.OrderByClause
	for _, x := range o {
		if x.Desc {
			out = append(out, a.Ops[x.Col].Desc())
		} else {
			out = append(out, a.Ops[x.Col].Asc())
		}
	}
	return out
}

func orderText(a *Adapter, o []Ord) string {
	var l []string
	for _, x := range o {
		s := a.M.Cols[x.Col].Name
		if x.Desc {
			s += " desc"
		}
		l = append(l, s)
	}
	return strings.Join(l, ",")
}

// cmpOrd orders rows.
func cmpOrd(d minisql.Dialect, o []Ord, x, y Rec) int {
	for _, k := range o {
		u, v := x[k.Col], y[k.Col]
		c := 0
		first := -1
		if !minisql.NullsFirst(d) {
			first = 1
		}
		switch {
		case u == nil && v == nil:
		case u == nil:
			c = first
		case v == nil:
			c = -first
		default:
			var err error
			if c, err = minisql.Compare(u, v); err != nil {
				panic(err)
			}
		}
		if k.Desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// GenOrder makes a random order of up to n columns.
func (p *PG) GenOrder(n int) []Ord {
	cols := p.A.orderable()
	p.R.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	var out []Ord
	for _, c := range cols {
		if len(out) == n {
			break
		}
		out = append(out, Ord{c, p.R.Intn(2) == 0})
	}
	return out
}

func sortRecs(d minisql.Dialect, o []Ord, rs []Rec) []Rec {
	out := append([]Rec{}, rs...)
	slices.SortStableFunc(out, func(x, y Rec) int { return cmpOrd(d, o, x, y) })
	return out
}
