package minisql

import (
	"strconv"
	"strings"
)

type Expr interface{}
type (
	ECol struct {
		Table, Name string
		Quoted      bool
	}
	EParam struct{ Idx int } // 0-based argument index
	ELit   struct{ V Value }
	EBin   struct {
		Op   string
		L, R Expr
	}
	ENot    struct{ E Expr }
	EIsNull struct {
		E   Expr
		Not bool
	}
	EIn struct {
		E    Expr
		List []Expr
		Not  bool
	}
	ELike struct {
		E, P Expr
		Not  bool
	}
	EBetween struct {
		E, Lo, Hi Expr
		Not       bool
	}
	ERow  struct{ Es []Expr }
	EFunc struct {
		Name string
		Args []Expr
		Star bool
	}
	// ESub is a scalar subquery or the list of an IN
	ESub struct{ St *Stmt }
	// ESame is null-safe equality
	ESame struct {
		L, R Expr
		Not  bool
	}
	EInSub struct {
		E   Expr
		St  *Stmt
		Not bool
	}
	EStar    struct{}
	EDefault struct{}
	// EValues is VALUES(col) in MySQL and excluded.col elsewhere
	EExcluded struct{ Name string }
)

type OrderItem struct {
	E    Expr
	Desc bool
}
type SetItem struct {
	Col string
	E   Expr
}
type SelItem struct {
	E    Expr
	Text string
}

type Stmt struct {
	Kind    string // insert select update delete
	DB      string
	Table   string
	Cols    []string
	Rows    [][]Expr
	Ignore  bool
	OnConf  bool
	Target  []string
	Nothing bool
	Sets    []SetItem
	Sel     []SelItem
	Where   Expr
	Group   []Expr
	Order   []OrderItem
	Limit   *int64
	Offset  *int64
	Lock    string
	NParams int
	Params  []int // argument index per placeholder occurrence, in text order
}

type parser struct {
	d    Dialect
	src  string
	toks []Token
	i    int
	n    int // '?' seen
	used map[int]bool
	occ  []int
	inUp bool
}

// Parse parses one statement of dialect d.
func Parse(d Dialect, src string) (*Stmt, error) {
	toks, err := Lex(d, src)
	if err != nil {
		return nil, err
	}
	p := &parser{d: d, src: src, toks: toks, used: map[int]bool{}}
	st, err := p.stmt()
	if err != nil {
		return nil, err
	}
	if p.isOp(";") {
		p.i++
	}
	if p.cur().Kind != TEOF {
		return nil, p.unexpected("end of statement")
	}
	if d == Postgres {
		max := 0
		for n := range p.used {
			if n > max {
				max = n
			}
		}
		for n := 1; n <= max; n++ {
			if !p.used[n] {
				return nil, synerr("parameter $%d is not used (could not determine its type)", n)
			}
		}
		st.NParams = max
	} else {
		st.NParams = p.n
	}
	st.Params = p.occ
	return st, nil
}

func (p *parser) cur() Token { return p.toks[p.i] }
func (p *parser) isOp(s string) bool {
	t := p.cur()
	return t.Kind == TOp && t.Text == s
}
func (p *parser) isKw(s string) bool {
	t := p.cur()
	return t.Kind == TIdent && strings.EqualFold(t.Text, s)
}
func (p *parser) kwAt(k int, s string) bool {
	if p.i+k >= len(p.toks) {
		return false
	}
	t := p.toks[p.i+k]
	return t.Kind == TIdent && strings.EqualFold(t.Text, s)
}
func (p *parser) kws(ss ...string) bool {
	for k, s := range ss {
		if !p.kwAt(k, s) {
			return false
		}
	}
	p.i += len(ss)
	return true
}
func (p *parser) unexpected(want string) error {
	t := p.cur()
	what := t.Raw
	if t.Kind == TEOF {
		what = "end of input"
	}
	return synerr("expected %s near %q at %d", want, what, t.Pos)
}
func (p *parser) op(s string) error {
	if !p.isOp(s) {
		return p.unexpected(strconv.Quote(s))
	}
	p.i++
	return nil
}
func (p *parser) kw(ss ...string) error {
	if !p.kws(ss...) {
		return p.unexpected(strings.Join(ss, " "))
	}
	return nil
}

// ident parses a table or column name.
func (p *parser) ident() (string, bool, error) {
	t := p.cur()
	switch t.Kind {
	case TQuoted:
		p.i++
		return t.Text, true, nil
	case TIdent:
		if Reserved(p.d, t.Text) {
			return "", false, synerr("reserved word %q used as a name at %d", t.Text, t.Pos)
		}
		p.i++
		return t.Text, false, nil
	}
	return "", false, p.unexpected("a name")
}

func (p *parser) tableName(st *Stmt) error {
	n, _, err := p.ident()
	if err != nil {
		return err
	}
	st.Table = n
	if p.isOp(".") {
		p.i++
		n2, _, err := p.ident()
		if err != nil {
			return err
		}
		st.DB, st.Table = n, n2
	}
	return nil
}

func (p *parser) identList() ([]string, error) {
	if err := p.op("("); err != nil {
		return nil, err
	}
	var out []string
	for {
		n, _, err := p.ident()
		if err != nil {
			return nil, err
		}
		out = append(out, n)
		if p.isOp(",") {
			p.i++
			continue
		}
		break
	}
	return out, p.op(")")
}

func (p *parser) stmt() (*Stmt, error) {
	st := &Stmt{}
	switch {
	case p.kws("insert"):
		return st, p.insert(st)
	case p.kws("select"):
		return st, p.sel(st)
	case p.kws("update"):
		return st, p.update(st)
	case p.kws("delete"):
		return st, p.del(st)
	}
	return nil, p.unexpected("a statement")
}

func (p *parser) insert(st *Stmt) (err error) {
	st.Kind = "insert"
	switch {
	case p.d == MySQL && p.kws("ignore"):
		st.Ignore = true
	case p.d == SQLite && p.kws("or", "ignore"):
		st.Ignore = true
	}
	if err = p.kw("into"); err != nil {
		return
	}
	if err = p.tableName(st); err != nil {
		return
	}
	if p.d != MySQL && p.kws("default", "values") {
		st.Rows = [][]Expr{{}}
	} else {
		if p.d == MySQL && p.isOp("(") && p.i+1 < len(p.toks) && p.toks[p.i+1].Text == ")" {
			p.i += 2
		} else if st.Cols, err = p.identList(); err != nil {
			return
		}
		if err = p.kw("values"); err != nil {
			return
		}
		for {
			if err = p.op("("); err != nil {
				return
			}
			var row []Expr
			if !(p.d == MySQL && p.isOp(")") && len(st.Cols) == 0) {
				for {
					if p.kws("default") {
						row = append(row, EDefault{})
					} else {
						e, err := p.expr()
						if err != nil {
							return err
						}
						row = append(row, e)
					}
					if p.isOp(",") {
						p.i++
						continue
					}
					break
				}
			}
			if err = p.op(")"); err != nil {
				return
			}
			if len(row) != len(st.Cols) {
				return synerr("INSERT has %d expressions for %d target columns", len(row), len(st.Cols))
			}
			st.Rows = append(st.Rows, row)
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
	}
	if p.d == MySQL {
		if p.kws("on", "duplicate", "key", "update") {
			st.OnConf = true
			p.inUp = true
			if st.Sets, err = p.sets(); err != nil {
				return
			}
		}
		return nil
	}
	if p.kws("on", "conflict") {
		st.OnConf = true
		if p.isOp("(") {
			if st.Target, err = p.identList(); err != nil {
				return
			}
		}
		if err = p.kw("do"); err != nil {
			return
		}
		if p.kws("nothing") {
			st.Nothing = true
		} else {
			if err = p.kw("update", "set"); err != nil {
				return
			}
			if len(st.Target) == 0 && p.d == Postgres {
				return synerr("ON CONFLICT DO UPDATE requires a conflict target")
			}
			p.inUp = true
			if st.Sets, err = p.sets(); err != nil {
				return
			}
			if p.kws("where") {
				if st.Where, err = p.expr(); err != nil {
					return
				}
			}
		}
	}
	return p.returning(st)
}

func (p *parser) returning(st *Stmt) (err error) {
	if p.d != MySQL && p.kws("returning") {
		st.Sel, err = p.selItems()
	}
	return
}

func (p *parser) sets() ([]SetItem, error) {
	var out []SetItem
	for {
		n, _, err := p.ident()
		if err != nil {
			return nil, err
		}
		if err := p.op("="); err != nil {
			return nil, err
		}
		e, err := p.expr()
		if err != nil {
			return nil, err
		}
		for _, s := range out {
			if p.d != MySQL && strings.EqualFold(s.Col, n) {
				return nil, synerr("multiple assignments to column %q", n)
			}
		}
		out = append(out, SetItem{n, e})
		if p.isOp(",") {
			p.i++
			continue
		}
		return out, nil
	}
}

func (p *parser) selItems() ([]SelItem, error) {
	var out []SelItem
	for {
		start := p.cur().Pos
		if p.isOp("*") {
			p.i++
			out = append(out, SelItem{E: EStar{}})
		} else {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			it := SelItem{E: e, Text: strings.TrimSpace(p.src[start:p.cur().Pos])}
			if p.kws("as") {
				if it.Text, _, err = p.ident(); err != nil {
					return nil, err
				}
			}
			out = append(out, it)
		}
		if p.isOp(",") {
			p.i++
			continue
		}
		return out, nil
	}
}

func (p *parser) sel(st *Stmt) (err error) {
	st.Kind = "select"
	if st.Sel, err = p.selItems(); err != nil {
		return
	}
	if err = p.kw("from"); err != nil {
		return
	}
	if err = p.tableName(st); err != nil {
		return
	}
	if p.kws("where") {
		if st.Where, err = p.expr(); err != nil {
			return
		}
	}
	if p.kws("group", "by") {
		for {
			e, err := p.expr()
			if err != nil {
				return err
			}
			st.Group = append(st.Group, e)
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
	}
	if err = p.orderLimit(st, true); err != nil {
		return
	}
	if p.isKw("for") {
		if p.d == SQLite {
			return p.unexpected("end of statement (SQLite has no row locks)")
		}
		p.i++
		switch {
		case p.kws("update"):
			st.Lock = "FOR UPDATE"
		case p.kws("share"):
			st.Lock = "FOR SHARE"
		case p.d == Postgres && p.kws("no", "key", "update"):
			st.Lock = "FOR NO KEY UPDATE"
		case p.d == Postgres && p.kws("key", "share"):
			st.Lock = "FOR KEY SHARE"
		default:
			return p.unexpected("lock mode")
		}
		if len(st.Group) > 0 && p.d == Postgres {
			return synerr("FOR UPDATE is not allowed with GROUP BY")
		}
	}
	return nil
}

func (p *parser) orderLimit(st *Stmt, offset bool) error {
	if p.kws("order", "by") {
		for {
			e, err := p.expr()
			if err != nil {
				return err
			}
			if _, row := e.(ERow); row && p.d != Postgres {
				return synerr("ORDER BY a row value is not valid in %s", p.d)
			}
			it := OrderItem{E: e}
			if p.kws("desc") {
				it.Desc = true
			} else {
				p.kws("asc")
			}
			st.Order = append(st.Order, it)
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
	}
	num := func() (*int64, error) {
		neg := false
		if p.isOp("-") && p.d == SQLite {
			neg = true
			p.i++
		}
		t := p.cur()
		if t.Kind != TNumber {
			return nil, p.unexpected("a number")
		}
		u, err := strconv.ParseUint(t.Text, 10, 64)
		if err != nil {
			return nil, synerr("bad number %q", t.Text)
		}
		if p.d != MySQL && u > 1<<63-1 {
			return nil, synerr("%q is out of range for bigint", t.Text)
		}
		p.i++
		v := int64(u)
		if u > 1<<63-1 {
			v = 1<<63 - 1
		}
		if neg {
			v = -v
		}
		return &v, nil
	}
	if p.kws("limit") {
		if p.d == Postgres && p.kws("all") {
			// no limit
		} else {
			n, err := num()
			if err != nil {
				return err
			}
			st.Limit = n
		}
		if offset && p.kws("offset") {
			n, err := num()
			if err != nil {
				return err
			}
			st.Offset = n
		}
	} else if offset && p.d == Postgres && p.kws("offset") {
		n, err := num()
		if err != nil {
			return err
		}
		st.Offset = n
	}
	return nil
}

func (p *parser) update(st *Stmt) (err error) {
	st.Kind = "update"
	if err = p.tableName(st); err != nil {
		return
	}
	if err = p.kw("set"); err != nil {
		return
	}
	if st.Sets, err = p.sets(); err != nil {
		return
	}
	if p.kws("where") {
		if st.Where, err = p.expr(); err != nil {
			return
		}
	}
	if p.d == MySQL {
		if err = p.orderLimit(st, false); err != nil {
			return
		}
	}
	return p.returning(st)
}

func (p *parser) del(st *Stmt) (err error) {
	st.Kind = "delete"
	if err = p.kw("from"); err != nil {
		return
	}
	if err = p.tableName(st); err != nil {
		return
	}
	if p.kws("where") {
		if st.Where, err = p.expr(); err != nil {
			return
		}
	}
	if p.d == MySQL {
		if err = p.orderLimit(st, false); err != nil {
			return
		}
	}
	return p.returning(st)
}

func (p *parser) expr() (Expr, error) { return p.or() }

func (p *parser) or() (Expr, error) {
	l, err := p.and()
	if err != nil {
		return nil, err
	}
	for p.kws("or") {
		r, err := p.and()
		if err != nil {
			return nil, err
		}
		l = EBin{"OR", l, r}
	}
	return l, nil
}

func (p *parser) and() (Expr, error) {
	l, err := p.not()
	if err != nil {
		return nil, err
	}
	for p.kws("and") {
		r, err := p.not()
		if err != nil {
			return nil, err
		}
		l = EBin{"AND", l, r}
	}
	return l, nil
}

func (p *parser) not() (Expr, error) {
	if p.kws("not") {
		e, err := p.not()
		if err != nil {
			return nil, err
		}
		return ENot{e}, nil
	}
	return p.cmp()
}

func (p *parser) cmp() (Expr, error) {
	l, err := p.primary()
	if err != nil {
		return nil, err
	}
	t := p.cur()
	if t.Kind == TOp {
		switch t.Text {
		case "<=>":
			p.i++
			r, err := p.primary()
			if err != nil {
				return nil, err
			}
			return ESame{L: l, R: r}, nil
		case "=", "<>", "!=", "<", "<=", ">", ">=":
			p.i++
			r, err := p.primary()
			if err != nil {
				return nil, err
			}
			op := t.Text
			if op == "!=" {
				op = "<>"
			}
			return EBin{op, l, r}, nil
		}
	}
	if p.kws("is") {
		not := p.kws("not")
		if p.d != MySQL && p.kws("distinct", "from") {
			r, err := p.primary()
			if err != nil {
				return nil, err
			}
			return ESame{L: l, R: r, Not: !not}, nil
		}
		if p.d == SQLite && !p.isKw("null") {
			r, err := p.primary()
			if err != nil {
				return nil, err
			}
			return ESame{L: l, R: r, Not: not}, nil
		}
		if err := p.kw("null"); err != nil {
			return nil, err
		}
		return EIsNull{l, not}, nil
	}
	not := false
	if p.isKw("not") && (p.kwAt(1, "in") || p.kwAt(1, "like") || p.kwAt(1, "between")) {
		p.i++
		not = true
	}
	switch {
	case p.kws("in"):
		if err := p.op("("); err != nil {
			return nil, err
		}
		in := EIn{E: l, Not: not}
		if p.isKw("select") {
			st, err := p.subquery()
			if err != nil {
				return nil, err
			}
			return EInSub{E: l, St: st, Not: not}, nil
		}
		if p.d == SQLite && p.isOp(")") {
			p.i++
			return in, nil
		}
		for {
			e, err := p.primary()
			if err != nil {
				return nil, err
			}
			in.List = append(in.List, e)
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
		return in, p.op(")")
	case p.kws("like"):
		r, err := p.primary()
		if err != nil {
			return nil, err
		}
		return ELike{l, r, not}, nil
	case p.kws("between"):
		lo, err := p.primary()
		if err != nil {
			return nil, err
		}
		if err := p.kw("and"); err != nil {
			return nil, err
		}
		hi, err := p.primary()
		if err != nil {
			return nil, err
		}
		return EBetween{l, lo, hi, not}, nil
	}
	return l, nil
}

// subquery parses a SELECT up to and including its closing parenthesis.
func (p *parser) subquery() (*Stmt, error) {
	p.i++
	st := &Stmt{}
	if err := p.sel(st); err != nil {
		return nil, err
	}
	if len(st.Sel) != 1 {
		return nil, synerr("subquery must return only one column")
	}
	if st.Lock != "" {
		return nil, synerr("lock in a subquery")
	}
	return st, p.op(")")
}

func (p *parser) param() Expr {
	t := p.cur()
	p.i++
	if p.d == Postgres {
		p.used[t.N] = true
		p.occ = append(p.occ, t.N-1)
		return EParam{t.N - 1}
	}
	p.n++
	p.occ = append(p.occ, p.n-1)
	return EParam{p.n - 1}
}

func (p *parser) primary() (Expr, error) {
	t := p.cur()
	switch t.Kind {
	case TParam:
		return p.param(), nil
	case TString:
		p.i++
		return ELit{t.Str}, nil
	case TNumber:
		p.i++
		return number(t.Text)
	case TOp:
		if t.Text == "-" || t.Text == "+" {
			p.i++
			n := p.cur()
			if n.Kind != TNumber {
				return nil, p.unexpected("a number")
			}
			p.i++
			if t.Text == "-" {
				return number("-" + n.Text)
			}
			return number(n.Text)
		}
		if t.Text == "(" {
			p.i++
			if p.isKw("select") {
				st, err := p.subquery()
				if err != nil {
					return nil, err
				}
				return ESub{st}, nil
			}
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			if p.isOp(",") {
				row := ERow{[]Expr{e}}
				for p.isOp(",") {
					p.i++
					e, err := p.expr()
					if err != nil {
						return nil, err
					}
					row.Es = append(row.Es, e)
				}
				return row, p.op(")")
			}
			return e, p.op(")")
		}
	case TIdent, TQuoted:
		if t.Kind == TIdent {
			switch strings.ToLower(t.Text) {
			case "null":
				p.i++
				return ELit{nil}, nil
			case "true":
				p.i++
				return ELit{true}, nil
			case "false":
				p.i++
				return ELit{false}, nil
			}
			if p.inUp && p.d == MySQL && p.isKw("values") {
				p.i++
				if err := p.op("("); err != nil {
					return nil, err
				}
				n, _, err := p.ident()
				if err != nil {
					return nil, err
				}
				return EExcluded{n}, p.op(")")
			}
			if p.i+1 < len(p.toks) && p.toks[p.i+1].Kind == TOp && p.toks[p.i+1].Text == "(" {
				if Reserved(p.d, t.Text) {
					return nil, p.unexpected("an expression")
				}
				p.i += 2
				f := EFunc{Name: strings.ToLower(t.Text)}
				if p.isOp("*") {
					p.i++
					f.Star = true
					return f, p.op(")")
				}
				if p.isOp(")") {
					p.i++
					return f, nil
				}
				for {
					e, err := p.expr()
					if err != nil {
						return nil, err
					}
					f.Args = append(f.Args, e)
					if p.isOp(",") {
						p.i++
						continue
					}
					break
				}
				return f, p.op(")")
			}
		}
		n, q, err := p.ident()
		if err != nil {
			return nil, err
		}
		if p.isOp(".") {
			p.i++
			n2, q2, err := p.ident()
			if err != nil {
				return nil, err
			}
			if p.inUp && p.d != MySQL && strings.EqualFold(n, "excluded") {
				return EExcluded{n2}, nil
			}
			return ECol{Table: n, Name: n2, Quoted: q2}, nil
		}
		return ECol{Name: n, Quoted: q}, nil
	}
	return nil, p.unexpected("an expression")
}

func number(s string) (Expr, error) {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return ELit{i}, nil
	}
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		return ELit{u}, nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, synerr("number %q out of range", s)
	}
	return ELit{f}, nil
}
