package rt

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel"

	"verif/harness/ev"
	"verif/harness/minisql"
)

func init() {
	Checks["C21"] = func(r *ev.Run) {
		r.Rule = "one evaluation per statement rendered with every verb whose output was read back token by token; distinct counts (flavour, statement text, arguments)"
		r.Assume = append(r.Assume, "the harness' lexer stands for the dialects'", "a byte string may be shown as text, hexadecimal or bytea literal")
		for _, f := range Flavours {
			rng := r.Rand("c21" + f.Name)
			r.Guard("panic/"+f.Name, f.Name, func() {
				for k, n := 0, r.N(15000, 300000); k < n; k++ {
					c21(r, f, rng)
				}
			})
		}
	}
}

type (
	dbgStr  string
	dbgInt  int16
	dbgUint uint64
	dbgF    float32
	dbgBool bool
	dbgRaw  []byte
	dbgVal  struct{ v any }
	dbgErr  struct{}
	dbgPtr  struct{ s string }
	dbgText struct{ a, b int }
)

func (d dbgVal) Value() (driver.Value, error)  { return d.v, nil }
func (dbgErr) Value() (driver.Value, error)    { return nil, errors.New("no value") }
func (d *dbgPtr) Value() (driver.Value, error) { return d.s, nil }

// dbgArg makes a Go value that may be an argument.
func dbgArg(g *G) any {
	rng := g.R
	t := g.time()
	s := g.Str()
	b := g.bytes()
	i := g.int(64)
	f := g.float(64)
	switch rng.Intn(40) {
	case 0:
		return nil
	case 1, 2, 3, 4, 5, 6:
		return s
	case 7, 8, 9:
		return b
	case 10:
		return []byte(nil)
	case 11:
		return sql.RawBytes(b)
	case 12:
		return i
	case 13:
		return int8(i)
	case 14:
		return int(i)
	case 15:
		return uint32(i)
	case 16:
		return g.uint(64)
	case 17:
		return f
	case 18:
		return float32(g.float(32))
	case 19:
		return i%2 == 0
	case 20:
		return t
	case 21:
		return &t
	case 22:
		return &s
	case 23:
		return (*string)(nil)
	case 24:
		p := &i
		return &p
	case 25:
		return dbgStr(s)
	case 26:
		return dbgInt(i)
	case 27:
		return dbgUint(i)
	case 28:
		return dbgF(g.float(32))
	case 29:
		return dbgBool(i%2 == 0)
	case 30:
		return dbgRaw(b)
	case 31:
		return dbgVal{pick[any](rng, nil, s, b, i, f, true, t)}
	case 32:
		return &dbgVal{pick[any](rng, nil, s, b, i, f, false, t)}
	case 33:
		return (*dbgPtr)(nil)
	case 34:
		return &dbgPtr{s}
	case 35:
		return dbgErr{}
	case 36:
		return sql.NullString{String: s, Valid: rng.Intn(2) == 0}
	case 37:
		return sql.NullTime{Time: t, Valid: rng.Intn(2) == 0}
	case 38:
		return pick[any](rng, (*time.Time)(nil), (*dbgVal)(nil), (*int64)(nil), (*[]byte)(nil))
	}
	return pick[any](rng, dbgText{1, 2}, []string{s}, map[string]int{s: 1}, struct{}{}, errors.New("x"))
}

// frag makes a piece of statement text holding no placeholder but what looks
// like one.
func frag(g *G, d minisql.Dialect) string {
	txt := pick(g.R, "?", "$1", "it''s ?", "a", "$2?", "''", "é ?", "--", "/*", "? ?", `"`, "`")
	switch g.R.Intn(8) {
	case 0:
		return "'" + txt + "'"
	case 1:
		n := pick(g.R, "a?", "b", "$1", "c$2", "x?y", "sel'ect")
		if d == minisql.MySQL {
			return "`" + n + "`"
		}
		return `"` + n + `"`
	case 2:
		if d == minisql.MySQL {
			return pick(g.R, `'it\'s ?'`, `'\\'`, `"? \" ?"`, `'a\\'`, `"''?"`)
		}
		return "''"
	case 3:
		return pick(g.R, "10", "3.5", "0", "1e3")
	case 4:
		return pick(g.R, "<", ">=", "=", ",", "(", ")", "*", "+")
	}
	return pick(g.R, "SELECT", "a", "FROM", "t", "WHERE", "x", "AND", "OR", "NOT")
}

func c21(r *ev.Run, f *Flavour, rng *rand.Rand) {
	g := &G{R: rng, D: f.D}
	s := f.Acquire()
	defer f.Release(s)
	if rng.Intn(6) == 0 {
		// a statement used before
		s.WriteString("SELECT " + s.Var("before") + s.Vars([]any{1, "x"}))
		_ = fmt.Sprintf("%+v", s)
		s.Reset()
	}
	kind := "composed"
	if a := f.Models[rng.Intn(len(f.Models))]; len(a.Ops) > 0 && rng.Intn(3) == 0 {
		kind = "operators"
		p := &PG{A: a, G: g, R: rng}
		s.WriteString("SELECT * FROM " + a.M.Table + " WHERE ")
		p.Gen(rng.Intn(4)).Clause(s)
		for i := range a.M.Upd() {
			if i < 2 && a.InsertOne != nil {
				v, _ := p.value(a.M.Upd()[i])
				s.WriteString(", ")
				a.Ops[a.M.Upd()[i]].Set(v)(s)
			}
		}
	} else {
		n := pick(rng, 0, 1, 3, 8, 20, 45)
		for i := 0; i < n; i++ {
			switch rng.Intn(5) {
			case 0, 1:
				s.WriteString(s.Var(dbgArg(g)))
			case 2:
				if rng.Intn(4) == 0 {
					var l []any
					for k := 0; k < pick(rng, 1, 2, 12); k++ {
						l = append(l, dbgArg(g))
					}
					s.WriteString(s.Vars(l))
					break
				}
				fallthrough
			default:
				s.WriteString(frag(g, f.D))
			}
			if rng.Intn(6) == 0 {
				s.WriteByte('\n')
			} else {
				s.WriteByte(' ')
			}
		}
	}
	c21judge(r, f, s, kind)
}

func c21judge(r *ev.Run, f *Flavour, s sequel.Stmt, kind string) {
	q := strings.Clone(s.Query())
	args := append([]any{}, s.Args()...)
	before := fmt.Sprintf("%#v", plain(args))
	key := kind + "/" + f.Name
	bad := func(format string, v ...any) {
		r.Violate(key, "%s: statement %q with %.600s: %s", f.Name, q, fmt.Sprintf("%#v", plain(args)), fmt.Sprintf(format, v...))
	}
	for _, verb := range []string{"%s", "%v"} {
		if got := fmt.Sprintf(verb, s); got != q {
			bad("%s shows %q", verb, got)
		}
	}
	want, err := minisql.Lex(f.D, q)
	if err != nil {
		panic(fmt.Sprintf("harness: statement of its own making: %v: %q", err, q))
	}
	r.Eval(key+q+before, len(args) > 0)
	r.Count("arguments", int64(len(args)))
	shown := map[string]bool{}
	for _, verb := range []string{"%+v", "%#v"} {
		got := fmt.Sprintf(verb, s)
		if strings.Contains(got, "%!") && strings.Contains(got, "PANIC") {
			bad("%s panics: %q", verb, got)
			continue
		}
		if shown[got] {
			continue
		}
		shown[got] = true
		if d := f.readBack(want, args, got); d != "" {
			bad("%s shows %q: %s", verb, got, d)
		}
	}
	for _, verb := range []string{"%d", "%q", "%x", "%5.2s", "%+s", "%#s", "% v", "%08v", "%T"} {
		if got := fmt.Sprintf(verb, s); strings.Contains(got, "PANIC") {
			bad("%s panics: %q", verb, got)
		}
	}
	if s.Query() != q {
		bad("rendering changed the text to %q", s.Query())
	}
	after := s.Args()
	if len(after) != len(args) || fmt.Sprintf("%#v", plain(after)) != before {
		bad("rendering changed the arguments to %#v", plain(after))
	}
	r.Sample(key, map[string]any{"text": q, "rendered": fmt.Sprintf("%+v", s)})
}

// plain follows pointers, so that arguments can be compared by what they hold.
func plain(l []any) []any {
	out := make([]any, len(l))
	for i, v := range l {
		rv := reflect.ValueOf(v)
		for rv.Kind() == reflect.Pointer && !rv.IsNil() {
			rv = rv.Elem()
		}
		if rv.Kind() == reflect.Pointer || !rv.IsValid() {
			out[i] = fmt.Sprintf("%T(nil)", v)
		} else if rv.CanInterface() {
			out[i] = fmt.Sprintf("%T:%#v", v, rv.Interface())
		}
	}
	return out
}

// readBack compares rendered text with the statement's tokens: the
// placeholders are literals of their arguments and nothing else differs.
func (f *Flavour) readBack(want []minisql.Token, args []any, got string) string {
	toks, err := minisql.Lex(f.D, got)
	if err != nil {
		return err.Error()
	}
	j := 0
	n := 0
	for _, w := range want {
		if w.Kind != minisql.TParam {
			if w.Kind == minisql.TEOF {
				continue
			}
			if j >= len(toks) || toks[j].Kind != w.Kind || toks[j].Raw != w.Raw {
				return fmt.Sprintf("%q is missing or changed", w.Raw)
			}
			j++
			continue
		}
		k := n
		if w.N > 0 {
			k = w.N - 1
		}
		n++
		if k >= len(args) {
			return "harness: placeholder without argument"
		}
		m, d := f.literal(toks[j:], args[k])
		if d != "" {
			return fmt.Sprintf("argument %d (%T): %s", k+1, args[k], d)
		}
		j += m
	}
	for ; j < len(toks); j++ {
		if toks[j].Kind != minisql.TEOF {
			return fmt.Sprintf("%q is more than the statement", toks[j].Raw)
		}
	}
	return ""
}

// literal says how many tokens the literal of an argument takes, and whether
// it denotes it.
func (f *Flavour) literal(toks []minisql.Token, arg any) (int, string) {
	if len(toks) == 0 {
		return 0, "nothing is shown"
	}
	v, err := f.convert(arg)
	t := toks[0]
	// the shapes a literal has
	n, num, str, word := 1, "", "", ""
	isStr := false
	switch {
	case t.Kind == minisql.TString:
		str, isStr = t.Str, true
	case t.Kind == minisql.TNumber:
		num = t.Raw
	case t.Kind == minisql.TOp && (t.Raw == "-" || t.Raw == "+") && len(toks) > 1 && toks[1].Kind == minisql.TNumber:
		num, n = t.Raw+toks[1].Raw, 2
	case t.Kind == minisql.TIdent && strings.EqualFold(t.Raw, "cast") && len(toks) > 5 && toks[1].Raw == "(" && toks[2].Kind == minisql.TString && toks[5].Raw == ")":
		str, isStr, n = toks[2].Str, true, 6
	case t.Kind == minisql.TIdent:
		word = strings.ToUpper(t.Raw)
	default:
		return 1, fmt.Sprintf("%q is no literal", t.Raw)
	}
	if isStr && len(toks) > n+1 && toks[n].Raw == "::" && toks[n+1].Kind == minisql.TIdent {
		n += 2
	}
	if err != nil {
		return n, "" // there is no value to denote
	}
	wrong := fmt.Sprintf("%.300q does not denote %.300v", t.Raw, ShowRow(Rec{v}))
	ok := false
	switch x := v.(type) {
	case nil:
		ok = word == "NULL"
	case bool:
		ok = word == "TRUE" && x || word == "FALSE" && !x || num == "1" && x || num == "0" && !x
	case int64:
		ok = num == strconv.FormatInt(x, 10)
	case uint64:
		ok = num == strconv.FormatUint(x, 10)
	case float64:
		txt := num
		if isStr {
			txt = str
		}
		if y, err := strconv.ParseFloat(txt, 64); err == nil && (isStr == (math.IsNaN(x) || math.IsInf(x, 0)) || isStr) {
			ok = y == x || math.IsNaN(x) && math.IsNaN(y)
		}
		if !isStr && (math.IsNaN(x) || math.IsInf(x, 0)) {
			ok = false
		}
	case string:
		ok = isStr && str == x
		if !utf8.ValidString(x) {
			ok = true
		}
	case minisql.Blob:
		ok = isStr && str == string(x)
		if isStr && f.D == minisql.Postgres && strings.HasPrefix(str, `\x`) {
			if b, err := hex.DecodeString(str[2:]); err == nil && string(b) == string(x) {
				ok = true
			}
		}
	case time.Time:
		for _, l := range []string{"2006-01-02 15:04:05.999999999-07:00", time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00"} {
			if y, err := time.Parse(l, str); isStr && err == nil && y.Equal(x) {
				ok = true
			}
		}
	default:
		ok = true
	}
	if !ok {
		return n, wrong
	}
	return n, ""
}

// convert gives the value the driver receives for an argument.
func (f *Flavour) convert(arg any) (v minisql.Value, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	if x := reflect.ValueOf(arg); x.IsValid() && x.CanUint() {
		if _, ok := arg.(driver.Valuer); !ok && x.Uint() > math.MaxInt64 {
			return x.Uint(), nil
		}
	}
	d, err := driver.DefaultParameterConverter.ConvertValue(arg)
	if err != nil {
		return nil, err
	}
	return minisql.Bind(d)
}
