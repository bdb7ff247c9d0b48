package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"

	"verif/harness/ev"
)

var errMalformed = errors.New("malformed array literal")

// pgArrayIn reads an array literal the way PostgreSQL's array_in reads a
// one-dimensional array with default bounds. Elements are nil for NULL.
func pgArrayIn(s string) ([]*string, error) {
	i := 0
	ws := func() {
		for i < len(s) && strings.IndexByte(" \t\n\r\v\f", s[i]) >= 0 {
			i++
		}
	}
	ws()
	if i >= len(s) || s[i] != '{' {
		return nil, errMalformed
	}
	i++
	out := []*string{}
	ws()
	if i < len(s) && s[i] == '}' {
		i++
		ws()
		if i != len(s) {
			return nil, errMalformed
		}
		return out, nil
	}
	for {
		ws()
		if i >= len(s) {
			return nil, errMalformed
		}
		var b []byte
		quoted := false
		if s[i] == '"' {
			quoted = true
			i++
			closed := false
			for i < len(s) {
				if s[i] == '\\' {
					if i+1 >= len(s) {
						return nil, errMalformed
					}
					b = append(b, s[i+1])
					i += 2
				} else if s[i] == '"' {
					i++
					closed = true
					break
				} else {
					b = append(b, s[i])
					i++
				}
			}
			if !closed {
				return nil, errMalformed
			}
		} else {
			trail := 0
			for i < len(s) && s[i] != ',' && s[i] != '}' {
				switch {
				case s[i] == '"' || s[i] == '{':
					return nil, errMalformed
				case s[i] == '\\':
					if i+1 >= len(s) {
						return nil, errMalformed
					}
					b = append(b, s[i+1])
					i += 2
					trail = len(b)
				default:
					b = append(b, s[i])
					if strings.IndexByte(" \t\n\r\v\f", s[i]) < 0 {
						trail = len(b)
					}
					i++
				}
			}
			b = b[:trail]
			if len(b) == 0 {
				return nil, errMalformed
			}
		}
		ws()
		if i >= len(s) {
			return nil, errMalformed
		}
		if !quoted && strings.EqualFold(string(b), "NULL") {
			out = append(out, nil)
		} else {
			e := string(b)
			out = append(out, &e)
		}
		switch s[i] {
		case ',':
			i++
		case '}':
			i++
			ws()
			if i != len(s) {
				return nil, errMalformed
			}
			return out, nil
		default:
			return nil, errMalformed
		}
	}
}

// pgArrayOut prints elements the way PostgreSQL's array_out does.
func pgArrayOut(es []*string) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, e := range es {
		if i > 0 {
			b.WriteByte(',')
		}
		if e == nil {
			b.WriteString("NULL")
			continue
		}
		need := *e == "" || strings.EqualFold(*e, "NULL") || strings.ContainsAny(*e, "{}\",\\ \t\n\r\v\f")
		if !need {
			b.WriteString(*e)
			continue
		}
		b.WriteByte('"')
		for j := 0; j < len(*e); j++ {
			if (*e)[j] == '"' || (*e)[j] == '\\' {
				b.WriteByte('\\')
			}
			b.WriteByte((*e)[j])
		}
		b.WriteByte('"')
	}
	b.WriteByte('}')
	return b.String()
}

// lenientArray is the loosest reading the check tolerates for literals that
// PostgreSQL would not send: raw unquoted runs, spaces kept.
func lenientArray(s string) ([]*string, bool) {
	if len(s) < 2 || s[0] != '{' {
		return nil, false
	}
	if strings.Trim(s, "{}") == "" && strings.Count(s, "{")*2 == len(s) && strings.HasPrefix(s, strings.Repeat("{", len(s)/2)) {
		return nil, true
	}
	i := 1
	var out []*string
	for {
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '"' {
			i++
			var b []byte
			for {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '\\' {
					if i+1 >= len(s) {
						return nil, false
					}
					b = append(b, s[i+1])
					i += 2
					continue
				}
				if s[i] == '"' {
					i++
					break
				}
				b = append(b, s[i])
				i++
			}
			e := string(b)
			out = append(out, &e)
		} else {
			if s[i] == '{' {
				return nil, false
			}
			st := i
			for i < len(s) && s[i] != ',' && s[i] != '}' {
				i++
			}
			if i == st || i >= len(s) {
				return nil, false
			}
			e := s[st:i]
			if e == "NULL" {
				out = append(out, nil)
			} else {
				out = append(out, &e)
			}
		}
		if i >= len(s) {
			return nil, false
		}
		if s[i] == ',' {
			i++
			continue
		}
		if s[i] == '}' && i == len(s)-1 {
			return out, true
		}
		return nil, false
	}
}

// listType is a slice column codec under test. Elements are handled in their
// canonical text form.
type listType struct {
	name string
	// value encodes the slice given as canonical texts; nil slice when es==nil
	value func(es []string) (driver.Value, error)
	// scan decodes into a variable (pre-filled when junk) and returns canonical texts
	scan func(src any, junk bool) (es []string, isNil bool, err error)
	// elem says what an element text means: canonical text, or not an element
	elem func(s string) (string, bool)
	gen  func(rng *rand.Rand) string
	bad  []string // element texts that must be refused
}

func mkList[T any](name string, parse func(string) (T, error), format func(T) string, val func([]T) driver.Valuer, sc func(*[]T) sql.Scanner, gen func(*rand.Rand) string, bad ...string) listType {
	return listType{name: name,
		value: func(es []string) (driver.Value, error) {
			var l []T
			if es != nil {
				l = make([]T, len(es))
				for i, e := range es {
					v, err := parse(e)
					if err != nil {
						panic("harness: bad canonical element " + e)
					}
					l[i] = v
				}
			}
			return val(l).Value()
		},
		scan: func(src any, junk bool) ([]string, bool, error) {
			var l []T
			if junk {
				v, err := parse(gen(rand.New(rand.NewSource(5))))
				if err != nil {
					panic("harness: " + err.Error())
				}
				l = []T{v, v}
			}
			if err := sc(&l).Scan(src); err != nil {
				return nil, false, err
			}
			es := []string{}
			for _, v := range l {
				es = append(es, format(v))
			}
			return es, l == nil, nil
		},
		elem: func(s string) (string, bool) {
			v, err := parse(s)
			if err != nil {
				return "", false
			}
			return format(v), true
		},
		gen: gen, bad: bad}
}

var nasty = []string{"", " ", "a", "NULL", "null", "Null", "{", "}", "{}", ",", "\"", "\\", "\\\"", "a,b", "a b", "\t", "\n", "日本語", "🥳", "\u0000", "\x7f", "\x01", "'", "$1", "?", "true", "1", "[", "]", "[]", "/", "\u2028", "<a&b>", "\v", "\r\n", "%s", "\\x00", "\\u0041", "a\\nb", "\u00e9", "trailing ", " leading"}

func init() {
	for c := range 0x20 {
		nasty = append(nasty, string(rune(c)), "x"+string(rune(c))+"y")
	}
}

func genStr(rng *rand.Rand) string {
	if rng.Intn(2) == 0 {
		return nasty[rng.Intn(len(nasty))]
	}
	var b strings.Builder
	for n := rng.Intn(6); n > 0; n-- {
		b.WriteString(nasty[rng.Intn(len(nasty))])
	}
	return b.String()
}

func genInt(bits int) func(*rand.Rand) string {
	return func(rng *rand.Rand) string {
		switch rng.Intn(6) {
		case 0:
			return strconv.FormatInt(-1<<(bits-1), 10)
		case 1:
			return strconv.FormatInt(1<<(bits-1)-1, 10)
		}
		return strconv.FormatInt(int64(rng.Uint64())>>(64-bits)>>uint(rng.Intn(bits)), 10)
	}
}

func genUint(bits int) func(*rand.Rand) string {
	return func(rng *rand.Rand) string {
		if rng.Intn(5) == 0 {
			return strconv.FormatUint(math.MaxUint64>>(64-bits), 10)
		}
		return strconv.FormatUint(rng.Uint64()>>(64-bits)>>uint(rng.Intn(bits)), 10)
	}
}

func genFloat(bits int, special bool) func(*rand.Rand) string {
	return func(rng *rand.Rand) string {
		var f float64
		switch rng.Intn(6) {
		case 0:
			if special {
				f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[rng.Intn(3)]
			} else if bits == 32 {
				f = math.MaxFloat32
			} else {
				f = math.MaxFloat64
			}
		case 1:
			f = math.Copysign(0, -1)
		case 2:
			if bits == 32 {
				f = math.SmallestNonzeroFloat32
			} else {
				f = math.SmallestNonzeroFloat64
			}
		default:
			for {
				if bits == 32 {
					f = float64(math.Float32frombits(rng.Uint32()))
				} else {
					f = math.Float64frombits(rng.Uint64())
				}
				if !math.IsNaN(f) && !math.IsInf(f, 0) {
					break
				}
			}
			if rng.Intn(2) == 0 {
				f = float64(rng.Intn(2000)-1000) / 8
			}
		}
		return strconv.FormatFloat(f, 'g', -1, bits)
	}
}

func pInt[T ~int | ~int8 | ~int16 | ~int32 | ~int64](bits int) (func(string) (T, error), func(T) string) {
	return func(s string) (T, error) { v, err := strconv.ParseInt(s, 10, bits); return T(v), err }, func(v T) string { return strconv.FormatInt(int64(v), 10) }
}
func pUint[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](bits int) (func(string) (T, error), func(T) string) {
	return func(s string) (T, error) { v, err := strconv.ParseUint(s, 10, bits); return T(v), err }, func(v T) string { return strconv.FormatUint(uint64(v), 10) }
}
func pFloat[T ~float32 | ~float64](bits int) (func(string) (T, error), func(T) string) {
	return func(s string) (T, error) { v, err := strconv.ParseFloat(s, bits); return T(v), err }, func(v T) string { return strconv.FormatFloat(float64(v), 'g', -1, bits) }
}

func pgInt[T ~int | ~int8 | ~int16 | ~int32 | ~int64, A interface {
	~[]T
	driver.Valuer
}](name string, bits int, sc func(*[]T) sql.Scanner) listType {
	p, f := pInt[T](bits)
	over := "9223372036854775808"
	under := "-9223372036854775809"
	if bits < 64 {
		over = strconv.FormatInt(1<<(bits-1), 10)
		under = strconv.FormatInt(-1<<(bits-1)-1, 10)
	}
	return mkList(name, p, f, func(l []T) driver.Valuer { return A(l) }, sc, genInt(bits), over, under, "1.5", "a", "1e3", "99999999999999999999", "0x1", "")
}
func pgUint[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64, A interface {
	~[]T
	driver.Valuer
}](name string, bits int, sc func(*[]T) sql.Scanner) listType {
	p, f := pUint[T](bits)
	over := "18446744073709551616"
	if bits < 64 {
		over = strconv.FormatUint(1<<bits, 10)
	}
	return mkList(name, p, f, func(l []T) driver.Valuer { return A(l) }, sc, genUint(bits), over, "-1", "-128", "1.5", "a", "99999999999999999999", "")
}
func pgFloat[T ~float32 | ~float64, A interface {
	~[]T
	driver.Valuer
}](name string, bits int, special bool, sc func(*[]T) sql.Scanner) listType {
	p, f := pFloat[T](bits)
	over := "1e400"
	if bits == 32 {
		over = "1e39"
	}
	return mkList(name, p, f, func(l []T) driver.Valuer { return A(l) }, sc, genFloat(bits, special), over, "-"+over, "a", "1.2.3", "--1", "")
}

func pgLists() []listType {
	boolP := func(s string) (bool, error) {
		switch s {
		case "t":
			return true, nil
		case "f":
			return false, nil
		}
		return false, errMalformed
	}
	boolF := func(b bool) string {
		if b {
			return "t"
		}
		return "f"
	}
	genBool := func(r *rand.Rand) string { return []string{"t", "f"}[r.Intn(2)] }
	id := func(s string) (string, error) { return s, nil }
	ids := func(s string) string { return s }
	byP := func(s string) ([]byte, error) {
		if strings.HasPrefix(s, `\x`) {
			return hex.DecodeString(s[2:])
		}
		var out []byte
		for i := 0; i < len(s); {
			if s[i] != '\\' {
				out = append(out, s[i])
				i++
				continue
			}
			if i+1 < len(s) && s[i+1] == '\\' {
				out = append(out, '\\')
				i += 2
				continue
			}
			if i+4 > len(s) {
				return nil, errMalformed
			}
			n, err := strconv.ParseUint(s[i+1:i+4], 8, 8)
			if err != nil {
				return nil, err
			}
			out = append(out, byte(n))
			i += 4
		}
		return out, nil
	}
	byF := func(b []byte) string { return `\x` + hex.EncodeToString(b) }
	genBy := func(r *rand.Rand) string {
		b := make([]byte, r.Intn(6))
		r.Read(b)
		return byF(b)
	}
	return []listType{
		mkList("StringArray", id, ids, func(l []string) driver.Valuer { return pgtype.StringArray[string](l) }, func(l *[]string) sql.Scanner { return (*pgtype.StringArray[string])(l) }, genStr),
		mkList("StringArray/named", func(s string) (nStr, error) { return nStr(s), nil }, func(s nStr) string { return string(s) }, func(l []nStr) driver.Valuer { return pgtype.StringArray[nStr](l) }, func(l *[]nStr) sql.Scanner { return (*pgtype.StringArray[nStr])(l) }, genStr),
		mkList("ByteaArray", byP, byF, func(l [][]byte) driver.Valuer { return pgtype.ByteaArray[[]byte](l) }, func(l *[][]byte) sql.Scanner { return (*pgtype.ByteaArray[[]byte])(l) }, genBy, `\xf`, `\xzz`, `\9`, `\400`, `\`, `a\12`),
		mkList("BoolArray", boolP, boolF, func(l []bool) driver.Valuer { return pgtype.BoolArray[bool](l) }, func(l *[]bool) sql.Scanner { return (*pgtype.BoolArray[bool])(l) }, genBool, "x", "tt", "", "1x"),
		pgInt[int, pgtype.IntArray[int]]("IntArray", 64, func(l *[]int) sql.Scanner { return (*pgtype.IntArray[int])(l) }),
		pgInt[int8, pgtype.Int8Array[int8]]("Int8Array", 8, func(l *[]int8) sql.Scanner { return (*pgtype.Int8Array[int8])(l) }),
		pgInt[int16, pgtype.Int16Array[int16]]("Int16Array", 16, func(l *[]int16) sql.Scanner { return (*pgtype.Int16Array[int16])(l) }),
		pgInt[int32, pgtype.Int32Array[int32]]("Int32Array", 32, func(l *[]int32) sql.Scanner { return (*pgtype.Int32Array[int32])(l) }),
		pgInt[int64, pgtype.Int64Array[int64]]("Int64Array", 64, func(l *[]int64) sql.Scanner { return (*pgtype.Int64Array[int64])(l) }),
		pgInt[nInt8, pgtype.Int8Array[nInt8]]("Int8Array/named", 8, func(l *[]nInt8) sql.Scanner { return (*pgtype.Int8Array[nInt8])(l) }),
		pgUint[uint, pgtype.UintArray[uint]]("UintArray", 64, func(l *[]uint) sql.Scanner { return (*pgtype.UintArray[uint])(l) }),
		pgUint[uint8, pgtype.Uint8Array[uint8]]("Uint8Array", 8, func(l *[]uint8) sql.Scanner { return (*pgtype.Uint8Array[uint8])(l) }),
		pgUint[uint16, pgtype.Uint16Array[uint16]]("Uint16Array", 16, func(l *[]uint16) sql.Scanner { return (*pgtype.Uint16Array[uint16])(l) }),
		pgUint[uint32, pgtype.Uint32Array[uint32]]("Uint32Array", 32, func(l *[]uint32) sql.Scanner { return (*pgtype.Uint32Array[uint32])(l) }),
		pgUint[uint64, pgtype.Uint64Array[uint64]]("Uint64Array", 64, func(l *[]uint64) sql.Scanner { return (*pgtype.Uint64Array[uint64])(l) }),
		pgUint[nUint16, pgtype.Uint16Array[nUint16]]("Uint16Array/named", 16, func(l *[]nUint16) sql.Scanner { return (*pgtype.Uint16Array[nUint16])(l) }),
		pgFloat[float32, pgtype.Float32Array[float32]]("Float32Array", 32, true, func(l *[]float32) sql.Scanner { return (*pgtype.Float32Array[float32])(l) }),
		pgFloat[float64, pgtype.Float64Array[float64]]("Float64Array", 64, true, func(l *[]float64) sql.Scanner { return (*pgtype.Float64Array[float64])(l) }),
	}
}

func genList(rng *rand.Rand, gen func(*rand.Rand) string) []string {
	switch rng.Intn(12) {
	case 0:
		return nil
	case 1:
		return []string{}
	}
	l := make([]string, 1+rng.Intn(4))
	if rng.Intn(20) == 0 {
		l = make([]string, 50+rng.Intn(100))
	}
	for i := range l {
		l[i] = gen(rng)
	}
	return l
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func asSrc(rng *rand.Rand, s string) any {
	if rng.Intn(2) == 0 {
		return s
	}
	return []byte(s)
}

func c03(r *ev.Run) {
	r.Rule = "every pgtype array type x random slices of hostile elements: Value judged by an independent array_in, Scan judged on an independent array_out, plus out-of-type elements, NULLs, truncations and random byte mutations; non-trivial = distinct (type, literal) judged"
	r.Assume = []string{"the harness' array_in/array_out follow the PostgreSQL array text format for one-dimensional default-bound arrays"}
	for _, t := range pgLists() {
		rng := r.Rand(t.name)
		for n := 0; n < r.N(1500, 60000); n++ {
			l := genList(rng, t.gen)
			desc := fmt.Sprintf("%s %s", t.name, short(l))
			var v driver.Value
			if !r.Guard("encode/"+t.name, desc, func() {
				var err error
				v, err = t.value(l)
				if err != nil {
					r.Violate("encode/"+t.name, "%s: Value fails: %v", desc, err)
				}
			}) {
				continue
			}
			hold(r, "encode/"+t.name, desc, v)
			r.Eval("enc:"+desc, true)
			if l == nil {
				if v != nil {
					r.Violate("encode/"+t.name, "%s: nil slice encoded as %v instead of NULL", desc, v)
				}
			} else {
				s, ok := asText(v)
				if !ok {
					r.Violate("encode/"+t.name, "%s: encoded as %T", desc, v)
					continue
				}
				es, err := pgArrayIn(s)
				if err != nil || !eqElems(t, es, l) {
					r.Violate("encode/"+t.name, "%s: encoded as %q which PostgreSQL reads as %v (%v)", desc, s, deref(es), err)
				}
				back(r, t, "roundtrip/"+t.name, desc, asSrc(rng, s), n%2 == 0, l)
				r.Sample("encode "+t.name, map[string]any{"slice": short(l), "literal": s})
			}
			// decode what array_out prints
			if l != nil {
				es := make([]*string, len(l))
				for i := range l {
					es[i] = &l[i]
				}
				lit := pgArrayOut(es)
				back(r, t, "decode/"+t.name, fmt.Sprintf("%s literal %q", t.name, clip(lit)), asSrc(rng, lit), n%2 == 1, l)
				// quoted spelling of every element
				q := quoteAll(l)
				back(r, t, "decode/"+t.name, fmt.Sprintf("%s literal %q", t.name, clip(q)), asSrc(rng, q), n%2 == 0, l)
				if t.name == "ByteaArray" {
					// what the server sends with bytea_output = escape
					esc := make([]*string, len(l))
					for i := range l {
						e := escapeBytea(l[i])
						esc[i] = &e
					}
					lit := pgArrayOut(esc)
					back(r, t, "decode/"+t.name, fmt.Sprintf("%s literal %q", t.name, clip(lit)), asSrc(rng, lit), n%2 == 1, l)
				}
				// one bad element
				if len(t.bad) > 0 {
					b := t.bad[rng.Intn(len(t.bad))]
					bl := append([]*string{}, es...)
					bl = append(bl, &b)
					k := rng.Intn(len(bl))
					bl[k], bl[len(bl)-1] = bl[len(bl)-1], bl[k]
					refuse(r, t, "badelem/"+t.name, asSrc(rng, pgArrayOut(bl)), "element "+strconv.Quote(b)+" does not fit")
				}
				if t.name != "ByteaArray" {
					bl := append([]*string{}, es...)
					bl = append(bl, nil)
					k := rng.Intn(len(bl))
					bl[k], bl[len(bl)-1] = bl[len(bl)-1], bl[k]
					refuse(r, t, "nullelem/"+t.name, asSrc(rng, pgArrayOut(bl)), "a NULL element does not fit")
				}
				// truncation, nesting, bounds
				lit2 := lit[:rng.Intn(len(lit))]
				refuse(r, t, "truncated/"+t.name, asSrc(rng, lit2), "cut short")
				refuse(r, t, "multidim/"+t.name, asSrc(rng, nest(lit, len(l))), "two-dimensional")
				refuse(r, t, "bounds/"+t.name, asSrc(rng, fmt.Sprintf("[2:%d]=%s", len(l)+1, lit)), "explicit bounds")
				refuse(r, t, "trailing/"+t.name, asSrc(rng, lit+string("}, x{"[rng.Intn(5)])), "trailing bytes")
				mutate(r, t, rng, lit)
			}
		}
		for _, v := range []any{int64(1), 1.5, true} {
			refuse(r, t, "kind/"+t.name, v, "not text")
		}
		r.Guard("null/"+t.name, t.name+" NULL", func() {
			es, isNil, err := t.scan(nil, true)
			r.Eval("null:"+t.name, true)
			if err != nil || !isNil || len(es) != 0 {
				r.Violate("null/"+t.name, "%s: NULL gives %v (nil=%v, err=%v)", t.name, es, isNil, err)
			}
		})
	}
}

// escapeBytea spells a bytea given in hex format in escape format.
func escapeBytea(h string) string {
	b, err := hex.DecodeString(strings.TrimPrefix(h, `\x`))
	if err != nil {
		panic(err)
	}
	var s strings.Builder
	for _, c := range b {
		switch {
		case c == '\\':
			s.WriteString(`\\`)
		case c < 0x20 || c > 0x7e:
			fmt.Fprintf(&s, `\%03o`, c)
		default:
			s.WriteByte(c)
		}
	}
	return s.String()
}

func asText(v driver.Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	}
	return "", false
}

func quoteAll(l []string) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, e := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(e) + `"`)
	}
	b.WriteByte('}')
	return b.String()
}

func nest(lit string, n int) string {
	if n == 0 {
		return "{{1},{2}}"
	}
	return "{" + lit + "," + lit + "}"
}

func eqElems(t listType, es []*string, l []string) bool {
	if len(es) != len(l) {
		return false
	}
	for i := range es {
		if es[i] == nil {
			return false
		}
		c, ok := t.elem(*es[i])
		if !ok || c != l[i] {
			return false
		}
	}
	return true
}

func deref(es []*string) []string {
	var o []string
	for _, e := range es {
		if e == nil {
			o = append(o, "NULL")
		} else {
			o = append(o, strconv.Quote(*e))
		}
	}
	return o
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func short(l []string) string {
	if l == nil {
		return "nil"
	}
	return clip(fmt.Sprintf("%q", l))
}

func back(r *ev.Run, t listType, key, desc string, src any, junk bool, want []string) {
	r.Guard(key, desc, func() {
		es, isNil, err := t.scan(src, junk)
		r.Eval(desc, true)
		if err != nil {
			r.Violate(key, "%s: Scan fails: %v", desc, err)
			return
		}
		if !eqStr(es, want) || isNil {
			r.Violate(key, "%s: Scan gives %s (nil=%v), want %s", desc, short(es), isNil, short(want))
		}
	})
}

func refuse(r *ev.Run, t listType, key string, src any, why string) {
	desc := fmt.Sprintf("%s literal %v", t.name, show(src))
	if len(desc) > 300 {
		desc = desc[:300] + "…"
	}
	r.Guard(key, desc, func() {
		es, _, err := t.scan(src, false)
		r.Eval(desc, true)
		if err == nil {
			r.Violate(key, "%s (%s): accepted as %s", desc, why, short(es))
		}
	})
}

func mutate(r *ev.Run, t listType, rng *rand.Rand, lit string) {
	b := []byte(lit)
	if rng.Intn(3) == 0 {
		b = []byte("{" + lit)
		for i := range b {
			b[i] = "{}\",\\ tfNUL01-9a\x00"[rng.Intn(17)]
		}
		b[0] = '{'
		if len(b) > 12 {
			b = b[:12]
		}
	} else {
		for k := 1 + rng.Intn(2); k > 0 && len(b) > 1; k-- {
			p := rng.Intn(len(b))
			switch rng.Intn(3) {
			case 0:
				b = append(b[:p], b[p+1:]...)
			case 1:
				b[p] = "{}\",\\ N0"[rng.Intn(8)]
			default:
				b = append(b[:p], append([]byte{"{}\",\\ N0"[rng.Intn(8)]}, b[p:]...)...)
			}
		}
	}
	s := string(b)
	desc := fmt.Sprintf("%s literal %q", t.name, clip(s))
	key := "mutated/" + t.name
	strict, serr := pgArrayIn(s)
	len1, lok := lenientArray(s)
	r.Guard(key, desc, func() {
		es, _, err := t.scan(asSrc(rng, s), false)
		r.Eval(desc, true)
		if err != nil {
			return
		}
		if serr == nil && matches(t, strict, es) {
			return
		}
		if lok && matches(t, len1, es) {
			return
		}
		r.Violate(key, "%s: accepted as %s, but reads as %v (err=%v)", desc, short(es), deref(strict), serr)
	})
}

func matches(t listType, es []*string, got []string) bool {
	if len(es) != len(got) {
		return false
	}
	for i, e := range es {
		if e == nil {
			if t.name == "ByteaArray" && got[i] == `\x` {
				continue
			}
			return false
		}
		c, ok := t.elem(*e)
		if !ok || c != got[i] {
			return false
		}
	}
	return true
}
