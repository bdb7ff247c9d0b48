package rt

import (
	"bytes"
	"database/sql/driver"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/harness/minisql"
	"verif/harness/mt"
	"verif/harness/spec"
)

// G generates field values.
type G struct {
	R *rand.Rand
	D minisql.Dialect
	// Small draws from few values, so that rows share them.
	Small bool
	// NoNil never leaves a pointer nil.
	NoNil bool
	// Plain avoids values whose SQL order differs from their Go order.
	Plain bool
}

var timeType = reflect.TypeFor[time.Time]()

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var nasty = []string{"", "a", "b", "A", "zz", "it's", `"q"`, "`b`", "?", "$1", "a?b", "%", "a%b", "_x", "-- c", "/* c */", "; DROP TABLE x", `back\slash`, `\`, "{}", "{a,b}", "NULL", "null", "true", "0", "1", " ", " lead", "trail ", "tab\tnl\ncr\r", "é", "日本語", "😀", "a,b", "\u2028", "\u00a0", "A1", "[1]", "{\"a\":1}", "\x01\x1f\x7f", "\x1a"}

var smallStr = []string{"a", "b", "B", "c", "ab", "it's", "é", "?"}

// Str makes a valid UTF-8 text without NUL.
func (g *G) Str() string {
	if g.Small {
		return pick(g.R, smallStr...)
	}
	switch g.R.Intn(10) {
	case 0:
		n := g.R.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(g.Rune())
		}
		return b.String()
	case 1:
		return pick(g.R, nasty...) + pick(g.R, nasty...)
	case 2:
		return strings.Repeat(pick(g.R, nasty...), g.R.Intn(40))
	}
	return pick(g.R, nasty...)
}

// Rune makes a valid rune but NUL.
func (g *G) Rune() rune {
	for {
		r := pick(g.R, rune(1+g.R.Intn(127)), rune(g.R.Intn(0x110000)), 'é', '日', '😀', '\'', '\\', '"', '?', '$', 0x10ffff, 0xfffd, 0xff, 0x80)
		if r != 0 && utf8.ValidRune(r) {
			return r
		}
	}
}

func (g *G) bytes() []byte {
	n := pick(g.R, 0, 1, 2, 3, 16, 40)
	b := make([]byte, n)
	g.R.Read(b)
	if g.R.Intn(3) == 0 {
		b = []byte(g.Str())
	}
	return b
}

func (g *G) time() time.Time {
	if g.Small {
		return time.Date(2020, 1, 1, 0, 0, g.R.Intn(5), 0, time.UTC)
	}
	t := pick(g.R,
		time.Time{},
		time.Unix(0, 0),
		time.Date(2024, 2, 29, 23, 59, 59, 999999000, time.UTC),
		time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC),
		time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
		time.UnixMicro(g.R.Int63n(4e15)),
	)
	if g.R.Intn(3) == 0 && t.Year() > 1 && t.Year() < 9999 {
		t = t.In(time.FixedZone("", (g.R.Intn(27)-13)*3600+pick(g.R, 0, 1800)))
	}
	return t.Round(0)
}

func (g *G) int(bits int) int64 {
	if g.Small {
		return int64(g.R.Intn(6)) - 2
	}
	max := int64(1)<<(bits-1) - 1
	switch g.R.Intn(6) {
	case 0:
		return max
	case 1:
		return -max - 1
	case 2:
		return 0
	case 3:
		return int64(g.R.Intn(200)) - 100
	}
	v := int64(g.R.Uint64())
	return v >> (64 - bits) >> uint(g.R.Intn(bits))
}

func (g *G) uint(bits int) uint64 {
	if g.Small {
		return uint64(g.R.Intn(6))
	}
	max := uint64(math.MaxUint64) >> (64 - bits)
	if g.Plain && bits == 64 {
		max >>= 1
	}
	switch g.R.Intn(6) {
	case 0:
		return max
	case 1:
		return max>>1 + max&1&uint64(g.R.Intn(2))
	case 2:
		return 0
	case 3:
		return uint64(g.R.Intn(200)) & max
	}
	return (g.R.Uint64() & max) >> uint(g.R.Intn(bits))
}

func (g *G) float(bits int) float64 {
	if g.Small {
		return float64(g.R.Intn(7)-2) / 2
	}
	var f float64
	switch g.R.Intn(8) {
	case 0:
		f = 0
	case 1:
		f = pick(g.R, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, -0.1, 1e21, 1e-7, 16777217, 9007199254740993)
	case 2:
		f = pick(g.R, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e308, 0.30000000000000004)
	case 3:
		if g.D == minisql.Postgres && !g.Plain {
			f = pick(g.R, math.Inf(1), math.Inf(-1), math.NaN())
		}
	case 4:
		f = float64(g.R.Intn(2000)-1000) / 8
	default:
		f = g.R.NormFloat64() * math.Pow(10, float64(g.R.Intn(60)-30))
	}
	if bits == 32 {
		if math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0) {
			f = 1
		}
		return float64(float32(f))
	}
	return f
}

// Set fills v, a field of catalogue type t.
func (g *G) Set(t *spec.Type, v reflect.Value) {
	if t.Ptr {
		if !g.NoNil && g.R.Intn(4) == 0 {
			v.SetZero()
			return
		}
		u := *t
		u.Ptr = false
		for i := 0; ; i++ {
			p := reflect.New(v.Type().Elem())
			g.Set(&u, p.Elem())
			// a pointer to something that is itself NULL cannot be told from nil
			if s, err := Enc(&u, g.D, p.Elem()); (err != nil || !nullish(s)) && !emptyBytes(p.Elem()) {
				v.Set(p)
				return
			}
			if i > 1000 {
				panic("rt: no non-null value of " + t.Key)
			}
		}
	}
	g.fill(t, v)
}

func emptyBytes(v reflect.Value) bool {
	return v.Kind() == reflect.Slice && v.IsNil()
}

func nullish(v minisql.Value) bool {
	if v == nil {
		return true
	}
	s, ok := v.(string)
	return ok && strings.TrimSpace(s) == "null"
}

func (g *G) fill(t *spec.Type, v reflect.Value) {
	switch t.Class {
	case spec.CInt:
		if v.Type() == reflect.TypeFor[time.Month]() && g.R.Intn(2) == 0 {
			v.SetInt(int64(1 + g.R.Intn(12)))
			return
		}
		v.SetInt(g.int(v.Type().Bits()))
	case spec.CUint, spec.CUint64:
		n := g.uint(v.Type().Bits())
		if g.D == minisql.SQLite && n > math.MaxInt64 {
			n >>= 1
		}
		v.SetUint(n)
	case spec.CFloat:
		v.SetFloat(g.float(v.Type().Bits()))
	case spec.CBool:
		v.SetBool(g.R.Intn(2) == 0)
	case spec.CString:
		v.SetString(g.Str())
	case spec.CRune:
		v.SetInt(int64(g.Rune()))
	case spec.CRuneA:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetInt(int64(g.Rune()))
		}
	case spec.CBytes:
		if g.R.Intn(5) == 0 {
			v.SetZero()
			return
		}
		v.SetBytes(g.bytes())
	case spec.CByteA:
		b := make([]byte, v.Len())
		if g.R.Intn(5) > 0 {
			g.R.Read(b)
		}
		for i := range b {
			v.Index(i).SetUint(uint64(b[i]))
		}
	case spec.CTime:
		v.Set(reflect.ValueOf(g.time()))
	case spec.CRaw:
		v.SetBytes([]byte(pick(g.R, `{}`, `[]`, `{"a":1}`, `[1,2,"x"]`, `"s"`, `12.5`, `true`, `{"b":{"c":[null]}}`, `"日本 ' \" ? $1"`)))
	case spec.CText:
		switch p := v.Addr().Interface().(type) {
		case *mt.Txt:
			g.R.Read(p.B[:])
		case *netip.Addr:
			switch g.R.Intn(4) {
			case 0:
				*p = netip.Addr{}
			case 1:
				*p = netip.MustParseAddr("fe80::1%eth0")
			default:
				var b [16]byte
				g.R.Read(b[:])
				*p = netip.AddrFrom16(b)
				if g.R.Intn(2) == 0 {
					*p = netip.AddrFrom4([4]byte(b[:4]))
				}
			}
		default:
			panic(fmt.Sprintf("rt: text type %T", p))
		}
	case spec.CValuer:
		v.Addr().Interface().(*mt.Scn).A = g.int(64)
	case spec.CNull:
		ok := g.NoNil || g.R.Intn(4) > 0
		v.FieldByName("Valid").SetBool(ok)
		if !ok {
			return
		}
		f := v.Field(0)
		switch f.Kind() {
		case reflect.String:
			f.SetString(g.Str())
		case reflect.Int64:
			f.SetInt(g.int(64))
		case reflect.Bool:
			f.SetBool(g.R.Intn(2) == 0)
		case reflect.Float64:
			f.SetFloat(g.float(64))
		default:
			f.Set(reflect.ValueOf(g.time()))
		}
	case spec.CList, spec.CListA:
		if v.Kind() == reflect.Slice {
			switch g.R.Intn(5) {
			case 0:
				v.SetZero()
				return
			case 1:
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
				return
			}
			v.Set(reflect.MakeSlice(v.Type(), 1+g.R.Intn(4), 6))
		}
		for i := 0; i < v.Len(); i++ {
			g.elem(v.Index(i))
		}
	case spec.CRuneS:
		if g.R.Intn(4) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), g.R.Intn(5), 5))
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetInt(int64(g.Rune()))
		}
	case spec.CByteL:
		if g.R.Intn(4) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), g.R.Intn(4), 5))
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetBytes(g.bytes())
		}
	case spec.CCent:
		v.SetInt(g.int(64))
	case spec.CVault:
		v.SetString(g.Str())
	case spec.CMicro:
		v.Set(reflect.ValueOf(time.UnixMicro(g.R.Int63n(4e15) - 1e15).UTC()))
	case spec.CPoint:
		v.Set(reflect.ValueOf(mt.Point{X: int32(g.int(32)), Y: int32(g.int(32))}))
	case spec.CJSON:
		g.json(v, 0)
	default:
		panic("rt: class " + string(t.Class))
	}
}

func (g *G) elem(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Bool:
		v.SetBool(g.R.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int(v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := g.uint(v.Type().Bits())
		if g.D == minisql.Postgres && n > math.MaxInt64 {
			n >>= 1 // no PostgreSQL array element type holds it
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.float(v.Type().Bits()))
	default:
		panic("rt: element " + v.Type().String())
	}
}

// json fills v with something JSON tells apart from everything else.
func (g *G) json(v reflect.Value, depth int) {
	if v.Type() == timeType {
		v.Set(reflect.ValueOf(g.time().UTC()))
		return
	}
	if p, ok := v.Addr().Interface().(*mt.Txt); ok {
		g.R.Read(p.B[:])
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if g.R.Intn(3) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.json(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.json(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if g.R.Intn(4) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), g.R.Intn(4), 4))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.json(v.Index(i), depth+1)
		}
	case reflect.Map:
		if g.R.Intn(4) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := g.R.Intn(4); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.json(k, depth+1)
			g.json(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		var x any
		switch n := g.R.Intn(7); {
		case n == 0:
		case n == 1:
			x = g.R.Intn(2) == 0
		case n == 2:
			x = float64(g.R.Intn(1000)) / 4
		case n == 3 && depth < 3:
			l := []any{}
			for i := g.R.Intn(3); i > 0; i-- {
				var e any
				g.json(reflect.ValueOf(&e).Elem(), depth+1)
				l = append(l, e)
			}
			x = l
		case n == 4 && depth < 3:
			m := map[string]any{}
			for i := g.R.Intn(3); i > 0; i-- {
				var e any
				g.json(reflect.ValueOf(&e).Elem(), depth+1)
				m[g.Str()] = e
			}
			x = m
		default:
			x = g.Str()
		}
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.R.Intn(1000)) / 4)
	default:
		g.elem(v)
	}
}

// Fill sets every column of a model, and leaves embedded pointers nil now and
// then.
func (g *G) Fill(a *Adapter, m any) {
	if !g.NoNil && g.R.Intn(4) == 0 {
		Cut(g.R, reflect.ValueOf(m).Elem())
	}
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		if v, ok := Field(m, c); ok {
			g.Set(spec.T(c.Type), v)
		}
	}
}

// Cut sets some embedded pointers of a struct to nil.
func Cut(r *rand.Rand, v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).Anonymous {
			continue
		}
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.CanSet() && f.Type().Elem().Kind() == reflect.Struct {
			if r.Intn(2) == 0 {
				f.SetZero()
				continue
			}
			if f.IsNil() {
				continue
			}
			f = f.Elem()
		}
		if f.Kind() == reflect.Struct {
			Cut(r, f)
		}
	}
}

// ErrUnrepresentable says that a value has no stored form.
var ErrUnrepresentable = errors.New("no stored form")

// Enc is the independent encoder: the value a column of type t stores for v.
func Enc(t *spec.Type, d minisql.Dialect, v reflect.Value) (minisql.Value, error) {
	if !v.IsValid() {
		return nil, nil
	}
	if t.Ptr {
		if v.IsNil() {
			return nil, nil
		}
		v = v.Elem()
	}
	switch t.Class {
	case spec.CInt:
		return v.Int(), nil
	case spec.CUint, spec.CUint64:
		n := v.Uint()
		if n > math.MaxInt64 {
			if t.Class == spec.CUint64 && d == minisql.SQLite {
				return nil, ErrUnrepresentable
			}
			if t.Class == spec.CUint64 && d == minisql.MySQL {
				return n, nil
			}
		}
		return int64(n), nil
	case spec.CFloat:
		return v.Float(), nil
	case spec.CBool:
		return v.Bool(), nil
	case spec.CString:
		return v.String(), nil
	case spec.CRune:
		return string(rune(v.Int())), nil
	case spec.CRuneA:
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteRune(rune(v.Index(i).Int()))
		}
		return b.String(), nil
	case spec.CBytes:
		return minisql.Blob(v.Bytes()), nil
	case spec.CByteA:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return minisql.Blob(b), nil
	case spec.CTime:
		return v.Interface().(time.Time).UTC().Truncate(time.Microsecond), nil
	case spec.CText:
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		return string(b), err
	case spec.CNull, spec.CValuer:
		x, err := v.Interface().(driver.Valuer).Value()
		if err != nil {
			return nil, err
		}
		if tm, ok := x.(time.Time); ok {
			return tm.UTC().Truncate(time.Microsecond), nil
		}
		return x, nil
	case spec.CCent:
		return mt.CentText(mt.Cent(v.Int())), nil
	case spec.CVault:
		return minisql.Geo(v.String()), nil
	case spec.CMicro:
		return v.Interface().(time.Time).UnixMicro(), nil
	case spec.CPoint:
		return minisql.Geo(mt.PointText(v.Interface().(mt.Point))), nil
	case spec.CRaw:
		if v.IsNil() {
			return nil, nil
		}
		return string(v.Bytes()), nil
	case spec.CRuneS, spec.CByteL, spec.CList, spec.CListA:
		if t.Class == spec.CRuneS && d == minisql.Postgres {
			var b strings.Builder
			for i := 0; i < v.Len(); i++ {
				b.WriteRune(rune(v.Index(i).Int()))
			}
			return b.String(), nil
		}
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil, nil
		}
		if d == minisql.Postgres {
			return arrayText(v), nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			// a list of numbers, which encoding/json takes for a byte string
			l := make([]int, v.Len())
			for i := range l {
				l[i] = int(v.Index(i).Uint())
			}
			b, err := json.Marshal(l)
			return string(b), err
		}
		fallthrough
	case spec.CJSON:
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		err := e.Encode(v.Interface())
		return strings.TrimSpace(buf.String()), err
	}
	panic("rt: enc " + string(t.Class))
}

func arrayText(v reflect.Value) string {
	var b strings.Builder
	b.WriteByte('{')
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		e := v.Index(i)
		switch e.Kind() {
		case reflect.String:
			b.WriteByte('"')
			for _, c := range []byte(e.String()) {
				if c == '"' || c == '\\' {
					b.WriteByte('\\')
				}
				b.WriteByte(c)
			}
			b.WriteByte('"')
		case reflect.Slice:
			fmt.Fprintf(&b, "\"\\\\x%x\"", e.Bytes())
		case reflect.Bool:
			b.WriteString(map[bool]string{true: "t", false: "f"}[e.Bool()])
		case reflect.Float32, reflect.Float64:
			f := e.Float()
			switch {
			case math.IsNaN(f):
				b.WriteString("NaN")
			case math.IsInf(f, 1):
				b.WriteString("Infinity")
			case math.IsInf(f, -1):
				b.WriteString("-Infinity")
			default:
				b.WriteString(strconv.FormatFloat(f, 'g', -1, e.Type().Bits()))
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			b.WriteString(strconv.FormatUint(e.Uint(), 10))
		default:
			b.WriteString(strconv.FormatInt(e.Int(), 10))
		}
	}
	b.WriteByte('}')
	return b.String()
}

// arrayElems splits a one-dimensional array literal; nil for NULL elements.
func arrayElems(s string) ([]string, bool) {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	if s == "" {
		return []string{}, true
	}
	var out []string
	for {
		var b strings.Builder
		if len(s) > 0 && s[0] == '"' {
			i := 1
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false
					}
				}
				b.WriteByte(s[i])
				i++
			}
			if i >= len(s) {
				return nil, false
			}
			s = s[i+1:]
		} else {
			i := strings.IndexByte(s, ',')
			if i < 0 {
				i = len(s)
			}
			b.WriteString("\x00" + strings.TrimSpace(s[:i])) // unquoted
			s = s[i:]
		}
		out = append(out, b.String())
		if s == "" {
			return out, true
		}
		if s[0] != ',' {
			return nil, false
		}
		s = s[1:]
	}
}

func sameArray(a, b string) bool {
	x, ok := arrayElems(a)
	y, ok2 := arrayElems(b)
	if !ok || !ok2 || len(x) != len(y) {
		return false
	}
	norm := func(s string) string {
		if !strings.HasPrefix(s, "\x00") {
			return "q" + s
		}
		s = s[1:]
		switch strings.ToLower(s) {
		case "t", "true":
			return "qt"
		case "f", "false":
			return "qf"
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			if _, err := strconv.ParseInt(s, 10, 64); err != nil {
				if _, err := strconv.ParseUint(s, 10, 64); err != nil {
					return "q#" + strconv.FormatFloat(f, 'g', -1, 64)
				}
			}
		}
		return "q" + s
	}
	for i := range x {
		if norm(x[i]) != norm(y[i]) {
			// 1 and 1.0, 1e21 and 1000000000000000000000
			f, e1 := strconv.ParseFloat(strings.TrimPrefix(x[i], "\x00"), 64)
			h, e2 := strconv.ParseFloat(strings.TrimPrefix(y[i], "\x00"), 64)
			if e1 != nil || e2 != nil || f != h || math.Abs(f) < 1<<53 && f != math.Trunc(f) {
				return false
			}
		}
	}
	return true
}

// sameJSONText compares two documents; numbers compare by value.
func sameJSONText(a, b string) bool {
	if minisql.NormalizeJSON(a) == minisql.NormalizeJSON(b) {
		return true
	}
	dec := func(s string) (v any, err error) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		err = d.Decode(&v)
		return
	}
	x, e1 := dec(a)
	y, e2 := dec(b)
	return e1 == nil && e2 == nil && sameDoc(x, y)
}

func sameDoc(x, y any) bool {
	switch x := x.(type) {
	case json.Number:
		y, ok := y.(json.Number)
		if !ok || len(x) > 400 || len(y) > 400 {
			return ok && x == y
		}
		u, ok1 := new(big.Rat).SetString(string(x))
		v, ok2 := new(big.Rat).SetString(string(y))
		return ok1 && ok2 && u.Cmp(v) == 0
	case []any:
		y, ok := y.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameDoc(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := y.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameDoc(x[k], v) {
				return false
			}
		}
		return true
	}
	return x == y
}

// SameStored compares two stored values of a column of type t.
func SameStored(t *spec.Type, d minisql.Dialect, a, b minisql.Value) bool {
	k := t.ColKind(d)
	if t.Class == spec.CJSON && (nullish(a) || nullish(b)) {
		return nullish(a) && nullish(b)
	}
	if t.Class == spec.CRuneS || t.Class == spec.CByteL {
		if nullish(a) || nullish(b) {
			return nullish(a) && nullish(b)
		}
	}
	if t.Class == spec.CBytes && !t.Ptr {
		if a == nil {
			a = minisql.Blob("")
		}
		if b == nil {
			b = minisql.Blob("")
		}
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch k {
	case minisql.KInt, minisql.KUint:
		x, ok1 := bits(a)
		y, ok2 := bits(b)
		return ok1 && ok2 && x == y
	case minisql.KFloat:
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if !ok1 || !ok2 {
			return false
		}
		if t.F32 {
			x, y = float64(float32(x)), float64(float32(y))
		}
		return x == y || x != x && y != y
	case minisql.KBlob, minisql.KText:
		return textOf(a) == textOf(b)
	case minisql.KJSON:
		return sameJSONText(textOf(a), textOf(b))
	case minisql.KArray:
		return sameArray(textOf(a), textOf(b))
	}
	return minisql.Equal(a, b)
}

func textOf(v minisql.Value) string {
	switch x := v.(type) {
	case string:
		return x
	case minisql.Blob:
		return string(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// bits gives the 64-bit pattern of an integer.
func bits(v minisql.Value) (uint64, bool) {
	switch x := v.(type) {
	case int64:
		return uint64(x), true
	case uint64:
		return x, true
	}
	return 0, false
}

// SameGo compares two field values of type t.
func SameGo(t *spec.Type, a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if t.Ptr {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		a, b = a.Elem(), b.Elem()
	}
	switch t.Class {
	case spec.CFloat:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y
	case spec.CTime, spec.CMicro:
		return sameTime(a.Interface().(time.Time), b.Interface().(time.Time))
	case spec.CBytes:
		return bytes.Equal(a.Bytes(), b.Bytes())
	case spec.CRaw:
		if a.IsNil() != b.IsNil() {
			return nullish(string(a.Bytes())) || nullish(string(b.Bytes()))
		}
		return minisql.NormalizeJSON(string(a.Bytes())) == minisql.NormalizeJSON(string(b.Bytes()))
	case spec.CNull:
		if a.FieldByName("Valid").Bool() != b.FieldByName("Valid").Bool() {
			return false
		}
		if !a.FieldByName("Valid").Bool() {
			return true
		}
		if a.Field(0).Type() == timeType {
			return sameTime(a.Field(0).Interface().(time.Time), b.Field(0).Interface().(time.Time))
		}
		if a.Field(0).Kind() == reflect.Float64 {
			x, y := a.Field(0).Float(), b.Field(0).Float()
			return x == y || x != x && y != y
		}
	case spec.CList, spec.CListA:
		if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			x, y := a.Index(i), b.Index(i)
			if x.Kind() == reflect.Float32 || x.Kind() == reflect.Float64 {
				if f, g := x.Float(), y.Float(); f != g && (f == f || g == g) {
					return false
				}
			} else if x.Interface() != y.Interface() {
				return false
			}
		}
		return true
	case spec.CJSON:
		return sameJSON(a, b)
	case spec.CRuneS:
		return a.Len() == 0 && b.Len() == 0 || reflect.DeepEqual(a.Interface(), b.Interface())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func sameTime(a, b time.Time) bool {
	return a.Truncate(time.Microsecond).Equal(b.Truncate(time.Microsecond))
}

func sameJSON(a, b reflect.Value) bool {
	if a.Type() == reflect.TypeFor[[]time.Time]() {
		x, y := a.Interface().([]time.Time), b.Interface().([]time.Time)
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !x[i].Equal(y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// Show prints a field value.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "<behind nil>"
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "&" + Show(v.Elem())
	}
	s := fmt.Sprintf("%#v", v.Interface())
	if t, ok := v.Interface().(time.Time); ok {
		s = t.Format(time.RFC3339Nano)
	}
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// ShowRow prints stored values.
func ShowRow(r []minisql.Value) string {
	var l []string
	for _, v := range r {
		switch x := v.(type) {
		case time.Time:
			l = append(l, x.Format(time.RFC3339Nano))
		case nil:
			l = append(l, "NULL")
		default:
			s := fmt.Sprintf("%#v", v)
			if len(s) > 90 {
				s = s[:90] + "..."
			}
			l = append(l, s)
		}
	}
	return "(" + strings.Join(l, ", ") + ")"
}
