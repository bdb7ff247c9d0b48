package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/sequel/types"

	"verif/harness/ev"
)

// column is a scannable variable that persists over several scans.
type column struct {
	name string
	mk   func() (scan func(any) error, v reflect.Value)
	srcs []any
}

// dump renders a value by content, following pointers.
func dump(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("<invalid>")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(b, "time(%s)", x.UTC().Format(time.RFC3339Nano))
			return
		case big.Int:
			b.WriteString("big(" + x.String() + ")")
			return
		case netip.Addr:
			b.WriteString(x.String())
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nilmap")
			return
		}
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprintf("%q=%s", fmt.Sprint(k), dump(v.MapIndex(k))))
		}
		sort.Strings(ks)
		b.WriteString("map{" + strings.Join(ks, ",") + "}")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dumpTo(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(b, "%d", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprintf(b, "%d", v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(b, "%v", v.Float())
		case reflect.Bool:
			fmt.Fprintf(b, "%v", v.Bool())
		default:
			fmt.Fprintf(b, "%v", v)
		}
	}
}

type jInner struct {
	K string         `json:"k,omitempty"`
	L []int          `json:"l,omitempty"`
	M map[string]int `json:"m,omitempty"`
}
type jObj struct {
	A int     `json:"a,omitempty"`
	B *string `json:"b,omitempty"`
	C []string
	D map[string]any
	E *jInner
	F jInner
	G []jInner
	H [2]int
	I any
}

// jCustom replaces itself completely in UnmarshalJSON.
type jCustom struct{ v string }

func (c jCustom) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"c": c.v}) }
func (c *jCustom) UnmarshalJSON(b []byte) error {
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	c.v = m["c"]
	return nil
}

// txt replaces itself completely in UnmarshalText.
type txt struct{ s string }

func (t txt) MarshalText() ([]byte, error) {
	if strings.Contains(t.s, "!") {
		return nil, fmt.Errorf("txt: cannot marshal")
	}
	return []byte("<" + t.s + ">"), nil
}
func (t *txt) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '<' || b[len(b)-1] != '>' {
		return fmt.Errorf("txt: bad text %q", b)
	}
	t.s = string(b[1 : len(b)-1])
	return nil
}

// scn is a sql.Scanner that replaces itself completely.
// tally is a sql.Scanner which adds to what it holds.
type tally map[string]int

func (t *tally) Scan(v any) error {
	if *t == nil {
		*t = tally{}
	}
	(*t)[fmt.Sprintf("%s", v)]++
	return nil
}

// heap is a sql.Scanner which appends to what it holds.
type heap struct {
	all  []string
	last *int
}

func (h *heap) Scan(v any) error {
	h.all = append(h.all, fmt.Sprintf("%s", v))
	if h.last == nil {
		h.last = new(int)
	}
	*h.last += len(h.all)
	return nil
}

// join is a text and binary unmarshaller which adds to what it holds.
type join struct{ all []string }

func (j *join) UnmarshalText(b []byte) error   { j.all = append(j.all, string(b)); return nil }
func (j *join) UnmarshalBinary(b []byte) error { j.all = append(j.all, string(b)); return nil }
func (j *join) UnmarshalJSON(b []byte) error   { j.all = append(j.all, string(b)); return nil }
func (j join) MarshalText() ([]byte, error)    { return []byte(strings.Join(j.all, "+")), nil }

type scn struct{ s string }

func (t *scn) Scan(v any) error {
	switch x := v.(type) {
	case string:
		t.s = "s:" + x
	case []byte:
		t.s = "s:" + string(x)
	case int64, bool, float64:
		t.s = fmt.Sprintf("%T:%v", x, x)
	case time.Time:
		t.s = x.UTC().Format(time.RFC3339Nano)
	default:
		return fmt.Errorf("scn: %T", v)
	}
	return nil
}

func col[T any](name string, sc func(*T) sql.Scanner, srcs ...any) column {
	return column{name: name, srcs: srcs, mk: func() (func(any) error, reflect.Value) {
		v := new(T)
		// a scanner is built per scan, as generated Addrs() does
		return func(s any) error { return sc(v).Scan(s) }, reflect.ValueOf(v).Elem()
	}}
}

func texts(ss ...string) []any {
	out := []any{nil}
	for _, s := range ss {
		out = append(out, s, []byte(s))
	}
	return out
}

type nByte byte
type nRune rune

func c02Columns() []column {
	var c []column
	str := texts("", "a", "hello world", "日本語", "\x00\xff", strings.Repeat("long", 50))
	c = append(c,
		col("string", func(v *string) sql.Scanner { return encoding.StringScanner[string](v) }, str...),
		col("*string", func(v **string) sql.Scanner { return encoding.StringScanner[string](v) }, str...),
		col("nStr", func(v *nStr) sql.Scanner { return encoding.StringScanner[nStr](v) }, str...),
		col("[]byte", func(v *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](v) }, str...),
		col("*[]byte", func(v **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](v) }, str...),
		col("nBytes", func(v *nBytes) sql.Scanner { return encoding.StringScanner[nBytes](v) }, str...),
		col("*nBytes", func(v **nBytes) sql.Scanner { return encoding.StringScanner[nBytes](v) }, str...),
	)
	ba := texts("", "a", "abcd", "\xff\x00", "xyz")
	c = append(c,
		col("[4]byte", func(v *[4]byte) sql.Scanner { return encoding.ByteArrayScanner(v[:], 4) }, ba...),
		col("[4]nByte", func(v *[4]nByte) sql.Scanner { return encoding.ByteArrayScanner(v[:], 4) }, ba...),
		col("[10]byte", func(v *[10]byte) sql.Scanner { return encoding.ByteArrayScanner(v[:], 10) }, texts("", "a", "abcdefghij", "\x00\x01\x02")...),
		col("[4]rune", func(v *[4]rune) sql.Scanner { return encoding.RuneArrayScanner(v[:], 4) }, texts("", "a", "日本", "🥳x日y", "ab")...),
		col("[4]nRune", func(v *[4]nRune) sql.Scanner { return encoding.RuneArrayScanner(v[:], 4) }, texts("", "a", "日本", "🥳x日y", "ab")...),
	)
	c = append(c,
		col("rune", func(v *rune) sql.Scanner { return encoding.RuneScanner[rune](v) }, texts("a", "日", "🥳", "\x00")...),
		col("*rune", func(v **rune) sql.Scanner { return encoding.RuneScanner[rune](v) }, texts("a", "日", "🥳", "\x00")...),
		col("nRune", func(v *nRune) sql.Scanner { return encoding.RuneScanner[nRune](v) }, texts("a", "日", "🥳")...),
		col("[]rune", func(v *[]rune) sql.Scanner { return encoding.RuneSliceScanner(v) }, texts("", "a", "日本", "🥳x日y", "ab")...),
		col("[]nRune", func(v *[]nRune) sql.Scanner { return encoding.RuneSliceScanner(v) }, texts("", "a", "日本", "🥳x日y", "ab")...),
	)
	objs := texts(`{}`, `{"a":1}`, `{"b":"x"}`, `{"C":["p","q"]}`, `{"C":[]}`, `{"D":{"x":1,"y":[1]}}`, `{"D":{"z":null}}`, `{"E":{"k":"v","m":{"q":1}}}`, `{"E":{"l":[1,2]}}`, `{"F":{"m":{"r":2}}}`, `{"F":{"m":{"s":3}}}`, `{"G":[{"k":"1"},{"l":[3]}]}`, `{"G":[{"m":{"g":1}}]}`, `{"H":[1]}`, `{"H":[3,4]}`, `{"I":{"n":1}}`, `null`, `{"a":7,"b":null,"I":[1]}`)
	c = append(c,
		col("json/struct", func(v *jObj) sql.Scanner { return encoding.JSONScanner(v) }, objs...),
		col("json/*struct", func(v **jObj) sql.Scanner { return encoding.JSONScanner(v) }, objs...),
		col("json/map", func(v *map[string]any) sql.Scanner { return encoding.JSONScanner(v) }, objs...),
		col("json/any", func(v *any) sql.Scanner { return encoding.JSONScanner(v) }, objs...),
		col("json/raw", func(v *json.RawMessage) sql.Scanner { return encoding.JSONScanner(v) }, objs...),
		col("json/map[string]int", func(v *map[string]int) sql.Scanner { return encoding.JSONScanner(v) }, texts(`{}`, `{"a":1}`, `{"b":2,"c":3}`, `null`)...),
		col("json/[]int", func(v *[]int) sql.Scanner { return encoding.JSONScanner(v) }, texts(`[]`, `[1]`, `[1,2,3]`, `[9,8]`, `null`)...),
		col("json/[3]int", func(v *[3]int) sql.Scanner { return encoding.JSONScanner(v) }, texts(`[]`, `[1]`, `[1,2,3]`, `[9,8]`)...),
		col("json/[]jInner", func(v *[]jInner) sql.Scanner { return encoding.JSONScanner(v) }, texts(`[]`, `[{"k":"a"},{"m":{"x":1}}]`, `[{"l":[1]}]`, `[{},{}]`)...),
		col("json/[]*jInner", func(v *[]*jInner) sql.Scanner { return encoding.JSONScanner(v) }, texts(`[]`, `[{"k":"a"},{"m":{"x":1}}]`, `[{"l":[1]}]`, `[{},null]`)...),
		col("json/custom", func(v *jCustom) sql.Scanner { return encoding.JSONScanner(v) }, texts(`{"c":"x"}`, `{}`, `{"c":"yy"}`)...),
		col("json/*custom", func(v **jCustom) sql.Scanner { return encoding.JSONScanner(v) }, texts(`{"c":"x"}`, `{}`, `{"c":"yy"}`)...),
		col("text/txt", func(v *txt) sql.Scanner { return encoding.TextScanner[txt](v) }, texts("<>", "<a>", "<bcd>")...),
		col("text/*txt", func(v **txt) sql.Scanner { return encoding.TextScanner[txt](v) }, texts("<>", "<a>", "<bcd>")...),
		col("text/addr", func(v *netip.Addr) sql.Scanner { return encoding.TextScanner[netip.Addr](v) }, texts("1.2.3.4", "::1", "fe80::1%eth0")...),
		col("text/*addr", func(v **netip.Addr) sql.Scanner { return encoding.TextScanner[netip.Addr](v) }, texts("1.2.3.4", "::1", "fe80::1%eth0")...),
		col("text/big", func(v *big.Int) sql.Scanner { return encoding.TextScanner[big.Int](v) }, append(texts("0", "123456789012345678901234567890", "-5"), int64(7), int64(-9))...),
		col("text/*big", func(v **big.Int) sql.Scanner { return encoding.TextScanner[big.Int](v) }, append(texts("0", "123456789012345678901234567890", "-5"), int64(7), int64(-9))...),
		col("ptr/scn", func(v **scn) sql.Scanner { return encoding.PtrScanner(v) }, append(texts("", "abc", "defg"), int64(1), true, 1.5, time.Unix(5, 0))...),
		col("ptr/tally", func(v **tally) sql.Scanner { return encoding.PtrScanner(v) }, texts("", "abc", "defg")...),
		col("ptr/heap", func(v **heap) sql.Scanner { return encoding.PtrScanner(v) }, texts("", "abc", "defg")...),
		col("text/*join", func(v **join) sql.Scanner { return encoding.TextScanner[join](v) }, texts("", "abc", "defg")...),
		col("json/*join", func(v **join) sql.Scanner { return encoding.JSONScanner(v) }, texts("1", `"abc"`, "[2]")...),
		col("ptr/NullString", func(v **sql.NullString) sql.Scanner { return encoding.PtrScanner(v) }, texts("", "abc", "defg")...),
		col("ptr/NullInt64", func(v **sql.NullInt64) sql.Scanner { return encoding.PtrScanner(v) }, nil, int64(5), int64(-6), []byte("77"), "8"),
		col("binary/url", func(v *url.URL) sql.Scanner { return types.BinaryUnmarshaler(v) }, []byte("http://a/b?c#d"), []byte("x:y"), []byte("")),
		col("binary/time", func(v *time.Time) sql.Scanner { return types.BinaryUnmarshaler(v) }, mustBin(time.Unix(1, 2).UTC()), mustBin(time.Unix(1e9, 0).UTC())),
		col("time", func(v *time.Time) sql.Scanner { return encoding.TimeScanner(v) }, append(texts("2024-01-02", "2024-01-02 03:04:05", "2024-01-02 03:04:05.678", "2024-01-02T03:04:05Z"), int64(77), time.Unix(3, 4))...),
		col("*time", func(v **time.Time) sql.Scanner { return encoding.TimeScanner(v) }, append(texts("2024-01-02", "2024-01-02 03:04:05", "2024-01-02 03:04:05.678", "2024-01-02T03:04:05Z"), int64(77), time.Unix(3, 4))...),
		col("int16", func(v *int16) sql.Scanner { return encoding.Int16Scanner[int16](v) }, nil, int64(5), int64(-7), []byte("300")),
		col("*int16", func(v **int16) sql.Scanner { return encoding.Int16Scanner[int16](v) }, nil, int64(5), int64(-7), []byte("300")),
		col("*uint64", func(v **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](v) }, nil, int64(5), []byte("18446744073709551615")),
		col("*float32", func(v **float32) sql.Scanner { return encoding.Float32Scanner[float32](v) }, nil, int64(5), 2.5, []byte("1.5"), "3.25"),
		col("*float64", func(v **float64) sql.Scanner { return encoding.Float64Scanner[float64](v) }, nil, int64(5), 2.5, []byte("1.5"), "3.25"),
		col("*int", func(v **int) sql.Scanner { return encoding.IntScanner[int](v) }, nil, int64(5), int64(-7), []byte("100")),
		col("int", func(v *int) sql.Scanner { return encoding.IntScanner[int](v) }, nil, int64(5), []byte("100")),
		col("*int8", func(v **int8) sql.Scanner { return encoding.Int8Scanner[int8](v) }, nil, int64(5), int64(-7), []byte("100")),
		col("int8", func(v *int8) sql.Scanner { return encoding.Int8Scanner[int8](v) }, nil, int64(5), []byte("100")),
		col("*int32", func(v **int32) sql.Scanner { return encoding.Int32Scanner[int32](v) }, nil, int64(5), int64(-7), []byte("100")),
		col("int32", func(v *int32) sql.Scanner { return encoding.Int32Scanner[int32](v) }, nil, int64(5), []byte("100")),
		col("*int64", func(v **int64) sql.Scanner { return encoding.Int64Scanner[int64](v) }, nil, int64(5), int64(-7), []byte("100")),
		col("int64", func(v *int64) sql.Scanner { return encoding.Int64Scanner[int64](v) }, nil, int64(5), []byte("100")),
		col("*uint", func(v **uint) sql.Scanner { return encoding.UintScanner[uint](v) }, nil, int64(5), []byte("100")),
		col("uint", func(v *uint) sql.Scanner { return encoding.UintScanner[uint](v) }, nil, int64(5), []byte("100")),
		col("*uint8", func(v **uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](v) }, nil, int64(5), []byte("100")),
		col("uint8", func(v *uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](v) }, nil, int64(5), []byte("100")),
		col("*uint16", func(v **uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](v) }, nil, int64(5), []byte("100")),
		col("uint16", func(v *uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](v) }, nil, int64(5), []byte("100")),
		col("*uint32", func(v **uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](v) }, nil, int64(5), []byte("100")),
		col("uint32", func(v *uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](v) }, nil, int64(5), []byte("100")),
		col("*bool", func(v **bool) sql.Scanner { return encoding.BoolScanner[bool](v) }, nil, int64(1), false, []byte("true"), "f"),
	)
	ints := func(o, cl string) []any {
		return texts(o+cl, o+"1"+cl, o+"1,2,3"+cl, o+"9,8"+cl, o+"-5"+cl)
	}
	uints := func(o, cl string) []any { return texts(o+cl, o+"1"+cl, o+"1,2,3"+cl, o+"200,8"+cl) }
	floats := func(o, cl string) []any { return texts(o+cl, o+"1.5"+cl, o+"1,2,3"+cl, o+"-9.25,8"+cl) }
	c = append(c,
		col("pg/string", func(v *[]string) sql.Scanner { return (*pgtype.StringArray[string])(v) }, texts(`{}`, `{a}`, `{"a b","c\"d","\\"}`, `{x,y}`, `{""}`)...),
		col("pg/bytea", func(v *[][]byte) sql.Scanner { return (*pgtype.ByteaArray[[]byte])(v) }, texts(`{}`, `{"\\x6162"}`, `{"\\x","\\xff00"}`, `{abc,"d\\\\e"}`)...),
		col("pg/bool", func(v *[]bool) sql.Scanner { return (*pgtype.BoolArray[bool])(v) }, texts(`{}`, `{t}`, `{f,t,f}`, `{f}`)...),
		col("pg/int8", func(v *[]int8) sql.Scanner { return (*pgtype.Int8Array[int8])(v) }, ints("{", "}")...),
		col("pg/int64", func(v *[]int64) sql.Scanner { return (*pgtype.Int64Array[int64])(v) }, ints("{", "}")...),
		col("pg/uint8", func(v *[]uint8) sql.Scanner { return (*pgtype.Uint8Array[uint8])(v) }, uints("{", "}")...),
		col("pg/uint64", func(v *[]uint64) sql.Scanner { return (*pgtype.Uint64Array[uint64])(v) }, uints("{", "}")...),
		col("pg/float32", func(v *[]float32) sql.Scanner { return (*pgtype.Float32Array[float32])(v) }, floats("{", "}")...),
		col("pg/float64", func(v *[]float64) sql.Scanner { return (*pgtype.Float64Array[float64])(v) }, floats("{", "}")...),
		col("js/string", func(v *[]string) sql.Scanner { return (*sqltype.StringSlice[string])(v) }, texts(`[]`, `["a"]`, `["a b","c\"d","\\"]`, `["x","y"]`, `[""]`)...),
		col("js/bool", func(v *[]bool) sql.Scanner { return (*sqltype.BoolSlice[bool])(v) }, texts(`[]`, `[true]`, `[false,true,false]`, `[false]`)...),
		col("js/int16", func(v *[]int16) sql.Scanner { return (*sqltype.Int16Slice[int16])(v) }, ints("[", "]")...),
		col("js/int64", func(v *[]int64) sql.Scanner { return (*sqltype.Int64Slice[int64])(v) }, ints("[", "]")...),
		col("js/uint32", func(v *[]uint32) sql.Scanner { return (*sqltype.Uint32Slice[uint32])(v) }, uints("[", "]")...),
		col("js/float32", func(v *[]float32) sql.Scanner { return (*sqltype.Float32Slice[float32])(v) }, floats("[", "]")...),
		col("pg/int", func(v *[]int) sql.Scanner { return (*pgtype.IntArray[int])(v) }, ints("{", "}")...),
		col("pg/int16", func(v *[]int16) sql.Scanner { return (*pgtype.Int16Array[int16])(v) }, ints("{", "}")...),
		col("pg/int32", func(v *[]int32) sql.Scanner { return (*pgtype.Int32Array[int32])(v) }, ints("{", "}")...),
		col("pg/uint", func(v *[]uint) sql.Scanner { return (*pgtype.UintArray[uint])(v) }, uints("{", "}")...),
		col("pg/uint16", func(v *[]uint16) sql.Scanner { return (*pgtype.Uint16Array[uint16])(v) }, uints("{", "}")...),
		col("pg/uint32", func(v *[]uint32) sql.Scanner { return (*pgtype.Uint32Array[uint32])(v) }, uints("{", "}")...),
		col("js/int", func(v *[]int) sql.Scanner { return (*sqltype.IntSlice[int])(v) }, ints("[", "]")...),
		col("js/int8", func(v *[]int8) sql.Scanner { return (*sqltype.Int8Slice[int8])(v) }, ints("[", "]")...),
		col("js/int32", func(v *[]int32) sql.Scanner { return (*sqltype.Int32Slice[int32])(v) }, ints("[", "]")...),
		col("js/uint", func(v *[]uint) sql.Scanner { return (*sqltype.UintSlice[uint])(v) }, uints("[", "]")...),
		col("js/uint8", func(v *[]uint8) sql.Scanner { return (*sqltype.Uint8Slice[uint8])(v) }, uints("[", "]")...),
		col("js/uint16", func(v *[]uint16) sql.Scanner { return (*sqltype.Uint16Slice[uint16])(v) }, uints("[", "]")...),
		col("js/uint64", func(v *[]uint64) sql.Scanner { return (*sqltype.Uint64Slice[uint64])(v) }, uints("[", "]")...),
		col("pg/[3]string", func(v *[3]string) sql.Scanner {
			return pgtype.FixedArrayScanner[string, pgtype.StringArray[string]](v[:])
		}, texts(`{a,b,c}`, `{"a b",NULL1,"\\"}`, `{"","",""}`)...),
		col("pg/[2]int16", func(v *[2]int16) sql.Scanner {
			return pgtype.FixedArrayScanner[int16, pgtype.Int16Array[int16]](v[:])
		}, texts(`{1,2}`, `{-3,0}`)...),
		col("pg/[2]bytea", func(v *[2][]byte) sql.Scanner {
			return pgtype.FixedArrayScanner[[]byte, pgtype.ByteaArray[[]byte]](v[:])
		}, texts(`{"\\x6162",abc}`, `{"\\x","d\\\\e"}`)...),
		col("null/[4]byte", func(v **[4]byte) sql.Scanner {
			return encoding.NullScanner(v, func(x *[4]byte) sql.Scanner { return encoding.ByteArrayScanner(x[:], 4) })
		}, ba...),
		col("null/pg", func(v **[]string) sql.Scanner {
			return encoding.NullScanner(v, func(x *[]string) sql.Scanner { return (*pgtype.StringArray[string])(x) })
		}, texts(`{}`, `{a}`, `{x,y}`)...),
		col("null/js", func(v **[]int) sql.Scanner {
			return encoding.NullScanner(v, func(x *[]int) sql.Scanner { return (*sqltype.IntSlice[int])(x) })
		}, ints("[", "]")...),
		col("null/tally", func(v **tally) sql.Scanner {
			return encoding.NullScanner(v, func(x *tally) sql.Scanner { return x })
		}, texts("a", "b")...),
		col("js/float64", func(v *[]float64) sql.Scanner { return (*sqltype.Float64Slice[float64])(v) }, floats("[", "]")...),
	)
	return c
}

func mustBin(t time.Time) []byte { b, _ := t.MarshalBinary(); return b }

// fresh copies a source so that its memory can be overwritten afterwards.
func freshSrc(s any) any {
	switch x := s.(type) {
	case []byte:
		b := make([]byte, len(x), len(x)+8)
		copy(b, x)
		return b
	case string:
		return strings.Clone(x)
	}
	return s
}

func c02(r *ev.Run) {
	r.Rule = "every scannable column type x every sequence of up to 3 (quick) / 4 (thorough, sampled) accepted sources: the value after the last scan must equal the value a fresh variable gets from that source alone, and must survive overwriting the byte buffers of all scans; non-trivial = distinct (column, source sequence) with a successful last scan"
	r.Assume = []string{"unmarshallers of user types copy their input and replace their receiver, as encoding.TextUnmarshaler requires"}
	rng := r.Rand("seq")
	for _, c := range c02Columns() {
		// value each source gives on its own
		base := make([]string, len(c.srcs))
		okSrc := make([]bool, len(c.srcs))
		for i, s := range c.srcs {
			desc := fmt.Sprintf("column=%s src=%T(%v)", c.name, s, show(s))
			r.Guard("fresh/"+c.name+"/"+srcKind(s), desc, func() {
				scan, v := c.mk()
				err := scan(freshSrc(s))
				okSrc[i] = err == nil
				base[i] = dump(v)
				if err != nil && s != nil {
					r.Violate("refused/"+c.name+"/"+srcKind(s), "%s: refused by a fresh variable: %v", desc, err)
				}
			})
		}
		// the same text read from a string and from bytes is the same value
		for i, s := range c.srcs {
			for j, o := range c.srcs {
				if b, ok := o.([]byte); ok && s == any(string(b)) && okSrc[i] && okSrc[j] && base[i] != base[j] {
					r.Violate("spelling/"+c.name, "column=%s: the text %q gives %s, and the same bytes give %s", c.name, b, base[i], base[j])
				}
			}
		}
		judge := func(seq []int) {
			last := seq[len(seq)-1]
			if !okSrc[last] {
				return
			}
			var names []string
			for _, i := range seq {
				names = append(names, fmt.Sprintf("%T(%v)", c.srcs[i], show(c.srcs[i])))
			}
			desc := fmt.Sprintf("column=%s scans=%s", c.name, strings.Join(names, " then "))
			r.Guard("seq/"+c.name+"/"+srcKind(c.srcs[last]), desc, func() {
				scan, v := c.mk()
				var used []any
				var err error
				var kept []reflect.Value
				var was []string
				for _, i := range seq {
					s := freshSrc(c.srcs[i])
					used = append(used, s)
					err = scan(s)
					k := reflect.New(v.Type()).Elem()
					k.Set(v)
					kept, was = append(kept, k), append(was, dump(k))
				}
				if err != nil {
					r.Violate("stale/"+c.name+"/"+srcKind(c.srcs[last]), "%s: the last scan fails with %v although a fresh variable accepts it", desc, err)
					return
				}
				r.Eval(desc, true)
				got := dump(v)
				if got != base[last] {
					r.Violate("stale/"+c.name+"/"+srcKind(c.srcs[last]), "%s: value is %s, but a fresh variable gets %s", desc, got, base[last])
				}
				for k, s := range used {
					switch x := s.(type) {
					case []byte:
						if !bytes.Equal(x, c.srcs[seq[k]].([]byte)) {
							r.Violate("mutates/"+c.name, "%s: the source buffer was modified to %q", desc, x)
						}
						x = x[:cap(x)]
						for j := range x {
							x[j] = 0xAA
						}
					case string:
						if x != c.srcs[seq[k]].(string) {
							r.Violate("mutates/"+c.name, "%s: the source string was modified to %q", desc, x)
						}
					}
				}
				if after := dump(v); after != got {
					r.Violate("alias/"+c.name+"/"+srcKind(c.srcs[last]), "%s: after the driver reused its buffer the value changed from %s to %s", desc, got, after)
				}
				for k := range kept {
					if now := dump(kept[k]); now != was[k] && c.name != "text/big" { // big.Int reuses its own memory
						r.Violate("kept/"+c.name+"/"+srcKind(c.srcs[seq[k]]), "%s: a copy of the value kept after scan %d changed from %s to %s", desc, k+1, was[k], now)
					}
				}
				r.Sample(c.name, map[string]string{"history": desc, "value": got})
			})
		}
		n := len(c.srcs)
		for i := 0; i < n; i++ {
			judge([]int{i})
			for j := 0; j < n; j++ {
				judge([]int{i, j})
			}
		}
		for k := 0; k < r.N(600, 12000); k++ {
			seq := make([]int, 3+rng.Intn(r.N(1, 3)))
			for x := range seq {
				seq[x] = rng.Intn(n)
			}
			judge(seq)
		}
	}
	r.Count("columns", int64(len(c02Columns())))
}
