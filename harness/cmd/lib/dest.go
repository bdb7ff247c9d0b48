package main

import (
	"database/sql"
	"fmt"
	"math/rand"
	"strconv"
	"time"

	"github.com/si3nloong/sqlgen/sequel/encoding"
)

type kind int

const (
	kInt kind = iota
	kUint
	kFloat
	kBool
	kString
	kBytes
	kTime
	kRune
	kRunes   // a list of runes: bits is its length, or 0 for a slice
	kByteArr // an array of bytes: bits is its length
)

// dest is one scannable column: a scanner over a fresh variable, and a way to
// read the variable back as a canonical value (int64, uint64, float64, bool,
// string, time.Time or nil for a nil pointer).
type dest struct {
	name   string
	kind   kind
	bits   int
	ptr    bool
	strict bool
	// mk makes a fresh variable pre-filled with junk when junk is set.
	mk func(junk bool) (sql.Scanner, func() any)
}

type (
	nInt    int
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nUint   uint
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
	nF32    float32
	nF64    float64
	nBool   bool
	nStr    string
	nBytes  []byte
)

func mkDest[T any](name string, k kind, bits int, junk T, val func(*T) sql.Scanner, ptr func(**T) sql.Scanner, canon func(T) any) []dest {
	return []dest{
		{name: name, kind: k, bits: bits, mk: func(j bool) (sql.Scanner, func() any) {
			v := new(T)
			if j {
				*v = junk
			}
			return val(v), func() any { return canon(*v) }
		}},
		{name: "*" + name, kind: k, bits: bits, ptr: true, mk: func(j bool) (sql.Scanner, func() any) {
			v := new(*T)
			if j {
				x := junk
				*v = &x
			}
			return ptr(v), func() any {
				if *v == nil {
					return nil
				}
				return canon(**v)
			}
		}},
	}
}

func i64[T ~int | ~int8 | ~int16 | ~int32 | ~int64](v T) any { return int64(v) }
func u64[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](v T) any {
	return uint64(v)
}
func f64[T ~float32 | ~float64](v T) any { return float64(v) }

func allDests() []dest {
	var d []dest
	e := func(x []dest) { d = append(d, x...) }
	e(mkDest("int", kInt, 64, 42, func(a *int) sql.Scanner { return encoding.IntScanner[int](a) }, func(a **int) sql.Scanner { return encoding.IntScanner[int](a) }, i64[int]))
	e(mkDest("int8", kInt, 8, 42, func(a *int8) sql.Scanner { return encoding.Int8Scanner[int8](a) }, func(a **int8) sql.Scanner { return encoding.Int8Scanner[int8](a) }, i64[int8]))
	e(mkDest("int16", kInt, 16, 42, func(a *int16) sql.Scanner { return encoding.Int16Scanner[int16](a) }, func(a **int16) sql.Scanner { return encoding.Int16Scanner[int16](a) }, i64[int16]))
	e(mkDest("int32", kInt, 32, 42, func(a *int32) sql.Scanner { return encoding.Int32Scanner[int32](a) }, func(a **int32) sql.Scanner { return encoding.Int32Scanner[int32](a) }, i64[int32]))
	e(mkDest("int64", kInt, 64, 42, func(a *int64) sql.Scanner { return encoding.Int64Scanner[int64](a) }, func(a **int64) sql.Scanner { return encoding.Int64Scanner[int64](a) }, i64[int64]))
	e(mkDest("nInt", kInt, 64, 42, func(a *nInt) sql.Scanner { return encoding.IntScanner[nInt](a) }, func(a **nInt) sql.Scanner { return encoding.IntScanner[nInt](a) }, i64[nInt]))
	e(mkDest("nInt8", kInt, 8, 42, func(a *nInt8) sql.Scanner { return encoding.Int8Scanner[nInt8](a) }, func(a **nInt8) sql.Scanner { return encoding.Int8Scanner[nInt8](a) }, i64[nInt8]))
	e(mkDest("nInt16", kInt, 16, 42, func(a *nInt16) sql.Scanner { return encoding.Int16Scanner[nInt16](a) }, func(a **nInt16) sql.Scanner { return encoding.Int16Scanner[nInt16](a) }, i64[nInt16]))
	e(mkDest("nInt32", kInt, 32, 42, func(a *nInt32) sql.Scanner { return encoding.Int32Scanner[nInt32](a) }, func(a **nInt32) sql.Scanner { return encoding.Int32Scanner[nInt32](a) }, i64[nInt32]))
	e(mkDest("nInt64", kInt, 64, 42, func(a *nInt64) sql.Scanner { return encoding.Int64Scanner[nInt64](a) }, func(a **nInt64) sql.Scanner { return encoding.Int64Scanner[nInt64](a) }, i64[nInt64]))
	e(mkDest("uint", kUint, 64, 42, func(a *uint) sql.Scanner { return encoding.UintScanner[uint](a) }, func(a **uint) sql.Scanner { return encoding.UintScanner[uint](a) }, u64[uint]))
	e(mkDest("uint8", kUint, 8, 42, func(a *uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](a) }, func(a **uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](a) }, u64[uint8]))
	e(mkDest("uint16", kUint, 16, 42, func(a *uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](a) }, func(a **uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](a) }, u64[uint16]))
	e(mkDest("uint32", kUint, 32, 42, func(a *uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](a) }, func(a **uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](a) }, u64[uint32]))
	e(mkDest("uint64", kUint, 64, 42, func(a *uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](a) }, func(a **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](a) }, u64[uint64]))
	e(mkDest("nUint", kUint, 64, 42, func(a *nUint) sql.Scanner { return encoding.UintScanner[nUint](a) }, func(a **nUint) sql.Scanner { return encoding.UintScanner[nUint](a) }, u64[nUint]))
	e(mkDest("nUint8", kUint, 8, 42, func(a *nUint8) sql.Scanner { return encoding.Uint8Scanner[nUint8](a) }, func(a **nUint8) sql.Scanner { return encoding.Uint8Scanner[nUint8](a) }, u64[nUint8]))
	e(mkDest("nUint16", kUint, 16, 42, func(a *nUint16) sql.Scanner { return encoding.Uint16Scanner[nUint16](a) }, func(a **nUint16) sql.Scanner { return encoding.Uint16Scanner[nUint16](a) }, u64[nUint16]))
	e(mkDest("nUint32", kUint, 32, 42, func(a *nUint32) sql.Scanner { return encoding.Uint32Scanner[nUint32](a) }, func(a **nUint32) sql.Scanner { return encoding.Uint32Scanner[nUint32](a) }, u64[nUint32]))
	e(mkDest("nUint64", kUint, 64, 42, func(a *nUint64) sql.Scanner { return encoding.Uint64Scanner[nUint64](a) }, func(a **nUint64) sql.Scanner { return encoding.Uint64Scanner[nUint64](a) }, u64[nUint64]))
	for _, strict := range []bool{false, true} {
		n := len(d)
		sfx := ""
		if strict {
			sfx = "/strict"
		}
		s := strict
		e(mkDest("float32"+sfx, kFloat, 32, 4.5, func(a *float32) sql.Scanner { return encoding.Float32Scanner[float32](a, s) }, func(a **float32) sql.Scanner { return encoding.Float32Scanner[float32](a, s) }, f64[float32]))
		e(mkDest("nF32"+sfx, kFloat, 32, 4.5, func(a *nF32) sql.Scanner { return encoding.Float32Scanner[nF32](a, s) }, func(a **nF32) sql.Scanner { return encoding.Float32Scanner[nF32](a, s) }, f64[nF32]))
		e(mkDest("float64"+sfx, kFloat, 64, 4.5, func(a *float64) sql.Scanner { return encoding.Float64Scanner[float64](a, s) }, func(a **float64) sql.Scanner { return encoding.Float64Scanner[float64](a, s) }, f64[float64]))
		e(mkDest("nF64"+sfx, kFloat, 64, 4.5, func(a *nF64) sql.Scanner { return encoding.Float64Scanner[nF64](a, s) }, func(a **nF64) sql.Scanner { return encoding.Float64Scanner[nF64](a, s) }, f64[nF64]))
		e(mkDest("bool"+sfx, kBool, 1, true, func(a *bool) sql.Scanner { return encoding.BoolScanner[bool](a, s) }, func(a **bool) sql.Scanner { return encoding.BoolScanner[bool](a, s) }, func(v bool) any { return v }))
		e(mkDest("nBool"+sfx, kBool, 1, true, func(a *nBool) sql.Scanner { return encoding.BoolScanner[nBool](a, s) }, func(a **nBool) sql.Scanner { return encoding.BoolScanner[nBool](a, s) }, func(v nBool) any { return bool(v) }))
		e(mkDest("string"+sfx, kString, 0, "junk", func(a *string) sql.Scanner { return encoding.StringScanner[string](a, s) }, func(a **string) sql.Scanner { return encoding.StringScanner[string](a, s) }, func(v string) any { return v }))
		e(mkDest("nStr"+sfx, kString, 0, "junk", func(a *nStr) sql.Scanner { return encoding.StringScanner[nStr](a, s) }, func(a **nStr) sql.Scanner { return encoding.StringScanner[nStr](a, s) }, func(v nStr) any { return string(v) }))
		e(mkDest("[]byte"+sfx, kBytes, 0, []byte("junk"), func(a *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](a, s) }, func(a **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](a, s) }, func(v []byte) any { return string(v) }))
		e(mkDest("nBytes"+sfx, kBytes, 0, nBytes("junk"), func(a *nBytes) sql.Scanner { return encoding.StringScanner[nBytes](a, s) }, func(a **nBytes) sql.Scanner { return encoding.StringScanner[nBytes](a, s) }, func(v nBytes) any { return string(v) }))
		for i := n; i < len(d); i++ {
			d[i].strict = strict
		}
	}
	e(mkDest("time", kTime, 0, time.Unix(99, 0), func(a *time.Time) sql.Scanner { return encoding.TimeScanner(a) }, func(a **time.Time) sql.Scanner { return encoding.TimeScanner(a) }, func(v time.Time) any { return v }))
	e(mkDest("rune", kRune, 32, 'x', func(a *rune) sql.Scanner { return encoding.RuneScanner[rune](a) }, func(a **rune) sql.Scanner { return encoding.RuneScanner[rune](a) }, i64[rune]))
	e(mkDest("nRune", kRune, 32, 'x', func(a *nRune) sql.Scanner { return encoding.RuneScanner[nRune](a) }, func(a **nRune) sql.Scanner { return encoding.RuneScanner[nRune](a) }, i64[nRune]))
	one := func(x []dest) { d = append(d, x[0]) }
	one(mkDest("[]rune", kRunes, 0, []rune("junk"), func(a *[]rune) sql.Scanner { return encoding.RuneSliceScanner(a) }, nil, func(v []rune) any { return string(v) }))
	one(mkDest("[]nRune", kRunes, 0, []nRune{'j', 'u'}, func(a *[]nRune) sql.Scanner { return encoding.RuneSliceScanner(a) }, nil, func(v []nRune) any { return runesOf(v) }))
	one(mkDest("[1]rune", kRunes, 1, [1]rune{'j'}, func(a *[1]rune) sql.Scanner { return encoding.RuneArrayScanner(a[:], 1) }, nil, func(v [1]rune) any { return string(v[:]) }))
	one(mkDest("[4]rune", kRunes, 4, [4]rune{'j', 'u', 'n', 'k'}, func(a *[4]rune) sql.Scanner { return encoding.RuneArrayScanner(a[:], 4) }, nil, func(v [4]rune) any { return string(v[:]) }))
	one(mkDest("[4]nRune", kRunes, 4, [4]nRune{'j', 'u', 'n', 'k'}, func(a *[4]nRune) sql.Scanner { return encoding.RuneArrayScanner(a[:], 4) }, nil, func(v [4]nRune) any { return runesOf(v[:]) }))
	one(mkDest("[1]byte", kByteArr, 1, [1]byte{'j'}, func(a *[1]byte) sql.Scanner { return encoding.ByteArrayScanner(a[:], 1) }, nil, func(v [1]byte) any { return string(v[:]) }))
	one(mkDest("[4]byte", kByteArr, 4, [4]byte{'j', 'u', 'n', 'k'}, func(a *[4]byte) sql.Scanner { return encoding.ByteArrayScanner(a[:], 4) }, nil, func(v [4]byte) any { return string(v[:]) }))
	one(mkDest("[10]nByte", kByteArr, 10, [10]nByte{'j', 'u', 'n', 'k', 'j', 'u', 'n', 'k', 'j', 'u'}, func(a *[10]nByte) sql.Scanner { return encoding.ByteArrayScanner(a[:], 10) }, nil, func(v [10]nByte) any {
		b := make([]byte, len(v))
		for i := range v {
			b[i] = byte(v[i])
		}
		return string(b)
	}))
	return d
}

func runesOf(v []nRune) string {
	r := make([]rune, len(v))
	for i := range v {
		r[i] = rune(v[i])
	}
	return string(r)
}

// --- sources ---------------------------------------------------------------

func intEdges(rng *rand.Rand, n int) []int64 {
	var out []int64
	for _, b := range []uint{0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 33, 52, 53, 54, 62, 63} {
		x := int64(1) << b
		for _, y := range []int64{x - 2, x - 1, x, x + 1, -x - 1, -x, -x + 1} {
			out = append(out, y)
		}
	}
	out = append(out, 0, 10, -10, 100, 255, 256, 300, -300, 65535, 65536, 4294967295, 4294967296, 1<<63-1, -1<<63)
	for i := 0; i < n; i++ {
		v := int64(rng.Uint64())
		out = append(out, v>>uint(rng.Intn(64)))
	}
	return out
}

func textEdges(rng *rand.Rand, n int) []string {
	out := []string{"", " ", "0", "1", "-1", "+1", "t", "f", "T", "F", "true", "false", "TRUE", "FALSE", "True", "False", "tRUE", "yes", "no", "on", "off",
		"00012", "-0", "1e3", "1.0", "1.5", ".5", "5.", "1_000", "0x10", "0b1", "0o7", "1 ", " 1", "1\n", "１", "NaN", "nan", "inf", "-Inf", "Infinity", "1e400", "-1e400", "3.5e38", "3.4028235e38", "3.4028236e38", "1e-400", "1e-46", "0x1p-2", "0x1.8p1",
		"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
		"81.20022", "0.1", "16777217", "9007199254740993", "1.00000005960464477540", "hello", "日本語", "a\x00b", "\xff\xfe", "'; DROP TABLE x; --", "NULL", "null", "nil",
		"2024-01-01", "2024-02-29", "2023-02-29", "2024-01-01 00:00:00", "2024-12-31 23:59:59", "2024-12-31 23:59:59.9", "2024-12-31 23:59:59.123456", "2024-12-31 23:59:59.000000001", "2024-12-31 23:59:60", "2024-12-31 24:00:00", "2024-12-31\t23:59:59",
		"2024-01-01T00:00:00Z", "2024-01-01T00:00:00.5+08:00", "2024-01-01T00:00:00-11:30", "0001-01-01", "0000-00-00", "0000-00-00 00:00:00", "9999-12-31 23:59:59.999999", "2024-01-01x", "x2024-01-01", "2024-1-1", "20240101",
		"a", "日", "🥳", "é", "e\u0301", "\x00", "\uFFFD", "\U0010FFFF", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe6\x97", "ab", "日本", "日x", "x\xff", "日本語x", "日本語xy", "日本語x\xff", "🥳🥳🥳🥳", "abcd", "abcde", "abcdefghij", "abcdefghijk", "ab\x00\x00", "\x00\x00\x00\x00\x00", "\u2028", "\ufeff"}
	for i := 0; i < n; i++ {
		switch rng.Intn(6) {
		case 0:
			out = append(out, strconv.FormatInt(int64(rng.Uint64())>>uint(rng.Intn(64)), 10))
		case 1:
			out = append(out, strconv.FormatUint(rng.Uint64()>>uint(rng.Intn(64)), 10))
		case 2:
			out = append(out, strconv.FormatFloat(rng.NormFloat64()*pow10(rng.Intn(80)-40), 'g', -1, 64))
		case 3:
			out = append(out, time.Unix(rng.Int63n(4e9)-1e9, int64(rng.Intn(1e6))*1000).UTC().Format("2006-01-02 15:04:05.999999"))
		case 4:
			out = append(out, time.Unix(rng.Int63n(4e9)-1e9, int64(rng.Intn(1e9))).In(time.FixedZone("", (rng.Intn(49)-24)*1800)).Format(time.RFC3339Nano))
		default:
			b := make([]byte, rng.Intn(12))
			for j := range b {
				b[j] = "0123456789-+.eE tf\x00\xc3"[rng.Intn(20)]
			}
			out = append(out, string(b))
		}
	}
	return out
}

func pow10(n int) float64 {
	f, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", n), 64)
	return f
}
