package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"

	"verif/harness/ev"
)

// jsonElem reads one JSON element for a list type: canonical element text.
type jsonList struct {
	listType
	kind string // string, bool, int, float
}

func jsLists() []jsonList {
	id := func(s string) (string, error) { return s, nil }
	ids := func(s string) string { return s }
	boolP := func(s string) (bool, error) {
		switch s {
		case "true":
			return true, nil
		case "false":
			return false, nil
		}
		return false, errMalformed
	}
	genBool := func(r *rand.Rand) string { return []string{"true", "false"}[r.Intn(2)] }
	l := func(k string, t listType) jsonList { return jsonList{t, k} }
	return []jsonList{
		l("string", mkList("StringSlice", id, ids, func(l []string) driver.Valuer { return sqltype.StringSlice[string](l) }, func(l *[]string) sql.Scanner { return (*sqltype.StringSlice[string])(l) }, genStr)),
		l("string", mkList("StringSlice/named", func(s string) (nStr, error) { return nStr(s), nil }, func(s nStr) string { return string(s) }, func(l []nStr) driver.Valuer { return sqltype.StringSlice[nStr](l) }, func(l *[]nStr) sql.Scanner { return (*sqltype.StringSlice[nStr])(l) }, genStr)),
		l("bool", mkList("BoolSlice", boolP, strconv.FormatBool, func(l []bool) driver.Valuer { return sqltype.BoolSlice[bool](l) }, func(l *[]bool) sql.Scanner { return (*sqltype.BoolSlice[bool])(l) }, genBool)),
		l("int", pgInt[int, sqltype.IntSlice[int]]("IntSlice", 64, func(l *[]int) sql.Scanner { return (*sqltype.IntSlice[int])(l) })),
		l("int", pgInt[int8, sqltype.Int8Slice[int8]]("Int8Slice", 8, func(l *[]int8) sql.Scanner { return (*sqltype.Int8Slice[int8])(l) })),
		l("int", pgInt[int16, sqltype.Int16Slice[int16]]("Int16Slice", 16, func(l *[]int16) sql.Scanner { return (*sqltype.Int16Slice[int16])(l) })),
		l("int", pgInt[int32, sqltype.Int32Slice[int32]]("Int32Slice", 32, func(l *[]int32) sql.Scanner { return (*sqltype.Int32Slice[int32])(l) })),
		l("int", pgInt[int64, sqltype.Int64Slice[int64]]("Int64Slice", 64, func(l *[]int64) sql.Scanner { return (*sqltype.Int64Slice[int64])(l) })),
		l("int", pgUint[uint, sqltype.UintSlice[uint]]("UintSlice", 64, func(l *[]uint) sql.Scanner { return (*sqltype.UintSlice[uint])(l) })),
		l("int", pgUint[uint8, sqltype.Uint8Slice[uint8]]("Uint8Slice", 8, func(l *[]uint8) sql.Scanner { return (*sqltype.Uint8Slice[uint8])(l) })),
		l("int", pgUint[uint16, sqltype.Uint16Slice[uint16]]("Uint16Slice", 16, func(l *[]uint16) sql.Scanner { return (*sqltype.Uint16Slice[uint16])(l) })),
		l("int", pgUint[uint32, sqltype.Uint32Slice[uint32]]("Uint32Slice", 32, func(l *[]uint32) sql.Scanner { return (*sqltype.Uint32Slice[uint32])(l) })),
		l("int", pgUint[uint64, sqltype.Uint64Slice[uint64]]("Uint64Slice", 64, func(l *[]uint64) sql.Scanner { return (*sqltype.Uint64Slice[uint64])(l) })),
		l("float", pgFloat[float32, sqltype.Float32Slice[float32]]("Float32Slice", 32, false, func(l *[]float32) sql.Scanner { return (*sqltype.Float32Slice[float32])(l) })),
		l("float", pgFloat[float64, sqltype.Float64Slice[float64]]("Float64Slice", 64, false, func(l *[]float64) sql.Scanner { return (*sqltype.Float64Slice[float64])(l) })),
	}
}

// readJSON interprets text as a JSON list for t. strictOK: the list is
// representable and must be accepted as es; looseOK: it may be accepted as es.
func readJSON(t jsonList, text []byte) (es []string, ok, must bool) {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var raws []json.RawMessage
	if !json.Valid(text) {
		return nil, false, false
	}
	if err := json.Unmarshal(text, &raws); err != nil {
		return nil, false, false
	}
	if raws == nil { // JSON null: NULL or an error
		return []string{}, true, false
	}
	es = []string{}
	must = true
	for _, e := range raws {
		s := string(e)
		switch t.kind {
		case "string":
			if e[0] != '"' {
				return nil, false, false
			}
			var v string
			json.Unmarshal(e, &v)
			es = append(es, v)
		case "bool":
			if s != "true" && s != "false" {
				return nil, false, false
			}
			es = append(es, s)
		case "int":
			if c, ok := t.elem(s); ok {
				es = append(es, c)
				continue
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || f != math.Trunc(f) || math.Abs(f) > 1<<53 || s[0] == '"' {
				return nil, false, false
			}
			c, ok := t.elem(strconv.FormatFloat(f, 'f', 0, 64))
			if !ok {
				return nil, false, false
			}
			must = false
			es = append(es, c)
		case "float":
			if !(s[0] == '-' || s[0] >= '0' && s[0] <= '9') {
				return nil, false, false
			}
			c, ok := t.elem(s)
			if !ok {
				return nil, false, false
			}
			es = append(es, c)
		}
	}
	return es, true, must
}

// spell writes the list as JSON in a random equivalent spelling.
func spell(t jsonList, rng *rand.Rand, l []string) string {
	ws := func() string {
		return []string{"", "", " ", "\n", "\t", "\r\n  "}[rng.Intn(6)]
	}
	var b strings.Builder
	b.WriteString(ws() + "[" + ws())
	for i, e := range l {
		if i > 0 {
			b.WriteString(ws() + "," + ws())
		}
		switch t.kind {
		case "string":
			b.WriteByte('"')
			for _, c := range e {
				switch {
				case c == '"' || c == '\\':
					if rng.Intn(2) == 0 {
						b.WriteString("\\" + string(c))
					} else {
						fmt.Fprintf(&b, "\\u%04X", c)
					}
				case c == '/' && rng.Intn(2) == 0:
					b.WriteString(`\/`)
				case c < 0x20:
					esc := map[rune]string{'\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}
					if x, ok := esc[c]; ok && rng.Intn(2) == 0 {
						b.WriteString(x)
					} else {
						fmt.Fprintf(&b, "\\u%04x", c)
					}
				case rng.Intn(4) == 0:
					if c > 0xffff {
						c -= 0x10000
						fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
					} else {
						fmt.Fprintf(&b, "\\u%04x", c)
					}
				default:
					b.WriteRune(c)
				}
			}
			b.WriteByte('"')
		case "float":
			f, _ := strconv.ParseFloat(e, 64)
			x := strconv.FormatFloat(f, "efg"[rng.Intn(3)], -1, 64)
			b.WriteString(x)
		default:
			b.WriteString(e)
		}
	}
	b.WriteString(ws() + "]" + ws())
	return b.String()
}

func c04(r *ev.Run) {
	r.Rule = "every sqltype slice type and Marshal*Slice helper x random slices of hostile elements: Value judged by encoding/json, Scan judged on random equivalent JSON spellings, out-of-type elements and random mutations judged by encoding/json; non-trivial = distinct (type, text) judged"
	r.Assume = []string{"encoding/json decides what a JSON text denotes", "the pre-existing [t,f] form of bool lists may still be read as booleans"}
	for _, t := range jsLists() {
		rng := r.Rand(t.name)
		for n := 0; n < r.N(1500, 60000); n++ {
			l := genList(rng, t.gen)
			desc := fmt.Sprintf("%s %s", t.name, short(l))
			var v driver.Value
			var verr error
			if !r.Guard("encode/"+t.name, desc, func() { v, verr = t.value(l) }) {
				continue
			}
			hold(r, "encode/"+t.name, desc, v)
			r.Eval("enc:"+desc, true)
			if verr != nil {
				r.Violate("encode/"+t.name, "%s: Value fails: %v", desc, verr)
				continue
			}
			if l == nil {
				if v != nil {
					r.Violate("encode/"+t.name, "%s: nil slice encoded as %v instead of NULL", desc, v)
				}
				continue
			}
			s, ok := asText(v)
			es, ok2, _ := readJSON(t, []byte(s))
			if !ok || !ok2 || !eqStr(es, l) {
				r.Violate("encode/"+t.name, "%s: encoded as %q, which is not that list in JSON (reads as %s)", desc, s, short(es))
			}
			r.Sample("encode "+t.name, map[string]any{"slice": short(l), "json": s})
			back(r, t.listType, "roundtrip/"+t.name, desc, asSrc(rng, s), n%2 == 0, l)
			for k := 0; k < 2; k++ {
				js := spell(t, rng, l)
				if _, ok, must := readJSON(t, []byte(js)); !ok || !must {
					panic("harness: bad spelling " + js)
				}
				back(r, t.listType, "decode/"+t.name, fmt.Sprintf("%s json %q", t.name, clip(js)), asSrc(rng, js), n%2 == 1, l)
			}
			// elements of other types
			bad := []string{"null", "{}", "[1]", "NULL", "a", "\"unterminated", "[]", "tru", "01x", "+1", "1e999", "nan", "t", "'a'", "\"\\x\"", "\"\\u12\"", "\"a\nb\""}
			switch t.kind {
			case "string":
				bad = append(bad, "1", "true")
			case "bool":
				bad = append(bad, "1", "0", "\"true\"", "2")
			default:
				bad = append(bad, "true", "\"x\"", "1.5.2")
				bad = append(bad, t.bad...)
			}
			mutateJSON(r, t, rng, rng.Intn(3), l, bad[rng.Intn(len(bad))])
		}
		for _, v := range []any{int64(1), 1.5, true} {
			refuse(r, t.listType, "kind/"+t.name, v, "not text")
		}
		r.Guard("null/"+t.name, t.name+" NULL", func() {
			es, isNil, err := t.scan(nil, true)
			r.Eval("null:"+t.name, true)
			if err != nil || !isNil || len(es) != 0 {
				r.Violate("null/"+t.name, "%s: NULL gives %v (nil=%v, err=%v)", t.name, es, isNil, err)
			}
		})
	}
	// slices JSON cannot express
	for _, c := range []struct {
		n string
		v driver.Valuer
	}{
		{"Float64Slice", sqltype.Float64Slice[float64]{1, math.NaN()}},
		{"Float64Slice", sqltype.Float64Slice[float64]{math.Inf(1)}},
		{"Float32Slice", sqltype.Float32Slice[float32]{float32(math.Inf(-1)), 2}},
		{"Float32Slice", sqltype.Float32Slice[float32]{1, float32(math.NaN())}},
		{"StringSlice", sqltype.StringSlice[string]{"a", "\xff"}},
		{"StringSlice", sqltype.StringSlice[string]{"\xe6\x97"}},
	} {
		desc := fmt.Sprintf("%s %q", c.n, fmt.Sprint(c.v))
		r.Guard("inexpressible/"+c.n, desc, func() {
			v, err := c.v.Value()
			r.Eval(desc, true)
			if err == nil {
				r.Violate("inexpressible/"+c.n, "%s: encoded as %q without error", desc, v)
			}
		})
	}
	marshalHelpers(r)
}

func mutateJSON(r *ev.Run, t jsonList, rng *rand.Rand, mode int, l []string, bad string) {
	js := spell(t, rng, l)
	var s string
	switch mode {
	case 0: // a foreign element
		if len(l) == 0 {
			s = "[" + bad + "]"
		} else if rng.Intn(2) == 0 {
			s = strings.Replace(js, "[", "["+bad+",", 1)
		} else {
			k := strings.LastIndex(js, "]")
			s = js[:k] + "," + bad + js[k:]
		}
	case 1: // truncated or extended
		if rng.Intn(2) == 0 {
			s = js[:rng.Intn(len(js))]
		} else {
			s = js + []string{"]", ",", "x", "[]", "1", "\"", "\x00"}[rng.Intn(7)]
		}
	default:
		b := []byte(js)
		for k := 1 + rng.Intn(2); k > 0 && len(b) > 1; k-- {
			p := rng.Intn(len(b))
			x := "[]\",\\ n0-.eu{}:"[rng.Intn(15)]
			switch rng.Intn(3) {
			case 0:
				b = append(b[:p], b[p+1:]...)
			case 1:
				b[p] = x
			default:
				b = append(b[:p], append([]byte{x}, b[p:]...)...)
			}
		}
		s = string(b)
	}
	es, ok, must := readJSON(t, []byte(s))
	if !utf8.ValidString(s) {
		must = false
	}
	desc := fmt.Sprintf("%s json %q", t.name, clip(s))
	key := []string{"foreign/", "cut/", "mutated/"}[mode] + t.name
	r.Guard(key, desc, func() {
		got, _, err := t.scan(asSrc(rng, s), rng.Intn(2) == 0)
		r.Eval(desc, true)
		switch {
		case err != nil && must:
			r.Violate(key, "%s: Scan fails: %v, but it is the list %s", desc, err, short(es))
		case err != nil:
		case t.kind == "bool" && legacyBools(s, got):
		case !ok && utf8.ValidString(s):
			r.Violate(key, "%s: accepted as %s, but it is not a JSON list of such elements", desc, short(got))
		case ok && utf8.ValidString(s) && !eqStr(es, got):
			r.Violate(key, "%s: accepted as %s, want %s", desc, short(got), short(es))
		}
	})
}

// legacyBools: the [t,f] spelling written by earlier versions.
func legacyBools(s string, got []string) bool {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
		return false
	}
	p := strings.Split(s[1:len(s)-1], ",")
	if len(p) != len(got) {
		return false
	}
	for i, e := range p {
		e = strings.Trim(strings.TrimSpace(e), `"`)
		if (e == "t" || e == "true") != (got[i] == "true") || (e == "f" || e == "false") != (got[i] == "false") {
			return false
		}
	}
	return true
}

func marshalHelpers(r *ev.Run) {
	rng := r.Rand("marshal")
	for n := 0; n < r.N(3000, 100000); n++ {
		k := rng.Intn(5)
		if n%10 == 0 {
			k = 0
		}
		check := func(name string, js func() string, want any, got any) {
			desc := fmt.Sprintf("%s(%s)", name, clip(fmt.Sprintf("%q", fmt.Sprint(want))))
			r.Guard("marshal/"+name, desc, func() {
				s := js()
				r.Eval(desc, true)
				if err := json.Unmarshal([]byte(s), got); err != nil {
					r.Violate("marshal/"+name, "%s = %s is not JSON: %v", desc, clip(s), err)
					return
				}
				a, _ := json.Marshal(want)
				b, _ := json.Marshal(got)
				if !bytes.Equal(a, b) || s == "null" {
					r.Violate("marshal/"+name, "%s = %s reads back as %s, want %s", desc, clip(s), clip(string(b)), clip(string(a)))
				}
				r.Sample("marshal "+name, s)
			})
		}
		var ss []string = []string{}
		var bs [][]byte
		var ns = []nStr{}
		var is = []int64{}
		var i8 = []nInt8{}
		var us = []uint64{}
		var bo = []bool{}
		var fs = []float64{}
		var ts = []time.Time{}
		for i := 0; i < k; i++ {
			s := genStr(rng)
			ss = append(ss, s)
			bs = append(bs, []byte(s))
			ns = append(ns, nStr(s))
			is = append(is, int64(rng.Uint64())>>uint(rng.Intn(64)))
			i8 = append(i8, nInt8(rng.Uint32()))
			us = append(us, rng.Uint64()>>uint(rng.Intn(64)))
			bo = append(bo, rng.Intn(2) == 0)
			f, _ := strconv.ParseFloat(genFloat(64, false)(rng), 64)
			fs = append(fs, f)
			t := time.Unix(rng.Int63n(8e9)-4e9, []int64{0, 0, 1, 999999999, rng.Int63n(1e9), rng.Int63n(1e6) * 1000}[rng.Intn(6)])
			if rng.Intn(2) == 0 {
				t = t.UTC()
			} else {
				t = t.In(time.FixedZone("", (rng.Intn(49)-24)*1800))
			}
			ts = append(ts, t)
		}
		check("MarshalStringSlice", func() string { return encoding.MarshalStringSlice(ss) }, ss, &[]string{})
		check("MarshalStringSlice[bytes]", func() string { return encoding.MarshalStringSlice(bs) }, ss, &[]string{})
		check("MarshalStringSlice[named]", func() string { return encoding.MarshalStringSlice(ns) }, ss, &[]string{})
		check("MarshalIntSlice", func() string { return encoding.MarshalIntSlice(is) }, is, &[]int64{})
		check("MarshalIntSlice[named]", func() string { return encoding.MarshalIntSlice(i8) }, i8, &[]int64{})
		check("MarshalUintSlice", func() string { return encoding.MarshalUintSlice(us) }, us, &[]uint64{})
		check("MarshalBoolSlice", func() string { return encoding.MarshalBoolSlice(bo) }, bo, &[]bool{})
		check("MarshalFloat64List", func() string { return encoding.MarshalFloat64List(fs) }, fs, &[]float64{})
		check("MarshalTimeList", func() string { return encoding.MarshalTimeList(ts) }, ts, &[]time.Time{})
	}
}
