package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	enc "encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net/netip"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/types"

	"verif/harness/ev"
)

type jFail struct{ N int }

func (j jFail) MarshalJSON() ([]byte, error) {
	if j.N < 0 {
		return nil, errors.New("jFail: marshal")
	}
	return []byte(fmt.Sprintf(`{"n":%d}`, j.N)), nil
}
func (j *jFail) UnmarshalJSON(b []byte) error {
	var x struct{ N *int }
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if x.N == nil || *x.N > 1000 {
		return errors.New("jFail: unmarshal")
	}
	j.N = *x.N
	return nil
}

type jPtrRecv struct{ S string }

func (j *jPtrRecv) MarshalJSON() ([]byte, error) { return json.Marshal("p:" + j.S) }
func (j *jPtrRecv) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if !strings.HasPrefix(s, "p:") {
		return errors.New("jPtrRecv")
	}
	j.S = s[2:]
	return nil
}

type jRec struct {
	Name string
	Kids []*jRec           `json:",omitempty"`
	Attr map[string]string `json:",omitempty"`
	When *time.Time
	Raw  json.RawMessage `json:",omitempty"`
	U    uint64
	F    float64
	B    []byte
}

func genRec(rng *rand.Rand, d int) jRec {
	x := jRec{Name: genStr(rng), U: rng.Uint64() >> uint(rng.Intn(64)), F: float64(rng.Intn(1e6)) / 64, B: []byte(genStr(rng))}
	if rng.Intn(2) == 0 {
		t := time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC()
		x.When = &t
	}
	if rng.Intn(2) == 0 {
		x.Attr = map[string]string{}
		for k := rng.Intn(3); k > 0; k-- {
			x.Attr[genStr(rng)] = genStr(rng)
		}
	}
	if rng.Intn(3) == 0 {
		x.Raw = json.RawMessage([]string{`1`, `"x"`, `[1,2]`, `{"a":null}`, `true`}[rng.Intn(5)])
	}
	if d > 0 {
		for k := rng.Intn(3); k > 0; k-- {
			y := genRec(rng, d-1)
			x.Kids = append(x.Kids, &y)
		}
	}
	return x
}

// norm is what encoding/json itself preserves of v.
func norm[T any](v T) (T, error) {
	var out T
	b, err := json.Marshal(v)
	if err != nil {
		return out, err
	}
	err = json.Unmarshal(b, &out)
	return out, err
}

var jsonTails = []string{"x", " x", "{}", ",", "]", "}", "null", "\"", "1", "\x00", " 2", "\n[]"}

func jsonCase[T any](r *ev.Run, rng *rand.Rand, name string, v, prev T) {
	key := "json/" + name
	desc := fmt.Sprintf("JSON %s %s", name, clip(dump(reflect.ValueOf(&v))))
	r.Guard(key, desc, func() {
		val, err := encoding.JSONValue(v).Value()
		want, werr := norm(v)
		r.Eval(desc, true)
		if werr != nil {
			if err == nil {
				r.Violate(key+"/valueerr", "%s: Value gives %v although the value cannot be encoded (%v)", desc, show(val), werr)
			}
			return
		}
		if err != nil {
			r.Violate(key, "%s: Value fails: %v", desc, err)
			return
		}
		if val != nil && !driver.IsValue(val) {
			r.Violate(key, "%s: Value returns %T, not a driver value", desc, val)
			return
		}
		hold(r, key, desc, val)
		for _, asBytes := range []bool{false, true} {
			for _, junk := range []bool{false, true} {
				src := any(val)
				if s, ok := asText(val); ok {
					if asBytes {
						src = []byte(s)
					} else {
						src = s
					}
				}
				var got T
				if junk {
					got, _ = norm(prev)
				}
				if err := encoding.JSONScanner(&got).Scan(src); err != nil {
					r.Violate(key, "%s: stored as %v, Scan fails: %v", desc, show(src), err)
				} else if val == nil {
					var z T
					if !reflect.DeepEqual(got, z) {
						r.Violate(key, "%s: NULL read back as %s", desc, clip(dump(reflect.ValueOf(&got))))
					}
				} else if jdump(got) != jdump(want) {
					r.Violate(key, "%s: stored as %v, read back (previous content: %v) as %s", desc, show(src), junk, clip(dump(reflect.ValueOf(&got))))
				}
			}
		}
		if s, ok := asText(val); ok {
			tail := jsonTails[rng.Intn(len(jsonTails))]
			// content that is not exactly one encoded value
			for _, bad := range []string{s + tail, s[:rng.Intn(len(s))], "", " "} {
				if json.Valid([]byte(bad)) {
					continue
				}
				var got T
				var err error
				d := fmt.Sprintf("JSON %s from %q", name, clip(bad))
				r.Guard(key+"/trailing", d, func() { err = encoding.JSONScanner(&got).Scan(asSrc(rng, bad)) })
				r.Eval(d, true)
				if err == nil {
					r.Violate(key+"/trailing", "%s: accepted as %s", d, clip(dump(reflect.ValueOf(&got))))
				}
			}
		}
		r.Sample("json "+name, map[string]any{"value": desc, "stored": fmt.Sprint(show(val))})
	})
	// NULL and foreign kinds
	nullCase(r, key, func() (error, bool) {
		got, _ := norm(prev)
		err := encoding.JSONScanner(&got).Scan(nil)
		var z T
		return err, reflect.DeepEqual(got, z)
	})
	for _, src := range []any{int64(5), 1.5, true, time.Unix(1, 0)} {
		r.Guard(key+"/kind", fmt.Sprintf("JSON %s from %T", name, src), func() {
			var got, z T
			err := encoding.JSONScanner(&got).Scan(src)
			r.Eval(key+srcKind(src), true)
			if err == nil && reflect.DeepEqual(got, z) {
				r.Violate(key+"/kind", "JSON %s from %T(%v): no error and nothing stored", name, src, src)
			}
		})
	}
}

func nullCase(r *ev.Run, key string, f func() (error, bool)) {
	r.Guard(key+"/null", key+" NULL", func() {
		err, zero := f()
		r.Eval(key+"/null", true)
		if err != nil {
			r.Violate(key+"/null", "%s: NULL is refused: %v", key, err)
		} else if !zero {
			r.Violate(key+"/null", "%s: NULL leaves a non-zero value", key)
		}
	})
}

// textCase checks T (text marshaller) as value, pointer and nil pointer destination.
func textCase[T interface {
	enc.TextMarshaler
}, P interface {
	*T
	enc.TextUnmarshaler
}](r *ev.Run, rng *rand.Rand, name string, v, prev T, eq func(a, b T) bool) {
	key := "text/" + name
	desc := fmt.Sprintf("Text %s %s", name, clip(fmt.Sprintf("%q", fmt.Sprint(v))))
	b, merr := v.MarshalText()
	check := func(form string, val driver.Value, err error) {
		if merr != nil {
			if err == nil {
				r.Violate(key+"/valueerr", "%s (%s): the marshaller fails with %v but Value gives %v", desc, form, merr, show(val))
			}
			return
		}
		if s, ok := asText(val); err != nil || !ok || s != string(b) {
			r.Violate(key, "%s (%s): Value gives %v, %v, want %q", desc, form, show(val), err, b)
		}
	}
	r.Guard(key, desc, func() {
		val, err := encoding.TextValue(v).Value()
		check("value", val, err)
		hold(r, key, desc, val)
		r.Eval(desc, true)
		if merr != nil {
			return
		}
		for _, src := range []any{string(b), append([]byte{}, b...)} {
			for form := 0; form < 4; form++ {
				var err error
				var got T
				isNil := false
				d := fmt.Sprintf("%s scanned from %T into %s", desc, src, []string{"value", "used value", "nil pointer", "used pointer"}[form])
				r.Guard(key+"/"+[]string{"value", "value", "nilptr", "ptr"}[form], d, func() {
					switch form {
					case 0, 1:
						if form == 1 {
							got = prev
						}
						err = encoding.TextScanner[T, P](&got).Scan(src)
					default:
						var p *T
						if form == 3 {
							x := prev
							p = &x
						}
						err = encoding.TextScanner[T, P](&p).Scan(src)
						if p == nil {
							isNil = true
						} else {
							got = *p
						}
					}
					r.Eval(d, true)
					if err != nil || isNil || !eq(got, v) {
						r.Violate(key, "%s: got %q nil=%v err=%v", d, fmt.Sprint(got), isNil, err)
					}
				})
			}
		}
		r.Sample(key, map[string]any{"value": desc, "stored": fmt.Sprintf("%q", b)})
	})
}

func textBad[T any, P interface {
	*T
	enc.TextUnmarshaler
}](r *ev.Run, rng *rand.Rand, name string, srcs ...any) {
	for _, src := range srcs {
		var want error
		switch s := src.(type) {
		case string:
			var x T
			want = P(&x).UnmarshalText([]byte(s))
		case []byte:
			var x T
			want = P(&x).UnmarshalText(s)
		}
		for form := 0; form < 2; form++ {
			d := fmt.Sprintf("Text %s from %T(%v) form %d", name, src, show(src), form)
			r.Guard("textbad/"+name, d, func() {
				var err error
				if form == 0 {
					var x T
					err = encoding.TextScanner[T, P](&x).Scan(src)
				} else {
					var p *T
					err = encoding.TextScanner[T, P](&p).Scan(src)
				}
				r.Eval(d, true)
				if want != nil && err == nil {
					r.Violate("textbad/"+name, "%s: the unmarshaller fails with %v but Scan reports success", d, want)
				}
			})
		}
	}
	nullCase(r, "text/"+name, func() (error, bool) {
		p := new(T)
		err := encoding.TextScanner[T, P](&p).Scan(nil)
		return err, p == nil
	})
	nullCase(r, "textval/"+name, func() (error, bool) {
		var z, x T
		err := encoding.TextScanner[T, P](&x).Scan(nil)
		return err, reflect.DeepEqual(x, z)
	})
}

type binT struct{ s string }

func (b binT) MarshalBinary() ([]byte, error) {
	if strings.Contains(b.s, "!") {
		return nil, errors.New("binT: marshal")
	}
	return append([]byte{byte(len(b.s))}, b.s...), nil
}
func (b *binT) UnmarshalBinary(d []byte) error {
	if len(d) == 0 || int(d[0]) != len(d)-1 {
		return errors.New("binT: unmarshal")
	}
	b.s = string(d[1:])
	return nil
}

func binCase[T enc.BinaryMarshaler, P interface {
	*T
	enc.BinaryUnmarshaler
}](r *ev.Run, name string, v, prev T, eq func(a, b T) bool) {
	key := "binary/" + name
	desc := fmt.Sprintf("Binary %s %q", name, fmt.Sprint(v))
	r.Guard(key, desc, func() {
		want, merr := v.MarshalBinary()
		val, err := types.BinaryMarshaler(v).Value()
		r.Eval(desc, true)
		if merr != nil {
			if err == nil {
				r.Violate(key+"/valueerr", "%s: marshaller fails, Value gives %v", desc, show(val))
			}
			return
		}
		b, ok := val.([]byte)
		if err != nil || !ok || string(b) != string(want) {
			r.Violate(key, "%s: Value gives %v, %v", desc, show(val), err)
			return
		}
		hold(r, key, desc, val)
		for _, used := range []bool{false, true} {
			var got T
			if used {
				got = prev
			}
			if err := types.BinaryUnmarshaler[T, P](&got).Scan(b); err != nil || !eq(got, v) {
				r.Violate(key, "%s: read back as %q, %v", desc, fmt.Sprint(got), err)
			}
		}
		for _, bad := range []any{b[:len(b)/2], append(append([]byte{}, b...), 'x')} {
			var x, y T
			werr := P(&x).UnmarshalBinary(bad.([]byte))
			err := types.BinaryUnmarshaler[T, P](&y).Scan(bad)
			r.Eval(fmt.Sprintf("%s bad %v", desc, bad), true)
			if (werr != nil) != (err != nil) {
				r.Violate(key+"/scanerr", "%s from %v: unmarshaller says %v, Scan says %v", desc, show(bad), werr, err)
			}
		}
	})
}

func binBad[T any, P interface {
	*T
	enc.BinaryUnmarshaler
}](r *ev.Run, name string) {
	for _, src := range []any{nil, int64(1), 1.5, true, "text", time.Unix(1, 0), []byte(nil), []byte{}} {
		d := fmt.Sprintf("Binary %s from %T", name, src)
		r.Guard("binkind/"+name, d, func() {
			var x T
			_ = types.BinaryUnmarshaler[T, P](&x).Scan(src)
			r.Eval(d, true)
		})
	}
}

func c05(r *ev.Run) {
	r.Rule = "JSON/text/binary adapters x random values of marshaller types, scanned from string and bytes into fresh, used, nil-pointer and used-pointer destinations; marshaller failures, truncated/extended content and every driver kind; non-trivial = distinct (type, value or content) judged against the marshallers called directly"
	r.Assume = []string{"encoding/json and the types' own marshallers define the encoded value"}
	rng := r.Rand("c05")
	for n := 0; n < r.N(400, 20000); n++ {
		rec, prev := genRec(rng, 2), genRec(rng, 1)
		jsonCase(r, rng, "struct", rec, prev)
		jsonCase(r, rng, "*struct", &rec, &prev)
		jsonCase(r, rng, "[]struct", rec.Kids, prev.Kids)
		jsonCase(r, rng, "map", rec.Attr, map[string]string{"stale": "x"})
		jsonCase(r, rng, "raw", json.RawMessage(`{"k": [1, "`+strings.Repeat("z", rng.Intn(4))+`"]}`), json.RawMessage(`[1]`))
		jsonCase(r, rng, "string", genStr(rng), genStr(rng))
		jsonCase(r, rng, "float", rec.F, 1.5)
		jsonCase(r, rng, "jFail", jFail{rng.Intn(40) - 4}, jFail{3})
		jsonCase(r, rng, "*jFail", &jFail{rng.Intn(40) - 4}, &jFail{3})
		jsonCase(r, rng, "*jPtrRecv", &jPtrRecv{genStr(rng)}, &jPtrRecv{"q"})
		jsonCase(r, rng, "[]string", []string{genStr(rng), genStr(rng)}, []string{"a", "b", "c"})
		jsonCase(r, rng, "[2]int", [2]int{rng.Int(), rng.Int()}, [2]int{1, 2})
		jsonCase(r, rng, "any", any(map[string]any{genStr(rng): []any{1.5, nil, genStr(rng)}}), any("old"))
		jsonCase(r, rng, "time", time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), time.Unix(1, 0).UTC())

		s := genStr(rng)
		if rng.Intn(8) == 0 {
			s += "!"
		}
		textCase(r, rng, "txt", txt{s}, txt{"prev"}, func(a, b txt) bool { return a == b })
		a4 := netip.AddrFrom4([4]byte{byte(rng.Int()), byte(rng.Int()), byte(rng.Int()), 1})
		textCase(r, rng, "addr", a4, netip.MustParseAddr("::1"), func(a, b netip.Addr) bool { return a == b })
		textCase(r, rng, "time", time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), time.Unix(5, 5), func(a, b time.Time) bool { return a.Equal(b) })
		binCase(r, "binT", binT{s}, binT{"prev"}, func(a, b binT) bool { return a == b })
		binCase(r, "time", time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), time.Unix(5, 5), func(a, b time.Time) bool { return a.Equal(b) })
		kinds := []any{"", "<", "x", "<>y", []byte("zz"), []byte{}, []byte(nil), int64(rng.Intn(100)), -1.5, true, false, time.Unix(3, 0), "<" + s}
		textBad[txt](r, rng, "txt", kinds...)
		textBad[netip.Addr](r, rng, "addr", kinds...)
		textBad[big.Int](r, rng, "big", kinds...)
		// integers are handed to text types as decimal text
		i := int64(rng.Uint64())
		r.Guard("text/big/int64", "Text big from int64", func() {
			var x big.Int
			var p *big.Int
			e1 := encoding.TextScanner[big.Int](&x).Scan(i)
			e2 := encoding.TextScanner[big.Int](&p).Scan(i)
			r.Eval(fmt.Sprint("big", i), true)
			if e1 != nil || e2 != nil || x.Int64() != i || p == nil || p.Int64() != i {
				r.Violate("text/big/int64", "int64 %d read into big.Int as %v,%v (%v,%v)", i, &x, p, e1, e2)
			}
		})
	}
	binBad[binT](r, "binT")
	binBad[url.URL](r, "url")
	binBad[time.Time](r, "time")
	// nil pointers are NULL (or JSON null), and read back as nil
	nilJSON(r, "*struct", (*jRec)(nil))
	nilJSON(r, "*jFail", (*jFail)(nil))
	nilJSON(r, "*jPtrRecv", (*jPtrRecv)(nil))
	nilJSON(r, "*int", (*int)(nil))
	// pointers to sql.Scanner columns
	for _, src := range []any{nil, "a", []byte("b"), int64(1), true, 1.5, time.Unix(1, 0)} {
		for _, used := range []bool{false, true} {
			d := fmt.Sprintf("PtrScanner from %T used=%v", src, used)
			r.Guard("ptr/scn", d, func() {
				var p *scn
				if used {
					p = &scn{"old"}
				}
				err := encoding.PtrScanner(&p).Scan(src)
				r.Eval(d, true)
				var want *scn
				if src != nil {
					want = &scn{}
					want.Scan(src)
				}
				if err != nil || (p == nil) != (want == nil) || (p != nil && *p != *want) {
					r.Violate("ptr/scn", "%s: got %v, %v, want %v", d, p, err, want)
				}
			})
		}
	}
	r.Guard("ptr/scn/err", "PtrScanner error", func() {
		var p *sql.NullInt64
		if err := encoding.PtrScanner(&p).Scan("notanumber"); err == nil {
			r.Violate("ptr/scn/err", "the scanner's own error is lost")
		}
		r.Eval("ptrerr", true)
	})
}

func nilJSON[T any](r *ev.Run, name string, v *T) {
	key := "json/" + name + "/nil"
	r.Guard(key, "JSON nil "+name, func() {
		val, err := encoding.JSONValue(v).Value()
		r.Eval(key, true)
		if err != nil {
			r.Violate(key, "nil %s: Value fails: %v", name, err)
			return
		}
		for _, p := range []*T{nil, new(T)} {
			if err := encoding.JSONScanner(&p).Scan(val); err != nil || p != nil {
				r.Violate(key, "nil %s stored as %v is read back as %v (%v)", name, show(val), p, err)
			}
		}
	})
}

func jdump[T any](v T) string {
	if raw, ok := any(v).(json.RawMessage); ok {
		var b bytes.Buffer
		if json.Compact(&b, raw) == nil {
			return b.String()
		}
	}
	return dump(reflect.ValueOf(&v))
}
