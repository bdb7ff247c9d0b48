package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/harness/ev"
)

// verdict of the oracle on (destination, source).
type want struct {
	val     any  // the value that may be stored (canonical)
	hasVal  bool // false: only an error is acceptable
	mustAcc bool // an error is not acceptable
	cmp     func(got any) bool
}

func fits(k kind, bits int, n *big.Int) (any, bool) {
	if k == kInt {
		lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return n.Int64(), true
		}
		return nil, false
	}
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	if n.Sign() >= 0 && n.Cmp(hi) <= 0 {
		return n.Uint64(), true
	}
	return nil, false
}

func isDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// decimalInt parses [+-]?digits exactly.
func decimalInt(s string) (*big.Int, bool, bool) {
	canon := true
	b := s
	if strings.HasPrefix(b, "-") {
		b = b[1:]
	} else if strings.HasPrefix(b, "+") {
		b = b[1:]
		canon = false
	}
	if !isDigits(b) {
		return nil, false, false
	}
	n, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if n != nil && n.String() != s {
		canon = false
	}
	return n, canon, ok
}

func nearest(bits int, f float64) (float64, bool) {
	if bits == 64 {
		return f, true
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return f, true
	}
	g := float64(float32(f))
	return g, !math.IsInf(g, 0)
}

// expect is what the destination may hold after scanning src. The MySQL driver
// returns uint64 and float32 as well, for its own columns of that kind.
func expect(d dest, src any) want {
	switch v := src.(type) {
	case float32:
		w := expect(d, float64(v))
		w.mustAcc = w.mustAcc && d.kind == kFloat
		if d.kind == kString || d.kind == kBytes {
			w = want{hasVal: !d.strict, cmp: func(g any) bool {
				s, _ := g.(string)
				f, err := strconv.ParseFloat(s, 32)
				return err == nil && (float32(f) == v || (f != f && v != v))
			}}
		}
		return w
	case uint64:
		n := new(big.Int).SetUint64(v)
		switch d.kind {
		case kInt, kUint:
			val, ok := fits(d.kind, d.bits, n)
			return want{val: val, hasVal: ok, mustAcc: ok}
		case kFloat:
			g := float64(v)
			if d.bits == 32 {
				g = float64(float32(v))
			}
			return want{val: g, hasVal: true}
		case kBool:
			return want{val: v != 0, hasVal: true}
		case kString, kBytes:
			return want{val: n.String(), hasVal: !d.strict}
		}
		return want{}
	}
	if src == nil {
		if d.ptr {
			return want{hasVal: true, mustAcc: true, val: nil}
		}
		var z any
		switch d.kind {
		case kInt:
			z = int64(0)
		case kUint:
			z = uint64(0)
		case kFloat:
			z = float64(0)
		case kBool:
			z = false
		case kString, kBytes:
			z = ""
		case kTime:
			z = time.Time{}
		case kRune:
			z = int64(0)
		case kRunes, kByteArr:
			z = strings.Repeat("\x00", d.bits)
		}
		return want{hasVal: true, mustAcc: true, val: z}
	}
	text, isText := "", false
	isBytes := false
	switch v := src.(type) {
	case string:
		text, isText = v, true
	case []byte:
		text, isText, isBytes = string(v), true, true
	}
	switch d.kind {
	case kInt, kUint:
		switch v := src.(type) {
		case int64:
			if val, ok := fits(d.kind, d.bits, big.NewInt(v)); ok {
				return want{val: val, hasVal: true, mustAcc: true}
			}
			if d.kind == kUint && d.bits == 64 && v < 0 {
				return want{val: uint64(v), hasVal: true, mustAcc: true}
			}
			return want{}
		case float64:
			if v == math.Trunc(v) && math.Abs(v) < 1e19 {
				n, _ := big.NewFloat(v).Int(nil)
				if val, ok := fits(d.kind, d.bits, n); ok {
					return want{val: val, hasVal: true}
				}
			}
			return want{}
		case bool:
			n := int64(0)
			if v {
				n = 1
			}
			val, _ := fits(d.kind, d.bits, big.NewInt(n))
			return want{val: val, hasVal: true}
		}
		if isText {
			if n, canon, ok := decimalInt(text); ok {
				if val, ok := fits(d.kind, d.bits, n); ok {
					return want{val: val, hasVal: true, mustAcc: isBytes && canon}
				}
				if d.kind == kUint && d.bits == 64 && n.Sign() < 0 && n.IsInt64() {
					return want{val: uint64(n.Int64()), hasVal: true, mustAcc: isBytes && canon}
				}
			}
		}
		return want{}
	case kRune:
		if c, size := utf8.DecodeRuneInString(text); isText && size > 0 && size == len(text) && (c != utf8.RuneError || size == 3) {
			return want{val: int64(c), hasVal: true, mustAcc: true}
		}
		return want{}
	case kRunes:
		if n := utf8.RuneCountInString(text); isText && utf8.ValidString(text) && (d.bits == 0 || n <= d.bits) {
			return want{val: text + strings.Repeat("\x00", max(0, d.bits-n)), hasVal: true, mustAcc: true}
		}
		return want{}
	case kByteArr:
		if isText && len(text) <= d.bits {
			return want{val: text + strings.Repeat("\x00", d.bits-len(text)), hasVal: true, mustAcc: true}
		}
		return want{}
	case kFloat:
		switch v := src.(type) {
		case float64:
			g, ok := nearest(d.bits, v)
			return want{val: g, hasVal: ok, mustAcc: ok}
		case int64:
			var g float64
			if d.bits == 32 {
				g = float64(float32(v))
			} else {
				g = float64(v)
			}
			return want{val: g, hasVal: true, mustAcc: true}
		case bool:
			return want{}
		}
		if isText {
			if d.strict {
				return want{}
			}
			g, err := strconv.ParseFloat(text, d.bits)
			if err == nil {
				return want{val: g, hasVal: true, mustAcc: text[0] >= '0' && text[0] <= '9' && !strings.ContainsAny(text, "xX_")}
			}
		}
		return want{}
	case kBool:
		switch v := src.(type) {
		case bool:
			return want{val: v, hasVal: true, mustAcc: true}
		case int64:
			return want{val: v != 0, hasVal: true, mustAcc: v == 0 || v == 1}
		case float64:
			return want{val: v != 0, hasVal: v == 0 || v == 1}
		}
		if isText {
			if d.strict {
				return want{}
			}
			switch strings.ToLower(text) {
			case "1", "t", "true":
				return want{val: true, hasVal: true, mustAcc: text == "1" || text == "t" || text == "true"}
			case "0", "f", "false":
				return want{val: false, hasVal: true, mustAcc: text == "0" || text == "f" || text == "false"}
			}
		}
		return want{}
	case kString, kBytes:
		if isText {
			return want{val: text, hasVal: true, mustAcc: true}
		}
		if d.strict {
			return want{}
		}
		switch v := src.(type) {
		case int64:
			return want{hasVal: true, val: strconv.FormatInt(v, 10)}
		case bool:
			return want{hasVal: true, cmp: func(g any) bool { s, _ := g.(string); b, err := strconv.ParseBool(s); return err == nil && b == v }}
		case float64:
			return want{hasVal: true, cmp: func(g any) bool {
				s, _ := g.(string)
				f, err := strconv.ParseFloat(s, 64)
				return err == nil && (f == v || (f != f && v != v))
			}}
		case time.Time:
			return want{hasVal: true, cmp: func(g any) bool {
				s, _ := g.(string)
				for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999 -0700 -0700"} {
					if t, err := time.Parse(l, s); err == nil && t.Equal(v) {
						return true
					}
				}
				return false
			}}
		}
		return want{}
	case kTime:
		switch v := src.(type) {
		case time.Time:
			return want{val: v, hasVal: true, mustAcc: true}
		case int64:
			return want{val: time.Unix(v, 0), hasVal: true}
		}
		if isText {
			for i, l := range []string{"2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999999", time.RFC3339Nano} {
				if t, err := time.Parse(l, text); err == nil {
					if i < 3 && strings.ContainsAny(text, ",") {
						continue
					}
					return want{val: t, hasVal: true, mustAcc: true}
				}
			}
		}
		return want{}
	}
	return want{}
}

func sameVal(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || (x != x && y != y))
	case time.Time:
		y, ok := b.(time.Time)
		if !ok || !x.Equal(y) {
			return false
		}
		return true
	}
	return a == b
}

func c01(r *ev.Run) {
	r.Rule = "every scalar destination (plain/named x value/pointer x strict/lenient) x driver values of all six kinds: width boundaries, float edges, text spellings and PRNG values; non-trivial = distinct (destination, source) judged against a big.Int/strconv/time oracle"
	r.Assume = []string{"strconv, math/big and time are correct", "driver values are the kinds database/sql/driver.Value allows"}
	rng := r.Rand("src")
	var srcs []any
	srcs = append(srcs, nil, true, false)
	for _, i := range intEdges(rng, r.N(400, 3000)) {
		srcs = append(srcs, i, []byte(strconv.FormatInt(i, 10)), uint64(i))
	}
	for _, s := range textEdges(rng, r.N(2500, 12000)) {
		srcs = append(srcs, s, []byte(s))
	}
	fl := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, 81.20022, 127, 128, 255, 256, 1e10, 16777217, 9007199254740993, 9.3e18, 1.9e19, math.MaxFloat32, math.MaxFloat32 * 1.0000001, 3.5e38, -3.5e38, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	for i := 0; i < r.N(400, 2000); i++ {
		fl = append(fl, math.Float64frombits(rng.Uint64()))
	}
	for _, f := range fl {
		srcs = append(srcs, f, float32(f))
	}
	for _, t := range []time.Time{{}, time.Unix(0, 0), time.Unix(1<<31, 5), time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC), time.Date(1960, 1, 1, 0, 0, 0, 1, time.FixedZone("MYT", 8*3600))} {
		srcs = append(srcs, t)
	}
	accepted, refused := int64(0), int64(0)
	for _, d := range allDests() {
		for si, src := range srcs {
			w := expect(d, src)
			junk := si%2 == 0
			var err error
			var got any
			keep := fmt.Sprintf("%#v", src)
			desc := fmt.Sprintf("dest=%s src=%T(%v)", d.name, src, show(src))
			key := "scan/" + strings.TrimPrefix(d.name, "*") + "/" + srcKind(src)
			if !r.Guard(key, desc, func() {
				sc, get := d.mk(junk)
				err = sc.Scan(src)
				got = get()
			}) {
				continue
			}
			r.Eval(desc, true)
			if k := fmt.Sprintf("%#v", src); k != keep {
				r.Violate(key, "%s: the source value was modified to %s", desc, k)
			}
			if err != nil {
				refused++
				if w.mustAcc {
					r.Violate(key+"/refused", "%s: refused with %v, but the value is representable (want %v)", desc, err, w.val)
				}
				continue
			}
			accepted++
			if !w.hasVal {
				r.Violate(key, "%s: stored %v without error, but the source has no such value in the destination's type", desc, show(got))
				continue
			}
			ok := false
			if w.cmp != nil {
				if d.ptr && got == nil {
					ok = false
				} else {
					ok = w.cmp(got)
				}
			} else {
				ok = sameVal(w.val, got)
			}
			if !ok {
				r.Violate(key, "%s: stored %v, want %v", desc, show(got), show(w.val))
			}
			r.Sample(d.name, map[string]any{"source": desc, "stored": fmt.Sprint(show(got))})
		}
	}
	r.Count("accepted", accepted)
	r.Count("refused", refused)
}

func srcKind(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case []byte:
		return "bytes"
	}
	return fmt.Sprintf("%T", v)
}

func show(v any) any {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return v
}
