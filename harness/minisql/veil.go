package minisql

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
	"time"
)

const veil = "veil\x7f:"

// Veil spells a driver value as a text which only the function UNVEIL turns
// back into the value: what reaches the database without it is another value.
func Veil(v any) (any, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case int64:
		return veil + "i" + strconv.FormatInt(x, 10), true
	case uint64:
		return veil + "u" + strconv.FormatUint(x, 10), true
	case float64:
		return veil + "f" + strconv.FormatFloat(x, 'g', -1, 64), true
	case bool:
		return veil + "t" + strconv.FormatBool(x), true
	case string:
		return veil + "s" + hex.EncodeToString([]byte(x)), true
	case []byte:
		if x == nil {
			return nil, true
		}
		return veil + "b" + hex.EncodeToString(x), true
	case time.Time:
		b, err := x.MarshalBinary()
		return veil + "T" + hex.EncodeToString(b), err == nil
	}
	return nil, false
}

// Unveil is what was veiled.
func Unveil(v any) (any, error) {
	if v == nil {
		return nil, nil
	}
	s, ok := v.(string)
	if !ok || !strings.HasPrefix(s, veil) || len(s) == len(veil) {
		return nil, fmt.Errorf("UNVEIL of %T %v", v, v)
	}
	kind, s := s[len(veil)], s[len(veil)+1:]
	switch kind {
	case 'i':
		return strconv.ParseInt(s, 10, 64)
	case 'u':
		return strconv.ParseUint(s, 10, 64)
	case 'f':
		return strconv.ParseFloat(s, 64)
	case 't':
		return strconv.ParseBool(s)
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	switch kind {
	case 's':
		return string(b), nil
	case 'b':
		return b, nil
	case 'T':
		var t time.Time
		err := t.UnmarshalBinary(b)
		return t, err
	}
	return nil, fmt.Errorf("UNVEIL of %q", v)
}

// Veiled is whether the value is one of Veil's.
func Veiled(v any) bool {
	s, ok := v.(string)
	return ok && strings.HasPrefix(s, veil)
}

func unveil(a []Value) (Value, error) {
	v, err := Unveil(a[0])
	if err != nil {
		return nil, execerr("%v", err)
	}
	return Bind(v)
}
