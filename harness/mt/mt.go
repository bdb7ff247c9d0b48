// Package mt holds the column types the generated-code checks use from outside
// the model packages.
package mt

import (
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"
)

type (
	Level int8
	Name  string
	Flag  bool
	Big   uint64
	Ratio float32
	Uid   [16]byte
)

// Scn is a Valuer and a Scanner with a text form.
type Scn struct{ A int64 }

func (s Scn) Value() (driver.Value, error) { return "A" + strconv.FormatInt(s.A, 10), nil }
func (s *Scn) Scan(v any) error {
	var t string
	switch x := v.(type) {
	case nil:
		s.A = 0
		return nil
	case string:
		t = x
	case []byte:
		t = string(x)
	default:
		return fmt.Errorf("mt.Scn: cannot scan %T", v)
	}
	if !strings.HasPrefix(t, "A") {
		return fmt.Errorf("mt.Scn: bad text %q", t)
	}
	n, err := strconv.ParseInt(t[1:], 10, 64)
	if err != nil {
		return err
	}
	s.A = n
	return nil
}

// Txt marshals itself as text.
type Txt struct{ B [4]byte }

func (s Txt) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(s.B[:])), nil }
func (s *Txt) UnmarshalText(b []byte) error {
	d, err := hex.DecodeString(string(b))
	if err != nil || len(d) != 4 {
		return fmt.Errorf("mt.Txt: bad text %q", b)
	}
	copy(s.B[:], d)
	return nil
}

// Jsn marshals itself as JSON in its own way.
type Jsn struct{ K, V string }

func (j Jsn) MarshalJSON() ([]byte, error) { return json.Marshal([]string{j.K, j.V}) }
func (j *Jsn) UnmarshalJSON(b []byte) error {
	var l []string
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if len(l) != 2 {
		return fmt.Errorf("mt.Jsn: %d elements", len(l))
	}
	j.K, j.V = l[0], l[1]
	return nil
}

// Point is stored by custom mappings only.
type Point struct{ X, Y int32 }

func PointText(p Point) string { return fmt.Sprintf("%d %d", p.X, p.Y) }

type pointScan struct{ p *Point }

func (s pointScan) Scan(v any) error {
	var t string
	switch x := v.(type) {
	case nil:
		*s.p = Point{}
		return nil
	case string:
		t = x
	case []byte:
		t = string(x)
	default:
		return fmt.Errorf("mt.Point: cannot scan %T", v)
	}
	_, err := fmt.Sscanf(t, "%d %d", &s.p.X, &s.p.Y)
	return err
}

// Cent is stored as text, by custom mappings only.
type Cent int64

func CentText(c Cent) string { return "c" + strconv.FormatInt(int64(c), 10) }

type scanFunc func(v any) error

func (f scanFunc) Scan(v any) error { return f(v) }

func CentScanner(p *Cent) interface{ Scan(any) error } {
	return scanFunc(func(v any) error {
		var t string
		switch x := v.(type) {
		case nil:
			*p = 0
			return nil
		case string:
			t = x
		case []byte:
			t = string(x)
		default:
			return fmt.Errorf("mt.Cent: cannot scan %T", v)
		}
		if !strings.HasPrefix(t, "c") {
			return fmt.Errorf("mt.Cent: bad text %q", t)
		}
		n, err := strconv.ParseInt(t[1:], 10, 64)
		*p = Cent(n)
		return err
	})
}

// Vault is a string which SQL functions seal and open.
type Vault string

// MicroScanner reads a time from its microseconds.
func MicroScanner(p *time.Time) interface{ Scan(any) error } {
	return scanFunc(func(v any) error {
		var n int64
		var err error
		switch x := v.(type) {
		case nil:
			*p = time.Time{}
			return nil
		case int64:
			n = x
		case string:
			n, err = strconv.ParseInt(x, 10, 64)
		case []byte:
			n, err = strconv.ParseInt(string(x), 10, 64)
		default:
			return fmt.Errorf("mt.Micro: cannot scan %T", v)
		}
		*p = time.UnixMicro(n).UTC()
		return err
	})
}

func PointScanner(p *Point) interface{ Scan(any) error } { return pointScan{p} }

type Inner struct {
	X int
	Y string `json:"y"`
}

// Audit is embedded by models of other packages.
type Audit struct {
	MadeBy string
	MadeAt int64
}

// Extern is the source of type definitions in model packages.
type Extern struct {
	Code int64 `sql:",pk"`
	Text string
	Opt  *string
}
