// Package spec describes the models the generated-code checks run on: which
// Go source is fed to the generator and, derived from the documentation and
// independently of the generator, which table it stands for.
package spec

import (
	"fmt"
	"sort"

	"verif/harness/minisql"
)

// Class says how values of a Go type are represented in SQL.
type Class string

const (
	CInt    Class = "int"
	CUint   Class = "uint"   // stored as an integer of the same bits
	CUint64 Class = "uint64" // unsigned on MySQL and SQLite, bit pattern on PostgreSQL
	CFloat  Class = "float"
	CBool   Class = "bool"
	CString Class = "string"
	CRune   Class = "rune"
	CBytes  Class = "bytes"
	CByteA  Class = "bytearr"
	CRuneA  Class = "runearr"
	CTime   Class = "time"
	CJSON   Class = "json"
	CRaw    Class = "rawjson"
	CText   Class = "text"     // encoding.TextMarshaler
	CValuer Class = "valuer"   // driver.Valuer with a text form
	CNull   Class = "null"     // database/sql.Null*
	CList   Class = "list"     // JSON list on MySQL and SQLite, array on PostgreSQL
	CListA  Class = "lista"    // fixed-size list with an array form on PostgreSQL only
	CRuneS  Class = "runes"    // text on PostgreSQL, a JSON list elsewhere
	CByteL  Class = "bytelist" // bytea array on PostgreSQL, JSON elsewhere
	CPoint  Class = "point"    // custom mapping, opaque in SQL
	CCent   Class = "cent"     // custom mapping of a number to text
	CVault  Class = "vault"    // a string with SQL functions only
	CMicro  Class = "micro"    // time.Time mapped to microseconds
)

// Type is one Go type of the catalogue.
type Type struct {
	Key     string
	Expr    string
	Imports []string
	Class   Class
	F32     bool
	Kind    minisql.Kind // for CNull and CValuer
	Cmp     bool         // comparable in Go
	Ord     bool         // ordered the same way in Go and SQL
	Key_    bool         // usable as key
	Ptr     bool
	Mapped  bool // has an entry in data_types, where Conf.Point is on
	Wrapped bool // goes through SQL functions
	Far     bool // of a package sharing its name, in PkgModels only
}

func (t *Type) ColKind(d minisql.Dialect) minisql.Kind {
	switch t.Class {
	case CInt, CMicro:
		return minisql.KInt
	case CUint, CUint64:
		if d == minisql.Postgres {
			return minisql.KInt
		}
		return minisql.KUint
	case CFloat:
		return minisql.KFloat
	case CBool:
		return minisql.KBool
	case CString, CRune, CRuneA, CText, CCent:
		return minisql.KText
	case CBytes, CByteA:
		return minisql.KBlob
	case CTime:
		return minisql.KTime
	case CJSON, CRaw:
		return minisql.KJSON
	case CList:
		if d == minisql.Postgres {
			return minisql.KArray
		}
		return minisql.KJSON
	case CRuneS:
		if d == minisql.Postgres {
			return minisql.KText
		}
		return minisql.KJSON
	case CListA, CByteL:
		if d == minisql.Postgres {
			return minisql.KArray
		}
		return minisql.KJSON
	case CNull, CValuer:
		return t.Kind
	case CPoint, CVault:
		return minisql.KGeo
	}
	panic("spec: class " + string(t.Class))
}

// Types is the catalogue, by key.
var Types = map[string]*Type{}

func add(key, expr string, c Class, opt ...any) {
	t := &Type{Key: key, Expr: expr, Class: c}
	for _, o := range opt {
		switch x := o.(type) {
		case string:
			switch x {
			case "cmp":
				t.Cmp = true
			case "ord":
				t.Cmp, t.Ord = true, true
			case "key":
				t.Cmp, t.Ord, t.Key_ = true, true, true
			case "far":
				t.Far = true
			case "mapped":
				t.Mapped = true
			case "wrapped":
				t.Mapped, t.Wrapped = true, true
			case "f32":
				t.F32 = true
			default:
				t.Imports = append(t.Imports, x)
			}
		case minisql.Kind:
			t.Kind = x
		}
	}
	Types[key] = t
}

// LocalDecls are the type declarations every model package gets.
const LocalDecls = `
type LName string
type LBool bool
type LInt int
type LI16 int16
type LU64 uint64
type LF32 float32
type LF64 float64
type LBytes []byte
type LByte byte
type LRune rune
type LStrs []string
type LArr [3]byte
type lset struct {
	A int
	B []string
}
type lgen[T any] struct{ V T }
`

const mtPath = "verif/harness/mt"

func init() {
	for _, k := range []string{"int", "int8", "int16", "int32", "int64"} {
		add(k, k, CInt, "key")
	}
	for _, k := range []string{"uint", "uint8", "uint16", "uint32"} {
		add(k, k, CUint, "key")
	}
	add("byte", "byte", CUint, "key")
	add("uint64", "uint64", CUint64, "key")
	add("float32", "float32", CFloat, "f32", "ord")
	add("float64", "float64", CFloat, "ord")
	add("bool", "bool", CBool, "ord")
	add("string", "string", CString, "key")
	add("rune", "rune", CRune, "cmp")
	add("bytes", "[]byte", CBytes)
	add("time", "time.Time", CTime, "time", "ord")
	add("raw", "json.RawMessage", CRaw, "encoding/json")
	add("arr4b", "[4]byte", CByteA, "cmp")
	add("arr3r", "[3]rune", CRuneA, "cmp")
	add("mtuid", "mt.Uid", CByteA, mtPath, "cmp")
	add("larr", "LArr", CByteA, "cmp")
	for _, k := range []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "float64"} {
		add("s_"+k, "[]"+k, CList)
	}
	add("s_rune", "[]rune", CRuneS)
	add("s_bytes", "[][]byte", CByteL)
	add("s_txt", "[]mt.Txt", CJSON, mtPath)
	add("s_pint", "[]*int", CJSON)
	add("m_int", "map[int]string", CJSON)
	add("s_lname", "[]LName", CList)
	add("s_level", "[]mt.Level", CList, mtPath)
	add("lstrs", "LStrs", CList)
	add("a3string", "[3]string", CListA, "cmp")
	add("a2bool", "[2]bool", CJSON, "cmp")
	add("a2int", "[2]int", CJSON, "cmp")
	add("s_time", "[]time.Time", CJSON, "time")
	add("s_inner", "[]mt.Inner", CJSON, mtPath)
	add("s_any", "[]any", CJSON)
	add("m_ss", "map[string]string", CJSON)
	add("m_named", "map[mt.Name]mt.Level", CJSON, mtPath)
	add("any", "any", CJSON)
	add("inner", "mt.Inner", CJSON, mtPath, "cmp")
	add("jsn", "mt.Jsn", CJSON, mtPath, "cmp")
	add("anon", "struct {\n\tA int\n\tB string `json:\"bee\"`\n\tC []bool\n}", CJSON)
	add("anon2", "struct {\n\tIn struct {\n\t\tX int `json:\"x,omitempty\"`\n\t\tY struct{ Z []string } `json:\"-,\"`\n\t} `json:\"in\"`\n\tL []struct {\n\t\tQ bool `json:\"q\"`\n\t}\n\tBack string \"json:\\\"b\\\" note:\\\"`\\\"\"\n}", CJSON)
	add("lset", "lset", CJSON)
	add("lgen", "lgen[int]", CJSON, "cmp")
	add("lname", "LName", CString, "key")
	add("lbool", "LBool", CBool, "ord")
	add("lint", "LInt", CInt, "key")
	add("li16", "LI16", CInt, "key")
	add("lu64", "LU64", CUint64, "key")
	add("lf32", "LF32", CFloat, "f32", "ord")
	add("lf64", "LF64", CFloat, "ord")
	add("lbytes", "LBytes", CBytes)
	add("lbyte", "LByte", CUint, "key")
	add("s_lbyte", "[]LByte", CList)
	add("arr2lb", "[2]LByte", CByteA, "cmp")
	add("lrune", "LRune", CRune, "cmp")
	add("arr2lr", "[2]LRune", CRuneA, "cmp")
	add("s_lrune", "[]LRune", CRuneS)
	add("level", "mt.Level", CInt, mtPath, "key")
	add("mname", "mt.Name", CString, mtPath, "key")
	add("mflag", "mt.Flag", CBool, mtPath, "ord")
	add("mbig", "mt.Big", CUint64, mtPath, "key")
	add("mratio", "mt.Ratio", CFloat, mtPath, "f32", "ord")
	add("month", "time.Month", CInt, "time", "key")
	add("dur", "time.Duration", CInt, "time", "key")
	add("scn", "mt.Scn", CValuer, mtPath, "cmp", minisql.KText)
	add("txt", "mt.Txt", CText, mtPath, "cmp")
	add("addr", "netip.Addr", CText, "net/netip", "cmp")
	add("nstr", "sql.NullString", CNull, "database/sql", "cmp", minisql.KText)
	add("ni64", "sql.NullInt64", CNull, "database/sql", "cmp", minisql.KInt)
	add("nbool", "sql.NullBool", CNull, "database/sql", "cmp", minisql.KBool)
	add("nf64", "sql.NullFloat64", CNull, "database/sql", "cmp", minisql.KFloat)
	add("ntime", "sql.NullTime", CNull, "database/sql", "cmp", minisql.KTime)
	add("point", "mt.Point", CPoint, mtPath, "cmp", "wrapped")
	add("cent", "mt.Cent", CCent, mtPath, "cmp", "mapped")
	add("vault", "mt.Vault", CVault, mtPath, "cmp", "wrapped")
	add("micro", "time.Time", CMicro, "time", "cmp", "mapped")

	for _, p := range FarPkgs {
		add(p.Name+"_kind", p.Name+".Kind", CString, p.imp(), "key", "far")
		add(p.Name+"_num", p.Name+".Num", CInt, p.imp(), "key", "far")
		add(p.Name+"_money", p.Name+".Money", CUint, p.imp(), "key", "far")
		add(p.Name+"_box", p.Name+".Box", CJSON, p.imp(), "cmp", "far")
		add("s_"+p.Name+"_kind", "[]"+p.Name+".Kind", CList, p.imp(), "far")
		add("m_"+p.Name, "map["+p.Name+".Kind]"+p.Name+".Box", CJSON, p.imp(), "far")
	}
	var keys []string
	for k := range Types {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := *Types[k]
		t.Key, t.Expr, t.Ptr, t.Cmp, t.Key_, t.Ord = "*"+k, "*"+t.Expr, true, true, false, false
		Types["*"+k] = &t
	}
}

// Keys lists catalogue keys satisfying f, sorted.
func Keys(f func(*Type) bool) []string {
	var out []string
	for k, t := range Types {
		if !t.Far && f(t) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func T(key string) *Type {
	t := Types[key]
	if t == nil {
		panic(fmt.Sprintf("spec: no type %q", key))
	}
	return t
}
