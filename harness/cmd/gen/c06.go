package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() { before["C06"] = c06 }

// src06 is a package the generator may refuse; what it accepts must compile.
// DEP stands for the import of a second package.
type src06 struct{ what, m, dep string }

var src06s = []src06{
	{"named pointer", "type P *int\n\ntype M struct {\n\tID int64\n\tF P\n}", ""},
	{"pointer to pointer", "type M struct {\n\tID int64\n\tF **int\n}", ""},
	{"alias of pointer to pointer", "type P = *int\n\ntype M struct {\n\tID int64\n\tF *P\n}", ""},
	{"slice of aliases of pointers", "type P = *int\n\ntype M struct {\n\tID int64\n\tF []P\n\tG [2]P\n\tH map[string]P\n}", ""},
	{"embedded basic", "type N int\n\ntype M struct {\n\tN\n\tA string\n}", ""},
	{"embedded pointer to basic", "type N int\n\ntype M struct {\n\t*N\n\tA string\n}", ""},
	{"embedded slice", "type N []string\n\ntype M struct {\n\tN\n\tA string\n}", ""},
	{"embedded time", "type M struct {\n\ttime.Time\n\tA string\n}", ""},
	{"embedded valuer", "type M struct {\n\tsql.NullString\n\tA string\n}", ""},
	{"embedded interface", "type N interface{ X() }\n\ntype M struct {\n\tN\n\tA string\n}", ""},
	{"embedded generic", "type G[T any] struct{ X T }\n\ntype M struct {\n\tG[int]\n\tA string\n}", ""},
	{"embedded pointer to generic", "type G[T any] struct{ X T }\n\ntype M struct {\n\t*G[int]\n\tA string\n}", ""},
	{"embedded alias of generic", "type G[T any] struct{ X T }\n\ntype H = G[string]\n\ntype M struct {\n\tH\n\tA string\n}", ""},
	{"defined from generic", "type G[T any] struct{ X T }\n\ntype M G[string]\n", ""},
	{"generic model", "type M[T any] struct {\n\tID int64\n\tX T\n}\n\ntype K struct{ A string }", ""},
	{"generic list model", "type L[T any] []T\n\ntype M struct {\n\tA L[string]\n\tB L[int]\n\tC *L[byte]\n\tD L[L[bool]]\n}", ""},
	{"channel", "type M struct {\n\tA string\n\tC chan int\n\tD <-chan string\n}", ""},
	{"function", "type M struct {\n\tA string\n\tF func(a int, b ...string) (err error)\n}", ""},
	{"complex numbers", "type M struct {\n\tA complex128\n\tB []complex64\n}", ""},
	{"machine words", "type M struct {\n\tA uintptr\n\tB []uintptr\n\tC unsafe.Pointer\n}", ""},
	{"interfaces", "type M struct {\n\tA error\n\tB fmt.Stringer\n\tC interface{ X(int) (string, error) }\n\tD []error\n\tE *any\n}", ""},
	{"arrays of arrays", "type M struct {\n\tA [2][3]byte\n\tB [2][]string\n\tC [][]string\n\tD [3]map[string][2]int\n\tE *[2]*int\n}", ""},
	{"lists of lists", "type Row []string\n\ntype M struct {\n\tA []Row\n\tB [2]Row\n\tC map[string]Row\n\tD *[]Row\n\tE []*Row\n}", ""},
	{"single element arrays", "type M struct {\n\tA [1]byte\n\tB [1]string\n\tC [1]rune\n\tD [1]bool\n}", ""},
	{"named bytes", "type B byte\n\ntype R rune\n\ntype M struct {\n\tA []B\n\tC [4]B\n\tD B\n\tE R\n\tF []R\n\tG [2]R\n\tH *B\n\tI *[]B\n\tJ [][]B\n\tK []Bs\n\tL [][2]B\n\tN []*B\n\tO Bs\n\tP *Bs\n\tQ map[B]B\n}\n\ntype Bs []B", ""},
	{"named of named", "type A string\n\ntype B A\n\ntype C B\n\ntype M struct {\n\tX C\n\tY []C\n\tZ *C\n\tW [2]C\n\tV map[C]B\n}", ""},
	{"alias chains", "type A = string\n\ntype B = A\n\ntype C = []B\n\ntype D = map[A]C\n\ntype M struct {\n\tW B\n\tX C\n\tY D\n\tZ *B\n\tV []A\n}", ""},
	{"recursive", "type T []T\n\ntype M struct {\n\tID int64\n\tKids []M\n\tUp *M\n\tBy map[string]*M\n\tT T\n}", ""},
	{"byte key, generated", "type M struct {\n\tID [16]byte `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"text key, generated", "type M struct {\n\tID string `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"pointer text key, generated", "type M struct {\n\tID *string `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"truth key, generated", "type M struct {\n\tID bool `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"time key, generated", "type M struct {\n\tID time.Time `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"json key, generated", "type M struct {\n\tID map[string]int `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"float key, generated", "type M struct {\n\tID float32 `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"named pointer key, generated", "type N uint16\n\ntype M struct {\n\tID *N `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"two generated keys", "type M struct {\n\tID int64 `sql:\",pk,auto_increment\"`\n\tIX int64 `sql:\",pk,auto_increment\"`\n\tA string\n}", ""},
	{"embedded generated key", "type Base struct {\n\tID int64 `sql:\",pk,auto_increment\"`\n}\n\ntype M struct {\n\t*Base\n\tA string\n}", ""},
	{"field of unexported foreign type", "DEP\n\ntype M struct {\n\tA string\n\tdep.Pub\n}", "type hid int\n\ntype Pub struct{ H hid }"},
	{"list of unexported foreign type", "DEP\n\ntype M struct {\n\tA string\n\tdep.Pub\n}", "type hid struct{ X int }\n\ntype Pub struct {\n\tH []hid\n\tM map[string]*hid\n}"},
	{"embedded through unexported foreign", "DEP\n\ntype M struct {\n\tA string\n\tdep.Pub\n}", "type hid struct{ X int }\n\ntype Pub struct {\n\thid\n\tB string\n}"},
	{"embedded through pointer to unexported foreign", "DEP\n\ntype M struct {\n\tA string\n\t*dep.Pub\n}", "type hid struct{ X int }\n\ntype Pub struct {\n\t*hid\n\tB string\n}"},
	{"foreign anonymous struct", "DEP\n\ntype M struct {\n\tA string\n\tdep.Pub\n}", "type Pub struct {\n\tB struct {\n\t\tX int\n\t\ty int\n\t}\n}"},
	{"foreign model", "DEP\n\ntype M struct {\n\tA string\n\tB dep.Pub\n\tC *dep.Pub\n\tD []dep.Pub\n\tE dep.List[int]\n\tF dep.List[dep.Pub]\n}", "type Pub struct{ X, y int }\n\ntype List[T any] []T"},
	{"foreign aliases", "DEP\n\ntype M struct {\n\tA string\n\tB dep.Str\n\tC dep.Ptr\n\tdep.Base\n\tD []dep.Str\n}", "type Str = string\n\ntype Ptr = *int\n\ntype Base = base\n\ntype base struct{ X, y int }"},
	{"foreign alias of pointer to struct", "DEP\n\ntype M struct {\n\tA string\n\tdep.Base\n}", "type Base = *base\n\ntype base struct{ X, Y int }"},
	{"foreign definition", "DEP\n\ntype M dep.Pub\n\ntype N = dep.Pub\n", "type Pub struct {\n\tX int `sql:\",pk\"`\n\ty int\n\tInner\n}\n\ntype Inner struct{ Z *string }"},
	{"tags of nested structs", "type M struct {\n\tA struct {\n\t\tX int `json:\"x\"`\n\t\tY struct{ Z string `json:\"z\"` } `json:\"y\"`\n\t}\n\tB *struct{ X int \"json:\\\"`\\\"\" }\n\tC []struct{ X int `json:\"x\"` }\n}", ""},
	{"anonymous structs", "type In struct{ P int }\n\ntype M struct {\n\tA struct{ In }\n\tB struct{ *In }\n\tC struct{}\n\tD *struct{ F func() `json:\"-\"` }\n\tE map[string]struct{ X, Y int }\n}", ""},
	{"field named like a method", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tValues string\n}", ""},
	{"field named like the key method", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tPK string\n}", ""},
	{"field named like a list", "type M struct {\n\tColumns []string\n\tAddrs string\n}", ""},
	{"field named like a getter", "type M struct {\n\tAaa int\n\tAaaValue string\n}", ""},
	{"field named like an accessor", "type M struct {\n\tAaa int\n\tColumnAaa string\n}", ""},
	{"method named like a getter", "type M struct{ Aaa int }\n\nfunc (M) AaaValue() string { return \"\" }", ""},
	{"method named like a list", "type M struct{ Aaa int }\n\nfunc (M) Columns(n int) int { return n }", ""},
	{"method named like an accessor", "type M struct{ Aaa int }\n\nfunc (*M) ColumnAaa() string { return \"\" }", ""},
	{"promoted methods", "type In struct{ X int }\n\nfunc (In) Columns() []string { return nil }\n\nfunc (In) Values() []any { return nil }\n\nfunc (In) TableName() string { return \"\" }\n\ntype M struct {\n\tIn\n\tA string\n}", ""},
	{"predeclared names taken by variables", "var nil_, len, append, make, error = 0, 1, 2, 3, 4\n\ntype M struct {\n\tID int64 `sql:\",pk\"`\n\tA []string\n\tB *int\n}", ""},
	{"functions named like packages", "func encoding() {}\n\nfunc sequel() {}\n\nfunc strings() {}\n\nfunc driver() {}\n\ntype sqltype struct{ X int }\n\ntype M struct {\n\tID int64 `sql:\",pk\"`\n\tA []string\n\tB *int\n\tC map[string]int\n}", ""},
	{"types named like packages", "type encoding int\n\ntype Sequel struct{ X int }\n\ntype types string\n\ntype M struct {\n\tA encoding\n\tB *types\n\tC Sequel\n}", ""},
	{"letters beyond ASCII", "type Größe struct {\n\tÄpfel int\n\tÑame *string\n\tΔ []string\n}\n\ntype Λ struct{ X Größe }", ""},
	{"many names per line", "type M struct {\n\tA, B, C int `sql:\"-\"`\n\tD, e, F *string\n\tG, H struct{ X int }\n\t_, I, _ []string\n}", ""},
	{"structs in functions", "func f() {\n\ttype M struct{ Z int }\n\t_ = M{}\n}\n\ntype M struct{ A string }\n\nvar x = struct{ B int }{}", ""},
	{"empty structs", "type M struct{}\n\ntype N struct{ a int }\n\ntype O struct{ M }\n\ntype P struct{ A M }", ""},
	{"only readonly columns", "type M struct {\n\tID int64 `sql:\",pk,readonly\"`\n\tA string `sql:\",readonly\"`\n}", ""},
	{"only keys", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tIX string `sql:\",pk\"`\n}\n\ntype N struct {\n\tID int64 `sql:\",pk,auto_increment\"`\n}", ""},
	{"every kind of key", "type M struct {\n\tA *string `sql:\",pk\"`\n\tB time.Time `sql:\",pk\"`\n\tC []byte `sql:\",pk\"`\n\tD map[string]int `sql:\",pk\"`\n\tE []string `sql:\",pk\"`\n\tF bool `sql:\",pk\"`\n\tG sql.NullString `sql:\",pk\"`\n}", ""},
	{"long type names", "type M struct {\n\tA map[string]map[int][]map[bool]*time.Time\n\tB map[[2]string]struct{ X []time.Duration }\n\tC *map[string]any\n\tD []*[]*time.Time\n}", ""},
	{"TableName by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) TableName() string { return \"\" }", ""},
	{"TableName by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) TableName() string { return \"\" }", ""},
	{"TableName of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) TableName() int { return 0 }", ""},
	{"TableName of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) TableName() int { return 0 }", ""},
	{"TableName of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) TableName() int { return 0 }", ""},
	{"TableName from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) TableName() string { return \"\" }", ""},
	{"TableName from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) TableName() string { return \"\" }", ""},
	{"DatabaseName by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) DatabaseName() string { return \"\" }", ""},
	{"DatabaseName by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) DatabaseName() string { return \"\" }", ""},
	{"DatabaseName of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) DatabaseName(int) string { return \"\" }", ""},
	{"DatabaseName of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) DatabaseName(int) string { return \"\" }", ""},
	{"DatabaseName of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) DatabaseName(int) string { return \"\" }", ""},
	{"DatabaseName from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) DatabaseName() string { return \"\" }", ""},
	{"DatabaseName from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) DatabaseName() string { return \"\" }", ""},
	{"Columns by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Columns() []string { return nil }", ""},
	{"Columns by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Columns() []string { return nil }", ""},
	{"Columns of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Columns() []int { return nil }", ""},
	{"Columns of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Columns() []int { return nil }", ""},
	{"Columns of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Columns() []int { return nil }", ""},
	{"Columns from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) Columns() []string { return nil }", ""},
	{"Columns from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Columns() []string { return nil }", ""},
	{"SQLColumns by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) SQLColumns() []string { return nil }", ""},
	{"SQLColumns by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) SQLColumns() []string { return nil }", ""},
	{"SQLColumns of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) SQLColumns() string { return \"\" }", ""},
	{"SQLColumns of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) SQLColumns() string { return \"\" }", ""},
	{"SQLColumns of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) SQLColumns() string { return \"\" }", ""},
	{"SQLColumns from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) SQLColumns() []string { return nil }", ""},
	{"SQLColumns from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) SQLColumns() []string { return nil }", ""},
	{"Values by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Values() []any { return nil }", ""},
	{"Values by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Values() []any { return nil }", ""},
	{"Values of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Values() []string { return nil }", ""},
	{"Values of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Values() []string { return nil }", ""},
	{"Values of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Values() []string { return nil }", ""},
	{"Values from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) Values() []any { return nil }", ""},
	{"Values from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Values() []any { return nil }", ""},
	{"Addrs by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Addrs() []any { return nil }", ""},
	{"Addrs by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Addrs() []any { return nil }", ""},
	{"Addrs of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) Addrs() []*int { return nil }", ""},
	{"Addrs of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) Addrs() []*int { return nil }", ""},
	{"Addrs of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Addrs() []*int { return nil }", ""},
	{"Addrs from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) Addrs() []any { return nil }", ""},
	{"Addrs from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) Addrs() []any { return nil }", ""},
	{"InsertColumns by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertColumns() []string { return nil }", ""},
	{"InsertColumns by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertColumns() []string { return nil }", ""},
	{"InsertColumns of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertColumns() int { return 0 }", ""},
	{"InsertColumns of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertColumns() int { return 0 }", ""},
	{"InsertColumns of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertColumns() int { return 0 }", ""},
	{"InsertColumns from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) InsertColumns() []string { return nil }", ""},
	{"InsertColumns from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertColumns() []string { return nil }", ""},
	{"HasPK by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) HasPK() {}", ""},
	{"HasPK by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) HasPK() {}", ""},
	{"HasPK of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) HasPK() bool { return true }", ""},
	{"HasPK of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) HasPK() bool { return true }", ""},
	{"HasPK of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) HasPK() bool { return true }", ""},
	{"HasPK from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) HasPK() {}", ""},
	{"HasPK from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) HasPK() {}", ""},
	{"IsAutoIncr by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) IsAutoIncr() {}", ""},
	{"IsAutoIncr by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) IsAutoIncr() {}", ""},
	{"IsAutoIncr of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) IsAutoIncr() bool { return true }", ""},
	{"IsAutoIncr of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) IsAutoIncr() bool { return true }", ""},
	{"IsAutoIncr of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) IsAutoIncr() bool { return true }", ""},
	{"IsAutoIncr from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) IsAutoIncr() {}", ""},
	{"IsAutoIncr from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) IsAutoIncr() {}", ""},
	{"PK by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) PK() (string, int, any) { return \"id\", 0, 1 }", ""},
	{"PK by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) PK() (string, int, any) { return \"id\", 0, 1 }", ""},
	{"PK of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) PK() string { return \"\" }", ""},
	{"PK of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) PK() string { return \"\" }", ""},
	{"PK of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) PK() string { return \"\" }", ""},
	{"PK from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) PK() (string, int, any) { return \"id\", 0, 1 }", ""},
	{"PK from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) PK() (string, int, any) { return \"id\", 0, 1 }", ""},
	{"CompositeKey by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) CompositeKey() ([]string, []int, []any) { return nil, nil, nil }", ""},
	{"CompositeKey by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) CompositeKey() ([]string, []int, []any) { return nil, nil, nil }", ""},
	{"CompositeKey of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) CompositeKey() {}", ""},
	{"CompositeKey of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) CompositeKey() {}", ""},
	{"CompositeKey of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) CompositeKey() {}", ""},
	{"CompositeKey from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) CompositeKey() ([]string, []int, []any) { return nil, nil, nil }", ""},
	{"CompositeKey from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) CompositeKey() ([]string, []int, []any) { return nil, nil, nil }", ""},
	{"FindOneByPKStmt by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) FindOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"FindOneByPKStmt by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) FindOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"FindOneByPKStmt of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) FindOneByPKStmt() {}", ""},
	{"FindOneByPKStmt of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) FindOneByPKStmt() {}", ""},
	{"FindOneByPKStmt of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) FindOneByPKStmt() {}", ""},
	{"FindOneByPKStmt from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) FindOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"FindOneByPKStmt from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) FindOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"UpdateOneByPKStmt by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) UpdateOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"UpdateOneByPKStmt by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) UpdateOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"UpdateOneByPKStmt of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) UpdateOneByPKStmt() {}", ""},
	{"UpdateOneByPKStmt of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) UpdateOneByPKStmt() {}", ""},
	{"UpdateOneByPKStmt of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) UpdateOneByPKStmt() {}", ""},
	{"UpdateOneByPKStmt from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) UpdateOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"UpdateOneByPKStmt from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) UpdateOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"DeleteOneByPKStmt by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) DeleteOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"DeleteOneByPKStmt by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) DeleteOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"DeleteOneByPKStmt of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) DeleteOneByPKStmt() {}", ""},
	{"DeleteOneByPKStmt of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) DeleteOneByPKStmt() {}", ""},
	{"DeleteOneByPKStmt of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) DeleteOneByPKStmt() {}", ""},
	{"DeleteOneByPKStmt from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) DeleteOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"DeleteOneByPKStmt from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) DeleteOneByPKStmt() (string, []any) { return \"\", nil }", ""},
	{"InsertOneStmt by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertOneStmt() (string, []any) { return \"\", nil }", ""},
	{"InsertOneStmt by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertOneStmt() (string, []any) { return \"\", nil }", ""},
	{"InsertOneStmt of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertOneStmt() string { return \"\" }", ""},
	{"InsertOneStmt of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertOneStmt() string { return \"\" }", ""},
	{"InsertOneStmt of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertOneStmt() string { return \"\" }", ""},
	{"InsertOneStmt from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) InsertOneStmt() (string, []any) { return \"\", nil }", ""},
	{"InsertOneStmt from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertOneStmt() (string, []any) { return \"\", nil }", ""},
	{"ScanAutoIncr by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) ScanAutoIncr(int64) error { return nil }", ""},
	{"ScanAutoIncr by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) ScanAutoIncr(int64) error { return nil }", ""},
	{"ScanAutoIncr of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) ScanAutoIncr() {}", ""},
	{"ScanAutoIncr of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) ScanAutoIncr() {}", ""},
	{"ScanAutoIncr of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) ScanAutoIncr() {}", ""},
	{"ScanAutoIncr from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) ScanAutoIncr(int64) error { return nil }", ""},
	{"ScanAutoIncr from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) ScanAutoIncr(int64) error { return nil }", ""},
	{"InsertPlaceholders by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertPlaceholders(int) string { return \"\" }", ""},
	{"InsertPlaceholders by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertPlaceholders(int) string { return \"\" }", ""},
	{"InsertPlaceholders of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertPlaceholders() string { return \"\" }", ""},
	{"InsertPlaceholders of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertPlaceholders() string { return \"\" }", ""},
	{"InsertPlaceholders of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertPlaceholders() string { return \"\" }", ""},
	{"InsertPlaceholders from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) InsertPlaceholders(int) string { return \"\" }", ""},
	{"InsertPlaceholders from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertPlaceholders(int) string { return \"\" }", ""},
	{"InsertVar by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertVar() string { return \"\" }", ""},
	{"InsertVar by value", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertVar() string { return \"\" }", ""},
	{"InsertVar of another type", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (M) InsertVar() {}", ""},
	{"InsertVar of another type by pointer", "type M struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*M) InsertVar() {}", ""},
	{"InsertVar of another type from a part", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertVar() {}", ""},
	{"InsertVar from a part by pointer", "type In struct{ Z int }\n\ntype M struct {\n\tIn\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (*In) InsertVar() string { return \"\" }", ""},
	{"InsertVar from a pointer part", "type In struct{ Z int }\n\ntype M struct {\n\t*In\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (In) InsertVar() string { return \"\" }", ""},
}

// c06 gives the generator sources it may refuse: what it accepts must compile.
func c06(e *env) {
	r := e.r
	n := r.N(1, 2)
	parallel(len(src06s)*n, func(i int) {
		s, d := src06s[i/n], dialects[(i/n+i%n)%3]
		root := filepath.Join(e.work, "c06", fmt.Sprint(i))
		defer os.RemoveAll(root)
		write(filepath.Join(root, "go.mod"), e.modFor("work"))
		write(filepath.Join(root, "sqlgen.yml"), fmt.Sprintf("src:\n  - m\ndriver: %s\nskip_mod_tidy: true\nquote_identifier: %v\n", d, (i/n)%2 == 0))
		var imp strings.Builder
		for _, p := range []string{"database/sql", "fmt", "time", "unsafe"} {
			if name := p[strings.LastIndex(p, "/")+1:]; strings.Contains(s.m, name+".") {
				fmt.Fprintf(&imp, "import %q\n", p)
			}
		}
		src := "package m\n\n" + imp.String() + strings.Replace(s.m, "DEP", "import \"work/dep\"", 1) + "\n"
		write(filepath.Join(root, "m/m.go"), src)
		if s.dep != "" {
			write(filepath.Join(root, "dep/dep.go"), "package dep\n\n"+s.dep+"\n")
		}
		if out, err := e.run(root, e.goEnv(), "go", "vet", "-structtag=false", "./..."); err != nil {
			die("source %q is not Go: %v\n%s", s.what, err, out)
		}
		id := "source/" + s.what
		r.Eval(id+"/"+d, true)
		out, err := e.sqlgenRO(root)
		switch {
		case err != nil:
			r.Count("sources_refused", 1)
			for _, crash := range []string{"nil pointer", "index out of range", "runtime error", "interface conversion"} {
				if strings.Contains(out, crash) {
					r.Violate(id, "%s (%s): the generator crashes\n%s\n%s", s.what, d, src, logTail(out))
				}
			}
		default:
			r.Count("sources_accepted", 1)
			if out, err := e.run(root, e.goEnv(), "go", "build", "./..."); err != nil {
				gen, _ := os.ReadFile(filepath.Join(root, "m/generated.go"))
				r.Violate(id, "%s (%s): the source is accepted, but what is generated does not compile\n%s\n%s\n%s", s.what, d, src, head(out, 1500), head(string(gen), 3000))
			}
		}
	})
}
