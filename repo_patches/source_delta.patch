From 93ec027f5e8fba843214e34948c58eba8af809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 01/69] fix: report out-of-range integers instead of wrapping
 them when scanning

---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..63e8cbb 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %d bits integer`, vi, i.bitSize)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..db5fc57 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,10 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		// unsigned 64 bits are stored as the two's complement of int64
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %d bits unsigned integer`, vi, u.bitSize)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From 87a8ef1b53af1d69daf4ccf4ff7aafd14564f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 02/69] fix: report float32 overflow instead of storing
 infinity when scanning

---
 sequel/encoding/float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..7562d48 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %g overflows float32`, vi)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
-- 
2.43.0


From 2b383b825a3ff8f75b526ec0f349939682973d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 03/69] fix: copy the driver's buffer when scanning into a byte
 slice

---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..9acf430 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -54,7 +54,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// copy, the bytes belong to the driver
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 9f8fa310f535236841b458575d9eb19e2b18ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 04/69] fix: scan byte and rune arrays without leaving a stale
 tail, and decode runes from strings

---
 sequel/encoding/byte_array.go |  2 ++
 sequel/encoding/rune_array.go | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..12601c2 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -31,6 +31,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
+		clear(s.v[len(bytes):s.size])
 	case []byte:
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
@@ -38,6 +39,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
+		clear(s.v[len(b):s.size])
 		return nil
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~byte`, b, s.size)
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..75c751b 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,7 +18,7 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v[:s.size])
 		return nil
 	case []byte:
 		i := int(0)
@@ -31,13 +31,17 @@ func (s *runeArrScanner[T]) Scan(v any) error {
 			i++
 			vi = vi[size:]
 		}
+		clear(s.v[i:s.size])
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
+		if n := utf8.RuneCountInString(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
 		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
+		i := int(0)
+		for _, r := range vi {
+			s.v[i] = T(r)
+			i++
 		}
+		clear(s.v[i:s.size])
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
-- 
2.43.0


From 525f02848506b6c830a7d19eb97e422cb0868b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 05/69] fix: JSON columns are replaced by a scan, refuse
 trailing data and accept NULL

---
 sequel/encoding/json.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..f6cc3e4 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -45,9 +45,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
@@ -59,12 +57,22 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.decode([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// decode replaces the whole value, nothing of the previous one is kept.
+func (j *jsonScanner[T, Addr]) decode(b []byte) error {
+	var v T
+	if err := json.Unmarshal(b, &v); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = v
+	return nil
+}
-- 
2.43.0


From 0eb8fb457377a718c29ab102336489c8f1d88992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 06/69] fix: JSONValue of a nil pointer to a marshaller does
 not panic

---
 sequel/encoding/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f6cc3e4..52cde10 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -24,7 +24,7 @@ func (j jsonValuer[T]) Value() (driver.Value, error) {
 	case json.RawMessage:
 		return []byte(vj)[:], nil
 	case json.Marshaler:
-		return vj.MarshalJSON()
+		return json.Marshal(vj)
 	default:
 		buf := new(bytes.Buffer)
 		if err := json.NewEncoder(buf).Encode(j.v); err != nil {
-- 
2.43.0


From 6ac0e15d49498b663a29ce64fd19d121320f213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 07/69] fix: scanning into a nil pointer of a text unmarshaller
 or scanner allocates it

---
 sequel/encoding/pointer.go | 3 +++
 sequel/encoding/text.go    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..d1f0e83 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,6 +26,9 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
+	if v != nil {
+		*(*Ptr)(unsafe.Pointer(p.v)) = new(T)
+	}
 	switch vt := v.(type) {
 	case nil:
 		*(*Ptr)(unsafe.Pointer(p.v)) = nil
diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..0564abf 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -53,6 +53,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case string:
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
@@ -62,6 +63,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case []byte:
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(vt)
 		case Ptr:
 			return vi.UnmarshalText(vt)
@@ -75,6 +77,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		}
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(b)
 		case Ptr:
 			return vi.UnmarshalText(b)
@@ -85,6 +88,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		val := strconv.FormatInt(vt, 10)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
@@ -95,6 +99,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		val := strconv.FormatFloat(vt, 'f', -1, 64)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
@@ -109,6 +114,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		}
 		switch vi := any(t.v).(type) {
 		case *Ptr:
+			*vi = new(T)
 			return (*vi).UnmarshalText(b)
 		case Ptr:
 			return vi.UnmarshalText(b)
-- 
2.43.0


From 1abcf3b9cbbeafaa7efadafe1820f5d19f297e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 08/69] fix: integer arrays report out-of-range elements and
 accept the full unsigned range

---
 sequel/driver/postgres/pgtype/int_array.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..ca5fe66 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -76,8 +76,17 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 		*a = (*a)[:0]
 	} else {
 		b := make([]T, len(elems))
+		bitSize := int(unsafe.Sizeof(T(0))) * 8
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			if T(0)-1 > 0 { // unsigned
+				n, err := strconv.ParseUint(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
+				if err != nil {
+					return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+				}
+				b[i] = T(n)
+				continue
+			}
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
 			if err != nil {
 				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
 			}
-- 
2.43.0


From 032a77abd968eb15804fea5845d56b3634729e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 09/69] fix: list columns are written as valid JSON and read
 any JSON spelling of the list

---
 sequel/sqltype/bool_slice.go   |  41 ++++-----
 sequel/sqltype/float_slice.go  |  17 +++-
 sequel/sqltype/int_slice.go    |   4 +-
 sequel/sqltype/string_slice.go | 148 +++++++--------------------------
 sequel/sqltype/uint_slice.go   |   2 +-
 5 files changed, 68 insertions(+), 144 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..5583ff9 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -1,9 +1,11 @@
 package sqltype
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +24,17 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
+		// There will be at least two square brackets, 4*N bytes of values,
 		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
+		b := make([]byte, 1, 1+5*n)
+		b[0] = '['
 
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
+		b = strconv.AppendBool(b, bool(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, bool(a[i]))
 		}
-
-		b[0] = '['
-		b[2*n] = ']'
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -57,22 +55,25 @@ func (a *BoolSlice[T]) Scan(src interface{}) error {
 }
 
 func (a *BoolSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "BoolSlice")
+	elems, err := scanLinearArray(src, "BoolSlice")
 	if err != nil {
-		return err
+		// boolean used to be stored as a single character, such as [t,f]
+		if len(src) < 3 || src[0] != '[' || src[len(src)-1] != ']' {
+			return err
+		}
+		for _, v := range bytes.Split(src[1:len(src)-1], []byte{','}) {
+			elems = append(elems, v)
+		}
 	}
 	if *a != nil && len(elems) == 0 {
 		*a = (*a)[:0]
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch string(v) {
+			case "t", "true":
 				b[i] = true
-			case 'f':
+			case "f", "false":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
diff --git a/sequel/sqltype/float_slice.go b/sequel/sqltype/float_slice.go
index 0595fbe..2e985c2 100644
--- a/sequel/sqltype/float_slice.go
+++ b/sequel/sqltype/float_slice.go
@@ -3,6 +3,7 @@ package sqltype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -17,6 +18,12 @@ func (a Float32Slice[T]) Value() (driver.Value, error) {
 		return nil, nil
 	}
 
+	for i := range a {
+		if f := float64(a[i]); math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, fmt.Errorf("sqltype: element index %d cannot be represented in JSON: %g", i, f)
+		}
+	}
+
 	if n := len(a); n > 0 {
 		// There will be at least two curly brackets, N bytes of values,
 		// and N-1 bytes of delimiters.
@@ -49,7 +56,7 @@ func (a *Float32Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float32Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float32Slice")
+	elems, err := scanLinearArray(src, "Float32Slice")
 	if err != nil {
 		return err
 	}
@@ -79,6 +86,12 @@ func (a Float64Slice[T]) Value() (driver.Value, error) {
 		return nil, nil
 	}
 
+	for i := range a {
+		if f := float64(a[i]); math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, fmt.Errorf("sqltype: element index %d cannot be represented in JSON: %g", i, f)
+		}
+	}
+
 	if n := len(a); n > 0 {
 		// There will be at least two curly brackets, N bytes of values,
 		// and N-1 bytes of delimiters.
@@ -112,7 +125,7 @@ func (a *Float64Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float64Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float64Slice")
+	elems, err := scanLinearArray(src, "Float64Slice")
 	if err != nil {
 		return err
 	}
diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..311767b 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -68,7 +68,7 @@ func (a *Int64Slice[T]) Scan(src any) error {
 
 func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, int(unsafe.Sizeof(T(0)))*8)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..84c54f3 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -3,8 +3,9 @@ package sqltype
 import (
 	"bytes"
 	"database/sql/driver"
+	"encoding/json"
 	"fmt"
-	"strings"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -17,6 +18,12 @@ func (a StringSlice[T]) Value() (driver.Value, error) {
 		return nil, nil
 	}
 
+	for i := range a {
+		if !utf8.ValidString(string(a[i])) {
+			return nil, fmt.Errorf("sqltype: element index %d is not valid UTF-8", i)
+		}
+	}
+
 	if n := len(a); n > 0 {
 		// There will be at least two curly brackets, 2*N bytes of quotes,
 		// and N-1 bytes of delimiters.
@@ -49,7 +56,7 @@ func (a *StringSlice[T]) Scan(src any) error {
 }
 
 func (a *StringSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "StringArray")
+	elems, err := scanLinearArray(src, "StringArray")
 	if err != nil {
 		return err
 	}
@@ -58,136 +65,35 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(StringSlice[T], len(elems))
 		for i, v := range elems {
-			if v == nil {
-				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert nil to string", i)
+			var str string
+			if v[0] != '"' || !utf8.Valid(v) {
+				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert %s to string", i, v)
+			}
+			if err := json.Unmarshal(v, &str); err != nil {
+				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
-			b[i] = T(v)
+			b[i] = T(str)
 		}
 		*a = b
 	}
 	return nil
 }
 
-func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
-	var depth, i int
-
-	if len(src) < 1 || src[0] != '[' {
-		return nil, nil, fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', 0)
-	}
-
-Open:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			depth++
-			i++
-		case ']':
-			elems = make([][]byte, 0)
-			goto Close
-		default:
-			break Open
-		}
-	}
-	dims = make([]int, i)
-
-Element:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			if depth == len(dims) {
-				break Element
-			}
-			depth++
-			dims[depth-1] = 0
-			i++
-		case '"':
-			var elem = []byte{}
-			var escape bool
-			for i++; i < len(src); i++ {
-				if escape {
-					elem = append(elem, src[i])
-					escape = false
-				} else {
-					switch src[i] {
-					default:
-						elem = append(elem, src[i])
-					case '\\':
-						escape = true
-					case '"':
-						elems = append(elems, elem)
-						i++
-						break Element
-					}
-				}
-			}
-		default:
-			for start := i; i < len(src); i++ {
-				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
-					if len(elem) == 0 {
-						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-					}
-					if bytes.Equal(elem, []byte("NULL")) {
-						elem = nil
-					}
-					elems = append(elems, elem)
-					break Element
-				}
-			}
-		}
-	}
-
-	for i < len(src) {
-		if bytes.HasPrefix(src[i:], del) && depth > 0 {
-			dims[depth-1]++
-			i += len(del)
-			goto Element
-		} else if src[i] == ']' && depth > 0 {
-			dims[depth-1]++
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-
-Close:
-	for i < len(src) {
-		if src[i] == ']' && depth > 0 {
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-	if depth > 0 {
-		err = fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', i)
-	}
-	if err == nil {
-		for _, d := range dims {
-			if (len(elems) % d) != 0 {
-				err = fmt.Errorf("sqltype: multidimensional arrays must have elements with matching dimensions")
-			}
-		}
-	}
-	return
-}
-
-func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
-	dims, elems, err := parseArray(src, del)
-	if err != nil {
-		return nil, err
+// scanLinearArray splits a JSON array into its elements, in their JSON form.
+func scanLinearArray(src []byte, typ string) (elems []json.RawMessage, err error) {
+	if err := json.Unmarshal(src, &elems); err != nil {
+		return nil, fmt.Errorf("sqltype: unable to parse %s; %w", typ, err)
 	}
-	if len(dims) > 1 {
-		return nil, fmt.Errorf("pgtype: cannot convert ARRAY%s to %s", strings.Replace(fmt.Sprint(dims), " ", "][", -1), typ)
+	if elems == nil {
+		return nil, fmt.Errorf("sqltype: cannot convert null to %s", typ)
 	}
-	return elems, err
+	return elems, nil
 }
 
 func appendArrayQuotedBytes(b, v []byte) []byte {
 	b = append(b, '"')
 	for {
-		i := bytes.IndexAny(v, `"\`)
+		i := bytes.IndexFunc(v, func(r rune) bool { return r < 0x20 || r == '"' || r == '\\' })
 		if i < 0 {
 			b = append(b, v...)
 			break
@@ -195,7 +101,11 @@ func appendArrayQuotedBytes(b, v []byte) []byte {
 		if i > 0 {
 			b = append(b, v[:i]...)
 		}
-		b = append(b, '\\', v[i])
+		if v[i] < 0x20 {
+			b = fmt.Appendf(b, "\\u%04x", v[i])
+		} else {
+			b = append(b, '\\', v[i])
+		}
 		v = v[i+1:]
 	}
 	return append(b, '"')
diff --git a/sequel/sqltype/uint_slice.go b/sequel/sqltype/uint_slice.go
index f3bc999..a534542 100644
--- a/sequel/sqltype/uint_slice.go
+++ b/sequel/sqltype/uint_slice.go
@@ -68,7 +68,7 @@ func (a *Uint64Slice[T]) Scan(src any) error {
 }
 
 func scanUBytes[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 508623eda4727a90b050ee87348cf06f93c65d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 10/69] fix: MarshalStringSlice emits valid JSON for control
 characters

---
 sequel/encoding/marshaler.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..f971744 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -1,6 +1,8 @@
 package encoding
 
 import (
+	"bytes"
+	"encoding/json"
 	"strconv"
 	"time"
 
@@ -11,9 +13,9 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteString("[" + quoteJSON((string)(list[0])))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteString("," + quoteJSON((string)(list[i])))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -21,6 +23,17 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	return "[]"
 }
 
+// quoteJSON quotes a string as JSON, which has fewer escapes than Go.
+func quoteJSON(str string) string {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(str); err != nil {
+		return strconv.Quote(str)
+	}
+	return string(bytes.TrimSuffix(buf.Bytes(), []byte{'\n'}))
+}
+
 func MarshalIntSlice[V ~int | ~int8 | ~int16 | ~int32 | ~int64](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
-- 
2.43.0


From a77638be5b2a3eea35c1d3c947361738c952f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 11/69] fix: MarshalFloat64List keeps the fraction when no
 precision is given

---
 sequel/encoding/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index f971744..59be06b 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -78,7 +78,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		p := -1
 		if len(prec) > 0 {
 			p = prec[0]
 		}
-- 
2.43.0


From d0b8a37fa307864377b1fe916217f28dfd6f7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 12/69] fix: MarshalTimeList keeps fractional seconds

---
 sequel/encoding/marshaler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index 59be06b..477680f 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -98,9 +98,9 @@ func MarshalTimeList[V time.Time](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339)))
+		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339Nano)))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339)))
+			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339Nano)))
 		}
 		blr.WriteByte(']')
 		return blr.String()
-- 
2.43.0


From e29e00e8d9af7fc98ca47712b086a76645c0d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/69] fix: write the types of generated code with every
 package they refer to imported

Element types of pointers to slices and of named slices, arrays of a named
type, and types mentioning several packages were written wrongly or made the
generator panic; a dereferenced pointer was sliced without parentheses.
---
 cmd/sqlgen/codegen/expr.go     | 70 +++++++++++++++++++---------------
 cmd/sqlgen/codegen/generate.go | 19 +++------
 cmd/sqlgen/codegen/package.go  | 22 +++++++++--
 cmd/sqlgen/codegen/tool.go     |  2 +-
 4 files changed, 63 insertions(+), 50 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..2076304 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -5,12 +5,14 @@ import (
 	"go/types"
 	"path/filepath"
 	"regexp"
-	"strings"
 	"text/template"
 )
 
 var (
-	pkgRegexp = regexp.MustCompile(`(?i)((?:[a-z][a-z0-9_.-]*/)*[a-z][a-z0-9_.-]*)\.[a-z]\w*`)
+	// Template action, string literal or qualified identifier
+	exprRegexp = regexp.MustCompile("(?i)\\{\\{.*?\\}\\}|\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`|((?:[a-z][a-z0-9_.-]*/)*[a-z][a-z0-9_.-]*)\\.[a-z]\\w*")
+
+	operandRegexp = regexp.MustCompile(`(\{\{\s*(?:\.|goPath)\s*\}\})([\[.])`)
 )
 
 // Currently this template is support following expression:
@@ -54,16 +56,14 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return params.GoPath
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
+			t := baseType(params.Type)
+			switch vt := t.Underlying().(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				t = vt.Elem()
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
+				t = vt.Elem()
 			}
+			return pkg.TypeString(t)
 		},
 		"addrOfGoPath": func() string {
 			if params.IsPtr {
@@ -72,15 +72,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return "&" + params.GoPath
 		},
 		"baseType": func() string {
-			t := params.Type
-			for t != nil {
-				nt, ok := t.(*types.Pointer)
-				if !ok {
-					break
-				}
-				t = nt.Elem()
-			}
-			return importPkgIfNeeded(pkg, t.String())
+			return pkg.TypeString(baseType(params.Type))
 		},
 		"addr": func() string {
 			return "&" + params.GoPath
@@ -92,7 +84,11 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 		}
 	}
 
-	str := string(e)
+	str := importPkgsIfNeeded(pkg, string(e))
+	// A dereference must be parenthesised before it's sliced, indexed or selected
+	if len(params.GoPath) > 0 && params.GoPath[0] == '*' {
+		str = operandRegexp.ReplaceAllString(str, "($1)$2")
+	}
 	tmpl, err := template.New("expression").Funcs(funcMap).Parse(str)
 	if err != nil {
 		panic(err)
@@ -101,20 +97,32 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	if err := tmpl.Execute(buf, actualGoPath); err != nil {
 		panic(err)
 	}
-	str = buf.String()
-	str = importPkgIfNeeded(pkg, str)
-	return str
+	return buf.String()
 }
 
-func importPkgIfNeeded(pkg *Package, importPath string) string {
-	matches := pkgRegexp.FindStringSubmatch(importPath)
-	if len(matches) > 0 {
-		p, _ := pkg.Import(types.NewPackage(matches[1], filepath.Base(matches[1])))
-		if p != nil {
-			importPath = strings.Replace(importPath, matches[1], p.Name(), -1)
-		} else {
-			importPath = strings.Replace(importPath, matches[1]+".", "", -1)
+func baseType(t types.Type) types.Type {
+	for {
+		ptr, ok := t.(*types.Pointer)
+		if !ok {
+			return t
 		}
+		t = ptr.Elem()
 	}
-	return importPath
+}
+
+// importPkgsIfNeeded imports every package the expression refers to
+func importPkgsIfNeeded(pkg *Package, expr string) string {
+	return exprRegexp.ReplaceAllStringFunc(expr, func(s string) string {
+		submatches := exprRegexp.FindStringSubmatch(s)
+		if submatches[1] == "" {
+			// Leave template actions and string literals untouched
+			return s
+		}
+		path := submatches[1]
+		p, _ := pkg.Import(types.NewPackage(path, filepath.Base(path)))
+		if p == nil {
+			return s[len(path)+1:]
+		}
+		return p.Name() + s[len(path):]
+	})
 }
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..bd6da1b 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -300,10 +300,7 @@ func (g *Generator) generateModels(
 				typeStr = aliasname
 
 			default:
-				typeStr = f.Type.String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr = importPkgs.TypeString(f.Type)
 				if isBasic {
 					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
 				} else {
@@ -461,7 +458,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
 	for _, f := range table.GoPtrPaths() {
 		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, Expr(strings.TrimPrefix(f.Type.String(), "*")).Format(importPkgs, ExprParams{}))
+		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, importPkgs.TypeString(assertAsPtr[types.Pointer](f.Type).Elem()))
 		fprintfln(w, "}")
 	}
 	fprintfln(w, "return []any{")
@@ -738,7 +735,7 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
@@ -781,10 +778,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprint(w, f.Name()+" ")
 				printStruct(w, importPkgs, ft)
 			} else {
-				typeStr := f.Type().String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr := importPkgs.TypeString(f.Type())
 				fmt.Fprint(w, f.Name()+" "+typeStr)
 				if tag := s.Tag(i); len(tag) > 0 {
 					fmt.Fprintf(w, " `%s`", s.Tag(i))
@@ -792,10 +786,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprintln(w)
 			}
 		default:
-			typeStr := f.Type().String()
-			if idx := strings.Index(typeStr, "."); idx > 0 {
-				typeStr = Expr(typeStr).Format(importPkgs)
-			}
+			typeStr := importPkgs.TypeString(f.Type())
 			if f.Embedded() {
 				fmt.Fprint(w, typeStr)
 			} else {
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..ce98a84 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -34,6 +34,11 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		return p.imports[i], false
 	}
 
+	// If the import path is this package, skip to import
+	if pkg.Path() == p.PkgPath() {
+		return nil, false
+	}
+
 	pkgs, err := packages.Load(&packages.Config{
 		Mode: packages.NeedName,
 	}, pkg.Path())
@@ -41,10 +46,7 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		return pkg, false
 	}
 
-	// If the import path is this package, skip to import
-	if pkg.Path() == p.PkgPath() {
-		return nil, false
-	} else if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
+	if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
 		pkg.SetName(pkgs[0].Name)
 	}
 	alias := p.newAliasIfExists(pkg)
@@ -54,6 +56,18 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 	return pkg, true
 }
 
+// TypeString is the type expression of t in this package, every package it
+// refers to is imported
+func (p *Package) TypeString(t types.Type) string {
+	return types.TypeString(t, func(other *types.Package) string {
+		imported, _ := p.Import(types.NewPackage(other.Path(), other.Name()))
+		if imported == nil {
+			return ""
+		}
+		return imported.Name()
+	})
+}
+
 func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	pkgName, newPkgName := pkg.Name(), pkg.Name()
 	for i := 1; ; i++ {
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..43bac95 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -84,7 +84,7 @@ func assertAsPtr[T any](v any) *T {
 
 func arraySize(t types.Type) int64 {
 	for t != nil {
-		switch vt := t.(type) {
+		switch vt := t.Underlying().(type) {
 		case *types.Pointer:
 			t = vt.Elem()
 		case *types.Array:
-- 
2.43.0


From 326d5b527b1a5a50225cae7c76f076eb4a97c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 14/69] fix: runes, byte slices and fixed arrays read back what
 was written

---
 .../codegen/dialect/mysql/column_type.go      |  2 +-
 .../codegen/dialect/postgres/column_type.go   | 12 +--
 .../codegen/dialect/sqlite/column_type.go     |  2 +-
 sequel/driver/postgres/pgtype/fixed_array.go  | 37 +++++++++
 sequel/encoding/rune.go                       | 83 +++++++++++++++++++
 5 files changed, 128 insertions(+), 8 deletions(-)
 create mode 100644 sequel/driver/postgres/pgtype/fixed_array.go
 create mode 100644 sequel/encoding/rune.go

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..455071c 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -18,7 +18,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..d1951a1 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -19,7 +19,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
@@ -134,12 +134,12 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[...]string": {
 			DataType: s.columnDataType("text[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
+			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.FixedArrayScanner[{{elemType}}, github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]]({{goPath}}[:])",
 		},
 		"[...]bool": {
 			DataType: s.columnDataType("bool[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}])({{addrOfGoPath}}[:])",
+			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.FixedArrayScanner[{{elemType}}, github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]]({{goPath}}[:])",
 		},
 		"[]string": {
 			DataType: s.columnDataType("text[]"),
@@ -149,7 +149,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[]rune": {
 			DataType: s.columnDataType("text"),
 			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.RuneSliceScanner[rune, []rune], "{{elemType}}", "{{addrOfGoPath}}"),
 		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
@@ -163,8 +163,8 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[][]byte": {
 			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
+			Valuer:   "(github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{goPath}})",
+			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]int": {
 			DataType: s.columnDataType("int4[]"),
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..6817199 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -18,7 +18,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("TEXT"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
diff --git a/sequel/driver/postgres/pgtype/fixed_array.go b/sequel/driver/postgres/pgtype/fixed_array.go
new file mode 100644
index 0000000..6c7b4b9
--- /dev/null
+++ b/sequel/driver/postgres/pgtype/fixed_array.go
@@ -0,0 +1,37 @@
+package pgtype
+
+import (
+	"database/sql"
+	"fmt"
+)
+
+// FixedArrayScanner scans an array of exactly len(v) elements into v, NULL
+// clears every element.
+func FixedArrayScanner[T any, A ~[]T, Ptr interface {
+	*A
+	sql.Scanner
+}](v []T) sql.Scanner {
+	return fixedArray[T, A, Ptr]{v: v}
+}
+
+type fixedArray[T any, A ~[]T, Ptr interface {
+	*A
+	sql.Scanner
+}] struct {
+	v []T
+}
+
+func (a fixedArray[T, A, Ptr]) Scan(src any) error {
+	var elems A
+	if src != nil {
+		if err := Ptr(&elems).Scan(src); err != nil {
+			return err
+		}
+		if len(elems) != len(a.v) {
+			return fmt.Errorf("pgtype: cannot scan %d elements into an array of %d", len(elems), len(a.v))
+		}
+	}
+	clear(a.v)
+	copy(a.v, elems)
+	return nil
+}
diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
new file mode 100644
index 0000000..a90bae6
--- /dev/null
+++ b/sequel/encoding/rune.go
@@ -0,0 +1,83 @@
+package encoding
+
+import (
+	"database/sql"
+	"fmt"
+	"unicode/utf8"
+)
+
+// RuneScanner scans a text of a single character into a rune, or a pointer of
+// rune where NULL is a nil pointer
+func RuneScanner[T ~rune, Addr addrOrPtr[T]](addr Addr) sql.Scanner {
+	return &runeScanner[T, Addr]{addr: addr}
+}
+
+type runeScanner[T ~rune, Addr addrOrPtr[T]] struct {
+	addr Addr
+}
+
+func (s *runeScanner[T, Addr]) Scan(v any) error {
+	var val T
+	switch vi := v.(type) {
+	case string:
+		r, size := utf8.DecodeRuneInString(vi)
+		if size == 0 || size != len(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not a single rune`, vi)
+		}
+		val = T(r)
+	case []byte:
+		r, size := utf8.DecodeRune(vi)
+		if size == 0 || size != len(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not a single rune`, vi)
+		}
+		val = T(r)
+	case nil:
+		switch addr := any(s.addr).(type) {
+		case *T:
+			*addr = 0
+		case **T:
+			*addr = nil
+		}
+		return nil
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for ~rune`, vi)
+	}
+	switch addr := any(s.addr).(type) {
+	case *T:
+		*addr = val
+	case **T:
+		*addr = &val
+	}
+	return nil
+}
+
+// RuneSliceScanner scans a text into the slice of its characters
+func RuneSliceScanner[T ~rune, S ~[]T](addr *S) sql.Scanner {
+	return &runeSliceScanner[T, S]{addr: addr}
+}
+
+type runeSliceScanner[T ~rune, S ~[]T] struct {
+	addr *S
+}
+
+func (s *runeSliceScanner[T, S]) Scan(v any) error {
+	switch vi := v.(type) {
+	case string:
+		*s.addr = toRunes[T](vi)
+	case []byte:
+		*s.addr = toRunes[T](string(vi))
+	case nil:
+		*s.addr = nil
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for []~rune`, vi)
+	}
+	return nil
+}
+
+func toRunes[T ~rune](v string) []T {
+	runes := make([]T, 0, len(v))
+	for _, r := range v {
+		runes = append(runes, T(r))
+	}
+	return runes
+}
-- 
2.43.0


From 9484baa0b799859d437e12bee1b4a05d50d91ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 15/69] fix: NULL read into a pointer column is a nil pointer
 for every column type

---
 cmd/sqlgen/codegen/generate.go | 15 +++++++++++++++
 sequel/encoding/null.go        | 27 +++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)
 create mode 100644 sequel/encoding/null.go

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index bd6da1b..8d83e26 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -733,6 +733,9 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
+		if isPtr && !strings.Contains(columnType.Scanner, "{{addr}}") {
+			return g.nullScanner(importPkgs, goPath, t, columnType.Scanner)
+		}
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isImplemented(ptr, textUnmarshaler) {
 		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
@@ -740,6 +743,18 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
 
+// nullScanner scans a pointer with the scanner of its base type
+func (g *Generator) nullScanner(importPkgs *Package, goPath string, t types.Type, scanner string) string {
+	switch strings.Trim(scanner, "()") {
+	case "{{addrOfGoPath}}":
+		// database/sql can scan into the pointer itself
+		return Expr("{{addr}}").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: true})
+	}
+	return Expr("github.com/si3nloong/sqlgen/sequel/encoding.NullScanner({{addr}}, func(val *{{baseType}}) database/sql.Scanner { return "+
+		strings.NewReplacer("{{goPath}}", "(*val)", "{{addrOfGoPath}}", "val").Replace(scanner)+
+		" })").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: true, Len: arraySize(t)})
+}
+
 func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
 	t, _ := underlyingType(column.Type)
 	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLScanner != nil {
diff --git a/sequel/encoding/null.go b/sequel/encoding/null.go
new file mode 100644
index 0000000..6424f1b
--- /dev/null
+++ b/sequel/encoding/null.go
@@ -0,0 +1,27 @@
+package encoding
+
+import "database/sql"
+
+// NullScanner scans into a pointer with the scanner of its base type, NULL is
+// a nil pointer
+func NullScanner[T any](addr **T, scanner func(*T) sql.Scanner) sql.Scanner {
+	return &nullScanner[T]{addr: addr, scanner: scanner}
+}
+
+type nullScanner[T any] struct {
+	addr    **T
+	scanner func(*T) sql.Scanner
+}
+
+func (s *nullScanner[T]) Scan(v any) error {
+	if v == nil {
+		*s.addr = nil
+		return nil
+	}
+	val := new(T)
+	if err := s.scanner(val).Scan(v); err != nil {
+		return err
+	}
+	*s.addr = val
+	return nil
+}
-- 
2.43.0


From b68b96f1db63ea3b0cf7f5a18a05f8c7cd577cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:14 +0000
Subject: [PATCH 16/69] fix: generated auto increment and composite keys handle
 pointers, imported types and quoted names

---
 cmd/sqlgen/codegen/generate.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8d83e26..8b6e146 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -156,10 +156,7 @@ func (g *Generator) generateModels(
 			pk, ok := t.AutoIncrKey()
 			if ok {
 				fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
-				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
-	v.%s = %s(val)
-	return nil
-}`, t.GoName, pk.GoName, pk.Type)
+				g.buildScanAutoIncr(w, importPkgs, t, pk)
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
@@ -385,7 +382,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
@@ -405,6 +402,27 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 	fprintfln(w, "}")
 }
 
+func (g *Generator) buildScanAutoIncr(w io.Writer, importPkgs *Package, table *compiler.Table, pk *compiler.Column) {
+	fprintfln(w, "func (v *%s) ScanAutoIncr(val int64) error {", table.GoName)
+	for _, p := range pk.GoPtrPaths() {
+		if p.GoPath == pk.GoPath {
+			continue
+		}
+		// Allocate the embedded struct which holds the key
+		fprintfln(w, "if v%s == nil {", p.GoPath)
+		fprintfln(w, "v%s = new(%s)", p.GoPath, importPkgs.TypeString(assertAsPtr[types.Pointer](p.Type).Elem()))
+		fprintfln(w, "}")
+	}
+	if ptr := assertAsPtr[types.Pointer](pk.Type); ptr != nil {
+		fprintfln(w, "key := %s(val)", importPkgs.TypeString(ptr.Elem()))
+		fprintfln(w, "v.%s = &key", pk.GoName)
+	} else {
+		fprintfln(w, "v.%s = %s(val)", pk.GoName, importPkgs.TypeString(pk.Type))
+	}
+	fprintfln(w, "return nil")
+	fprintfln(w, "}")
+}
+
 func (g *Generator) buildSqlColumns(w io.Writer, t *compiler.Table) error {
 	if len(g.config.DataTypes) == 0 {
 		return nil
-- 
2.43.0


From 66283aab28b4efcead96a55b58b1aeac1286800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:53 +0000
Subject: [PATCH 17/69] fix: generated key statements use the right
 placeholders, wrappers and quoting

---
 cmd/sqlgen/codegen/generate.go           | 34 +++++++++++-------------
 cmd/sqlgen/internal/compiler/compiler.go | 10 +++++++
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8b6e146..11db2c9 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -13,7 +13,6 @@ import (
 	"strings"
 	"text/template"
 	"time"
-	"unsafe"
 
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen"
@@ -93,13 +92,10 @@ func (g *Generator) LogError(err error) {
 }
 
 func (g *Generator) Quote(str string) string {
-	buf := make([]byte, 0, len(str))
-	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
+	if g.quoteRune == '`' && strconv.CanBackquote(str) {
+		return "`" + str + "`"
 	}
-	buf = append(buf, byte(g.quoteRune))
-	return unsafe.String(unsafe.SliceData(buf), len(buf))
+	return strconv.Quote(str)
 }
 
 func (g *Generator) MustQuoteIdentifier(str string) string {
@@ -512,11 +508,12 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.Reset()
 	}
 	buf.WriteString(" WHERE ")
-	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
-	} else if len(t.Keys) == 1 {
-		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+	if pk, ok := t.SingleKey(); ok {
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
 			return g.MustQuoteIdentifier(v.Name)
@@ -642,12 +639,12 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 		buf.WriteString(g.MustQuoteIdentifier(f.Name) + " = " + valuer)
 	}
 	buf.WriteString(" WHERE ")
-	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
-		columns = append(columns, pk)
-	} else if len(t.Keys) == 1 {
-		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+	if pk, ok := t.SingleKey(); ok {
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
@@ -680,7 +677,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 629a7b8..097505e 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -84,6 +84,16 @@ func (t *Table) AutoIncrKey() (*Column, bool) {
 	return t.autoIncrKey, t.autoIncrKey != nil
 }
 
+// SingleKey is the primary key of the table unless it has a composite key
+func (t *Table) SingleKey() (*Column, bool) {
+	if t.autoIncrKey != nil {
+		return t.autoIncrKey, true
+	} else if len(t.Keys) == 1 {
+		return t.Keys[0], true
+	}
+	return nil, false
+}
+
 func (t *Table) InsertColumns() []*Column {
 	return lo.Filter(t.Columns, func(v *Column, _ int) bool {
 		return !v.Readonly && v != t.autoIncrKey
-- 
2.43.0


From 5931cbc36a03d3887d6eb49756f915dd905e2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 18/69] fix: generated statements address the database declared
 by DatabaseName

---
 cmd/sqlgen/codegen/generate.go | 68 +++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 11db2c9..b7ab0e4 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -484,6 +484,44 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "}")
 }
 
+// writeTable writes the table name into the query, what is declared by the user
+// is called when the statement is built and returned as the beginning of the query
+func (g *Generator) writeTable(buf *strings.Builder, t *compiler.Table) string {
+	var (
+		hasDatabase bool
+		generated   = true
+	)
+	if method, isWrongType := t.Implements(sqlDatabaser); isWrongType {
+		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "DatabaseName" but wrong footprint`, t.GoName))
+	} else {
+		hasDatabase = method == nil
+	}
+	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
+		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	} else {
+		generated = method != nil
+	}
+	if !hasDatabase && generated {
+		buf.WriteString(g.MustQuoteIdentifier(t.Name))
+		return ""
+	}
+	query := g.Quote(buf.String()) + "+"
+	buf.Reset()
+	if hasDatabase {
+		query += " v.DatabaseName() +"
+		buf.WriteByte('.')
+	}
+	if generated {
+		buf.WriteString(g.MustQuoteIdentifier(t.Name))
+		return query
+	}
+	if hasDatabase {
+		query += g.Quote(buf.String()) + "+"
+		buf.Reset()
+	}
+	return query + " v.TableName() +"
+}
+
 func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
 	buf.WriteString("SELECT ")
@@ -498,15 +536,7 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.WriteString(scanner)
 	}
 	buf.WriteString(" FROM ")
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString(g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote(buf.String()) + "+ v.TableName() +"
-		buf.Reset()
-	}
+	query := g.writeTable(buf, t)
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.SingleKey(); ok {
 		valuer, err := g.sqlValuer(pk, 0)
@@ -552,15 +582,9 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 }
 
 func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler.Table) error {
-	var query string
 	buf := strpool.AcquireString()
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("INSERT INTO ") + "+ v.TableName() +"
-	}
+	buf.WriteString("INSERT INTO ")
+	query := g.writeTable(buf, t)
 	buf.WriteString(" (")
 	columns := t.InsertColumns()
 	for i, f := range columns {
@@ -618,14 +642,8 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 
 func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("UPDATE ") + "+ v.TableName() +"
-	}
+	buf.WriteString("UPDATE ")
+	query := g.writeTable(buf, t)
 	buf.WriteString(" SET ")
 	columns := t.ColumnsWithoutPK()
 	for i, f := range columns {
-- 
2.43.0


From 8c9d7b3723206e0d00c2471122e1cbf2bf93d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 19/69] fix: columns are listed in the order their fields are
 declared

---
 cmd/sqlgen/internal/compiler/parser.go | 30 ++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..0871a62 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 
@@ -164,7 +165,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		q := []typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
 		structFields := make([]*structField, 0)
 
-		var f typeQueue
+		var (
+			f   typeQueue
+			pos int
+		)
 		// Resolve every field on the struct, including nested struct
 		for len(q) > 0 {
 			f = q[0]
@@ -175,9 +179,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			}
 
 			// Loop every struct field
-			for i := range f.t.Fields.List {
+			pos = 0
+			for _, fi := range f.t.Fields.List {
 				var tag reflect.StructTag
-				fi := f.t.Fields.List[i]
+				// A declaration of several fields takes a position each
+				i := pos
+				pos += max(1, len(fi.Names))
 				if fi.Tag != nil {
 					// Trim backtick
 					tag = reflect.StructTag(strings.TrimFunc(fi.Tag.Value, func(r rune) bool {
@@ -222,7 +229,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
+								index: fieldIndex(f.idx, i),
 								// paths:    append(f.paths, path),
 								exported: vi.IsExported(),
 								embedded: true,
@@ -232,7 +239,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  fieldIndex(f.idx, i),
 								prev: ft,
 								t:    t.Type.(*ast.StructType),
 								pkg:  f.pkg,
@@ -274,7 +281,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
+								index:    fieldIndex(f.idx, i),
 								exported: vi.Sel.IsExported(),
 								embedded: true,
 								parent:   f.prev,
@@ -282,7 +289,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  fieldIndex(f.idx, i),
 								t:    st,
 								prev: ft,
 								pkg:  importPkg,
@@ -321,7 +328,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
 						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
+						index:    fieldIndex(f.idx, i+j),
 						exported: n.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
@@ -353,7 +360,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		// To store struct fields, to prevent field name collision
 		nameMap := make(map[string]struct{})
-		pos := 0
+		pos = 0
 
 		if s.doc != nil {
 			comment := f.doc.Text()
@@ -462,6 +469,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// fieldIndex is the index sequence of the field in the parent
+func fieldIndex(parent []int, i int) []int {
+	return append(slices.Clone(parent), i)
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 0505046761dd48a42f6641fb527ff17940ecdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:34 +0000
Subject: [PATCH 20/69] fix: only the structs declared by the package itself
 are models, also in a group

---
 cmd/sqlgen/internal/compiler/parser.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 0871a62..bc6febf 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -61,14 +61,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		// }
 
 		// ast.Print(pkg.Fset, f)
-		ast.Inspect(file, func(node ast.Node) bool {
-			if node == nil {
-				return true
-			}
-
+		for _, node := range file.Decls {
 			genDecl := assertAsPtr[ast.GenDecl](node)
 			if genDecl == nil || genDecl.Tok != token.TYPE {
-				return true
+				continue
 			}
 
 			for _, spec := range genDecl.Specs {
@@ -83,6 +79,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
+				// Methods cannot be generated for every instance of a generic struct
+				if typeSpec.TypeParams != nil {
+					continue
+				}
+
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
 					continue
@@ -134,11 +135,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 				default:
-					return true
+					continue
 				}
 			}
-			return true
-		})
+		}
 	}
 
 	// If no files matched the pattern, skip it
-- 
2.43.0


From 1ca2ce0dcb4b97738f6eb05d57db6471e6e2ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 21/69] fix: annotations belong to the struct they document

---
 cmd/sqlgen/internal/compiler/parser.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index bc6febf..01d9934 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -84,6 +84,14 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
+				// The doc of a group is for every type of the group
+				doc := new(ast.CommentGroup)
+				for _, comments := range []*ast.CommentGroup{genDecl.Doc, typeSpec.Doc} {
+					if comments != nil {
+						doc.List = append(doc.List, comments.List...)
+					}
+				}
+
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
 					continue
@@ -104,7 +112,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```
 				switch t := typeSpec.Type.(type) {
 				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: t, pkg: pkg})
 
 				case *ast.SelectorExpr:
 					var (
@@ -131,7 +139,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: v, pkg: importPkg})
 					}
 
 				default:
@@ -363,19 +371,15 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos = 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
-			if annotationRegexp.MatchString(comment) {
-				annotations := annotationRegexp.FindStringSubmatch(comment)
-				flags := strings.Split(annotations[1], ",")
-				for len(flags) > 0 {
-					switch flags[0] {
+			for _, annotations := range annotationRegexp.FindAllStringSubmatch(s.doc.Text(), -1) {
+				for _, flag := range strings.Split(annotations[1], ",") {
+					switch strings.ToLower(strings.TrimSpace(flag)) {
 					case "readonly":
 						table.Readonly = true
 					case "ignore":
 						// Skip this struct because of ignore
 						goto nextCache
 					}
-					flags = flags[1:]
 				}
 			}
 		}
-- 
2.43.0


From 8a07f9392473ce9b694c79789bd7d7e3d455c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:38 +0000
Subject: [PATCH 22/69] fix: ignored fields and embedded structs contribute
 nothing, whatever they hold

---
 cmd/sqlgen/internal/compiler/compiler.go |  1 +
 cmd/sqlgen/internal/compiler/parser.go   | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 097505e..233434d 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -184,6 +184,7 @@ type structField struct {
 	index    []int
 	exported bool
 	embedded bool
+	ignored  bool
 	parent   *structField
 	tag      reflect.StructTag
 	paths    []*structField
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 01d9934..63faabe 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -10,6 +10,7 @@ import (
 	"regexp"
 	"slices"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -194,10 +195,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				i := pos
 				pos += max(1, len(fi.Names))
 				if fi.Tag != nil {
-					// Trim backtick
-					tag = reflect.StructTag(strings.TrimFunc(fi.Tag.Value, func(r rune) bool {
-						return r == '`'
-					}))
+					v, err := strconv.Unquote(fi.Tag.Value)
+					if err != nil {
+						return nil, err
+					}
+					tag = reflect.StructTag(v)
 				}
 
 				// If the field is embedded struct
@@ -385,8 +387,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		}
 
 		for _, f := range structFields {
-			if ptrCount(f.t) > 1 {
-				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			// Every field of an ignored embedded struct is ignored
+			if f.parent != nil && f.parent.ignored {
+				f.ignored = true
+				continue
 			}
 
 			var tagPaths []string
@@ -398,6 +402,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					n := strings.TrimSpace(tagPaths[0])
 					tagPaths = tagPaths[1:]
 					if n == "-" {
+						f.ignored = true
 						continue
 					} else if n != "" {
 						if !nameRegex.MatchString(n) {
@@ -428,6 +433,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				continue
 			}
 
+			if ptrCount(f.t) > 1 {
+				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			}
+
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
 			}
-- 
2.43.0


From 38ae138ee84854513b583213ceb38bdc6709dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:58 +0000
Subject: [PATCH 23/69] fix: a struct's own table name wins and its field names
 are unique

---
 cmd/sqlgen/internal/compiler/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 63faabe..f88de4e 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -370,6 +370,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		// To store struct fields, to prevent field name collision
 		nameMap := make(map[string]struct{})
+		fieldMap := make(map[string]struct{})
+		named := false
 		pos = 0
 
 		if s.doc != nil {
@@ -419,9 +421,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			//
 			// Check type is sequel.Name, then override name
 			case tableTypeName:
-				if name != "" {
+				// The struct's own table name is preferred over the one of its embedded struct
+				if name != "" && (f.parent == nil || !named) {
 					table.Name = name
 				}
+				named = named || f.parent == nil
 				continue
 			}
 
@@ -441,6 +445,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
 			}
 
+			// Methods are named after the field, so it must be unique as well
+			if _, ok := fieldMap[f.name]; ok {
+				return nil, fmt.Errorf("sqlgen: struct %q has duplicate field name %q in directory %q", s.name, f.name, dir)
+			}
+			fieldMap[f.name] = struct{}{}
+
 			tag := parseTag(tagPaths)
 			column := &Column{
 				GoName:   f.name,
-- 
2.43.0


From dfe054481f7c1b237070da6dbe925b728628940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:01 +0000
Subject: [PATCH 24/69] fix: methods generated for an embedded struct are
 generated again for the struct embedding it

---
 cmd/sqlgen/internal/compiler/compiler.go | 35 ++++++++++++++++++++++--
 cmd/sqlgen/internal/compiler/parser.go   |  1 +
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 233434d..7115dc3 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -39,7 +39,8 @@ type Table struct {
 	Keys    []*Column
 	Columns []*Column
 
-	t types.Type
+	t   types.Type
+	pkg *packages.Package
 	// +sqlgen:readonly
 	Readonly    bool
 	autoIncrKey *Column
@@ -101,11 +102,39 @@ func (t *Table) InsertColumns() []*Column {
 }
 
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(t.t, T, true)
+	return t.missingMethod(t.t, T)
 }
 
 func (t *Table) PtrImplements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(types.NewPointer(t.t), T, true)
+	return t.missingMethod(types.NewPointer(t.t), T)
+}
+
+func (t *Table) missingMethod(v types.Type, T *types.Interface) (*types.Func, bool) {
+	for i := 0; i < T.NumMethods(); i++ {
+		m := T.Method(i)
+		obj, index, _ := types.LookupFieldOrMethod(v, true, m.Pkg(), m.Name())
+		// What was generated for an embedded struct doesn't cover this struct
+		if len(index) > 1 && isGenerated(t.pkg, obj) {
+			return m, false
+		}
+	}
+	return types.MissingMethod(v, T, true)
+}
+
+// isGenerated is whether the object is declared in a generated file
+func isGenerated(pkg *packages.Package, obj types.Object) bool {
+	generated := false
+	packages.Visit([]*packages.Package{pkg}, func(p *packages.Package) bool {
+		if p.Types == obj.Pkg() {
+			for _, file := range p.Syntax {
+				if file.FileStart <= obj.Pos() && obj.Pos() <= file.FileEnd {
+					generated = ast.IsGenerated(file)
+				}
+			}
+		}
+		return true
+	}, nil)
+	return generated
 }
 
 type Column struct {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index f88de4e..079e788 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -366,6 +366,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			GoName: types.ExprString(s.name),
 			Name:   cfg.RenameFunc(types.ExprString(s.name)),
 			t:      pkg.TypesInfo.TypeOf(s.name),
+			pkg:    pkg,
 		}
 
 		// To store struct fields, to prevent field name collision
-- 
2.43.0


From ff24471752e811a9552172d1f45dfff81cd1a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:53 +0000
Subject: [PATCH 25/69] fix: settings are layered one by one, whatever a zero
 value in another setting means

---
 cmd/sqlgen/codegen/codegen.go | 12 ++++--
 cmd/sqlgen/codegen/config.go  | 81 ++++++++++++++++++++++++++++-------
 2 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..c86d86d 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -41,15 +41,21 @@ var (
 )
 
 func Generate(c *Config) error {
+	if c == nil {
+		c = DefaultConfig()
+	}
+
 	vldr := validator.New()
 	if err := vldr.Struct(c); err != nil {
 		return err
 	}
 
-	cfg := DefaultConfig()
-	if c != nil {
-		cfg = cfg.Merge(c)
+	cfg := new(Config)
+	cfg.Init()
+	if !c.resolved {
+		cfg = DefaultConfig()
 	}
+	cfg = cfg.Merge(c)
 
 	dialect, ok := dialect.GetDialect((string)(cfg.Driver))
 	if !ok {
diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..b52e95b 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,8 @@
 package codegen
 
 import (
+	"errors"
+	"io"
 	"maps"
 	"os"
 	"path/filepath"
@@ -61,6 +63,8 @@ type Config struct {
 	SkipHeader      bool                 `yaml:"skip_header"`
 	SkipModTidy     bool                 `yaml:"skip_mod_tidy"`
 	DataTypes       map[string]*DataType `yaml:"data_types"`
+	// Whether the file and the defaults are applied already
+	resolved bool
 }
 
 type DataType struct {
@@ -183,7 +187,9 @@ func (c *Config) initIfEmpty() {
 }
 
 func (c *Config) Merge(mapCfg *Config) *Config {
-	c.QuoteIdentifier = mapCfg.QuoteIdentifier
+	if mapCfg.QuoteIdentifier {
+		c.QuoteIdentifier = true
+	}
 	if mapCfg.Source != nil {
 		c.Source = append([]string{}, mapCfg.Source...)
 	}
@@ -210,19 +216,16 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.Exec.Filename = mapCfg.Exec.Filename
 	}
 	if mapCfg.Database != nil {
-		c.Database = &DatabaseConfig{
-			Dir:      mapCfg.Database.Dir,
-			Package:  mapCfg.Database.Package,
-			Filename: mapCfg.Database.Filename,
-		}
-
-		if mapCfg.Database.Operator != nil {
-			c.Database.Operator = &DatabaseOperatorConfig{
-				Dir:      mapCfg.Database.Operator.Dir,
-				Package:  mapCfg.Database.Operator.Package,
-				Filename: mapCfg.Database.Operator.Filename,
-			}
-		}
+		c.Database = c.Database.merge(mapCfg.Database)
+	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
 	}
 	if mapCfg.SkipHeader {
 		c.SkipHeader = true
@@ -239,12 +242,55 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		}
 	}
 	if mapCfg.DataTypes != nil {
+		if c.DataTypes == nil {
+			c.DataTypes = make(map[string]*DataType)
+		}
 		maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	}
 	c.initIfEmpty()
 	return c
 }
 
+// merge is the configuration overridden by every value of mapCfg, the operator
+// goes along with the database code unless it has its own place
+func (c *DatabaseConfig) merge(mapCfg *DatabaseConfig) *DatabaseConfig {
+	db, operator := DatabaseConfig{}, DatabaseOperatorConfig{}
+	if c != nil {
+		db = *c
+		if c.Operator != nil {
+			operator = *c.Operator
+		}
+	}
+	db.Operator = &operator
+	if mapCfg.Dir != "" {
+		if operator.Dir == db.Dir {
+			operator.Dir = mapCfg.Dir
+		}
+		db.Dir = mapCfg.Dir
+	}
+	if mapCfg.Package != "" {
+		if operator.Package == db.Package {
+			operator.Package = mapCfg.Package
+		}
+		db.Package = mapCfg.Package
+	}
+	if mapCfg.Filename != "" {
+		db.Filename = mapCfg.Filename
+	}
+	if mapCfg.Operator != nil {
+		if mapCfg.Operator.Dir != "" {
+			operator.Dir = mapCfg.Operator.Dir
+		}
+		if mapCfg.Operator.Package != "" {
+			operator.Package = mapCfg.Operator.Package
+		}
+		if mapCfg.Operator.Filename != "" {
+			operator.Filename = mapCfg.Operator.Filename
+		}
+	}
+	return &db
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
@@ -264,12 +310,14 @@ func LoadConfigFrom(src string) (*Config, error) {
 	if err := decodeToFile(src, cfg); err != nil {
 		return nil, err
 	}
+	cfg.resolved = true
 	return cfg, nil
 }
 
 func DefaultConfig() *Config {
 	cfg := new(Config)
 	cfg.Init()
+	cfg.resolved = true
 	file, exists := findCfgInDir(fileutil.Getpwd())
 	if !exists {
 		return cfg
@@ -286,10 +334,13 @@ func decodeToFile(src string, cfg *Config) error {
 		return err
 	}
 	defer f.Close()
+	// What is missing in the file is derived from what is declared in it
+	cfg.Database = nil
 	dec := yaml.NewDecoder(f)
-	if err := dec.Decode(cfg); err != nil {
+	if err := dec.Decode(cfg); err != nil && !errors.Is(err, io.EOF) {
 		return err
 	}
+	cfg.initIfEmpty()
 	return nil
 }
 
-- 
2.43.0


From 3a5b1833310c0eda3bd21c4adc451571f0ca6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:22 +0000
Subject: [PATCH 26/69] fix: read_only, omit_getters and skip_empty are
 effective

---
 cmd/sqlgen/codegen/codegen.go  | 10 +++++-----
 cmd/sqlgen/codegen/generate.go |  7 +++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index c86d86d..f19bb45 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -247,16 +247,16 @@ func parseGoPackage(
 			return err
 		}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
-		}
-
 		// If the `skip_empty` is true,
 		// we do not generate the go file
-		if g.config.Exec.SkipEmpty {
+		if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
 			goto nextDir
 		}
 
+		if err := g.generateModels(dir, schema); err != nil {
+			return err
+		}
+
 		// if g.config.Migration != nil {
 		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
 		// 		return err
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index b7ab0e4..9fb1463 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -126,6 +126,10 @@ func (g *Generator) generateModels(
 	for len(schema.Tables) > 0 {
 		t := schema.Tables[0]
 
+		if g.config.ReadOnly {
+			t.Readonly = true
+		}
+
 		fmt.Fprintln(w)
 
 		// if method, isWrongType := t.Implements(sqlDatabaser); isWrongType {
@@ -277,6 +281,9 @@ func (g *Generator) generateModels(
 		}
 
 		for _, f := range t.Columns {
+			if g.config.OmitGetters {
+				break
+			}
 			var typeStr string
 			isBasic := g.isBasicType(f.Type)
 			switch vt := f.Type.(type) {
-- 
2.43.0


From f87e3550dadcc291484a52fc965a16e0ddfd96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:33 +0000
Subject: [PATCH 27/69] fix: generation writes only what the sources select,
 once everything is generated

---
 cmd/sqlgen/codegen/codegen.go          | 326 ++++++++++++-------------
 cmd/sqlgen/codegen/files.go            |  72 ++++++
 cmd/sqlgen/codegen/generate.go         |  17 +-
 cmd/sqlgen/codegen/init.go             |   7 +-
 cmd/sqlgen/codegen/path_matcher.go     |  46 ++++
 cmd/sqlgen/codegen/templates/db.go.tpl |   4 +
 cmd/sqlgen/internal/compiler/parser.go |  29 ++-
 7 files changed, 309 insertions(+), 192 deletions(-)
 create mode 100644 cmd/sqlgen/codegen/files.go

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index f19bb45..877a856 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -4,15 +4,16 @@ import (
 	"embed"
 	"errors"
 	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"io/fs"
 	"log/slog"
 	"os"
 	"os/exec"
-	"path"
 	"path/filepath"
 	"regexp"
 	"strings"
-	"syscall"
 
 	"github.com/Masterminds/semver/v3"
 
@@ -27,13 +28,6 @@ var (
 	//go:embed templates/*.go.tpl
 	codegenTemplates embed.FS
 
-	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
-	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
-		`/`, `[\\/]`,
-	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	go121     = lo.Must1(semver.NewConstraint(">= 1.2.1"))
 	// goTagRegexp   = regexp.MustCompile(`(?i)^([a-z][a-z_]*[a-z])(\:(\w+))?$`)
@@ -67,27 +61,79 @@ func Generate(c *Config) error {
 		return err
 	}
 
+	pkgs, err := findPackages(cfg.Source)
+	if err != nil {
+		return err
+	}
+
+	for _, pkg := range pkgs {
+		if err := parseGoPackage(generator, pkg.dir, pkg.matchers); err != nil {
+			return err
+		}
+	}
+
+	// Generate db code
+	if err := renderTemplate(
+		generator,
+		"db.go.tpl",
+		"",
+		cfg.Database.Package,
+		cfg.Database.Dir,
+		cfg.Database.Filename,
+	); err != nil {
+		return err
+	}
+
+	if err := renderTemplate(
+		generator,
+		"operator.go.tpl",
+		"",
+		cfg.Database.Operator.Package,
+		cfg.Database.Operator.Dir,
+		cfg.Database.Operator.Filename,
+	); err != nil {
+		return err
+	}
+
+	// Touch the files only after everything is generated
+	if err := generator.files.Flush(); err != nil {
+		return err
+	}
+
+	if cfg.SkipModTidy {
+		return nil
+	}
+	return goModTidy()
+}
+
+type sourcePackage struct {
+	dir      string
+	matchers anyMatcher
+}
+
+// findPackages resolves every source provided to the directories they select,
+// a directory selected by several sources is returned once
+func findPackages(sources []string) ([]*sourcePackage, error) {
 	var (
-		srcDir  string
-		sources = make([]string, 0, len(cfg.Source))
+		pkgs  []*sourcePackage
+		cache = make(map[string]*sourcePackage)
 	)
-	sources = append(sources, cfg.Source...)
-
-	// Resolve every source provided
-	for len(sources) > 0 {
-		srcDir = strings.TrimSpace(sources[0])
-		if srcDir == "" {
-			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
+	add := func(dir string, matcher Matcher) {
+		pkg, ok := cache[dir]
+		if !ok {
+			pkg = &sourcePackage{dir: dir}
+			cache[dir] = pkg
+			pkgs = append(pkgs, pkg)
 		}
+		pkg.matchers = append(pkg.matchers, matcher)
+	}
 
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
-			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
+	for _, src := range sources {
+		srcDir := strings.TrimSpace(src)
+		if srcDir == "" {
+			return nil, fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
 		}
+		srcDir = absPath(srcDir)
 
 		// If suffix is *, we will add go extension to it
 		if srcDir[len(srcDir)-1] == '*' {
@@ -100,179 +146,119 @@ func Generate(c *Config) error {
 		// Folder: examples/testdata
 		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
 		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
-		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
-		)
-
-		if strings.Contains(srcDir, "**") {
-			paths := strings.SplitN(srcDir, "**", 2)
-			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
-			suffix := `(?:[\\/]\w+\.\w+)`
-			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
-			}
-			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+		if paths := strings.SplitN(srcDir, "**", 2); len(paths) > 1 {
+			matcher := globMatcher(srcDir)
+			if err := filepath.WalkDir(filepath.Clean(paths[0]), func(path string, d fs.DirEntry, err error) error {
 				// If the directory is not exists, the "d" will be nil
 				if d == nil || !d.IsDir() {
 					// If it's not a folder, we skip!
 					return nil
 				}
-				dirs = append(dirs, strings.TrimPrefix(path, rootDir))
+				add(path, matcher)
 				return nil
 			}); err != nil {
-				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
+				return nil, fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
 			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
-			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
-		} else {
-			fi, err := os.Stat(srcDir)
+		} else if strings.Contains(filepath.Base(srcDir), "*") {
+			add(filepath.Dir(srcDir), globMatcher(srcDir))
+		} else if fi, err := os.Stat(srcDir); os.IsNotExist(err) {
 			// If the file or folder not exists, we skip!
-			if os.IsNotExist(err) {
-				goto nextSrc
-			} else if err != nil {
-				return err
-			}
-
-			if fi.IsDir() {
-				// If it's just a folder
-				matcher = FolderMatcher(srcDir)
-			} else {
-				// If it's just a file
-				srcDir = filepath.Dir(srcDir)
-				matcher = FileMatcher{filepath.Join(srcDir, fi.Name()): struct{}{}}
-			}
-
-			rootDir = srcDir
-			dirs = append(dirs, "")
-		}
-
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
-			return err
-		}
-
-	nextSrc:
-		sources = sources[1:]
-	}
-
-	if cfg.Database != nil {
-		// Generate db code
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
-		if err := renderTemplate(
-			generator,
-			"db.go.tpl",
-			"",
-			cfg.Database.Package,
-			cfg.Database.Dir,
-			cfg.Database.Filename,
-		); err != nil {
-			return err
-		}
-	}
-
-	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
-		if err := renderTemplate(
-			generator,
-			"operator.go.tpl",
-			"",
-			cfg.Database.Operator.Package,
-			cfg.Database.Operator.Dir,
-			cfg.Database.Operator.Filename,
-		); err != nil {
-			return err
+			continue
+		} else if err != nil {
+			return nil, err
+		} else if fi.IsDir() {
+			// If it's just a folder
+			add(srcDir, FolderMatcher(srcDir))
+		} else {
+			// If it's just a file
+			add(filepath.Dir(srcDir), FileMatcher{srcDir: struct{}{}})
 		}
 	}
-
-	if cfg.SkipModTidy {
-		return nil
-	}
-	return goModTidy()
+	return pkgs, nil
 }
 
 func parseGoPackage(
 	g *Generator,
-	rootDir string,
-	dirs []string,
+	dir string,
 	matcher Matcher,
 ) error {
-	var dir string
-	var filename string
-	rename := g.config.RenameFunc()
-
-	for len(dirs) > 0 {
-		dir = path.Join(rootDir, dirs[0])
-
-		// Sometimes user might place db destination in the source as well
-		// In this situation, we're not process the folder, we will skip it
-		// if the file is exists in db folder
-		pwd := fileutil.Getpwd()
-		if idx := lo.IndexOf([]string{
-			path.Join(pwd, g.config.Database.Dir),
-			path.Join(pwd, g.config.Database.Operator.Dir),
-		}, dir); idx >= 0 {
-			dirs = dirs[1:]
-			continue
-		}
+	// Sometimes user might place db destination in the source as well
+	// In this situation, we're not process the folder, we will skip it
+	// if the file is exists in db folder
+	if dir == absPath(g.config.Database.Dir) || dir == absPath(g.config.Database.Operator.Dir) {
+		return nil
+	}
 
-		slog.Info("Process", "dir", dir)
-		if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
-			slog.Info("Folder is empty, so not processing")
-			dirs = dirs[1:]
-			continue
-		}
+	slog.Info("Process", "dir", dir)
+	if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
+		slog.Info("Folder is empty, so not processing")
+		return nil
+	}
 
-		filename = path.Join(dir, g.config.Exec.Filename)
-		// Unlink the generated file, ignore the error
-		_ = syscall.Unlink(filename)
-
-		slog.Info("Parse go package", "dir", dir)
-		// Since we're loading one directory at a time,
-		// the return results will only return one package back
-		schema, err := compiler.Parse(dir, &compiler.Config{
-			Tag:        g.config.Tag,
-			RenameFunc: rename,
-			Matcher:    matcher,
-		})
-		if errors.Is(err, compiler.ErrSkip) {
-			goto nextDir
-		} else if err != nil {
-			return err
-		}
+	slog.Info("Parse go package", "dir", dir)
+	filename := filepath.Join(dir, g.config.Exec.Filename)
+	// Since we're loading one directory at a time,
+	// the return results will only return one package back
+	schema, err := compiler.Parse(dir, &compiler.Config{
+		Tag:        g.config.Tag,
+		RenameFunc: g.config.RenameFunc(),
+		Matcher:    matcher,
+		// The previous generated code must not affect the result
+		Exclude: filename,
+	})
+	if errors.Is(err, compiler.ErrSkip) {
+		return g.removeIfGenerated(dir, filename, matcher)
+	} else if err != nil {
+		return err
+	}
 
-		// If the `skip_empty` is true,
-		// we do not generate the go file
-		if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
-			goto nextDir
-		}
+	// If the `skip_empty` is true,
+	// we do not generate the go file
+	if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
+		return g.removeIfGenerated(dir, filename, matcher)
+	}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
-		}
+	return g.generateModels(dir, schema)
 
-		// if g.config.Migration != nil {
-		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
-		// 		return err
-		// 	}
+	// if g.config.Migration != nil {
+	// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
+	// 		return err
+	// 	}
 
-		// 	if err := g.genMigrations(schema); err != nil {
-		// 		return err
-		// 	}
-		// }
+	// 	if err := g.genMigrations(schema); err != nil {
+	// 		return err
+	// 	}
+	// }
+}
 
-	nextDir:
-		dirs = dirs[1:]
+// removeIfGenerated removes the file generated earlier for a package which is
+// selected but has no model anymore
+func (g *Generator) removeIfGenerated(dir, filename string, matcher Matcher) error {
+	f, err := parser.ParseFile(token.NewFileSet(), filename, nil, parser.PackageClauseOnly|parser.ParseComments)
+	if err != nil || !ast.IsGenerated(f) {
+		return nil
+	}
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return err
+	}
+	for _, entry := range entries {
+		path := filepath.Join(dir, entry.Name())
+		if path != filename && filepath.Ext(path) == ".go" && matcher.Match(path) {
+			g.files.Remove(filename)
+			return nil
+		}
 	}
 	return nil
 }
 
+func absPath(path string) string {
+	if filepath.IsAbs(path) {
+		return filepath.Clean(path)
+	}
+	return filepath.Join(fileutil.Getpwd(), path)
+}
+
 func goModTidy() error {
 	tidyCmd := exec.Command("go", "mod", "tidy")
 	tidyCmd.Stdout = os.Stdout
diff --git a/cmd/sqlgen/codegen/files.go b/cmd/sqlgen/codegen/files.go
new file mode 100644
index 0000000..5679f74
--- /dev/null
+++ b/cmd/sqlgen/codegen/files.go
@@ -0,0 +1,72 @@
+package codegen
+
+import (
+	"errors"
+	"io/fs"
+	"os"
+	"path/filepath"
+)
+
+// outputFiles are the files to be written once everything is generated
+type outputFiles struct {
+	writes  []outputFile
+	removes []string
+}
+
+type outputFile struct {
+	name    string
+	content []byte
+}
+
+func (o *outputFiles) Write(name string, content []byte) {
+	o.writes = append(o.writes, outputFile{name: name, content: content})
+}
+
+func (o *outputFiles) Remove(name string) {
+	o.removes = append(o.removes, name)
+}
+
+// Flush replaces every file by its new content, no file is replaced unless all
+// of them can be written
+func (o *outputFiles) Flush() error {
+	temps := make([]string, 0, len(o.writes))
+	defer func() {
+		for _, name := range temps {
+			_ = os.Remove(name)
+		}
+	}()
+	written := make(map[string]struct{})
+	for _, file := range o.writes {
+		if _, ok := written[file.name]; ok {
+			return &fs.PathError{Op: "write", Path: file.name, Err: errors.New("is generated twice")}
+		}
+		written[file.name] = struct{}{}
+		mode := os.ModePerm
+		if fi, err := os.Stat(file.name); err == nil {
+			if fi.IsDir() {
+				return &fs.PathError{Op: "write", Path: file.name, Err: errors.New("is a directory")}
+			}
+			mode = fi.Mode().Perm()
+		}
+		dir := filepath.Dir(file.name)
+		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
+			return err
+		}
+		temp := filepath.Join(dir, "."+filepath.Base(file.name)+".tmp")
+		temps = append(temps, temp)
+		if err := os.WriteFile(temp, file.content, mode); err != nil {
+			return err
+		}
+	}
+	for i, file := range o.writes {
+		if err := os.Rename(temps[i], file.name); err != nil {
+			return err
+		}
+	}
+	for _, name := range o.removes {
+		if err := os.Remove(name); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 9fb1463..7c26809 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"go/types"
 	"io"
-	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -44,6 +43,7 @@ type Generator struct {
 	staticVar          bool
 	columnTypes        map[string]*dialect.ColumnType
 	defaultColumnTypes map[string]*dialect.ColumnType
+	files              outputFiles
 	errs               []error
 }
 
@@ -334,16 +334,6 @@ func (g *Generator) generateModels(
 		schema.Tables = schema.Tables[1:]
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
-	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -369,9 +359,8 @@ func (g *Generator) generateModels(
 		return err
 	}
 
-	mustNoError(f.Write(formatted))
-
-	return f.Close()
+	g.files.Write(filepath.Join(dstDir, g.config.Exec.Filename), formatted)
+	return nil
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..88bd358 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -95,9 +95,6 @@ func renderTemplate(
 		return err
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
 	fileDest := filepath.Join(dstDir, dstFilename)
 	// formatted, err := format.Source([]byte(w.String()))
 	// if err != nil {
@@ -109,9 +106,7 @@ func renderTemplate(
 	}
 
 	slog.Info("Creating " + fileDest)
-	if err := os.WriteFile(fileDest, formatted, os.ModePerm); err != nil {
-		return err
-	}
+	g.files.Write(fileDest, formatted)
 	return nil
 }
 
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..e12562f 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -35,3 +35,49 @@ type RegexMatcher struct {
 func (r *RegexMatcher) Match(v string) bool {
 	return r.MatchString(v)
 }
+
+// anyMatcher matches when any of the matchers does
+type anyMatcher []Matcher
+
+func (m anyMatcher) Match(v string) bool {
+	for _, matcher := range m {
+		if matcher.Match(v) {
+			return true
+		}
+	}
+	return false
+}
+
+// globMatcher matches a path which may have wildcards
+//
+//   - "**" - any number of directories
+//   - "*" - any characters of a name
+func globMatcher(pattern string) Matcher {
+	blr := new(strings.Builder)
+	blr.WriteByte('^')
+	for len(pattern) > 0 {
+		switch {
+		case strings.HasPrefix(pattern, "**/"):
+			blr.WriteString(`(?:.*[\\/])?`)
+			pattern = pattern[3:]
+		case strings.HasPrefix(pattern, "**"):
+			blr.WriteString(`.*`)
+			pattern = pattern[2:]
+		case pattern[0] == '*':
+			blr.WriteString(`[^\\/]*`)
+			pattern = pattern[1:]
+		case pattern[0] == '/' || pattern[0] == '\\':
+			blr.WriteString(`[\\/]`)
+			pattern = pattern[1:]
+		default:
+			n := strings.IndexAny(pattern, `*/\`)
+			if n < 0 {
+				n = len(pattern)
+			}
+			blr.WriteString(regexp.QuoteMeta(pattern[:n]))
+			pattern = pattern[n:]
+		}
+	}
+	blr.WriteByte('$')
+	return &RegexMatcher{regexp.MustCompile(blr.String())}
+}
diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..67d726f 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -4,6 +4,10 @@
 {{- reserveImport "strings" }}
 {{- reserveImport "strconv" }}
 {{- reserveImport "fmt" }}
+{{- reserveImport "iter" }}
+{{- reserveImport "reflect" }}
+{{- reserveImport "sort" }}
+{{- reserveImport "time" }}
 {{- reserveImport "sync" }}
 {{- reserveImport "unsafe" }}
 {{- reserveImport "github.com/si3nloong/sqlgen/sequel" }}
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 079e788..937ddbf 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -3,9 +3,12 @@ package compiler
 import (
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"go/types"
 	"log"
+	"os"
+	"path/filepath"
 	"reflect"
 	"regexp"
 	"slices"
@@ -28,6 +31,8 @@ type Config struct {
 	Tag        string
 	RenameFunc func(string) string
 	Matcher    Matcher
+	// The file which is not part of the package
+	Exclude string
 }
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
@@ -35,8 +40,9 @@ var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 func Parse(dir string, cfg *Config) (*Package, error) {
 	// Load single go package and inspect the structs
 	pkgs, err := packages.Load(&packages.Config{
-		Dir:  dir,
-		Mode: pkgMode,
+		Dir:     dir,
+		Mode:    pkgMode,
+		Overlay: excludeFile(cfg.Exclude),
 	})
 	if err != nil {
 		return nil, err
@@ -493,6 +499,25 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// excludeFile is the overlay which leaves nothing but the package clause of the file
+func excludeFile(filename string) map[string][]byte {
+	if _, err := os.Stat(filename); err != nil {
+		return nil
+	}
+	matches, _ := filepath.Glob(filepath.Join(filepath.Dir(filename), "*.go"))
+	for _, match := range matches {
+		if match == filename || strings.HasSuffix(match, "_test.go") {
+			continue
+		}
+		file, err := parser.ParseFile(token.NewFileSet(), match, nil, parser.PackageClauseOnly)
+		if err != nil {
+			continue
+		}
+		return map[string][]byte{filename: []byte("package " + file.Name.Name + "\n")}
+	}
+	return nil
+}
+
 // fieldIndex is the index sequence of the field in the parent
 func fieldIndex(parent []int, i int) []int {
 	return append(slices.Clone(parent), i)
-- 
2.43.0


From f58472d5e18df7344375a35c70a6c172440a1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 28/69] fix: insert helpers pair every value with its own
 column and write the generated key back

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 189 ++++++++++++-------------
 1 file changed, 91 insertions(+), 98 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 67d726f..afb8a1e 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -25,7 +25,8 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, keyIdx := insertColumns(model)
+		args := insertValues(model, keyIdx)
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -65,9 +66,20 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, keyIdx := insertColumns(model)
 		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
-		return db.ExecContext(ctx, query, args...)
+		result, err := db.ExecContext(ctx, query, insertValues(model, keyIdx)...)
+		if err != nil {
+			return nil, err
+		}
+		if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+			i64, err := result.LastInsertId()
+			if err != nil {
+				return nil, err
+			}
+			return result, scanAutoIncr(v, model.Addrs(), i64)
+		}
+		return result, nil
 	}
 }
 {{ end }}
@@ -82,67 +94,32 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns, keyIdx := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
-			return nil, err
-		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
-	default:
-		noOfCols := len(columns)
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
+	noOfCols := len(columns)
+	args := make([]any, 0, noOfCols*noOfData)
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
+	args = append(args, insertValues(data[0], keyIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], keyIdx)...)
+	}
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	rows, err := db.QueryContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt) // Deallocate statement
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var i int64
+	for rows.Next() {
+		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
 			return nil, err
 		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
+		i++
 	}
+	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
 // Insert is a helper function to insert multiple records.
@@ -153,48 +130,22 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns, keyIdx := insertColumns(model)
 	stmt := strpool.AcquireString()
+	defer strpool.ReleaseString(stmt)
 
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + placeholder)
-			} else {
-				stmt.WriteString(placeholder)
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
-	default:
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
+	noOfCols := len(columns)
+	cols := strings.Join(columns, ",")
+	args := make([]any, 0, noOfCols*noOfData)
+	placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
+	args = append(args, insertValues(data[0], keyIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + placeholder)
+		args = append(args, insertValues(data[i], keyIdx)...)
 	}
+	stmt.WriteByte(';')
+	return db.ExecContext(ctx, stmt.String(), args...)
 }
 {{ end }}
 
@@ -1548,6 +1499,48 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, and the index of the
+// auto increment key among the model's values when it has to be left out.
+func insertColumns(model sequel.Columner) ([]string, int) {
+	columns := model.Columns()
+	switch v := model.(type) {
+	case sequel.InsertColumner:
+		return v.InsertColumns(), -1
+	case sequel.AutoIncrKeyer:
+		_, idx, _ := v.PK()
+		return append(append(make([]string, 0, len(columns)), columns[:idx]...), columns[idx+1:]...), idx
+	default:
+		return columns, -1
+	}
+}
+
+// insertValues returns the values of the columns returned by insertColumns.
+func insertValues(model sequel.Valuer, keyIdx int) []any {
+	values := model.Values()
+	if keyIdx < 0 {
+		return values
+	}
+	return append(append(make([]any, 0, len(values)), values[:keyIdx]...), values[keyIdx+1:]...)
+}
+
+{{ if ne driver "postgres" -}}
+// scanAutoIncr sets the auto increment key of a model.
+func scanAutoIncr(model sequel.AutoIncrKeyer, addrs []any, id int64) error {
+	if v, ok := model.(interface{ ScanAutoIncr(int64) error }); ok {
+		return v.ScanAutoIncr(id)
+	}
+	_, idx, _ := model.PK()
+	switch v := addrs[idx].(type) {
+	case *int64:
+		*v = id
+		return nil
+	case sql.Scanner:
+		return v.Scan(id)
+	default:
+		return fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
+	}
+}
+{{ end }}
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From b3d2734b36e8dba82c6f6922e2cd9560a01af176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 29/69] fix: upserts leave keys and generated columns alone, in
 the syntax of the dialect

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 505 ++++++++++---------------
 1 file changed, 191 insertions(+), 314 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index afb8a1e..80ff4a9 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -192,79 +192,71 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	}
 
 	var (
-		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		values   = model.Values()
+		stmt            = strpool.AcquireString()
+		columns, keyIdx = insertColumns(model)
+		values          = insertValues(model, keyIdx)
 	)
 	defer strpool.ReleaseString(stmt)
 
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	default:
-		panic("unreachable")
-	}
+	// The auto increment primary key is not included on INSERT
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	stmt.WriteString(model.InsertPlaceholders(0))
+	writeOnConflict(stmt, model, columns, opt)
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	if opt.doNothing && err == sql.ErrNoRows {
+		// The row exists already
+		return nil
+	}
+	return err
+}
+
+// writeOnConflict writes what happens to the rows which exist already.
+func writeOnConflict(stmt *strings.Builder, model sequel.Keyer, columns []string, opt upsertOpts) {
+	omitDict := make(map[string]struct{})
+	keys := primaryKeys(model)
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	if vi, ok := model.(duplicateKeyer); ok {
+		keys = vi.DuplicateKeys()
+	}
 	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
-		}
+		keys = opt.duplicateKeys
 	}
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		noOfCols = len(columns)
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+		return
+	}
+	if omitter, ok := model.(setOnUpsertOmitter); ok {
+		for _, column := range omitter.OnUpsertOmitColumns() {
+			omitDict[column] = struct{}{}
 		}
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
+	}
+	for i := range opt.omitFields {
+		omitDict[opt.omitFields[i]] = struct{}{}
+	}
+	stmt.WriteString(" DO UPDATE SET ")
+	first := true
+	for i := range columns {
+		if _, ok := omitDict[columns[i]]; ok {
+			continue
 		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
+		if first {
+			stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
+		} else {
+			stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
 		}
-		clear(omitDict)
+		first = false
+	}
+	if first {
+		// There is nothing to update, the row is returned as it is
+		stmt.WriteString(keys[0] + " = EXCLUDED." + keys[0])
 	}
-	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -278,11 +270,10 @@ func Upsert[T interface {
 	}
 
 	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
-		opt      upsertOpts
+		model           = data[0]
+		columns, keyIdx = insertColumns(model)
+		args            = make([]any, 0, len(columns)*noOfData)
+		opt             upsertOpts
 	)
 
 	for i := range opts {
@@ -290,98 +281,23 @@ func Upsert[T interface {
 	}
 
 	var stmt = strpool.AcquireString()
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	default:
-		panic("unreachable")
-	}
-	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			// // Exclude primary key, don't update it
-			// for i := len(idxs) - 1; i >= 0; i-- {
-			// 	columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			// }
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
+	// The auto increment primary key is not included on INSERT
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	for i := 0; i < noOfData; i++ {
+		if i > 0 {
+			stmt.WriteString("," + model.InsertPlaceholders(i))
+		} else {
+			stmt.WriteString(model.InsertPlaceholders(i))
 		}
+		args = append(args, insertValues(data[i], keyIdx)...)
 	}
+	writeOnConflict(stmt, model, columns, opt)
 	if opt.doNothing {
-		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		columns = model.Columns()
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
-		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
-		}
-		clear(omitDict)
+		// Only the rows which did not exist are returned, there is no telling
+		// which of the models they belong to
+		stmt.WriteByte(';')
+		defer strpool.ReleaseString(stmt)
+		return db.ExecContext(ctx, stmt.String(), args...)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -403,87 +319,49 @@ func Upsert[T interface {
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.PrimaryKeyer:
-		pkName, idx, _ := v.PK()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			omitDict := map[string]struct{}{pkName: {}}
-			for i := range omittedFields {
-				omitDict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			first := true
-			for i := range columns {
-				if _, ok := omitDict[columns[i]]; ok {
-					continue
-				}
-				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-				first = false
-			}
-			clear(omitDict)
-		}
-		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
-			if err != nil {
-				return nil, err
-			}
-			i64, err := result.LastInsertId()
-			if err != nil {
-				return nil, err
-			}
-			switch v := model.Addrs()[idx].(type) {
-			case *int64:
-				*v = i64
-			case sql.Scanner:
-				if err := v.Scan(i64); err != nil {
-					return nil, err
-				}
-			default:
-				return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
-			}
-			return result, nil
-		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
-	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
-				dict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
-			for i := range columns {
-				if _, ok := dict[columns[i]]; ok {
-					continue
-				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-			}
-			clear(dict)
-		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
-	default:
-		panic("unreachable")
+	// The auto increment primary key is not included on INSERT
+	columns, keyIdx := insertColumns(model)
+	values := insertValues(model, keyIdx)
+	writeInsertInto(stmt, model, columns, override)
+	stmt.WriteString("(" + strings.Repeat(",?", len(columns))[1:] + ")")
+	writeOnConflict(stmt, model, columns, override, omittedFields)
+	v, isAutoIncr := any(model).(sequel.AutoIncrKeyer)
+	if !isAutoIncr {
+		stmt.WriteByte(';')
+		return db.ExecContext(ctx, stmt.String(), values...)
+	}
+	{{ if eq driver "sqlite" -}}
+	// The last inserted id is not the one of a row which exists already
+	pkName, idx, _ := v.PK()
+	stmt.WriteString(" RETURNING " + pkName + ";")
+	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()[idx])
+	if err == sql.ErrNoRows {
+		return new(sequel.EmptyResult), nil
+	} else if err != nil {
+		return nil, err
 	}
+	return sequel.NewRowsAffectedResult(1), nil
+	{{ else -}}
+	if override {
+		// The last inserted id is the one of the row which exists already
+		pkName, _, _ := v.PK()
+		stmt.WriteString("," + pkName + " = LAST_INSERT_ID(" + pkName + ")")
+	}
+	stmt.WriteByte(';')
+	result, err := db.ExecContext(ctx, stmt.String(), values...)
+	if err != nil {
+		return nil, err
+	}
+	i64, err := result.LastInsertId()
+	if err != nil {
+		return nil, err
+	}
+	if i64 == 0 {
+		// The row exists already
+		return result, nil
+	}
+	return result, scanAutoIncr(v, model.Addrs(), i64)
+	{{ end -}}
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -497,96 +375,81 @@ func Upsert[T interface {
 	}
 
 	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
+		model           = data[0]
+		columns, keyIdx = insertColumns(model)
+		args            = make([]any, 0, len(columns)*noOfData)
 	)
 
 	var stmt = strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString(placeholder)
-			} else {
-				stmt.WriteString(placeholder[1:])
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	case sequel.CompositeKeyer:
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	// The auto increment primary key is not included on INSERT
+	writeInsertInto(stmt, model, columns, override)
+	for i := 0; i < noOfData; i++ {
+		if i > 0 {
+			stmt.WriteString("," + model.InsertPlaceholders(i))
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+			stmt.WriteString(model.InsertPlaceholders(i))
 		}
+		args = append(args, insertValues(data[i], keyIdx)...)
 	}
+	writeOnConflict(stmt, model, columns, override, omittedFields)
+	stmt.WriteByte(';')
+	return db.ExecContext(ctx, stmt.String(), args...)
+}
+
+func writeInsertInto(stmt *strings.Builder, model sequel.Tabler, columns []string, override bool) {
+	{{ if eq driver "sqlite" -}}
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	{{ else -}}
 	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-		// Don't update primary key when we do upsert
-		omitDict := map[string]struct{}{}
-		for i := range omittedFields {
-			omitDict[omittedFields[i]] = struct{}{}
+		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	} else {
+		stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	}
+	{{ end -}}
+}
+
+// writeOnConflict writes what happens to the rows which exist already.
+func writeOnConflict(stmt *strings.Builder, model sequel.Keyer, columns []string, override bool, omittedFields []string) {
+	if !override {
+		{{ if eq driver "sqlite" -}}
+		stmt.WriteString(" ON CONFLICT DO NOTHING")
+		{{ end -}}
+		return
+	}
+	// Don't update primary key when we do upsert
+	keys := primaryKeys(model)
+	omitDict := make(map[string]struct{})
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	for i := range omittedFields {
+		omitDict[omittedFields[i]] = struct{}{}
+	}
+	{{ if eq driver "sqlite" -}}
+	stmt.WriteString(" ON CONFLICT DO UPDATE SET ")
+	{{ else -}}
+	stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+	{{ end -}}
+	first := true
+	for i := range columns {
+		if _, ok := omitDict[columns[i]]; ok {
+			continue
 		}
-		noOfCols = len(columns)
-		first := true
-		for i := range columns {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
-			} else {
-				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
-			}
-			first = false
+		if !first {
+			stmt.WriteByte(',')
 		}
-		clear(omitDict)
+		{{ if eq driver "sqlite" -}}
+		stmt.WriteString(columns[i] + " = excluded." + columns[i])
+		{{ else -}}
+		stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+		{{ end -}}
+		first = false
+	}
+	if first {
+		// There is nothing to update
+		stmt.WriteString(keys[0] + " = " + keys[0])
 	}
-	stmt.WriteByte(';')
-	return db.ExecContext(ctx, stmt.String(), args...)
 }
 {{ end }}
 
@@ -1523,6 +1386,20 @@ func insertValues(model sequel.Valuer, keyIdx int) []any {
 	return append(append(make([]any, 0, len(values)), values[:keyIdx]...), values[keyIdx+1:]...)
 }
 
+// primaryKeys returns the names of the primary key columns.
+func primaryKeys(model sequel.Keyer) []string {
+	switch v := model.(type) {
+	case sequel.PrimaryKeyer:
+		pkName, _, _ := v.PK()
+		return []string{pkName}
+	case sequel.CompositeKeyer:
+		names, _, _ := v.CompositeKey()
+		return names
+	default:
+		panic("unreachable")
+	}
+}
+
 {{ if ne driver "postgres" -}}
 // scanAutoIncr sets the auto increment key of a model.
 func scanAutoIncr(model sequel.AutoIncrKeyer, addrs []any, id int64) error {
-- 
2.43.0


From 721f5709f1eea25bcf31982a85a62f4fc1bc7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:43 +0000
Subject: [PATCH 30/69] fix: UpdateByPK sets each column to its own value when
 the model has no statement of its own

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 51 ++++++++++++++++----------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 80ff4a9..f3fb7a4 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -6,7 +6,7 @@
 {{- reserveImport "fmt" }}
 {{- reserveImport "iter" }}
 {{- reserveImport "reflect" }}
-{{- reserveImport "sort" }}
+{{- reserveImport "slices" }}
 {{- reserveImport "time" }}
 {{- reserveImport "sync" }}
 {{- reserveImport "unsafe" }}
@@ -490,11 +490,11 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model)
+		if len(columns) == 0 {
+			return new(sequel.EmptyResult), nil
+		}
 		{{ if isStaticVar -}}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
 		{{ else -}}
@@ -505,26 +505,22 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
+		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 1)+ ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 		{{ end -}}
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model)
+		if len(columns) == 0 {
+			return new(sequel.EmptyResult), nil
 		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
+		return db.ExecContext(ctx, query, append(values, keys...)...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
+		noOfColumn := len(columns)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = {{ quoteVar 1}}")
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
@@ -532,17 +528,32 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
+		return db.ExecContext(ctx, stmt.String(), append(values, keys...)...)
 		{{ end -}}
 	default:
 		panic("unreachable")
 	}
 }
 
+// updateColumns returns the columns to update along with their values,
+// it never includes the primary key.
+func updateColumns[T sequel.KeyValuer](model T) ([]string, []any) {
+	columns, keyIdx := insertColumns(model)
+	values := insertValues(model, keyIdx)
+	keys := primaryKeys(model)
+	names, args := make([]string, 0, len(columns)), make([]any, 0, len(values)+len(keys))
+	for i := range columns {
+		if !slices.Contains(keys, columns[i]) {
+			names = append(names, columns[i])
+			args = append(args, values[i])
+		}
+	}
+	return names, args
+}
+
 // DeleteByPK is to update single record using primary key.
 func DeleteByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (sql.Result, error) {
 	switch v := any(model).(type) {
-- 
2.43.0


From 3b89c7a047d748b9a309dc3097e4e078a7c9d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 31/69] fix: LockByPK has no lock clause on SQLite, which knows
 none

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index f3fb7a4..b0c3102 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -605,15 +605,24 @@ const (
 )
 {{- end }}
 
+func lockClause(locker sequel.RowLevelLocker) string {
+	{{ if eq driver "sqlite" -}}
+	// There are no row level locks, a transaction locks the whole database
+	return ""
+	{{ else -}}
+	return " " + locker.LockMode()
+	{{ end -}}
+}
+
 func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, tx *sql.Tx, model Ptr, locker sequel.RowLevelLocker) error {
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1 "+ locker.LockMode() +";", pk).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1"+ lockClause(locker) +";", pk).Scan(model.Addrs()...)
 	case sequel.CompositeKeyer:
 		keyNames, _, keys := v.CompositeKey()
 		{{ if isStaticVar -}}
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1 "+ locker.LockMode() +";", keys...).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1"+ lockClause(locker) +";", keys...).Scan(model.Addrs()...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		stmt.WriteString("SELECT " + strings.Join(TableColumns(model), ",") + " FROM " + DbTable(model) + " WHERE ("+ strings.Join(keyNames, ",") +") = ({{ quoteVar 1 }}")
@@ -621,7 +630,7 @@ func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 		for i := 1; i < noOfKey; i++ {
 			stmt.WriteString(","+ wrapVar(i+1))
 		}
-		stmt.WriteString(") LIMIT 1 "+ locker.LockMode() +";")
+		stmt.WriteString(") LIMIT 1"+ lockClause(locker) +";")
 		row := tx.QueryRowContext(ctx, stmt.String(), keys...)
 		strpool.ReleaseString(stmt)
 		return row.Scan(model.Addrs()...)
-- 
2.43.0


From 76d2dc10387b2f38895a03be21b3e3ddab3d066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:36 +0000
Subject: [PATCH 32/69] fix: an error which cuts a result set short is returned

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index b0c3102..021aecf 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -119,6 +119,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -313,6 +316,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -792,7 +798,15 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -955,7 +969,15 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1058,6 +1080,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b87ba20f755088626b255b752e43a0a46e1726ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:36 +0000
Subject: [PATCH 33/69] fix: an offset without a limit is valid SQL in every
 dialect

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 021aecf..fe8bb59 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1061,6 +1061,17 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
 	}
+	{{ if eq driver "mysql" -}}
+	if stmt.Limit == 0 && stmt.Offset > 0 {
+		// Offset is only allowed after a limit
+		blr.WriteString(" LIMIT 18446744073709551615")
+	}
+	{{ else if eq driver "sqlite" -}}
+	if stmt.Limit == 0 && stmt.Offset > 0 {
+		// Offset is only allowed after a limit
+		blr.WriteString(" LIMIT -1")
+	}
+	{{ end -}}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
@@ -1119,6 +1130,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
-- 
2.43.0


From 3fffc64a3e50872353f928f62710fed8586ddcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:36 +0000
Subject: [PATCH 34/69] fix: update and delete statements honour their table,
 order and limit in every dialect

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 130 ++++++++++++++-----------
 1 file changed, 71 insertions(+), 59 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index fe8bb59..9937c56 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1198,77 +1198,89 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
-			blr.WriteString("UPDATE " + DbTable(vt))
-		} else {
-			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
+		table, err := stmtTable(v, vi.Table)
+		if err != nil {
+			return nil, err
 		}
-		if len(vi.Set) > 0 {
-			blr.WriteString(" SET ")
-			vi.Set[0](blr)
-			for i := 1; i < len(vi.Set); i++ {
-				blr.WriteByte(',')
-				vi.Set[i](blr)
-			}
+		if len(vi.Set) == 0 {
+			// There is nothing to update
+			return new(sequel.EmptyResult), nil
 		}
-		if vi.Where != nil {
-			blr.WriteString(" WHERE ")
-			vi.Where(blr)
+		blr.WriteString("UPDATE " + table)
+		blr.WriteString(" SET ")
+		vi.Set[0](blr)
+		for i := 1; i < len(vi.Set); i++ {
+			blr.WriteByte(',')
+			vi.Set[i](blr)
 		}
-		if n := len(vi.OrderBy); n > 0 {
-			if vi.OrderBy[0].Asc() {
-				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
-			} else {
-				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName()+" DESC")
-			}
-			for i := 1; i < n; i++ {
-				if vi.OrderBy[i].Asc() {
-					blr.WriteString(","+vi.OrderBy[i].ColumnName() +" ASC")
-				} else {
-					blr.WriteString(","+vi.OrderBy[i].ColumnName() +" DESC")
-				}
-			}
-		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
-		if vi.Limit > 0 {
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
+		{{ if eq driver "postgres" -}}
+		writeExecClauses(blr, table, vi.Where, vi.OrderBy, 0)
+		{{ else -}}
+		writeExecClauses(blr, table, vi.Where, vi.OrderBy, vi.Limit)
+		{{ end }}
+	case DeleteStmt:
+		table, err := stmtTable(v, vi.FromTable)
+		if err != nil {
+			return nil, err
 		}
+		blr.WriteString("DELETE FROM " + table)
+		{{ if eq driver "postgres" -}}
+		writeExecClauses(blr, table, vi.Where, vi.OrderBy, 0)
+		{{ else -}}
+		writeExecClauses(blr, table, vi.Where, vi.OrderBy, vi.Limit)
 		{{ end -}}
+	}
+	blr.WriteByte(';')
+	return db.ExecContext(ctx, blr.Query(), blr.Args()...)
+}
 
-	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
-			blr.WriteString("DELETE FROM " + DbTable(vt))
+// stmtTable returns the table of a statement, it is the one of the model
+// unless another one is given.
+func stmtTable(model any, tableName string) (string, error) {
+	if tableName != "" {
+		return dbName(model) + tableName, nil
+	}
+	if v, ok := model.(sequel.Tabler); ok {
+		return DbTable(v), nil
+	}
+	return "", fmt.Errorf("missing table name for model %T", model)
+}
+
+// writeExecClauses writes which rows a statement changes.
+func writeExecClauses(blr *SqlStmt, table string, where sequel.WhereClause, orderBy []sequel.OrderByClause, limit uint16) {
+	{{ if eq driver "sqlite" -}}
+	if limit > 0 {
+		blr.WriteString(" WHERE rowid IN (SELECT rowid FROM " + table)
+		defer blr.WriteByte(')')
+	}
+	{{ end -}}
+	{{ if ne driver "mysql" -}}
+	if limit == 0 {
+		// The order is only allowed, and only matters, when there is a limit
+		orderBy = nil
+	}
+	{{ end -}}
+	if where != nil {
+		blr.WriteString(" WHERE ")
+		where(blr)
+	}
+	if n := len(orderBy); n > 0 {
+		if orderBy[0].Asc() {
+			blr.WriteString(" ORDER BY "+orderBy[0].ColumnName())
 		} else {
-			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
-		}
-		if vi.Where != nil {
-			blr.WriteString(" WHERE ")
-			vi.Where(blr)
+			blr.WriteString(" ORDER BY "+orderBy[0].ColumnName()+" DESC")
 		}
-		if n := len(vi.OrderBy); n > 0 {
-			if vi.OrderBy[0].Asc() {
-				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
+		for i := 1; i < n; i++ {
+			if orderBy[i].Asc() {
+				blr.WriteString(","+orderBy[i].ColumnName() +" ASC")
 			} else {
-				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName()+" DESC")
-			}
-			for i := 1; i < n; i++ {
-				if vi.OrderBy[i].Asc() {
-					blr.WriteString(","+vi.OrderBy[i].ColumnName() +" ASC")
-				} else {
-					blr.WriteString(","+vi.OrderBy[i].ColumnName() +" DESC")
-				}
+				blr.WriteString(","+orderBy[i].ColumnName() +" DESC")
 			}
 		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
-		if vi.Limit > 0 {
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
-		}
-		{{ end -}}
 	}
-	blr.WriteByte(';')
-	return db.ExecContext(ctx, blr.Query(), blr.Args()...)
+	if limit > 0 {
+		blr.WriteString(" LIMIT " + strconv.Itoa((int)(limit)))
+	}
 }
 
 
-- 
2.43.0


From f599280cd35a0fe1a947b68d5dfe3c497c195741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 35/69] fix: operators without conditions or values keep their
 logical meaning

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..78d7f0f 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -10,6 +10,9 @@ func And(clauses ...sequel.WhereClause) sequel.WhereClause {
 				clauses[i](w)
 			}
 			w.WriteByte(')')
+		} else {
+			// Every row satisfies no condition
+			w.WriteString("1 = 1")
 		}
 	}
 }
@@ -24,6 +27,9 @@ func Or(clauses ...sequel.WhereClause) sequel.WhereClause {
 				clauses[i](w)
 			}
 			w.WriteByte(')')
+		} else {
+			// None of no conditions is satisfied
+			w.WriteString("1 = 0")
 		}
 	}
 }
@@ -56,6 +62,11 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			// Nothing is in an empty list
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -77,6 +88,11 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			// Everything is not in an empty list
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-- 
2.43.0


From 2177bd1504cbe7286bcec93a48844004a932ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 36/69] fix: operators apply the SQL value function of a column

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 46 ++++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index 78d7f0f..4f2166e 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -38,7 +38,7 @@ func Equal[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereCla
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
@@ -51,7 +51,7 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <> " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
 		default:
@@ -67,12 +67,16 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 			w.WriteString("1 = 0")
 			return
 		}
+		if vi, ok := column.(sequel.SQLColumnClause[T]); ok {
+			w.WriteString(vi.ColumnName() + " IN (" + vi.SQLColumn(w.Var(vi.Convert(values[0]))))
+			for idx := 1; idx < len(values); idx++ {
+				w.WriteString("," + vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
+			}
+			w.WriteByte(')')
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
-		case sequel.SQLColumnClause[T]:
-			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
-			}
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -93,12 +97,16 @@ func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause
 			w.WriteString("1 = 1")
 			return
 		}
+		if vi, ok := column.(sequel.SQLColumnClause[T]); ok {
+			w.WriteString(vi.ColumnName() + " NOT IN (" + vi.SQLColumn(w.Var(vi.Convert(values[0]))))
+			for idx := 1; idx < len(values); idx++ {
+				w.WriteString("," + vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
+			}
+			w.WriteByte(')')
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
-		case sequel.SQLColumnClause[T]:
-			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
-			}
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -116,7 +124,7 @@ func GreaterThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Wh
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " > " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
 		default:
@@ -129,7 +137,7 @@ func GreaterThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) se
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " >= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
 		default:
@@ -142,7 +150,7 @@ func LessThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " < " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
 		default:
@@ -155,7 +163,7 @@ func LessThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) seque
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
 		default:
@@ -168,7 +176,7 @@ func Like[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereClau
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -181,7 +189,7 @@ func NotLike[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereC
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " NOT LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -206,7 +214,7 @@ func Between[T comparable](column sequel.ColumnClause[T], from, to T) sequel.Whe
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -219,7 +227,7 @@ func NotBetween[T comparable](column sequel.ColumnClause[T], from, to T) sequel.
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -232,7 +240,7 @@ func Set[T any](column sequel.ColumnClause[T], value T) sequel.SetClause {
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(column.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
-- 
2.43.0


From 614a6e1b5b1d0a644ff9fe881cead054ff2ce85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 37/69] fix: pagination visits every row once, in order, in
 both directions

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 346 +++++++------------------
 1 file changed, 95 insertions(+), 251 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9937c56..2f871ac 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -669,11 +669,19 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 }
 
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, true, cursor)
+}
+
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, false, cursor)
+}
+
+func (r *Pager[T, Ptr]) paginate(ctx context.Context, db *sql.DB, reverse bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
 			v         T
 			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			maxLimit  = (int)(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
 			v = cursor[0]
@@ -690,96 +698,37 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
 			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
+				r.writeCursor(blr, v, reverse)
 			}
-			
 
+			// The primary key breaks the ties, in the direction of the last
+			// column. Without order by clause the order is ascending
 			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
+			asc := true
+			for i := range r.stmt.OrderBy {
+				asc = r.stmt.OrderBy[i].Asc()
+				blr.WriteString(r.stmt.OrderBy[i].ColumnName() + orderSuffix(asc != reverse) + ",")
+			}
+			for i, pkName := range primaryKeys(v) {
+				if i > 0 {
+					blr.WriteByte(',')
 				}
+				blr.WriteString(pkName + orderSuffix(asc != reverse))
 			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa(maxLimit+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -788,7 +737,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, maxLimit+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -809,193 +758,88 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 			}
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
+			if noOfRecord <= maxLimit {
 				if !yield(data, nil) {
 					return
 				}
 				return
 			}
 
-			if !yield(data[:noOfRecord-1], nil) {
+			v = data[noOfRecord-1] // Set next cursor
+			hasCursor = true
+			if !yield(data[:noOfRecord-1:noOfRecord-1], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
 			data = nil // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			if err := rows.Err(); err != nil {
-				rows.Close()
-				yield(nil, err)
-				return
-			}
-			if err := rows.Close(); err != nil {
-				yield(nil, err)
-				return
-			}
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
-			}
+// writeCursor writes the condition of the rows from the cursor onward.
+func (r *Pager[T, Ptr]) writeCursor(blr *SqlStmt, v T, reverse bool) {
+	var (
+		pkNames = primaryKeys(v)
+		pks     []any
+	)
+	switch vi := any(v).(type) {
+	case sequel.PrimaryKeyer:
+		_, _, pk := vi.PK()
+		pks = []any{pk}
+	case sequel.CompositeKeyer:
+		_, _, pks = vi.CompositeKey()
+	default:
+		panic("unreachable")
+	}
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+	// What a column holds in the row of the cursor
+	cursorValue := func(columnName string) string {
+		return "(SELECT " + columnName + " FROM " + DbTable(v) + " WHERE (" + strings.Join(pkNames, ",") + ") = " + blr.Vars(pks) + ")"
+	}
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
+	asc := true
+	blr.WriteByte('(')
+	for i := range r.stmt.OrderBy {
+		columnName := r.stmt.OrderBy[i].ColumnName()
+		asc = r.stmt.OrderBy[i].Asc()
+		// Either the row comes after the one of the cursor, keeping in mind where
+		// the database sorts NULL, or the next columns decide
+		{{ if eq driver "postgres" -}}
+		nullsLast := asc != reverse
+		{{ else -}}
+		nullsLast := asc == reverse
+		{{ end -}}
+		if asc != reverse {
+			blr.WriteString(columnName + " > " + cursorValue(columnName))
+		} else {
+			blr.WriteString(columnName + " < " + cursorValue(columnName))
+		}
+		if nullsLast {
+			blr.WriteString(" OR (" + columnName + " IS NULL AND " + cursorValue(columnName) + " IS NOT NULL)")
+		} else {
+			blr.WriteString(" OR (" + columnName + " IS NOT NULL AND " + cursorValue(columnName) + " IS NULL)")
 		}
+		{{ if eq driver "postgres" -}}
+		blr.WriteString(" OR (" + columnName + " IS NOT DISTINCT FROM " + cursorValue(columnName) + " AND (")
+		{{ else if eq driver "sqlite" -}}
+		blr.WriteString(" OR (" + columnName + " IS " + cursorValue(columnName) + " AND (")
+		{{ else -}}
+		blr.WriteString(" OR (" + columnName + " <=> " + cursorValue(columnName) + " AND (")
+		{{ end -}}
+	}
+	blr.WriteString("(" + strings.Join(pkNames, ",") + ")")
+	if asc != reverse {
+		blr.WriteString(" >= " + blr.Vars(pks))
+	} else {
+		blr.WriteString(" <= " + blr.Vars(pks))
+	}
+	blr.WriteString(strings.Repeat("))", len(r.stmt.OrderBy)) + ")")
+}
+
+func orderSuffix(asc bool) string {
+	if asc {
+		return " ASC"
 	}
+	return " DESC"
 }
 
 type SelectStmt struct {
-- 
2.43.0


From ca524d7c3cb3f129182c00b4eb94335253532e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:21 +0000
Subject: [PATCH 38/69] fix: the debug output of a statement replaces its
 placeholders, and nothing else

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 59 +++++++++++++++-----------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 2f871ac..d997584 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1171,7 +1171,7 @@ func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
 	{{ if isStaticVar -}}
-	return "(" + strings.Repeat(",{{ varRune }}", noOfLen)[1:] + ")"
+	return "(" + strings.TrimPrefix(strings.Repeat(",{{ varRune }}", noOfLen), ",") + ")"
 	{{ else -}}
 	buf := new(strings.Builder)
 	buf.WriteByte('(')
@@ -1223,35 +1223,44 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		pos  int
+		last int
 	)
-
-	copy(args, s.args)
-
-	for {
+	for i := 0; i < len(str); i++ {
+		switch c := str[i]; c {
+		case '\'', '"', '`':
+			// Placeholders inside of quotes are text
+			for i++; i < len(str) && str[i] != c; i++ {
+				{{ if eq driver "mysql" -}}
+				if str[i] == '\\' && c != '`' {
+					i++
+				}
+				{{ end -}}
+			}
 		{{ if isStaticVar -}}
-		idx = strings.Index(str, "?")
+		case '{{ varRune }}':
+			if pos < len(s.args) {
+				f.Write([]byte(str[last:i] + strf(s.args[pos])))
+				last = i + 1
+			}
+			pos++
 		{{ else -}}
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
+		case '{{ varRune }}':
+			j := i + 1
+			for j < len(str) && str[j] >= '0' && str[j] <= '9' {
+				j++
+			}
+			pos, _ = strconv.Atoi(str[i+1:j])
+			if pos > 0 && pos <= len(s.args) {
+				f.Write([]byte(str[last:i] + strf(s.args[pos-1])))
+				last = j
+			}
+			i = j - 1
 		{{ end -}}
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		{{ if isStaticVar -}}
-		str = str[idx+1:]
-		{{ else -}}
-		str = str[idx+len(placeholder):]
-		{{ end -}}
-		args = args[1:]
-		i++
+	}
+	if last < len(str) {
+		f.Write([]byte(str[last:]))
 	}
 }
 
-- 
2.43.0


From beadfc860848f5a51a021a9b8cf1550e92e848af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:21 +0000
Subject: [PATCH 39/69] fix: the debug output of a statement shows literals
 which denote its arguments

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 80 +++++++++++++++++++-------
 1 file changed, 59 insertions(+), 21 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index d997584..f29e9e0 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -10,6 +10,7 @@
 {{- reserveImport "time" }}
 {{- reserveImport "sync" }}
 {{- reserveImport "unsafe" }}
+{{- reserveImport "unicode/utf8" }}
 {{- reserveImport "github.com/si3nloong/sqlgen/sequel" }}
 {{- reserveImport "github.com/si3nloong/sqlgen/sequel/strpool" }}
 {{- reserveImport "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgutil" }}
@@ -1358,39 +1359,30 @@ func strf(v any) string {
 	case nil:
 		return "NULL"
 	case string:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(vi)
-	{{ else -}}
-		return strconv.Quote(vi)
-	{{ end -}}
+		return quoteText(vi)
 	case []byte:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ else -}}
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ end -}}
+		return quoteBytes(vi)
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return formatFloat(vi)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
+		return "'" + vi.Format("2006-01-02 15:04:05.999999999-07:00") + "'"
 	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quoteBytes(vi)
 	case driver.Valuer:
+		if vt := reflect.ValueOf(v); vt.Kind() == reflect.Pointer && vt.IsNil() {
+			return "NULL"
+		}
 		val, _ := vi.Value()
 		return strf(val)
 	default:
 		vt := reflect.ValueOf(v)
 		switch vt.Kind() {
 		case reflect.String:
-		{{ if eq driver "postgres" -}}
-			return pgutil.Quote(vt.String())
-		{{ else -}}
-			return strconv.Quote(vt.String())
-		{{ end -}}
+			return quoteText(vt.String())
 		case reflect.Bool:
 			return strconv.FormatBool(vt.Bool())
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -1398,9 +1390,55 @@ func strf(v any) string {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return strconv.FormatUint(vt.Uint(), 10)
 		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+			return formatFloat(vt.Float())
+		case reflect.Pointer:
+			if vt.IsNil() {
+				return "NULL"
+			}
+			return strf(vt.Elem().Interface())
 		default:
-			panic("unreachable")
+			if vt.Kind() == reflect.Slice && vt.Type().Elem().Kind() == reflect.Uint8 {
+				return quoteBytes(vt.Bytes())
+			}
+			return quoteText(fmt.Sprint(v))
 		}
 	}
-}
\ No newline at end of file
+}
+
+func formatFloat(v float64) string {
+	str := strconv.FormatFloat(v, 'g', -1, 64)
+	if v != v || v-v != 0 {
+		// NaN and infinity are not numeric literals
+		return "'" + str + "'"
+	}
+	return str
+}
+
+func quoteText(v string) string {
+	{{ if eq driver "postgres" -}}
+	return pgutil.Quote(v)
+	{{ else if eq driver "sqlite" -}}
+	if strings.IndexByte(v, 0) >= 0 {
+		// A literal ends at the first NUL
+		return fmt.Sprintf("CAST(x'%x' AS TEXT)", v)
+	}
+	return "'" + strings.ReplaceAll(v, "'", "''") + "'"
+	{{ else -}}
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`, "\x00", `\0`, "\n", `\n`, "\r", `\r`, "\x1a", `\Z`).Replace(v) + "'"
+	{{ end -}}
+}
+
+func quoteBytes(v []byte) string {
+	if v == nil {
+		return "NULL"
+	}
+	str := string(v)
+	if utf8.ValidString(str) && strings.IndexByte(str, 0) < 0 {
+		return quoteText(str)
+	}
+	{{ if eq driver "postgres" -}}
+	return fmt.Sprintf(`'\x%x'`, v)
+	{{ else -}}
+	return fmt.Sprintf("x'%x'", v)
+	{{ end -}}
+}
-- 
2.43.0


From aef8f5ec576d9e7e98b945813856e40d89c13bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 40/69] fix: a pointer to a named type is read with the scanner
 of that type

---
 cmd/sqlgen/codegen/tool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 43bac95..2762f57 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -48,7 +48,8 @@ loop:
 		default:
 			break loop
 		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
+		// "*" is the fallback of every type, not a pointer
+		if v, ok := g.defaultColumnTypes[typeStr]; ok && typeStr != "*" {
 			return v, true
 		}
 		if prev == t {
-- 
2.43.0


From 4c40bfa27a50af897a555bad30da55a65a9cccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 41/69] fix: float columns accept float32, which the MySQL
 driver returns

---
 sequel/encoding/float.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 7562d48..f2ba2a4 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -38,6 +38,10 @@ type float32Scanner[T ~float32, Addr addrOrPtr[T]] struct {
 }
 
 func (f *float32Scanner[T, Addr]) Scan(v any) error {
+	if f32, ok := v.(float32); ok {
+		// MySQL driver returns FLOAT as it is
+		v = float64(f32)
+	}
 	switch vi := v.(type) {
 	case nil:
 		switch any(f.addr).(type) {
@@ -128,6 +132,10 @@ type float64Scanner[T ~float64, Addr addrOrPtr[T]] struct {
 }
 
 func (f *float64Scanner[T, Addr]) Scan(v any) error {
+	if f32, ok := v.(float32); ok {
+		// MySQL driver returns FLOAT as it is
+		v = float64(f32)
+	}
 	switch vi := v.(type) {
 	case nil:
 		switch any(f.addr).(type) {
-- 
2.43.0


From 5854b02ac359abcfe36a24a2a8a170aea95a811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 42/69] fix: a pointer to an array is read with the scanner of
 the array

---
 cmd/sqlgen/codegen/tool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 2762f57..2806ec7 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/types"
 	"regexp"
+	"strings"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 )
@@ -66,7 +67,7 @@ loop:
 		}
 	}
 	// Find fixed size array mapper
-	if matches := arrayRegexp.FindStringSubmatch(typeStr); len(matches) > 0 {
+	if matches := arrayRegexp.FindStringSubmatch(strings.TrimPrefix(typeStr, "*")); len(matches) > 0 {
 		if v, ok := g.defaultColumnTypes["[...]"+matches[2]]; ok {
 			// len, _ := strconv.Atoi(matches[1])
 			return v, true
-- 
2.43.0


From ec882f6029709127dd9d6cc48dc2c75cb119a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:40 +0000
Subject: [PATCH 43/69] fix: NULL is read into a field behind an embedded
 pointer as zero value

---
 cmd/sqlgen/codegen/generate.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 7c26809..3f1a3e9 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -474,7 +474,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "return []any{")
 	tmpl := "%s, // %" + strwidth(len(table.Columns)) + "d - %s"
 	for _, f := range table.Columns {
-		fprintfln(w, tmpl, g.scanner(importPkgs, "&v"+f.GoPath, f.Type), f.Pos, f.Name)
+		fprintfln(w, tmpl, g.scanner(importPkgs, "&v"+f.GoPath, f.Type, f.IsUnderlyingPtr()), f.Pos, f.Name)
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
@@ -739,18 +739,12 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
 
-func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) string {
+// scanner is the expression which reads the column, a nullable column is read
+// as zero value when it's NULL although its type has no nil
+func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type, nullable bool) string {
 	// This is to prevent auto cast if the value is driver.Value
-	switch tv := t.(type) {
-	case *types.Basic:
-		switch tv.Kind() {
-		case types.String, types.Bool, types.Int64, types.Float64:
-			return goPath
-		}
-	case *types.Named:
-		if tv.String() == typeOfTime {
-			return goPath
-		}
+	if g.isBasicType(t) && (!nullable || t.String() == typeOfTime) {
+		return goPath
 	}
 	ptr, isPtr := pointerType(t)
 	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
@@ -761,6 +755,9 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
+		if nullable && !isPtr && t == types.Universe.Lookup("byte").Type() {
+			columnType = g.defaultColumnTypes["uint8"]
+		}
 		if isPtr && !strings.Contains(columnType.Scanner, "{{addr}}") {
 			return g.nullScanner(importPkgs, goPath, t, columnType.Scanner)
 		}
-- 
2.43.0


From 8d355ca89cf6179b58e74e2b90ce98fc7fab4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 44/69] fix: integer columns read unsigned and two's complement
 values as the MySQL driver returns them

---
 sequel/encoding/int.go  |  4 ++++
 sequel/encoding/uint.go | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index 63e8cbb..da36619 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -48,6 +48,10 @@ type signedIntScanner[T ~int | ~int8 | ~int16 | ~int32 | ~int64, Addr addrOrPtr[
 }
 
 func (i *signedIntScanner[T, Addr]) Scan(v any) error {
+	if n, ok := v.(uint64); ok {
+		// MySQL driver returns BIGINT UNSIGNED as it is
+		v = strconv.AppendUint(nil, n, 10)
+	}
 	switch vi := v.(type) {
 	case nil:
 		switch any(i.addr).(type) {
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index db5fc57..12ef840 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -49,6 +49,10 @@ type unsignedIntScanner[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintpt
 }
 
 func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
+	if n, ok := v.(uint64); ok {
+		// MySQL driver returns BIGINT UNSIGNED as it is
+		v = strconv.AppendUint(nil, n, 10)
+	}
 	switch vi := v.(type) {
 	case nil:
 		switch any(u.addr).(type) {
@@ -64,6 +68,13 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case []byte:
 		m, err := strconv.ParseUint(unsafe.String(unsafe.SliceData(vi), len(vi)), 10, u.bitSize)
+		if err != nil && u.bitSize == 64 {
+			// unsigned 64 bits are stored as the two's complement of int64
+			var n int64
+			if n, err = strconv.ParseInt(unsafe.String(unsafe.SliceData(vi), len(vi)), 10, 64); err == nil {
+				m = uint64(n)
+			}
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2e4e3d4bcfcb91e40c3d4fb8788a8624c8ca36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:56 +0000
Subject: [PATCH 45/69] fix: byte slices of a named type are read from text on
 PostgreSQL

---
 cmd/sqlgen/codegen/dialect/postgres/column_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index d1951a1..5369802 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -154,7 +154,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.StringScanner[[]byte, *[]byte], "{{baseType}}", "{{addr}}"),
 		},
 		"[]bool": {
 			DataType: s.columnDataType("bool[]"),
-- 
2.43.0


From 0424e0b480706c45596d8a391c8ec6add514ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 46/69] fix: a struct embedding itself doesn't make the
 generator run forever

---
 cmd/sqlgen/internal/compiler/compiler.go | 21 +++++++++++----
 cmd/sqlgen/internal/compiler/parser.go   | 34 ++++++++++++++----------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 7115dc3..a449999 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -272,11 +272,22 @@ func (s *structField) fieldPaths() []*structField {
 }
 
 type typeQueue struct {
-	idx  []int
-	prev *structField
-	doc  *ast.CommentGroup
-	t    *ast.StructType
-	pkg  *packages.Package
+	idx   []int
+	prev  *structField
+	outer *typeQueue
+	doc   *ast.CommentGroup
+	t     *ast.StructType
+	pkg   *packages.Package
+}
+
+// within is whether the struct is embedded in t, directly or not
+func (q *typeQueue) within(t *ast.StructType) bool {
+	for ; q != nil; q = q.outer {
+		if q.t == t {
+			return true
+		}
+	}
+	return false
 }
 
 func reverse[S ~[]E, E any](s S) {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 937ddbf..0ef81d4 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -177,11 +177,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		// Pop the first item for further inspection
 		s := structCaches[0]
 		// Struct queue, this is useful when handling embedded struct
-		q := []typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
+		q := []*typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
 		structFields := make([]*structField, 0)
 
 		var (
-			f   typeQueue
+			f   *typeQueue
 			pos int
 		)
 		// Resolve every field on the struct, including nested struct
@@ -240,8 +240,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						}
 
 						t := obj.Decl.(*ast.TypeSpec)
-						switch t.Type.(type) {
+						switch st := t.Type.(type) {
 						case *ast.StructType:
+							// The outer fields are preferred over the same fields embedded
+							if f.within(st) {
+								continue
+							}
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
@@ -254,11 +258,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 							structFields = append(structFields, ft)
 
-							q = append(q, typeQueue{
-								idx:  fieldIndex(f.idx, i),
-								prev: ft,
-								t:    t.Type.(*ast.StructType),
-								pkg:  f.pkg,
+							q = append(q, &typeQueue{
+								idx:   fieldIndex(f.idx, i),
+								prev:  ft,
+								outer: f,
+								t:     st,
+								pkg:   f.pkg,
 							})
 							continue
 						case *ast.ArrayType:
@@ -293,7 +298,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						}
 
 						// If it's a embedded struct, we continue on next loop
-						if st := assertAsPtr[ast.StructType](decl.Type); st != nil {
+						if st := assertAsPtr[ast.StructType](decl.Type); st != nil && !f.within(st) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
@@ -304,11 +309,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 								tag:      tag,
 							}
 
-							q = append(q, typeQueue{
-								idx:  fieldIndex(f.idx, i),
-								t:    st,
-								prev: ft,
-								pkg:  importPkg,
+							q = append(q, &typeQueue{
+								idx:   fieldIndex(f.idx, i),
+								t:     st,
+								prev:  ft,
+								outer: f,
+								pkg:   importPkg,
 							})
 							structFields = append(structFields, ft)
 						}
-- 
2.43.0


From 067abe8b63a22eb744841b849e36d4281c4d580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 47/69] fix: imports of the generated code don't clash with
 what the package declares

---
 cmd/sqlgen/codegen/generate.go | 20 ++++++++++++--------
 cmd/sqlgen/codegen/package.go  |  7 +++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 3f1a3e9..8ebbec7 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -115,10 +115,14 @@ func (g *Generator) generateModels(
 	schema *compiler.Package,
 ) error {
 	importPkgs := NewPackage(schema.Pkg.PkgPath, schema.Pkg.Name)
+	// An import can have neither the name of a declaration of the package nor
+	// the one of a variable in the generated methods
+	importPkgs.Reserve(schema.Pkg.Types.Scope().Names()...)
+	importPkgs.Reserve("v", "val", "row", "noOfColumn")
 	importPkgs.Import(types.NewPackage("strings", ""))
-	importPkgs.Import(types.NewPackage("strconv", ""))
+	strconvPkg, _ := importPkgs.Import(types.NewPackage("strconv", ""))
 	importPkgs.Import(types.NewPackage("database/sql/driver", ""))
-	importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
+	sequelPkg, _ := importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
 
 	bw := bytes.NewBufferString(``)
 	w := bufio.NewWriter(bw)
@@ -236,7 +240,7 @@ func (g *Generator) generateModels(
 						if i > 0 {
 							fmt.Fprint(w, `+","+`)
 						}
-						fmt.Fprintf(w, `%q+ strconv.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), i+1)
+						fmt.Fprintf(w, `%q+ %s.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), strconvPkg.Name(), i+1)
 					}
 					fmt.Fprint(w, `+")"`)
 					fprintfln(w, "}")
@@ -295,23 +299,23 @@ func (g *Generator) generateModels(
 				fprintfln(w, "type %s = %s", aliasname, buf)
 				strpool.ReleaseString(buf)
 
-				fprintfln(w, "func (v %s) %s() sequel.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, aliasname)
+				fprintfln(w, "func (v %s) %s() %s.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), aliasname)
 				// fprintfln(w, "return sequel.Column(%s, v%s, func(val %s) any {", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, aliasname)
 				typeStr = aliasname
 
 			default:
 				typeStr = importPkgs.TypeString(f.Type)
 				if isBasic {
-					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
+					fprintfln(w, "func (v %s) %s() %s.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), typeStr)
 				} else {
-					fprintfln(w, "func (v %s) %s() sequel.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
+					fprintfln(w, "func (v %s) %s() %s.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), typeStr)
 				}
 			}
 
 			if isBasic {
-				fprintfln(w, "return sequel.BasicColumn(%s, v%s)", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath)
+				fprintfln(w, "return %s.BasicColumn(%s, v%s)", sequelPkg.Name(), g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath)
 			} else {
-				fprintfln(w, "return sequel.Column(%s, v%s, func(val %s) any {", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, typeStr)
+				fprintfln(w, "return %s.Column(%s, v%s, func(val %s) any {", sequelPkg.Name(), g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, typeStr)
 				// fprintfln(w, "if val != nil {")
 				// fprintfln(w, "return %s", g.valuer(importPkgs, "*val", assertAsPtr[types.Pointer](f.Type).Elem()))
 				if f.IsPtr() {
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index ce98a84..e93bfd2 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -19,6 +19,13 @@ func NewPackage(path, name string) *Package {
 	return &Package{pkgPath: path, name: name, cache: make(map[string]*types.Package)}
 }
 
+// Reserve the names which no import may have
+func (p *Package) Reserve(names ...string) {
+	for _, name := range names {
+		p.cache[name] = nil
+	}
+}
+
 func (p Package) PkgPath() string {
 	return p.pkgPath
 }
-- 
2.43.0


From ebc334f9231109e5fc4447f7b765618833b5c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:45 +0000
Subject: [PATCH 48/69] fix: a generated method which the struct has already is
 reported

---
 cmd/sqlgen/codegen/generate.go           |  4 +++
 cmd/sqlgen/internal/compiler/compiler.go | 32 ++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8ebbec7..d3b5644 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -363,6 +363,10 @@ func (g *Generator) generateModels(
 		return err
 	}
 
+	if err := schema.CheckMethods(formatted); err != nil {
+		return err
+	}
+
 	g.files.Write(filepath.Join(dstDir, g.config.Exec.Filename), formatted)
 	return nil
 }
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index a449999..a2ee3a6 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -2,7 +2,10 @@ package compiler
 
 import (
 	"errors"
+	"fmt"
 	"go/ast"
+	"go/parser"
+	"go/token"
 	"go/types"
 	"reflect"
 	"regexp"
@@ -30,6 +33,35 @@ type Package struct {
 	Tables []*Table
 }
 
+// CheckMethods verify no generated method has the name of a field or a method
+// which the struct has already
+func (p *Package) CheckMethods(src []byte) error {
+	file, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
+	if err != nil {
+		return err
+	}
+	for _, decl := range file.Decls {
+		fn, ok := decl.(*ast.FuncDecl)
+		if !ok || fn.Recv == nil {
+			continue
+		}
+		recv := fn.Recv.List[0].Type
+		if ptr, ok := recv.(*ast.StarExpr); ok {
+			recv = ptr.X
+		}
+		name := types.ExprString(recv)
+		obj := p.Pkg.Types.Scope().Lookup(name)
+		if obj == nil {
+			continue
+		}
+		exists, index, _ := types.LookupFieldOrMethod(obj.Type(), true, p.Pkg.Types, fn.Name.Name)
+		if exists != nil && len(index) == 1 && !isGenerated(p.Pkg, exists) {
+			return fmt.Errorf("sqlgen: struct %q has %q already, which is the name of a generated method", name, fn.Name.Name)
+		}
+	}
+	return nil
+}
+
 type Table struct {
 	GoName string
 	// +sqlgen:database=name
-- 
2.43.0


From d8dbc4ee8c9861df4c5b173a9aba4288a21f56c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 49/69] fix: an embedded struct is expanded however its type is
 declared

---
 cmd/sqlgen/internal/compiler/parser.go | 161 ++++++++++---------------
 1 file changed, 62 insertions(+), 99 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 0ef81d4..80e79ae 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -219,107 +219,29 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						t = ut.X
 					}
 
-					switch vi := t.(type) {
-					// Local struct
-					case *ast.Ident:
-						// Object is nil when it's not found in current scope (different file)
-						obj := vi.Obj
-						if vi.Obj == nil {
-							// Since it's a local struct, we will find it in the local module files
-							for i := range f.pkg.Syntax {
-								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
-								// exit when found the struct
-								if obj != nil {
-									break
-								}
-							}
+					name, st, pkg := embeddedStruct(f.pkg, t)
+					// The outer fields are preferred over the same fields embedded
+					if st != nil && !f.within(st) {
+						ft := &structField{
+							name:     name.Name,
+							t:        f.pkg.TypesInfo.TypeOf(fi.Type),
+							index:    fieldIndex(f.idx, i),
+							exported: name.IsExported(),
+							embedded: true,
+							parent:   f.prev,
+							tag:      tag,
 						}
-						// After lookup still cannot find the type, then skip
-						if obj == nil {
-							continue
-						}
-
-						t := obj.Decl.(*ast.TypeSpec)
-						switch st := t.Type.(type) {
-						case *ast.StructType:
-							// The outer fields are preferred over the same fields embedded
-							if f.within(st) {
-								continue
-							}
-							ft := &structField{
-								name:  types.ExprString(vi),
-								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: fieldIndex(f.idx, i),
-								// paths:    append(f.paths, path),
-								exported: vi.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-							structFields = append(structFields, ft)
-
-							q = append(q, &typeQueue{
-								idx:   fieldIndex(f.idx, i),
-								prev:  ft,
-								outer: f,
-								t:     st,
-								pkg:   f.pkg,
-							})
-							continue
-						case *ast.ArrayType:
-							continue
-						}
-
-					// Embedded with imported struct
-					case *ast.SelectorExpr:
-						var (
-							t         = f.pkg.TypesInfo.TypeOf(vi)
-							pkgPath   = t.String()
-							idx       = strings.LastIndex(pkgPath, ".")
-							importPkg = f.pkg.Imports[pkgPath[:idx]]
-							obj       *ast.Object
-						)
-
-						for i := range importPkg.Syntax {
-							obj = importPkg.Syntax[i].Scope.Lookup(vi.Sel.Name)
-							if obj != nil {
-								break
-							}
-						}
-
-						// Skip if unable to find the specific object
-						if obj == nil {
-							continue
-						}
-
-						decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-						if decl == nil {
-							continue
-						}
-
-						// If it's a embedded struct, we continue on next loop
-						if st := assertAsPtr[ast.StructType](decl.Type); st != nil && !f.within(st) {
-							ft := &structField{
-								name:     types.ExprString(vi.Sel),
-								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    fieldIndex(f.idx, i),
-								exported: vi.Sel.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-
-							q = append(q, &typeQueue{
-								idx:   fieldIndex(f.idx, i),
-								t:     st,
-								prev:  ft,
-								outer: f,
-								pkg:   importPkg,
-							})
-							structFields = append(structFields, ft)
-						}
-						continue
+						structFields = append(structFields, ft)
+
+						q = append(q, &typeQueue{
+							idx:   fieldIndex(f.idx, i),
+							prev:  ft,
+							outer: f,
+							t:     st,
+							pkg:   pkg,
+						})
 					}
+					continue
 				}
 
 				// Every struct field
@@ -524,6 +446,47 @@ func excludeFile(filename string) map[string][]byte {
 	return nil
 }
 
+// embeddedStruct is the name of the embedded type, and the struct it's declared
+// as together with the package of the struct, which is nil when it isn't a struct
+func embeddedStruct(pkg *packages.Package, t ast.Expr) (name *ast.Ident, st *ast.StructType, _ *packages.Package) {
+	for {
+		var ident *ast.Ident
+		switch vi := t.(type) {
+		case *ast.Ident:
+			ident = vi
+		case *ast.SelectorExpr:
+			ident = vi.Sel
+		case *ast.StructType:
+			return name, vi, pkg
+		default:
+			return name, nil, nil
+		}
+		if name == nil {
+			name = ident
+		}
+
+		obj := pkg.TypesInfo.Uses[ident]
+		if obj == nil || obj.Pkg() == nil {
+			return name, nil, nil
+		}
+		if obj.Pkg() != pkg.Types {
+			if pkg = pkg.Imports[obj.Pkg().Path()]; pkg == nil {
+				return name, nil, nil
+			}
+		}
+
+		t = nil
+		for _, file := range pkg.Syntax {
+			if decl := file.Scope.Lookup(obj.Name()); decl != nil {
+				if spec := assertAsPtr[ast.TypeSpec](decl.Decl); spec != nil && spec.TypeParams == nil {
+					t = spec.Type
+				}
+				break
+			}
+		}
+	}
+}
+
 // fieldIndex is the index sequence of the field in the parent
 func fieldIndex(parent []int, i int) []int {
 	return append(slices.Clone(parent), i)
-- 
2.43.0


From 1f4229ae2f76a13592b73378af7a47662243ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 50/69] fix: upserting a model keeps its nil pointers

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 38 ++++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index f29e9e0..59875a3 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -78,7 +78,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 			if err != nil {
 				return nil, err
 			}
-			return result, scanAutoIncr(v, model.Addrs(), i64)
+			return result, scanAutoIncr(v, model, i64)
 		}
 		return result, nil
 	}
@@ -207,12 +207,25 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	stmt.WriteString(model.InsertPlaceholders(0))
 	writeOnConflict(stmt, model, columns, opt)
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
-	if opt.doNothing && err == sql.ErrNoRows {
-		// The row exists already
-		return nil
+	rows, err := db.QueryContext(ctx, stmt.String(), values...)
+	if err != nil {
+		return err
+	}
+	defer rows.Close()
+	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return err
+		}
+		if opt.doNothing {
+			// The row exists already, the model is left as it is
+			return nil
+		}
+		return sql.ErrNoRows
+	}
+	if err := rows.Scan(model.Addrs()...); err != nil {
+		return err
 	}
-	return err
+	return rows.Close()
 }
 
 // writeOnConflict writes what happens to the rows which exist already.
@@ -339,15 +352,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	}
 	{{ if eq driver "sqlite" -}}
 	// The last inserted id is not the one of a row which exists already
-	pkName, idx, _ := v.PK()
+	pkName, _, _ := v.PK()
 	stmt.WriteString(" RETURNING " + pkName + ";")
-	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()[idx])
+	var i64 int64
+	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(&i64)
 	if err == sql.ErrNoRows {
 		return new(sequel.EmptyResult), nil
 	} else if err != nil {
 		return nil, err
 	}
-	return sequel.NewRowsAffectedResult(1), nil
+	return sequel.NewRowsAffectedResult(1), scanAutoIncr(v, model, i64)
 	{{ else -}}
 	if override {
 		// The last inserted id is the one of the row which exists already
@@ -367,7 +381,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		// The row exists already
 		return result, nil
 	}
-	return result, scanAutoIncr(v, model.Addrs(), i64)
+	return result, scanAutoIncr(v, model, i64)
 	{{ end -}}
 }
 
@@ -1325,12 +1339,12 @@ func primaryKeys(model sequel.Keyer) []string {
 
 {{ if ne driver "postgres" -}}
 // scanAutoIncr sets the auto increment key of a model.
-func scanAutoIncr(model sequel.AutoIncrKeyer, addrs []any, id int64) error {
+func scanAutoIncr(model sequel.AutoIncrKeyer, scanner sequel.Scanner, id int64) error {
 	if v, ok := model.(interface{ ScanAutoIncr(int64) error }); ok {
 		return v.ScanAutoIncr(id)
 	}
 	_, idx, _ := model.PK()
-	switch v := addrs[idx].(type) {
+	switch v := scanner.Addrs()[idx].(type) {
 	case *int64:
 		*v = id
 		return nil
-- 
2.43.0


From 3dcc3ad502b9db455f1bd8a04f826fb03810c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 51/69] fix: the mapping of a basic type uses its own
 expressions

---
 cmd/sqlgen/codegen/generate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index d3b5644..4eda1df 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -711,6 +711,10 @@ func (g *Generator) getOrValue(importPkgs *Package, obj string, f *compiler.Colu
 }
 
 func (g *Generator) isBasicType(t types.Type) bool {
+	// The data type configured by user has its own expressions
+	if columnType, ok := g.columnTypes[t.String()]; ok && (columnType.Valuer != "" || columnType.Scanner != "") {
+		return false
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
 	case *types.Basic:
-- 
2.43.0


From 6ee2562a5860de8c311df12b3dac929de0e5c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 52/69] fix: lock and delete by a primary key go through its
 SQL value function

---
 cmd/sqlgen/codegen/generate.go         | 39 ++++++++++++++++++++++++++
 cmd/sqlgen/codegen/interface.go        |  3 +-
 cmd/sqlgen/codegen/templates/db.go.tpl |  3 ++
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 4eda1df..45ef860 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -255,6 +255,9 @@ func (g *Generator) generateModels(
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
 				g.buildUpdateByPK(w, importPkgs, t)
 			}
+			if !t.Readonly {
+				g.buildDeleteByPK(w, importPkgs, t)
+			}
 		}
 
 		// Build getter
@@ -702,6 +705,42 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	return nil
 }
 
+// buildDeleteByPK writes the statement of a primary key which has to be compared
+// through its SQL value function, every other is deleted by the key alone
+func (g *Generator) buildDeleteByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
+	keys := t.Keys
+	pk, ok := t.SingleKey()
+	if ok {
+		keys = []*compiler.Column{pk}
+	}
+	names, vars, values := make([]string, len(keys)), make([]string, len(keys)), make([]string, len(keys))
+	custom := false
+	for i, k := range keys {
+		valuer, err := g.sqlValuer(k, i)
+		if err != nil {
+			return err
+		}
+		custom = custom || valuer != g.dialect.QuoteVar(i+1)
+		names[i], vars[i], values[i] = g.MustQuoteIdentifier(k.Name), valuer, g.getOrValue(importPkgs, "v", k)
+	}
+	if method, _ := t.Implements(sqlKeyDeleter); !custom || method == nil || method.Name() != methodName(sqlKeyDeleter) {
+		return nil
+	}
+	buf := strpool.AcquireString()
+	defer strpool.ReleaseString(buf)
+	buf.WriteString("DELETE FROM ")
+	query := g.writeTable(buf, t)
+	if ok {
+		buf.WriteString(" WHERE " + names[0] + " = " + vars[0] + ";")
+	} else {
+		buf.WriteString(" WHERE (" + strings.Join(names, ",") + ") = (" + strings.Join(vars, ",") + ");")
+	}
+	fprintfln(w, "func (v %s) DeleteOneByPKStmt() (string, []any) {", t.GoName)
+	fprintfln(w, "return %s, []any{%s}", query+g.Quote(buf.String()), strings.Join(values, ","))
+	fprintfln(w, "}")
+	return nil
+}
+
 func (g *Generator) getOrValue(importPkgs *Package, obj string, f *compiler.Column) string {
 	goPath := obj + f.GoPath
 	if f.IsUnderlyingPtr() {
diff --git a/cmd/sqlgen/codegen/interface.go b/cmd/sqlgen/codegen/interface.go
index 7a66af4..c5112f7 100644
--- a/cmd/sqlgen/codegen/interface.go
+++ b/cmd/sqlgen/codegen/interface.go
@@ -17,7 +17,7 @@ var (
 	goSqlValuer, goSqlScanner,
 
 	// sqlgen interface
-	sqlDatabaser, sqlTabler, sqlColumner, sqlQueryColumner, sqlValuer, sqlScanner,
+	sqlDatabaser, sqlTabler, sqlColumner, sqlQueryColumner, sqlValuer, sqlScanner, sqlKeyDeleter,
 	binaryMarshaler, binaryUnmarshaler,
 	textMarshaler, textUnmarshaler *types.Interface
 
@@ -67,4 +67,5 @@ func init() {
 	sqlQueryColumner = pkg.Scope().Lookup("SQLColumner").Type().Underlying().(*types.Interface)
 	sqlValuer = pkg.Scope().Lookup("Valuer").Type().Underlying().(*types.Interface)
 	sqlScanner = pkg.Scope().Lookup("Scanner").Type().Underlying().(*types.Interface)
+	sqlKeyDeleter = pkg.Scope().Lookup("KeyDeleter").Type().Underlying().(*types.Interface)
 }
diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 59875a3..734d870 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -637,6 +637,9 @@ func lockClause(locker sequel.RowLevelLocker) string {
 
 func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, tx *sql.Tx, model Ptr, locker sequel.RowLevelLocker) error {
 	switch v := any(model).(type) {
+	case sequel.KeyFinder:
+		query, args := v.FindOneByPKStmt()
+		return tx.QueryRowContext(ctx, strings.TrimSuffix(query, ";")+lockClause(locker)+";", args...).Scan(model.Addrs()...)
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1"+ lockClause(locker) +";", pk).Scan(model.Addrs()...)
-- 
2.43.0


From a269651c2ecf112ac8c286823992a6756b5dd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 53/69] fix: a wildcard in a directory of a source is resolved

---
 cmd/sqlgen/codegen/codegen.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 877a856..28b5f11 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -144,11 +144,13 @@ func findPackages(sources []string) ([]*sourcePackage, error) {
 
 		// File: examples/testdata/test.go
 		// Folder: examples/testdata
-		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
+		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*, examples/*/*.go]
 		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
-		if paths := strings.SplitN(srcDir, "**", 2); len(paths) > 1 {
+		if strings.Contains(srcDir, "**") || strings.Contains(filepath.Dir(srcDir), "*") {
 			matcher := globMatcher(srcDir)
-			if err := filepath.WalkDir(filepath.Clean(paths[0]), func(path string, d fs.DirEntry, err error) error {
+			// Every directory which is not a wildcard
+			rootDir := filepath.Dir(srcDir[:strings.IndexByte(srcDir, '*')])
+			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
 				// If the directory is not exists, the "d" will be nil
 				if d == nil || !d.IsDir() {
 					// If it's not a folder, we skip!
@@ -157,7 +159,7 @@ func findPackages(sources []string) ([]*sourcePackage, error) {
 				add(path, matcher)
 				return nil
 			}); err != nil {
-				return nil, fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
+				return nil, fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, rootDir, err)
 			}
 		} else if strings.Contains(filepath.Base(srcDir), "*") {
 			add(filepath.Dir(srcDir), globMatcher(srcDir))
-- 
2.43.0


From c8b963558cd433626b5abe5230431f8000e9def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 54/69] fix: generating in a module which doesn't require
 sqlgen yet names its packages

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 45ef860..966166b 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -122,7 +122,7 @@ func (g *Generator) generateModels(
 	importPkgs.Import(types.NewPackage("strings", ""))
 	strconvPkg, _ := importPkgs.Import(types.NewPackage("strconv", ""))
 	importPkgs.Import(types.NewPackage("database/sql/driver", ""))
-	sequelPkg, _ := importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
+	sequelPkg, _ := importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", "sequel"))
 
 	bw := bytes.NewBufferString(``)
 	w := bufio.NewWriter(bw)
-- 
2.43.0


From 41f704575f160e084631f80f58f22bd35cf6425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 55/69] fix: tag options are case insensitive

---
 cmd/sqlgen/internal/compiler/tag.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/tag.go b/cmd/sqlgen/internal/compiler/tag.go
index af3bfa8..b5f42f4 100644
--- a/cmd/sqlgen/internal/compiler/tag.go
+++ b/cmd/sqlgen/internal/compiler/tag.go
@@ -37,7 +37,8 @@ func parseTag(tagVal []string) *structTag {
 			continue
 		}
 		paths := strings.SplitN(v, ":", 2)
-		tag.pos[paths[0]] = 0
+		// Tags are case insensitive
+		tag.pos[strings.ToLower(strings.TrimSpace(paths[0]))] = 0
 	}
 	return &tag
 }
-- 
2.43.0


From 393176170305a569537677c04a1533954ebe60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 56/69] fix: a table name field without a name leaves the table
 its name

---
 cmd/sqlgen/internal/compiler/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 80e79ae..f86fe44 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -332,7 +332,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 			var tagPaths []string
 			tagVal := f.tag.Get(cfg.Tag)
-			name := cfg.RenameFunc(f.name)
+			name, explicit := cfg.RenameFunc(f.name), false
 			if tagVal != "" {
 				tagPaths = strings.Split(tagVal, ",")
 				if len(tagPaths) > 0 {
@@ -345,7 +345,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						if !nameRegex.MatchString(n) {
 							return nil, fmt.Errorf(`sqlgen: invalid column name %q in struct %q`, n, s.name)
 						}
-						name = n
+						name, explicit = n, true
 					}
 				}
 			}
@@ -356,8 +356,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			//
 			// Check type is sequel.Name, then override name
 			case tableTypeName:
+				// Without a name in its tag, the table keeps the name of the struct
+				if !explicit {
+					continue
+				}
 				// The struct's own table name is preferred over the one of its embedded struct
-				if name != "" && (f.parent == nil || !named) {
+				if f.parent == nil || !named {
 					table.Name = name
 				}
 				named = named || f.parent == nil
-- 
2.43.0


From 8711af00aa13a15f889b82574c6eeb2077d636b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 57/69] fix: camelCase and PascalCase names keep letters beyond
 ASCII

---
 cmd/sqlgen/internal/strfmt/strfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..c082db4 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -1,6 +1,9 @@
 package strfmt
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf8"
+)
 
 var uppercaseAcronym = map[string]string{
 	"ID": "id",
@@ -40,7 +43,8 @@ func toCamelInitCase(s string, initCase bool) string {
 		}
 		prevIsCap = vIsCap
 
-		if vIsCap || vIsLow {
+		// Every byte of a letter beyond ASCII is kept
+		if vIsCap || vIsLow || v >= utf8.RuneSelf {
 			n.WriteByte(v)
 			capNext = false
 		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
-- 
2.43.0


From 7c0430d23593b2ad0e8cab4592f841fcf5bf7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:40 +0000
Subject: [PATCH 58/69] fix: generated statements use the values and select
 columns declared by the user

---
 cmd/sqlgen/codegen/generate.go | 67 +++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 966166b..bb94793 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -8,6 +8,7 @@ import (
 	"go/types"
 	"io"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 	"text/template"
@@ -118,7 +119,7 @@ func (g *Generator) generateModels(
 	// An import can have neither the name of a declaration of the package nor
 	// the one of a variable in the generated methods
 	importPkgs.Reserve(schema.Pkg.Types.Scope().Names()...)
-	importPkgs.Reserve("v", "val", "row", "noOfColumn")
+	importPkgs.Reserve("v", "val", "row", "noOfColumn", "values")
 	importPkgs.Import(types.NewPackage("strings", ""))
 	strconvPkg, _ := importPkgs.Import(types.NewPackage("strconv", ""))
 	importPkgs.Import(types.NewPackage("database/sql/driver", ""))
@@ -493,6 +494,12 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 
 // writeTable writes the table name into the query, what is declared by the user
 // is called when the statement is built and returned as the beginning of the query
+// declares is whether the struct has the method of the interface already
+func declares(t *compiler.Table, iface *types.Interface) bool {
+	method, isWrongType := t.Implements(iface)
+	return method == nil && !isWrongType
+}
+
 func (g *Generator) writeTable(buf *strings.Builder, t *compiler.Table) string {
 	var (
 		hasDatabase bool
@@ -529,21 +536,37 @@ func (g *Generator) writeTable(buf *strings.Builder, t *compiler.Table) string {
 	return query + " v.TableName() +"
 }
 
-func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
-	buf := strpool.AcquireString()
-	buf.WriteString("SELECT ")
+// writeSelectList writes the columns to select, it returns the expression of
+// what was written before when the columns are declared by the user
+func (g *Generator) writeSelectList(buf *strings.Builder, importPkgs *Package, t *compiler.Table) (string, error) {
+	if declares(t, sqlQueryColumner) {
+		query := g.Quote(buf.String()) + "+"
+		buf.Reset()
+		stringsPkg, _ := importPkgs.Import(types.NewPackage("strings", "strings"))
+		return query + stringsPkg.Name() + ".Join(v." + methodName(sqlQueryColumner) + `(), ",")+`, nil
+	}
 	for i, f := range t.Columns {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
 		scanner, err := g.sqlScanner(f)
 		if err != nil {
-			return err
+			return "", err
 		}
 		buf.WriteString(scanner)
 	}
+	return "", nil
+}
+
+func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
+	buf := strpool.AcquireString()
+	buf.WriteString("SELECT ")
+	query, err := g.writeSelectList(buf, importPkgs, t)
+	if err != nil {
+		return err
+	}
 	buf.WriteString(" FROM ")
-	query := g.writeTable(buf, t)
+	query += g.writeTable(buf, t)
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.SingleKey(); ok {
 		valuer, err := g.sqlValuer(pk, 0)
@@ -614,22 +637,17 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 	buf.WriteByte(')')
 	if g.config.Driver == Postgres {
 		buf.WriteString(" RETURNING ")
-		for i, f := range t.Columns {
-			if i > 0 {
-				buf.WriteByte(',')
-			}
-			scanner, err := g.sqlScanner(f)
-			if err != nil {
-				return err
-			}
-			buf.WriteString(scanner)
+		list, err := g.writeSelectList(buf, importPkgs, t)
+		if err != nil {
+			return err
 		}
+		query += list
 	}
 	buf.WriteByte(';')
 	// If the columns and after filter columns is the same
 	// mean it has no auto increment key
 	fprintfln(w, `func (v %s) InsertOneStmt() (string, []any) {`, t.GoName)
-	if len(columns) == len(t.Columns) {
+	if len(columns) == len(t.Columns) || declares(t, sqlValuer) {
 		fprintfln(w, `return %s, v.Values()`, query+g.Quote(buf.String()))
 		strpool.ReleaseString(buf)
 	} else {
@@ -691,15 +709,20 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 		columns = append(columns, t.Keys...)
 	}
 	buf.WriteByte(';')
+	values := lo.Map(columns, func(f *compiler.Column, _ int) string {
+		return g.getOrValue(importPkgs, "v", f)
+	})
 	fprintfln(w, `func (v %s) UpdateOneByPKStmt() (string, []any) {`, t.GoName)
-	fmt.Fprintf(w, "return %s, []any{", query+g.Quote(buf.String()))
-	strpool.ReleaseString(buf)
-	if len(columns) > 0 {
-		fmt.Fprint(w, g.getOrValue(importPkgs, "v", columns[0]))
-		for i := 1; i < len(columns); i++ {
-			fmt.Fprint(w, ","+g.getOrValue(importPkgs, "v", columns[i]))
+	if declares(t, sqlValuer) {
+		// The values declared by the user are the ones of the insert columns
+		insertColumns := t.InsertColumns()
+		fprintfln(w, "values := v.%s()", methodName(sqlValuer))
+		for i, f := range t.ColumnsWithoutPK() {
+			values[i] = fmt.Sprintf("values[%d]", slices.Index(insertColumns, f))
 		}
 	}
+	fmt.Fprintf(w, "return %s, []any{%s", query+g.Quote(buf.String()), strings.Join(values, ","))
+	strpool.ReleaseString(buf)
 	fprintfln(w, "}")
 	fprintfln(w, "}")
 	return nil
-- 
2.43.0


From 39979698f7d60c0b4d45e2c26b28d5184480dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 59/69] fix: a configuration named on the command line makes
 the one in the directory irrelevant

---
 cmd/sqlgen/cmd.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/cmd.go b/cmd/sqlgen/cmd.go
index 1120145..77bd340 100644
--- a/cmd/sqlgen/cmd.go
+++ b/cmd/sqlgen/cmd.go
@@ -27,19 +27,15 @@ var (
 			}
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-				err error
-			)
-
 			// If user passing config file, then we load from it.
 			if rootOpts.config != "" {
-				cfg, err = codegen.LoadConfigFrom(rootOpts.config)
+				cfg, err := codegen.LoadConfigFrom(rootOpts.config)
 				if err != nil {
 					return err
 				}
+				return codegen.Generate(cfg)
 			}
-			return codegen.Generate(cfg)
+			return codegen.Generate(codegen.DefaultConfig())
 		},
 	}
 )
-- 
2.43.0


From ecfb5288ee767963b6acd39deb91bfc709dfb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 60/69] fix: the migration settings are layered one by one

---
 cmd/sqlgen/codegen/config.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index b52e95b..7fa77d6 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -234,12 +234,7 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.SkipModTidy = true
 	}
 	if mapCfg.Migration != nil {
-		c.Migration = &MigrationConfig{
-			DSN:      mapCfg.Migration.DSN,
-			Package:  mapCfg.Migration.Package,
-			Dir:      mapCfg.Migration.Dir,
-			Filename: mapCfg.Migration.Filename,
-		}
+		c.Migration = c.Migration.merge(mapCfg.Migration)
 	}
 	if mapCfg.DataTypes != nil {
 		if c.DataTypes == nil {
@@ -291,6 +286,27 @@ func (c *DatabaseConfig) merge(mapCfg *DatabaseConfig) *DatabaseConfig {
 	return &db
 }
 
+// merge is the configuration overridden by every value of mapCfg
+func (c *MigrationConfig) merge(mapCfg *MigrationConfig) *MigrationConfig {
+	migration := MigrationConfig{}
+	if c != nil {
+		migration = *c
+	}
+	if mapCfg.DSN != "" {
+		migration.DSN = mapCfg.DSN
+	}
+	if mapCfg.Package != "" {
+		migration.Package = mapCfg.Package
+	}
+	if mapCfg.Dir != "" {
+		migration.Dir = mapCfg.Dir
+	}
+	if mapCfg.Filename != "" {
+		migration.Filename = mapCfg.Filename
+	}
+	return &migration
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
-- 
2.43.0


From dd8883850ba6c644e48da9009246954524142b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 61/69] fix: an empty configuration file is as strict as none

---
 cmd/sqlgen/codegen/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 7fa77d6..b3a236c 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -139,6 +139,10 @@ func (c *Config) initIfEmpty() {
 	if c.Tag == "" {
 		c.Tag = DefaultStructTag
 	}
+	if c.Strict == nil {
+		strict := true
+		c.Strict = &strict
+	}
 	if c.Getter.Prefix == "" {
 		c.Getter.Prefix = "Column"
 	}
-- 
2.43.0


From b43c2b5033055a3fd0a93081f420eb30bb01eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 62/69] fix: an operator directory or package given as the
 default stays where it is

---
 cmd/sqlgen/codegen/config.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index b3a236c..c7bbaed 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -104,6 +104,8 @@ type DatabaseOperatorConfig struct {
 	Package  string `yaml:"package"`
 	Dir      string `yaml:"dir"`
 	Filename string `yaml:"filename"`
+	// Whether the package and the directory are those of the database code
+	samePackage, sameDir bool
 }
 
 func (c *Config) Init() {
@@ -121,7 +123,9 @@ func (c *Config) Init() {
 	c.Database.Filename = "db.go"
 	c.Database.Operator = new(DatabaseOperatorConfig)
 	c.Database.Operator.Package = c.Database.Package
+	c.Database.Operator.samePackage = true
 	c.Database.Operator.Dir = c.Database.Dir
+	c.Database.Operator.sameDir = true
 	c.Database.Operator.Filename = "operator.go"
 	c.DataTypes = make(map[string]*DataType)
 }
@@ -167,9 +171,11 @@ func (c *Config) initIfEmpty() {
 	}
 	if c.Database.Operator.Package == "" {
 		c.Database.Operator.Package = c.Database.Package
+		c.Database.Operator.samePackage = true
 	}
 	if c.Database.Operator.Dir == "" {
 		c.Database.Operator.Dir = c.Database.Dir
+		c.Database.Operator.sameDir = true
 	}
 	if c.Database.Operator.Filename == "" {
 		c.Database.Operator.Filename = "operator.go"
@@ -262,13 +268,13 @@ func (c *DatabaseConfig) merge(mapCfg *DatabaseConfig) *DatabaseConfig {
 	}
 	db.Operator = &operator
 	if mapCfg.Dir != "" {
-		if operator.Dir == db.Dir {
+		if operator.sameDir && operator.Dir == db.Dir {
 			operator.Dir = mapCfg.Dir
 		}
 		db.Dir = mapCfg.Dir
 	}
 	if mapCfg.Package != "" {
-		if operator.Package == db.Package {
+		if operator.samePackage && operator.Package == db.Package {
 			operator.Package = mapCfg.Package
 		}
 		db.Package = mapCfg.Package
@@ -279,9 +285,11 @@ func (c *DatabaseConfig) merge(mapCfg *DatabaseConfig) *DatabaseConfig {
 	if mapCfg.Operator != nil {
 		if mapCfg.Operator.Dir != "" {
 			operator.Dir = mapCfg.Operator.Dir
+			operator.sameDir = mapCfg.Operator.sameDir
 		}
 		if mapCfg.Operator.Package != "" {
 			operator.Package = mapCfg.Operator.Package
+			operator.samePackage = mapCfg.Operator.samePackage
 		}
 		if mapCfg.Operator.Filename != "" {
 			operator.Filename = mapCfg.Operator.Filename
-- 
2.43.0


From 60b4f65fa74ff551d3a23e5305b54d26967f1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 63/69] fix: text that is not UTF-8 is refused by the rune
 scanners

---
 sequel/encoding/rune.go       | 10 ++++++++--
 sequel/encoding/rune_array.go |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
index a90bae6..8dacefa 100644
--- a/sequel/encoding/rune.go
+++ b/sequel/encoding/rune.go
@@ -21,13 +21,13 @@ func (s *runeScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case string:
 		r, size := utf8.DecodeRuneInString(vi)
-		if size == 0 || size != len(vi) {
+		if size == 0 || size != len(vi) || (r == utf8.RuneError && size == 1) {
 			return fmt.Errorf(`sequel/encoding: %q is not a single rune`, vi)
 		}
 		val = T(r)
 	case []byte:
 		r, size := utf8.DecodeRune(vi)
-		if size == 0 || size != len(vi) {
+		if size == 0 || size != len(vi) || (r == utf8.RuneError && size == 1) {
 			return fmt.Errorf(`sequel/encoding: %q is not a single rune`, vi)
 		}
 		val = T(r)
@@ -63,8 +63,14 @@ type runeSliceScanner[T ~rune, S ~[]T] struct {
 func (s *runeSliceScanner[T, S]) Scan(v any) error {
 	switch vi := v.(type) {
 	case string:
+		if !utf8.ValidString(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not valid UTF-8`, vi)
+		}
 		*s.addr = toRunes[T](vi)
 	case []byte:
+		if !utf8.Valid(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not valid UTF-8`, vi)
+		}
 		*s.addr = toRunes[T](string(vi))
 	case nil:
 		*s.addr = nil
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 75c751b..7592e35 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -21,6 +21,9 @@ func (s *runeArrScanner[T]) Scan(v any) error {
 		clear(s.v[:s.size])
 		return nil
 	case []byte:
+		if !utf8.Valid(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not valid UTF-8`, vi)
+		}
 		i := int(0)
 		for len(vi) > 0 {
 			if i >= s.size {
@@ -33,6 +36,9 @@ func (s *runeArrScanner[T]) Scan(v any) error {
 		}
 		clear(s.v[i:s.size])
 	case string:
+		if !utf8.ValidString(vi) {
+			return fmt.Errorf(`sequel/encoding: %q is not valid UTF-8`, vi)
+		}
 		if n := utf8.RuneCountInString(vi); n > s.size {
 			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
 		}
-- 
2.43.0


From 37ecf6d2f7484036968d10906d7535cf9edb0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 64/69] fix: tags of nested anonymous structs are kept, and
 quoted when they hold a backtick

---
 cmd/sqlgen/codegen/generate.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index bb94793..a9857b3 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -888,17 +888,8 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 		f := s.Field(i)
 		switch ft := f.Type().(type) {
 		case *types.Struct:
-			if !f.Embedded() {
-				fmt.Fprint(w, f.Name()+" ")
-				printStruct(w, importPkgs, ft)
-			} else {
-				typeStr := importPkgs.TypeString(f.Type())
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-				if tag := s.Tag(i); len(tag) > 0 {
-					fmt.Fprintf(w, " `%s`", s.Tag(i))
-				}
-				fmt.Fprintln(w)
-			}
+			fmt.Fprint(w, f.Name()+" ")
+			printStruct(w, importPkgs, ft)
 		default:
 			typeStr := importPkgs.TypeString(f.Type())
 			if f.Embedded() {
@@ -906,13 +897,17 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 			} else {
 				fmt.Fprint(w, f.Name()+" "+typeStr)
 			}
-			if tag := s.Tag(i); len(tag) > 0 {
-				fmt.Fprintf(w, " `%s`", s.Tag(i))
+		}
+		if tag := s.Tag(i); len(tag) > 0 {
+			if strconv.CanBackquote(tag) {
+				fmt.Fprintf(w, " `%s`", tag)
+			} else {
+				fmt.Fprint(w, " "+strconv.Quote(tag))
 			}
-			fmt.Fprintln(w)
 		}
+		fmt.Fprintln(w)
 	}
-	fmt.Fprintln(w, "}")
+	fmt.Fprint(w, "}")
 }
 
 func methodName(i *types.Interface) string {
-- 
2.43.0


From f8ea6036b364e9ac0f686cab98b99b408d43e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 65/69] fix: an alias of a pointer is a pointer, a named
 pointer is refused

---
 cmd/sqlgen/internal/compiler/parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index f86fe44..a394972 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -224,7 +224,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					if st != nil && !f.within(st) {
 						ft := &structField{
 							name:     name.Name,
-							t:        f.pkg.TypesInfo.TypeOf(fi.Type),
+							t:        fieldType(f.pkg.TypesInfo.TypeOf(fi.Type)),
 							index:    fieldIndex(f.idx, i),
 							exported: name.IsExported(),
 							embedded: true,
@@ -271,7 +271,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				for j, n := range fi.Names {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
-						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
+						t:        fieldType(f.pkg.TypesInfo.TypeOf(fi.Type)),
 						index:    fieldIndex(f.idx, i+j),
 						exported: n.IsExported(),
 						parent:   f.prev,
@@ -379,6 +379,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			if ptrCount(f.t) > 1 {
 				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
 			}
+			if ptrCount(f.t) == 1 && !isPtr(f.t) {
+				return nil, fmt.Errorf(`sqlgen: pointer type %s with a name is not supported`, f.t)
+			}
 
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
@@ -462,6 +465,10 @@ func embeddedStruct(pkg *packages.Package, t ast.Expr) (name *ast.Ident, st *ast
 			ident = vi.Sel
 		case *ast.StructType:
 			return name, vi, pkg
+		case *ast.StarExpr:
+			// An alias of a pointer
+			t = vi.X
+			continue
 		default:
 			return name, nil, nil
 		}
@@ -496,12 +503,20 @@ func fieldIndex(parent []int, i int) []int {
 	return append(slices.Clone(parent), i)
 }
 
+// fieldType is the type of a field, an alias of a pointer is the pointer itself
+func fieldType(t types.Type) types.Type {
+	if ptr, ok := types.Unalias(t).(*types.Pointer); ok {
+		return ptr
+	}
+	return t
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
 loop:
-	for t != nil {
-		if v, ok := t.(*types.Pointer); ok {
+	for t != nil && total < 2 {
+		if v, ok := t.Underlying().(*types.Pointer); ok {
 			total++
 			t = v.Elem()
 		} else {
-- 
2.43.0


From 8c0b3e3be39a80ee76a622347622bc4d550ff595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 66/69] fix: a field which needs a type other packages cannot
 name is refused

---
 cmd/sqlgen/internal/compiler/compiler.go |  6 ++-
 cmd/sqlgen/internal/compiler/parser.go   | 68 ++++++++++++++++++++++++
 2 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index a2ee3a6..2156c3b 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -247,8 +247,10 @@ type structField struct {
 	embedded bool
 	ignored  bool
 	parent   *structField
-	tag      reflect.StructTag
-	paths    []*structField
+	// The package which declares the field
+	pkg   *types.Package
+	tag   reflect.StructTag
+	paths []*structField
 }
 
 type FieldPath struct {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index a394972..b1efe7c 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -229,6 +229,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							exported: name.IsExported(),
 							embedded: true,
 							parent:   f.prev,
+							pkg:      f.pkg.Types,
 							tag:      tag,
 						}
 						structFields = append(structFields, ft)
@@ -275,6 +276,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						index:    fieldIndex(f.idx, i+j),
 						exported: n.IsExported(),
 						parent:   f.prev,
+						pkg:      f.pkg.Types,
 						tag:      tag,
 					})
 				}
@@ -376,6 +378,19 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				continue
 			}
 
+			// What another package doesn't export cannot be written in the generated code
+			for p := f.parent; p != nil; p = p.parent {
+				if !p.exported && p.pkg != pkg.Types {
+					return nil, fmt.Errorf("sqlgen: field %q of struct %q is embedded through %s.%s, which is not exported", f.name, s.name, p.pkg.Path(), p.name)
+				}
+				if ptr, ok := p.t.(*types.Pointer); ok && !accessible(ptr.Elem(), pkg.Types) {
+					return nil, fmt.Errorf("sqlgen: field %q of struct %q is embedded through %s, which is not exported", f.name, s.name, ptr.Elem())
+				}
+			}
+			if !accessible(f.t, pkg.Types) {
+				return nil, fmt.Errorf("sqlgen: type %s of field %q in struct %q is not exported", f.t, f.name, s.name)
+			}
+
 			if ptrCount(f.t) > 1 {
 				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
 			}
@@ -511,6 +526,59 @@ func fieldType(t types.Type) types.Type {
 	return t
 }
 
+// accessible is whether the type can be written in the package
+func accessible(t types.Type, pkg *types.Package) bool {
+	name := func(obj types.Object) bool {
+		return obj.Exported() || obj.Pkg() == nil || obj.Pkg() == pkg
+	}
+	list := func(l *types.TypeList) bool {
+		for i := range l.Len() {
+			if !accessible(l.At(i), pkg) {
+				return false
+			}
+		}
+		return true
+	}
+	tuple := func(l *types.Tuple) bool {
+		for i := range l.Len() {
+			if !accessible(l.At(i).Type(), pkg) {
+				return false
+			}
+		}
+		return true
+	}
+	switch vt := t.(type) {
+	case *types.Alias:
+		return name(vt.Obj()) && list(vt.TypeArgs())
+	case *types.Named:
+		return name(vt.Obj()) && list(vt.TypeArgs())
+	case *types.Map:
+		return accessible(vt.Key(), pkg) && accessible(vt.Elem(), pkg)
+	case *types.Signature:
+		return tuple(vt.Params()) && tuple(vt.Results())
+	case *types.Struct:
+		for i := range vt.NumFields() {
+			if !name(vt.Field(i)) || !accessible(vt.Field(i).Type(), pkg) {
+				return false
+			}
+		}
+	case *types.Interface:
+		for i := range vt.NumExplicitMethods() {
+			if !name(vt.ExplicitMethod(i)) || !accessible(vt.ExplicitMethod(i).Type(), pkg) {
+				return false
+			}
+		}
+		for i := range vt.NumEmbeddeds() {
+			if !accessible(vt.EmbeddedType(i), pkg) {
+				return false
+			}
+		}
+	case interface{ Elem() types.Type }:
+		return accessible(vt.Elem(), pkg)
+	}
+	return true
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 010d93e0f02a88c641db55fc6e6dbb1cdc680c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 67/69] fix: a generated key which is not a number compiles

---
 cmd/sqlgen/codegen/generate.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index a9857b3..c3f348e 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -408,6 +408,14 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 
 func (g *Generator) buildScanAutoIncr(w io.Writer, importPkgs *Package, table *compiler.Table, pk *compiler.Column) {
 	fprintfln(w, "func (v *%s) ScanAutoIncr(val int64) error {", table.GoName)
+	keyType, _ := underlyingType(pk.Type)
+	if basic, ok := keyType.Underlying().(*types.Basic); !ok || basic.Info()&(types.IsInteger|types.IsFloat) == 0 {
+		// The database generates the key, but it isn't a number
+		fmtPkg, _ := importPkgs.Import(types.NewPackage("fmt", "fmt"))
+		fprintfln(w, "return %s.Errorf(%q, val)", fmtPkg.Name(), "sqlgen: "+table.GoName+"."+pk.GoName+" cannot hold the number %d")
+		fprintfln(w, "}")
+		return
+	}
 	for _, p := range pk.GoPtrPaths() {
 		if p.GoPath == pk.GoPath {
 			continue
-- 
2.43.0


From a2ea14860f40e781aa122132573a2a72858d7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 68/69] fix: a list of named bytes is a list of numbers

---
 cmd/sqlgen/codegen/tool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 2806ec7..30a39f1 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -31,6 +31,10 @@ loop:
 				break loop
 			}
 			prev = v.Underlying()
+			// A list of named bytes is a list of numbers, not a byte string
+			if prev == types.Universe.Lookup("byte").Type() && strings.HasSuffix(typeStr, "[]") {
+				prev = types.Typ[types.Uint8]
+			}
 		case *types.Pointer:
 			typeStr += "*"
 			prev = v.Elem()
-- 
2.43.0


From a263f0779d2e5b0f0be7054fe310e1a9c9312924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 69/69] fix: NULL in a named byte behind an embedded pointer
 reads as zero

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index c3f348e..f75f1b8 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -837,7 +837,7 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type, nu
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
-		if nullable && !isPtr && t == types.Universe.Lookup("byte").Type() {
+		if nullable && !isPtr && t.Underlying() == types.Universe.Lookup("byte").Type() {
 			columnType = g.defaultColumnTypes["uint8"]
 		}
 		if isPtr && !strings.Contains(columnType.Scanner, "{{addr}}") {
-- 
2.43.0

