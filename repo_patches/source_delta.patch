From e2b1feddbde293a643c08281d0c44f547141f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0800
Subject: [PATCH 01/71] fix: parse.Source lost bytes and looped forever at the
 end of its input

ConsumeN never returned once the input was used up, bytes a reader returned
together with an error were dropped, and peeking past the end queued an empty chunk.
---
 parse/parse.go | 51 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..dd78657 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -54,19 +54,20 @@ type Source struct {
 	current    []byte
 	nextList   [][]byte
 	buf        []byte
+	readErr    error // the error that ended reader, reported once all bytes before it are consumed
 	Attachment interface{}
 }
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
-	n, err := reader.Read(buf)
-	if n == 0 {
-		return nil, err
+	src := &Source{
+		reader: reader,
+		buf:    buf,
 	}
-	return &Source{
-		reader:  reader,
-		current: buf[:n],
-		buf:     buf,
-	}, nil
+	src.current = buf[:src.read(buf)]
+	if len(src.current) == 0 {
+		return nil, src.readErr
+	}
+	return src, nil
 }
 
 func NewSourceString(src string) *Source {
@@ -103,16 +104,15 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 	}
 	for {
 		buf := make([]byte, len(src.buf))
-		read, err := src.reader.Read(buf)
-		next := buf[:read]
+		next := buf[:src.read(buf)]
+		if len(next) == 0 {
+			return peeked, src.readErr
+		}
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
 }
 
@@ -120,6 +120,9 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if len(src.current) == 0 {
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
@@ -144,11 +147,25 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	src.current = src.buf[:src.read(src.buf)]
+	if len(src.current) == 0 {
+		src.ReportError(src.readErr)
+	}
+}
+
+// read puts at least one byte into buf, or returns 0 and leaves the reason in readErr
+func (src *Source) read(buf []byte) int {
+	for i := 0; src.readErr == nil; i++ {
+		n, err := src.reader.Read(buf)
+		if err == nil && n == 0 && i == 100 {
+			err = io.ErrNoProgress
+		}
+		src.readErr = err
+		if n > 0 {
+			return n
+		}
 	}
-	src.current = src.buf[:n]
+	return 0
 }
 
 func (src *Source) PeekRune() (rune, int) {
-- 
2.43.0


From 1d50cdb9201bb238386819845f738852f1a3afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0800
Subject: [PATCH 02/71] fix: unicode range readers stop at the end of input and
 read past the first included rune

With an include list they consumed at most one rune per call (or consumed it twice),
and at the end of the input they kept returning U+FFFD forever.
---
 parse/parse.go      | 6 +++++-
 parse/read/range.go | 9 ++++++---
 parse/skip/range.go | 9 ++++++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index dd78657..a392197 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -71,9 +71,13 @@ func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 }
 
 func NewSourceString(src string) *Source {
-	return &Source{
+	source := &Source{
 		current: []byte(src),
 	}
+	if len(src) == 0 {
+		source.ReportError(io.EOF)
+	}
+	return source
 }
 
 func (src *Source) SetBuffer(buf []byte) {
diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..085ab4a 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +15,12 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+next:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -34,9 +36,10 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				space = append(space, r)
-				continue
+				continue next
 			}
 		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..ce54511 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,11 +16,13 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+next:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -31,9 +33,10 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				count += n
-				continue
+				continue next
 			}
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From a4795e73a93d20419a75846bd5b4c24c6317f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0800
Subject: [PATCH 03/71] fix: reading an integer from an exhausted source
 panicked

---
 parse/read/int.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..65711bb 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -29,9 +29,13 @@ func Int(src *parse.Source) int {
 	return int(Int64(src))
 }
 
+func startsWithMinus(src *parse.Source) bool {
+	buf := src.Peek()
+	return len(buf) != 0 && buf[0] == '-'
+}
+
 func Int32(src *parse.Source) int32 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if startsWithMinus(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt32+1 {
@@ -49,8 +53,7 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if startsWithMinus(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt64+1 {
-- 
2.43.0


From 1920d70cf6a68a38e2ff261e7d9c1b113b06d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0800
Subject: [PATCH 04/71] fix: read.Uint64 missed overflow when the product
 wrapped to a larger value

---
 parse/read/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 65711bb..4db2876 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -82,7 +82,7 @@ func Uint64(src *parse.Source) uint64 {
 			}
 			if value > uint64SafeToMultiple10 {
 				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value2 < value {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-- 
2.43.0


From c9614f1bd27fcd086a7aa91333615676906f9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0800
Subject: [PATCH 05/71] fix: string and bytes encoders dropped bytes that need
 escaping

The last byte was lost when it was the first one to need an escape, and the bytes
encoders lost the plain bytes in front of a byte >= 0x80.
---
 msgfmt/formatter_bytes.go       | 10 +++++-----
 msgfmt/jsonfmt/encoder_bytes.go | 11 +++++------
 msgfmt/jsonfmt/encoder_str.go   |  8 ++------
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..d9110fa 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -123,13 +123,10 @@ func writeBytes(space []byte, s []byte) []byte {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return space
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -139,6 +136,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..40591dd 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -22,14 +22,10 @@ func WriteBytes(space []byte, s []byte) []byte {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return append(space, '"')
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
@@ -39,6 +35,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..0554a47 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -129,14 +129,10 @@ func WriteString(space []byte, str string) []byte {
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
 		} else {
-			break
+			return writeStringSlowPath(space, []byte(str[i:]))
 		}
 	}
-	if i == len(str)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeStringSlowPath(space, []byte(str[i:]))
+	return append(space, '"')
 }
 
 func writeStringSlowPath(space []byte, s []byte) []byte {
-- 
2.43.0


From 37aaaf3470529c3c22e1e720f096a0b7ca480909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0800
Subject: [PATCH 06/71] fix: WriteUint32 dropped the last six digits of values
 from 1e9 up

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From f053e356ca4d68677773798148b831d5a698efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0800
Subject: [PATCH 07/71] fix: map iteration crashes since go 1.18

reflect.mapiterinit takes the iterator as an argument since go 1.18.
---
 reflect2/go_above_118.go | 19 +++++++++++++++++++
 reflect2/go_below_118.go | 17 +++++++++++++++++
 reflect2/unsafe_link.go  | 21 ++++++++++++++-------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 51 insertions(+), 8 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..30f5ab2
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,19 @@
+//+build go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// since go 1.18 the caller provides the space of the iterator
+
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	mapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..80e5d23
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,17 @@
+//+build !go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..6bfccc1 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,20 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// the rest is only used by the runtime, but since go 1.18 the space has to be provided by the caller
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    *[]unsafe.Pointer
+	oldoverflow *[]unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
 }
 
 // add returns p+x.
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..449c304 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newMapIter(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From 22448124ed62ef040f45eb2f5856461c174433cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0800
Subject: [PATCH 08/71] fix: StructType.FieldByName and FieldByIndex accessed
 the wrong memory for nested fields

The offset of a nested field is relative to the struct it is declared in.
---
 reflect2/unsafe_field.go  | 34 +++++++++++++++++++++++++++++++---
 reflect2/unsafe_struct.go |  8 ++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..7e89395 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,10 +10,30 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	parents    []parentField
 }
 
-func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
+// parentField is a struct (or pointer to struct) between the outermost struct and the field
+type parentField struct {
+	offset uintptr
+	isPtr  bool
+}
+
+// newUnsafeStructField creates the field found by following index from structType
+func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField, index []int) *UnsafeStructField {
+	var parents []parentField
+	parentType := structType.Type
+	for i := 0; i < len(index)-1; i++ {
+		parent := parentType.Field(index[i])
+		parentType = parent.Type
+		isPtr := parentType.Kind() == reflect.Ptr
+		if isPtr {
+			parentType = parentType.Elem()
+		}
+		parents = append(parents, parentField{offset: parent.Offset, isPtr: isPtr})
+	}
 	return &UnsafeStructField{
+		parents:     parents,
 		StructField: structField,
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
@@ -58,8 +78,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +89,14 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
+	for _, parent := range field.parents {
+		obj = add(obj, parent.offset, "same as non-reflect &v.field")
+		if parent.isPtr {
+			obj = *(*unsafe.Pointer)(obj)
+			if obj == nil {
+				panic("reflect2: indirection through nil pointer to embedded struct")
+			}
+		}
+	}
 	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..d3da5bc 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -39,15 +39,15 @@ func (type2 *UnsafeStructType) FieldByName(name string) StructField {
 	if !found {
 		return nil
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
 
 func (type2 *UnsafeStructType) Field(i int) StructField {
-	return newUnsafeStructField(type2, type2.Type.Field(i))
+	return newUnsafeStructField(type2, type2.Type.Field(i), nil)
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index), index)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
@@ -55,5 +55,5 @@ func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructFi
 	if !found {
 		panic("field match condition not found in " + type2.Type.String())
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
\ No newline at end of file
-- 
2.43.0


From 932d2c99ed9a5dd166239b895906839245bbabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0800
Subject: [PATCH 09/71] fix: reflect2 handles unsafe.Pointer values, safe Grow
 and safe TryGetIndex like its other types and operations

Indirect of an unsafe.Pointer returned the address of the variable; the safe
implementations of Grow and TryGetIndex panicked on valid arguments.
---
 reflect2/reflect2.go   |  4 ++--
 reflect2/safe_map.go   | 10 ++++------
 reflect2/safe_slice.go | 10 ++++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..dae8746 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -183,7 +183,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -245,7 +245,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..8b55fa3 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,13 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
+	val := reflect.ValueOf(obj).Elem().MapIndex(reflect.ValueOf(key).Elem())
 	if !val.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(val.Type())
+	ptr.Elem().Set(val)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..3b8ce26 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,11 +43,13 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
 	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
+	if newLength <= oldSlice.Cap() {
+		oldSlice.SetLen(newLength)
+		return
+	}
+	newSlice := reflect.MakeSlice(type2.Type, newLength, calcNewCap(oldSlice.Cap(), newLength))
+	reflect.Copy(newSlice, oldSlice)
 	oldSlice.Set(newSlice)
 }
 
-- 
2.43.0


From 62e236056ccd6436c40367cd5ed51fff1a70b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0800
Subject: [PATCH 10/71] fix: errors and marshalers are encoded as valid json
 when nil or when the message needs escaping

---
 msgfmt/jsonfmt/encoder_error.go          |  8 ++++----
 msgfmt/jsonfmt/encoder_json_marshaler.go |  8 ++++----
 msgfmt/jsonfmt/encoder_pointer.go        | 11 +++++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..694bedd 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -11,9 +11,9 @@ type errorEncoder struct {
 }
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	if isNilPtr(encoder.valType, ptr) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..d2635e2 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -12,13 +12,13 @@ type jsonMarshalerEncoder struct {
 }
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	if isNilPtr(encoder.valType, ptr) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	obj := encoder.valType.UnsafeIndirect(ptr)
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
diff --git a/msgfmt/jsonfmt/encoder_pointer.go b/msgfmt/jsonfmt/encoder_pointer.go
index 8f6856e..9d3d3e6 100644
--- a/msgfmt/jsonfmt/encoder_pointer.go
+++ b/msgfmt/jsonfmt/encoder_pointer.go
@@ -3,6 +3,8 @@ package jsonfmt
 import (
 	"unsafe"
 	"context"
+	"reflect"
+	"github.com/v2pro/plz/reflect2"
 )
 
 type pointerEncoder struct {
@@ -16,3 +18,12 @@ func (encoder *pointerEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	}
 	return encoder.elemEncoder.Encode(ctx, space, ptrTo)
 }
+
+// isNilPtr tells if the value is a nil pointer or nil interface, which has no method to call
+func isNilPtr(valType reflect2.Type, ptr unsafe.Pointer) bool {
+	switch valType.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		return valType.UnsafeIsNil(ptr)
+	}
+	return false
+}
-- 
2.43.0


From 9436f3f352da51ec36eead31cdea7f8d9fe33941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0800
Subject: [PATCH 11/71] fix: escape field names and the unsupported type
 message in json output

---
 msgfmt/jsonfmt/encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..a51b7c8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -172,7 +172,8 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	msg := fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)
+	return &unsupportedEncoder{string(WriteString(nil, msg))}
 }
 
 type unsupportedEncoder struct {
@@ -225,9 +226,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		if len(fields) != 0 {
 			prefix += ","
 		}
-		prefix += `"`
-		prefix += name
-		prefix += `":`
+		prefix += string(WriteString(nil, name))
+		prefix += `:`
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-- 
2.43.0


From 9c50c94126bde2bee72927b92f70c1412743b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0800
Subject: [PATCH 12/71] fix: NaN and infinite floats made invalid json

---
 msgfmt/jsonfmt/encoder_float.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..1f355d7 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -27,8 +27,16 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 	return WriteFloat32Lossy(space, *(*float32)(ptr))
 }
 
+// isNotFinite tells if val is NaN or infinite, which json can not represent as number
+func isNotFinite(val float64) bool {
+	return math.IsNaN(val) || math.IsInf(val, 0)
+}
+
 // WriteFloat64 write float64 to stream
 func WriteFloat64(space []byte, val float64) []byte {
+	if isNotFinite(val) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +49,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if isNotFinite(val) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -69,6 +80,9 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 
 // WriteFloat32 write float32 to stream
 func WriteFloat32(space []byte, val float32) []byte {
+	if isNotFinite(float64(val)) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +96,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if isNotFinite(float64(val)) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From ceb3a0611e6af76dc73967c64b91b2d3b6530d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0800
Subject: [PATCH 13/71] fix: a nil value panicked instead of being encoded as
 null

---
 countlog/output/json/json.go |  2 +-
 msgfmt/formatter.go          |  3 +--
 msgfmt/jsonfmt/encoder.go    | 10 ++++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..468055b 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -21,7 +21,7 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
+			encoder: jsonfmt.EncoderOfObject(site.Sample[i+1]),
 		})
 	}
 	return formatter
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..58699b6 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -5,7 +5,6 @@ import (
 	"github.com/v2pro/plz/parse"
 	"fmt"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
-	"github.com/v2pro/plz/reflect2"
 )
 
 type Formatter interface {
@@ -50,7 +49,7 @@ var toFormatter = newLexer(func(l *lexer) {
 		default:
 			return &jsonFormatter{
 				idx:     idx,
-				encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
+				encoder: jsonfmt.EncoderOfObject(sampleValue),
 			}
 		}
 	}
diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index a51b7c8..f706fa7 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return nilEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -176,6 +179,13 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{string(WriteString(nil, msg))}
 }
 
+type nilEncoder struct {
+}
+
+func (encoder nilEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
-- 
2.43.0


From d48296cbfa29afd5fef2ef8e9e0e8264196d06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0800
Subject: [PATCH 14/71] fix: fields with a non ascii exported name were left
 out of json output

---
 msgfmt/jsonfmt/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f706fa7..16e72e4 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -250,7 +251,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 }
 
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	firstRune, _ := utf8.DecodeRuneInString(field.Name())
+	if !cfg.includesUnexported && !unicode.IsUpper(firstRune) {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From e3d9392dd89211f4125d577c6a5e1d0b8696c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0800
Subject: [PATCH 15/71] fix: map keys of other types than string and number
 made invalid json or crashed

Interface keys were read as interface{} whatever the interface type, pointer and nil
keys crashed, and keys encoded with quotes were quoted twice.
---
 msgfmt/jsonfmt/encoder.go     |  2 +-
 msgfmt/jsonfmt/encoder_map.go | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 16e72e4..52cc92b 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -212,7 +212,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..a6c2949 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -35,10 +35,13 @@ type mapNumberKeyEncoder struct {
 }
 
 func (encoder *mapNumberKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	space = append(space, '"')
-	space = encoder.valEncoder.Encode(ctx, space, ptr)
-	space = append(space, '"', ':')
-	return space
+	key := encoder.valEncoder.Encode(ctx, nil, ptr)
+	if len(key) != 0 && key[0] == '"' {
+		space = append(space, key...)
+	} else {
+		space = WriteString(space, string(key))
+	}
+	return append(space, ':')
 }
 
 type mapStringKeyEncoder struct {
@@ -52,12 +55,20 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	if keyType.LikePtr() {
+		keyEncoder = &onePtrInterfaceEncoder{keyEncoder}
+	}
 	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
 }
-- 
2.43.0


From 490901ea89b6cbc2d626d11e421fcdd7e5533eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:58 +0800
Subject: [PATCH 16/71] fix: encoding a type that contains itself overflowed
 the stack

which kills the process, e.g. when a linked list node is logged.
---
 msgfmt/jsonfmt/encoder.go           |  6 +++
 msgfmt/jsonfmt/encoder_recursive.go | 62 +++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)
 create mode 100644 msgfmt/jsonfmt/encoder_recursive.go

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 52cc92b..4dcba35 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -43,6 +43,8 @@ type frozenConfig struct {
 	extensions         []Extension
 	encoderCache       *concurrent.Map
 	mapKeyEncoderCache *concurrent.Map
+	// encoders of the types that contain themselves
+	recursiveEncoderCache *concurrent.Map
 }
 
 func (cfg Config) Froze() API {
@@ -51,6 +53,7 @@ func (cfg Config) Froze() API {
 		extensions:         cfg.Extensions,
 		encoderCache:       concurrent.NewMap(),
 		mapKeyEncoderCache: concurrent.NewMap(),
+		recursiveEncoderCache: concurrent.NewMap(),
 	}
 }
 
@@ -124,6 +127,9 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 			valType: valType,
 		}
 	}
+	if prefix != "" && isRecursive(valType.Type1()) {
+		return &recursiveEncoder{cfg: cfg, valType: valType}
+	}
 	switch valType.Kind() {
 	case reflect.Bool:
 		return &boolEncoder{}
diff --git a/msgfmt/jsonfmt/encoder_recursive.go b/msgfmt/jsonfmt/encoder_recursive.go
new file mode 100644
index 0000000..cf08134
--- /dev/null
+++ b/msgfmt/jsonfmt/encoder_recursive.go
@@ -0,0 +1,62 @@
+package jsonfmt
+
+import (
+	"context"
+	"reflect"
+	"unsafe"
+	"github.com/v2pro/plz/reflect2"
+)
+
+// recursiveEncoder encodes a type which contains itself.
+// The actual encoder is looked up when there is a value to encode.
+type recursiveEncoder struct {
+	cfg     *frozenConfig
+	valType reflect2.Type
+}
+
+func (encoder *recursiveEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return encoder.cfg.recursiveEncoderOf(encoder.valType).Encode(ctx, space, ptr)
+}
+
+func (cfg *frozenConfig) recursiveEncoderOf(valType reflect2.Type) Encoder {
+	cacheKey := valType.RType()
+	encoderObj, found := cfg.recursiveEncoderCache.Load(cacheKey)
+	if found {
+		return encoderObj.(Encoder)
+	}
+	encoder := encoderOf(cfg, "", valType)
+	cfg.recursiveEncoderCache.Store(cacheKey, encoder)
+	return encoder
+}
+
+// isRecursive tells if values of target can contain values of target without going through an interface
+func isRecursive(target reflect.Type) bool {
+	visited := map[reflect.Type]bool{}
+	var contains func(typ reflect.Type) bool
+	visit := func(typ reflect.Type) bool {
+		if typ == target {
+			return true
+		}
+		if visited[typ] {
+			return false
+		}
+		visited[typ] = true
+		return contains(typ)
+	}
+	contains = func(typ reflect.Type) bool {
+		switch typ.Kind() {
+		case reflect.Ptr, reflect.Slice, reflect.Array:
+			return visit(typ.Elem())
+		case reflect.Map:
+			return visit(typ.Key()) || visit(typ.Elem())
+		case reflect.Struct:
+			for i := 0; i < typ.NumField(); i++ {
+				if visit(typ.Field(i).Type) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return contains(target)
+}
-- 
2.43.0


From 45b3d7995ac2a54667c96bc145516e0ae93e9c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0800
Subject: [PATCH 17/71] fix: malformed message formats panicked instead of
 being reported in the output

---
 msgfmt/custom.go    |  6 +++---
 msgfmt/formatter.go | 12 +++++++++---
 msgfmt/parse.go     | 28 ++++++++++++++++------------
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..0e9ac3f 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,9 +35,9 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
+	for i := 0; i+1 < len(sample); i+= 2{
+		key, isStr := sample[i].(string)
+		if isStr && key == targetKey {
 			_, isTime := sample[i+1].(time.Time)
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 58699b6..26b42b9 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -75,9 +75,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isStr := sample[i].(string)
+		if isStr && key == target {
 			return i + 1
 		}
 	}
@@ -85,11 +85,17 @@ func findValueIndex(sample []interface{}, target string) int {
 }
 
 func compile(format string, sample []interface{}) Formatter {
+	if format == "" {
+		return fixedFormatter("")
+	}
 	src := parse.NewSourceString(format)
 	src.Attachment = sample
 	formatter := toFormatter.Parse(src, 0)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
+			if formatter == nil {
+				return invalidFormatter("unexpected end of format")
+			}
 			return formatter.(Formatter)
 		}
 		return invalidFormatter(src.Error().Error())
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..57fddc8 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -36,10 +36,14 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			return nil
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -72,6 +76,9 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
+	if obj == nil {
+		return nil
+	}
 	rightFormatter := obj.(Formatter)
 	src.Consume1('}')
 	return rightFormatter
@@ -106,6 +113,9 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
+	if src.Error() != nil {
+		return nil, 0
+	}
 	switch src.Peek()[0] {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
@@ -153,16 +163,7 @@ func newFormatterLexer() *formatterLexer {
 
 func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	skip.UnicodeSpace(src)
-	buf, _ := src.PeekN(6)
-	str := string(buf)
-	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
-	default:
-		return lexer.funcName
-	}
+	return lexer.funcName
 }
 
 func (lexer *formatterLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
@@ -183,6 +184,9 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 	var args []string
 	for {
 		skip.UnicodeSpace(src)
+		if src.Error() != nil {
+			return funcInvocation{name, args}
+		}
 		switch src.Peek1() {
 		case ',':
 			src.Consume1(',')
-- 
2.43.0


From 71c384a7baea79e2e7ab0bbd48e200e2e24d91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0800
Subject: [PATCH 18/71] fix: a format used again with other argument types or
 positions panicked or printed garbage

The compiled format was cached by the format alone, although it depends on the
position and the type of the arguments.
---
 msgfmt/formatter_sampled.go | 54 +++++++++++++++++++++++++++++++++++++
 msgfmt/msgfmt.go            |  4 +--
 2 files changed, 56 insertions(+), 2 deletions(-)
 create mode 100644 msgfmt/formatter_sampled.go

diff --git a/msgfmt/formatter_sampled.go b/msgfmt/formatter_sampled.go
new file mode 100644
index 0000000..4781d2a
--- /dev/null
+++ b/msgfmt/formatter_sampled.go
@@ -0,0 +1,54 @@
+package msgfmt
+
+import "github.com/v2pro/plz/reflect2"
+
+// sampledFormatter is compiled for the keys and types of the sample,
+// arguments with other keys or types need another compilation
+type sampledFormatter struct {
+	format    string
+	sample    []sampledArg
+	formatter Formatter
+}
+
+type sampledArg struct {
+	rtype uintptr
+	key   string
+}
+
+func newSampledFormatter(format string, kv []interface{}) *sampledFormatter {
+	sample := make([]sampledArg, len(kv))
+	for i, arg := range kv {
+		sample[i].rtype = reflect2.RTypeOf(arg)
+		if i%2 == 0 {
+			key, _ := arg.(string)
+			// the arguments do not escape, so the key has to be copied
+			sample[i].key = string([]byte(key))
+		}
+	}
+	return &sampledFormatter{format, sample, compile(format, kv)}
+}
+
+func (formatter *sampledFormatter) match(kv []interface{}) bool {
+	if len(kv) != len(formatter.sample) {
+		return false
+	}
+	for i, arg := range formatter.sample {
+		if arg.rtype != reflect2.RTypeOf(kv[i]) {
+			return false
+		}
+		if i%2 == 0 {
+			key, _ := kv[i].(string)
+			if arg.key != key {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+func (formatter *sampledFormatter) Format(space []byte, kv []interface{}) []byte {
+	if formatter.match(kv) {
+		return formatter.formatter.Format(space, kv)
+	}
+	return compile(formatter.format, kv).Format(space, kv)
+}
diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..1326297 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -71,10 +71,10 @@ var formatterCache = concurrent.NewMap()
 
 func FormatterOf(format string, sample []interface{}) Formatter {
 	formatterObj, found := formatterCache.Load(format)
-	if found {
+	if found && formatterObj.(*sampledFormatter).match(sample) {
 		return formatterObj.(Formatter)
 	}
-	formatter := compile(format, sample)
+	formatter := newSampledFormatter(format, sample)
 	formatterCache.Store(format, formatter)
 	return formatter
 }
\ No newline at end of file
-- 
2.43.0


From ecba8a31e6486d31b7d9b1d8a1a7434f5db41a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:54 +0800
Subject: [PATCH 19/71] fix: Fprintln without values wrote to stdout instead of
 the writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 1326297..9605502 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -38,7 +38,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From ec560d92e6088b36064ab1cc95ce29cd1c9b54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0800
Subject: [PATCH 20/71] fix: events logged from a goroutine that exits left
 dangling stack pointers behind, crashing the garbage collector

---
 countlog/context.go  | 45 ++++++++++------------------
 countlog/countlog.go | 71 +++++++++++++-------------------------------
 2 files changed, 36 insertions(+), 80 deletions(-)

diff --git a/countlog/context.go b/countlog/context.go
index 3a2e8b0..1e25371 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -3,7 +3,6 @@ package countlog
 import (
 	"context"
 	"github.com/v2pro/plz/countlog/spi"
-	"unsafe"
 )
 
 func Ctx(ctx context.Context) *Context {
@@ -38,24 +37,21 @@ func (ctx *Context) Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
 	if LevelTrace < ctx.suppressedMinLevel {
-		addMemo(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+		addMemo(LevelTrace, event, "", ctx, nil, properties)
 		return
 	}
-	log(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -63,20 +59,17 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", ctx, err, properties)
 	return nil
 }
 
@@ -84,49 +77,41 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) LogAccess(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelError, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelError, event, "call", ctx, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", ctx, err, properties)
 	return nil
 }
 
 func (ctx *Context) Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", ctx, nil, properties)
 }
 
 func (ctx *Context) Add(key string, value interface{}) {
diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..86882ac 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -1,7 +1,6 @@
 package countlog
 
 import (
-	"unsafe"
 	"runtime"
 	"time"
 	"github.com/v2pro/plz/countlog/spi"
@@ -38,22 +37,19 @@ func Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "", nil, nil, properties)
 }
 
 // TraceCall will calculate stats in TRACE level
 // TraceCall will output individual log entries in TRACE_CALL level
 func TraceCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelTrace < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelTrace, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelTrace, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -61,22 +57,19 @@ func Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "", nil, nil, properties)
 }
 
 // DebugCall will calculate stats in DEBUG level
 // DebugCall will output individual log entries in DEBUG_CALL level (TRACE includes DEBUG_CALL)
 func DebugCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelDebug < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelDebug, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelDebug, event, "call", nil, err, properties)
 	return nil
 }
 
@@ -84,46 +77,39 @@ func Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "", nil, nil, properties)
 }
 
 // InfoCall will calculate stats in INFO level
 // InfoCall will output individual log entries in INFO_CALL level (DEBUG includes INFO_CALL)
 func InfoCall(event string, err error, properties ...interface{}) error {
 	if err != nil {
-		ptr := unsafe.Pointer(&properties)
-		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+		return log(LevelWarn, event, "call", nil, err, properties)
 	}
 	if LevelInfo < spi.MinLevel {
 		return nil
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(LevelInfo, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelInfo, event, "call", nil, err, properties)
 	return nil
 }
 
 func Warn(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelWarn, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelWarn, event, "", nil, nil, properties)
 }
 
 func Error(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelError, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelError, event, "", nil, nil, properties)
 }
 
 func Fatal(event string, properties ...interface{}) {
-	ptr := unsafe.Pointer(&properties)
-	log(LevelFatal, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(LevelFatal, event, "", nil, nil, properties)
 }
 
 func Log(level int, event string, properties ...interface{}) {
 	if level < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
-	log(level, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
+	log(level, event, "", nil, nil, properties)
 }
 
 func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
@@ -152,17 +138,15 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	handler.Handle(castedEvent)
-	if castedEvent.Error != nil {
+	handler.Handle(event)
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
-	return castedEvent.Error
+	return event.Error
 }
 
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
@@ -173,28 +157,15 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Timestamp:  time.Now(),
 		Properties: properties,
 	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	if castedEvent.Error != nil {
+	if event.Error != nil {
 		formatter := msgfmt.FormatterOf(eventName, properties)
 		errMsg := formatter.Format(nil, properties)
 		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		errMsg = append(errMsg, event.Error.Error()...)
+		event.Error = errors.New(string(errMsg))
 	}
 }
 
-func castEmptyInterfaces(ptr uintptr) []interface{} {
-	return *(*[]interface{})(unsafe.Pointer(ptr))
-}
-
-func castEvent(ptr uintptr) *spi.Event {
-	return (*spi.Event)(unsafe.Pointer(ptr))
-}
-func castString(ptr uintptr) string {
-	return *(*string)(unsafe.Pointer(ptr))
-}
-
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
 	handler, found := handlerCache.Load(event)
 	if found {
-- 
2.43.0


From 5c713ec535b8fec610f314e2c29f04aaf6d0ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0800
Subject: [PATCH 21/71] fix: formatting in a deep call stack left the arguments
 in freed stack memory

---
 msgfmt/formatter_sampled.go |  3 +--
 msgfmt/msgfmt.go            | 22 +++++-----------------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/msgfmt/formatter_sampled.go b/msgfmt/formatter_sampled.go
index 4781d2a..e9b45a1 100644
--- a/msgfmt/formatter_sampled.go
+++ b/msgfmt/formatter_sampled.go
@@ -21,8 +21,7 @@ func newSampledFormatter(format string, kv []interface{}) *sampledFormatter {
 		sample[i].rtype = reflect2.RTypeOf(arg)
 		if i%2 == 0 {
 			key, _ := arg.(string)
-			// the arguments do not escape, so the key has to be copied
-			sample[i].key = string([]byte(key))
+			sample[i].key = key
 		}
 	}
 	return &sampledFormatter{format, sample, compile(format, kv)}
diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 9605502..2cffe40 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -4,10 +4,8 @@ import (
 	"io"
 	"os"
 	"sync"
-	"unsafe"
 	"fmt"
 	"github.com/v2pro/plz/concurrent"
-	"github.com/v2pro/plz/reflect2"
 )
 
 var bufPool = &sync.Pool{
@@ -16,22 +14,16 @@ var bufPool = &sync.Pool{
 	},
 }
 
-func Sprintf(format string, kvObj ...interface{}) string {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Sprintf(format string, kv ...interface{}) string {
 	buf := FormatterOf(format, kv).Format(nil, kv)
 	return string(buf)
 }
 
-func Println(valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Println(values ...interface{}) (int, error) {
 	return fprintln(os.Stdout, values)
 }
 
-func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&valuesObj))
-	values := *(*[]interface{})(ptr)
+func Fprintln(writer io.Writer, values ...interface{}) (int, error) {
 	return fprintln(writer, values)
 }
 
@@ -46,15 +38,11 @@ func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	}
 }
 
-func Printf(format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Printf(format string, kv ...interface{}) (int, error) {
 	return fprintf(os.Stdout, format, kv)
 }
 
-func Fprintf(writer io.Writer, format string, kvObj ...interface{}) (int, error) {
-	ptr := reflect2.NoEscape(unsafe.Pointer(&kvObj))
-	kv := *(*[]interface{})(ptr)
+func Fprintf(writer io.Writer, format string, kv ...interface{}) (int, error) {
 	return fprintf(writer, format, kv)
 }
 
-- 
2.43.0


From 09fe0abc67ad36310af0f254d65c079c564aeba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0800
Subject: [PATCH 22/71] fix: a sink that panics when asked for a handler took
 the application down

---
 countlog/countlog.go |  3 +++
 countlog/root.go     | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 86882ac..2d8f21a 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -186,6 +186,9 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Sample: properties,
 	}
 	handler := newRootHandler(site, nomalModeOnPanic)
+	if handler == nil {
+		return &spi.DummyEventHandler{Site: site}
+	}
 	handlerCache.Store(eventName, handler)
 	return handler
 }
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..1892a44 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -10,7 +10,15 @@ import (
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
 
-func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
+// newRootHandler returns nil if the site is not acceptable to the sinks
+func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			fallbackModeOnPanic(recovered, nil, site)
+			handler = nil
+		}
+	}()
 	statsHandler := EventAggregator.HandlerOf(site)
 	if statsHandler == nil {
 		return &oneHandler{
@@ -80,7 +88,10 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	newSite.File = "unknown"
 	newSite.Line = 0
 	newSite.Sample = event.Properties
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
+	handler := newRootHandler(&newSite, fallbackModeOnPanic)
+	if handler != nil {
+		handler.Handle(event)
+	}
 }
 
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
@@ -107,6 +118,9 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	site.Line = callerLine
 	site.Sample = event.Properties
 	handler := newRootHandler(&site, fallbackModeOnPanic)
+	if handler == nil {
+		return
+	}
 	handlerCache.Store(key, handler)
 	handler.Handle(event)
 	return
-- 
2.43.0


From a0d8ee07fa4e76f22e0bf89039a08112de550b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0800
Subject: [PATCH 23/71] fix: an event was handled like the call logged earlier
 under the same name

---
 countlog/countlog.go |  4 ++--
 countlog/root.go     | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 2d8f21a..c7761b9 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -167,7 +167,7 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
+	handler, found := handlerCache.Load(handlerKey{event, agg})
 	if found {
 		return handler.(spi.EventHandler)
 	}
@@ -189,6 +189,6 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 	if handler == nil {
 		return &spi.DummyEventHandler{Site: site}
 	}
-	handlerCache.Store(eventName, handler)
+	handlerCache.Store(handlerKey{eventName, agg}, handler)
 	return handler
 }
diff --git a/countlog/root.go b/countlog/root.go
index 1892a44..14cb361 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -83,7 +83,7 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	redirector := &redirector{
 		site:            *site,
 	}
-	handlerCache.Store(site.Event, redirector)
+	handlerCache.Store(handlerKey{site.Event, site.Agg}, redirector)
 	newSite := *site
 	newSite.File = "unknown"
 	newSite.Line = 0
@@ -107,7 +107,7 @@ type redirector struct {
 
 func (redirector *redirector) Handle(event *spi.Event) {
 	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
+	key := accurateHandlerKey{redirector.site.Event, redirector.site.Agg, callerFile, callerLine}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
 		handlerObj.(spi.EventHandler).Handle(event)
@@ -126,7 +126,15 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+// handlerKey tells the events from the calls of the same name
+type handlerKey struct {
+	Event string
+	Agg   string
+}
+
 type accurateHandlerKey struct {
+	Event string
+	Agg   string
 	File string
 	Line int
 }
-- 
2.43.0


From 138cf291633611a95071799593c11914a553b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0800
Subject: [PATCH 24/71] fix: a call error that panics when formatted took the
 application down

---
 countlog/countlog.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index c7761b9..17cf80b 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -140,15 +140,27 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	}
 	handler.Handle(event)
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
-		event.Error = errors.New(string(errMsg))
+		event.Error = formatError(eventName, event.Error, properties)
 	}
 	return event.Error
 }
 
+// formatError returns the error as is if it can not be formatted
+func formatError(eventName string, err error, properties []interface{}) (formatted error) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			fallbackModeOnPanic(recovered, nil, nil)
+			formatted = err
+		}
+	}()
+	formatter := msgfmt.FormatterOf(eventName, properties)
+	errMsg := formatter.Format(nil, properties)
+	errMsg = append(errMsg, ": "...)
+	errMsg = append(errMsg, err.Error()...)
+	return errors.New(string(errMsg))
+}
+
 func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
 	event := &spi.Event{
 		Level:      level,
@@ -158,11 +170,7 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 		Properties: properties,
 	}
 	if event.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, event.Error.Error()...)
-		event.Error = errors.New(string(errMsg))
+		event.Error = formatError(eventName, event.Error, properties)
 	}
 }
 
-- 
2.43.0


From fa24e735425adaebabaa1c3bb7736686773867e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0800
Subject: [PATCH 25/71] fix: an event logged again with other properties was
 written with the keys and types of the first one

---
 countlog/output/shape.go  | 71 +++++++++++++++++++++++++++++++++++++++
 countlog/output/writer.go | 14 +++++++-
 2 files changed, 84 insertions(+), 1 deletion(-)
 create mode 100644 countlog/output/shape.go

diff --git a/countlog/output/shape.go b/countlog/output/shape.go
new file mode 100644
index 0000000..e0c927b
--- /dev/null
+++ b/countlog/output/shape.go
@@ -0,0 +1,71 @@
+package output
+
+import (
+	"context"
+
+	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/reflect2"
+)
+
+// eventShape is the keys and the types of the values,
+// events of same shape can share one formatter
+type eventShape struct {
+	context    []shapeElem
+	properties []shapeElem
+}
+
+type shapeElem struct {
+	rtype uintptr
+	key   string
+}
+
+func contextProperties(ctx context.Context) []interface{} {
+	if ctx == nil {
+		return nil
+	}
+	logContext := spi.GetLogContext(ctx)
+	if logContext == nil {
+		return nil
+	}
+	return logContext.Properties
+}
+
+func shapeOf(ctx context.Context, properties []interface{}) eventShape {
+	return eventShape{
+		context:    shapeElemsOf(contextProperties(ctx)),
+		properties: shapeElemsOf(properties),
+	}
+}
+
+func (shape eventShape) match(ctx context.Context, properties []interface{}) bool {
+	return matchElems(shape.context, contextProperties(ctx)) &&
+		matchElems(shape.properties, properties)
+}
+
+func shapeElemsOf(properties []interface{}) []shapeElem {
+	elems := make([]shapeElem, len(properties))
+	for i, property := range properties {
+		elems[i] = shapeElemOf(i, property)
+	}
+	return elems
+}
+
+func shapeElemOf(i int, property interface{}) shapeElem {
+	elem := shapeElem{rtype: reflect2.RTypeOf(property)}
+	if i%2 == 0 {
+		elem.key, _ = property.(string)
+	}
+	return elem
+}
+
+func matchElems(elems []shapeElem, properties []interface{}) bool {
+	if len(elems) != len(properties) {
+		return false
+	}
+	for i, property := range properties {
+		if elems[i] != shapeElemOf(i, property) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/countlog/output/writer.go b/countlog/output/writer.go
index ed1e0be..dad2cd5 100644
--- a/countlog/output/writer.go
+++ b/countlog/output/writer.go
@@ -34,6 +34,8 @@ func (sink *EventWriter) HandlerOf(site *spi.LogSite) spi.EventHandler {
 	formatter := sink.format.FormatterOf(site)
 	return &writeEvent{
 		site: site,
+		shape: shapeOf(site.Context, site.Sample),
+		format: sink.format,
 		formatter: formatter,
 		writer:    sink.writer,
 	}
@@ -41,13 +43,23 @@ func (sink *EventWriter) HandlerOf(site *spi.LogSite) spi.EventHandler {
 
 type writeEvent struct {
 	site *spi.LogSite
+	shape eventShape
+	format Format
 	formatter Formatter
 	writer    io.Writer
 }
 
 func (handler *writeEvent) Handle(event *spi.Event) {
 	space := bufPool.Get().([]byte)[:0]
-	formatted := handler.formatter.Format(space, event)
+	formatter := handler.formatter
+	if !handler.shape.match(event.Context, event.Properties) {
+		// formatter is made for the sample of the site
+		site := *handler.site
+		site.Context = event.Context
+		site.Sample = event.Properties
+		formatter = handler.format.FormatterOf(&site)
+	}
+	formatted := formatter.Format(space, event)
 	_, err := handler.writer.Write(formatted)
 	if err != nil {
 		loglog.Error(err)
-- 
2.43.0


From 4740a85ee4a03bf097d18feeb7d5bfc0d233046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0800
Subject: [PATCH 26/71] fix: properties with a repeated key or punctuation in
 the key were not written

---
 countlog/output/compact/compact.go |  5 ++--
 countlog/output/hrf/hrf.go         |  8 +++----
 msgfmt/formatter.go                | 38 +++++++++++++++++-------------
 3 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..4a9f1ec 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -32,9 +32,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatters = append(formatters, &errorFormatter{})
 	for i := 0; i < len(sample); i += 2 {
 		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
+		formatters = append(formatters, fixedFormatter("||"+key+"="), &defaultFormatter{
+			msgfmt.FormatterOfValue(sample, i+1),
 		})
 	}
 
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..0a807f8 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -34,8 +34,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		for i := 0; i < len(ctx.Properties); i += 2 {
 			key := ctx.Properties[i].(string)
 			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
+			formatters = append(formatters, fixedFormatter("\n"+key+": "), &ctxFormatter{
+				msgfmt.FormatterOfValue(ctx.Properties, i+1),
 			})
 			formatters = append(formatters, fixedFormatter("\x1b[0m"))
 		}
@@ -46,8 +46,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		if key == "timer" {
 			formatters = append(formatters, &timerFormatter{idx: i+1})
 		} else {
-			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
+			formatters = append(formatters, fixedFormatter("\n"+key+": "), &propFormatter{
+				msgfmt.FormatterOfValue(site.Sample, i+1),
 			})
 		}
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 26b42b9..17ea87b 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -36,22 +36,7 @@ var toFormatter = newLexer(func(l *lexer) {
 			src.ReportError(fmt.Errorf("%s not found in args", id))
 			return nil
 		}
-		sampleValue := sample[idx]
-		stringer, _ := sampleValue.(fmt.Stringer)
-		if stringer != nil {
-			return stringerFormatter(idx)
-		}
-		switch sampleValue.(type) {
-		case string:
-			return strFormatter(idx)
-		case []byte:
-			return bytesFormatter(idx)
-		default:
-			return &jsonFormatter{
-				idx:     idx,
-				encoder: jsonfmt.EncoderOfObject(sampleValue),
-			}
-		}
+		return FormatterOfValue(sample, idx)
 	}
 	l.parseFunc = func(src *parse.Source, id string, funcName string, funcArgs []string) interface{} {
 		sample := src.Attachment.([]interface{})
@@ -74,6 +59,27 @@ var toFormatter = newLexer(func(l *lexer) {
 	}
 })
 
+// FormatterOfValue formats kv[idx] the way a variable in the format is,
+// kv should be of same types as the sample
+func FormatterOfValue(sample []interface{}, idx int) Formatter {
+	sampleValue := sample[idx]
+	stringer, _ := sampleValue.(fmt.Stringer)
+	if stringer != nil {
+		return stringerFormatter(idx)
+	}
+	switch sampleValue.(type) {
+	case string:
+		return strFormatter(idx)
+	case []byte:
+		return bytesFormatter(idx)
+	default:
+		return &jsonFormatter{
+			idx:     idx,
+			encoder: jsonfmt.EncoderOfObject(sampleValue),
+		}
+	}
+}
+
 func findValueIndex(sample []interface{}, target string) int {
 	for i := 0; i+1 < len(sample); i += 2 {
 		key, isStr := sample[i].(string)
-- 
2.43.0


From 2124c61e660a27f9a9eb7ec6ffcf5fb787f4b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0800
Subject: [PATCH 27/71] fix: events with a timer property that is not from
 TraceTimer were dropped

---
 countlog/output/hrf/hrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index 0a807f8..0bcbd0c 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -43,7 +43,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	for i := 0; i < len(site.Sample); i += 2 {
 		key := site.Sample[i].(string)
 		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
+		if _, isTimer := site.Sample[i+1].(int64); isTimer && key == "timer" {
 			formatters = append(formatters, &timerFormatter{idx: i+1})
 		} else {
 			formatters = append(formatters, fixedFormatter("\n"+key+": "), &propFormatter{
-- 
2.43.0


From 734dc53969dbfd5a337efe48b04674c809a631a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0800
Subject: [PATCH 28/71] fix: json log lines were not valid json

---
 countlog/output/json/json.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 468055b..9f19237 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,12 +12,12 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           `{"event":` + quote(site.Event),
+		suffix:           `,"location":` + quote(site.Location()) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+		prefix := quote(site.Sample[i].(string)) + ":"
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
@@ -27,6 +27,10 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	return formatter
 }
 
+func quote(str string) string {
+	return string(jsonfmt.WriteString(nil, str))
+}
+
 type jsonFormatter struct {
 	prefix           string
 	suffix           string
@@ -47,7 +51,7 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 		space = append(space, prop.prefix...)
 		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
 	}
-	space = append(space, ",timestamp:"...)
+	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From 93768457a19380a6ad3fda1ad911bcba87fbfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0800
Subject: [PATCH 29/71] fix: the human readable format left out the level

---
 countlog/spi/color.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..b9f6c91 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,8 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ",
+			getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From 66ccb3ae5bb8cbc4b20e45b3f7159a91843d7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0800
Subject: [PATCH 30/71] fix: SuppressLevelsBelow did not suppress debug and
 info

---
 countlog/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/countlog/context.go b/countlog/context.go
index 1e25371..712078a 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -59,6 +59,10 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 	if LevelDebug < spi.MinLevel {
 		return
 	}
+	if LevelDebug < ctx.suppressedMinLevel {
+		addMemo(LevelDebug, event, "", ctx, nil, properties)
+		return
+	}
 	log(LevelDebug, event, "", ctx, nil, properties)
 }
 
@@ -77,6 +81,10 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 	if LevelInfo < spi.MinLevel {
 		return
 	}
+	if LevelInfo < ctx.suppressedMinLevel {
+		addMemo(LevelInfo, event, "", ctx, nil, properties)
+		return
+	}
 	log(LevelInfo, event, "", ctx, nil, properties)
 }
 
-- 
2.43.0


From 365cc1a5ed5fafc20dca96e11c70c844e4f92ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0800
Subject: [PATCH 31/71] fix: stats were exported once instead of every second

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..f9abc8e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From cf8a3cebafe1a673025d2ae17b8d03b29f0ae956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0800
Subject: [PATCH 32/71] fix: collected points did not name the event

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9abc8e..3fd1d43 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 24aad2f59f68bc16ceeaabba5a0c0a48838f21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0800
Subject: [PATCH 33/71] fix: CloseAll reported the errors of the resources
 closed before and wrote into the properties of its caller

---
 closer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..b732368 100644
--- a/closer.go
+++ b/closer.go
@@ -31,8 +31,7 @@ func Close(resource io.Closer, properties ...interface{}) error {
 	if err != nil {
 		_, file, line, _ := runtime.Caller(1)
 		closedAt := fmt.Sprintf("%s:%d", file, line)
-		properties = append(properties, "err", err)
-		countlog.Error("event!close "+closedAt, properties...)
+		countlog.Error("event!close "+closedAt, withError(properties, err)...)
 		return err
 	}
 	return nil
@@ -45,8 +44,7 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			countlog.Error("event!CloseAll called from "+closedAt, withError(properties, err)...)
 			errs = append(errs, err)
 		}
 	}
@@ -58,6 +56,13 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 	return MergeErrors(errs...)
 }
 
+// withError leaves the properties of the caller untouched
+func withError(properties []interface{}, err error) []interface{} {
+	withErr := make([]interface{}, 0, len(properties)+2)
+	withErr = append(withErr, properties...)
+	return append(withErr, "err", err)
+}
+
 type funcResource struct {
 	f func() error
 }
-- 
2.43.0


From d38b8a971919edc92c7f6607b48726105e006279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0800
Subject: [PATCH 34/71] fix: the logged stack trace of a panic was padded with
 zero bytes

---
 countlog/countlog.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 17cf80b..5290ab2 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -117,9 +117,9 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 		return nil
 	}
 	buf := make([]byte, 1<<16)
-	runtime.Stack(buf, false)
+	buf = buf[:runtime.Stack(buf, false)]
 	if len(properties) > 0 {
-		properties = append(properties, "err", recovered, "stacktrace", string(buf))
+		properties = append(append([]interface{}(nil), properties...), "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
 	} else {
 		Fatal("event!panic", "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 35a4b5434e053b17a7ad69046f52759d5fbf8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0800
Subject: [PATCH 35/71] fix: a panic in the underlying writer stopped the async
 writer for good

---
 countlog/output/async/async.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..7f7457c 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -82,10 +82,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 					// time is up
 					return
 				case buf := <-writer.queue:
-					_, err := writer.writer.Write(buf)
-					if err != nil {
-						loglog.Error(err)
-					}
+					writer.write(buf)
 				default:
 					// all written out
 					return
@@ -93,11 +90,21 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 			}
 			return
 		case buf := <-writer.queue:
-			_, err := writer.writer.Write(buf)
-			if err != nil {
-				loglog.Error(err)
-			}
+			writer.write(buf)
+		}
+	}
+}
+
+func (writer *blockingQueueWriter) write(buf []byte) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("countlog async writer panic: %v", recovered))
 		}
+	}()
+	_, err := writer.writer.Write(buf)
+	if err != nil {
+		loglog.Error(err)
 	}
 }
 
-- 
2.43.0


From 48be39a542dda2673da8e529c2a4fc9345b37624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0800
Subject: [PATCH 36/71] fix: async writer counted dropped messages with a data
 race

---
 countlog/output/async/async.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7f7457c..6562e6f 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,11 +41,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		var droppedCount int64
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddInt64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
-- 
2.43.0


From 00054631a903b0783e63a2c0600660bcbbe9d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0800
Subject: [PATCH 37/71] fix: lumberjack set its default time format with a data
 race

---
 countlog/output/lumberjack/lumberjack.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..140b2ac 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -443,10 +440,16 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat returns the time.Time format of the timestamps in backup
+// files.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From 8da87d26f248c4ae454862a97d357e63dcde6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0800
Subject: [PATCH 38/71] fix: lumberjack took local backup timestamps for utc
 when it removes old backups

---
 countlog/output/lumberjack/lumberjack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 140b2ac..4efd21f 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -440,7 +440,11 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
-	return time.Parse(l.backupTimeFormat(), ts)
+	location := time.UTC
+	if l.LocalTime {
+		location = time.Local
+	}
+	return time.ParseInLocation(l.backupTimeFormat(), ts, location)
 }
 
 // backupTimeFormat returns the time.Time format of the timestamps in backup
-- 
2.43.0


From 490fa6e894170b40640de2389d2ff6a45a806c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0800
Subject: [PATCH 39/71] fix: lumberjack overwrote the backup of the same
 timestamp

---
 countlog/output/lumberjack/lumberjack.go | 53 +++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 4efd21f..5cefceb 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -30,6 +30,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -38,6 +39,7 @@ import (
 const (
 	defaultBackupTimeFormat = "2006-01-02T15-04-05.000"
 	compressSuffix   = ".gz"
+	indexSeparator   = "_"
 	defaultMaxSize   = 100
 )
 
@@ -220,7 +222,10 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+		newname, err := unusedBackupName(backupName(name, l.LocalTime, l.backupTimeFormat()))
+		if err != nil {
+			return err
+		}
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -260,6 +265,36 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 	return filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
 }
 
+// unusedBackupName adds an index after the timestamp of the backup name if
+// there are backups of the same timestamp already.
+func unusedBackupName(name string) (string, error) {
+	files, err := ioutil.ReadDir(filepath.Dir(name))
+	if err != nil {
+		return "", fmt.Errorf("can't read log file directory: %s", err)
+	}
+	ext := filepath.Ext(name)
+	prefix := name[:len(name)-len(ext)]
+	next := 0
+	for _, f := range files {
+		used := strings.TrimSuffix(f.Name(), compressSuffix)
+		if used == filepath.Base(name) && next == 0 {
+			next = 1
+		}
+		if !strings.HasPrefix(used, filepath.Base(prefix)+indexSeparator) {
+			continue
+		}
+		used = strings.TrimPrefix(used, filepath.Base(prefix)+indexSeparator)
+		index, err := strconv.Atoi(strings.TrimSuffix(used, ext))
+		if err == nil && index >= next {
+			next = index + 1
+		}
+	}
+	if next == 0 {
+		return name, nil
+	}
+	return fmt.Sprintf("%s%s%d%s", prefix, indexSeparator, next, ext), nil
+}
+
 // openExistingOrNew opens the logfile if it exists and if the current write
 // would not put it over MaxSize.  If there is no such file or the write would
 // put it over the MaxSize, a new file is created.
@@ -444,7 +479,21 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	if l.LocalTime {
 		location = time.Local
 	}
-	return time.ParseInLocation(l.backupTimeFormat(), ts, location)
+	t, err := time.ParseInLocation(l.backupTimeFormat(), ts, location)
+	sep := strings.LastIndex(ts, indexSeparator)
+	if err == nil || sep == -1 {
+		return t, err
+	}
+	// not the first backup of this timestamp
+	index, err := strconv.ParseUint(ts[sep+len(indexSeparator):], 10, 31)
+	if err != nil {
+		return time.Time{}, err
+	}
+	t, err = time.ParseInLocation(l.backupTimeFormat(), ts[:sep], location)
+	if err != nil {
+		return time.Time{}, err
+	}
+	return t.Add(time.Duration(index)), nil
 }
 
 // backupTimeFormat returns the time.Time format of the timestamps in backup
-- 
2.43.0


From cb75b75d6d2d6aa4627dc8238090944bf0c4dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 40/71] fix: a parse error found at the end of the input was
 taken for a clean end

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index a392197..4b4d8e9 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -188,7 +188,8 @@ func (src *Source) PeekRune() (rune, int) {
 }
 
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	// what went wrong matters more than that the input ended
+	if src.err == nil || src.err == io.EOF {
 		src.err = err
 	}
 }
-- 
2.43.0


From d3499a2edc95616dec78e5b125b34d1835198b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0800
Subject: [PATCH 41/71] fix: values in interfaces were encoded without the
 extensions and options of the config

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 4dcba35..65def62 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -180,7 +180,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
 	msg := fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)
 	return &unsupportedEncoder{string(WriteString(nil, msg))}
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..19177e8 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -7,6 +7,7 @@ import (
 )
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -15,5 +16,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From 42c599957046a0415a064e1522280fe3593c7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0800
Subject: [PATCH 42/71] fix: WriteUint64 wrote a letter for the first two
 digits of values from 1e19 up

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From 3ce7cca66d0e721689f7a47176cbb4e9601b6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:30 +0000
Subject: [PATCH 43/71] fix: the arguments of an invalid format were lost when
 they can not be marshaled

---
 msgfmt/formatter_invalid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..688c4b8 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -9,7 +9,7 @@ type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
 	output, err := json.Marshal(kv)
-	if err != nil {
+	if err == nil {
 		space = append(space, "%! (INVALID FORMAT) "...)
 		space = append(space, formatter...)
 		space = append(space, "%! (FORMAT ARGS) "...)
-- 
2.43.0


From 6b797f95d2527e823853f60aec0d0f2b87779aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 44/71] fix: the safe struct type did not implement StructType

---
 reflect2/safe_field.go  |  3 ++-
 reflect2/safe_struct.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/reflect2/safe_field.go b/reflect2/safe_field.go
index f68de45..7fa5083 100644
--- a/reflect2/safe_field.go
+++ b/reflect2/safe_field.go
@@ -7,6 +7,7 @@ import (
 
 type safeField struct {
 	reflect.StructField
+	cfg *frozenConfig
 }
 
 func (field *safeField) Offset() uintptr {
@@ -22,7 +23,7 @@ func (field *safeField) PkgPath() string {
 }
 
 func (field *safeField) Type() Type {
-	panic("not implemented")
+	return field.cfg.Type2(field.StructField.Type)
 }
 
 func (field *safeField) Tag() reflect.StructTag {
diff --git a/reflect2/safe_struct.go b/reflect2/safe_struct.go
index d8eb453..b35b457 100644
--- a/reflect2/safe_struct.go
+++ b/reflect2/safe_struct.go
@@ -1,5 +1,7 @@
 package reflect2
 
+import "reflect"
+
 type safeStructType struct {
 	safeType
 }
@@ -9,5 +11,27 @@ func (type2 *safeStructType) FieldByName(name string) StructField {
 	if !found {
 		panic("field " + name + " not found")
 	}
-	return &safeField{StructField: field}
-}
\ No newline at end of file
+	return type2.newField(field)
+}
+
+func (type2 *safeStructType) Field(i int) StructField {
+	return type2.newField(type2.Type.Field(i))
+}
+
+func (type2 *safeStructType) FieldByIndex(index []int) StructField {
+	field := type2.Type.FieldByIndex(index)
+	field.Index = index
+	return type2.newField(field)
+}
+
+func (type2 *safeStructType) FieldByNameFunc(match func(string) bool) StructField {
+	field, found := type2.Type.FieldByNameFunc(match)
+	if !found {
+		panic("field match condition not found in " + type2.Type.String())
+	}
+	return type2.newField(field)
+}
+
+func (type2 *safeStructType) newField(field reflect.StructField) StructField {
+	return &safeField{StructField: field, cfg: type2.cfg}
+}
-- 
2.43.0


From 6f30991a4d5ecc391471a2a5091459050f8d9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 45/71] fix: calls were written regardless of the minimum call
 level with a stats collector set

---
 countlog/stats/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index a86e35a..07943a9 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -43,10 +43,10 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		// disable aggregation if collector not set
 		return &spi.DummyEventHandler{Site: site}
 	}
-	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
+		extractor, dimensionElemCount := newDimensionExtractor(site)
+		window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 		return &countEvent{
 			Window:    window,
 			extractor: extractor,
@@ -54,6 +54,6 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		}
 	default:
 		// TODO: log unknown agg
+		return &spi.DummyEventHandler{Site: site}
 	}
-	return nil
 }
-- 
2.43.0


From 73c37ee108e4444cab3479eb27baae916e3514b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 46/71] fix: an event logged again after its handler panicked
 took the application down

---
 countlog/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index 14cb361..cd146e2 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -126,6 +126,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+func (redirector *redirector) LogSite() *spi.LogSite {
+	return &redirector.site
+}
+
 // handlerKey tells the events from the calls of the same name
 type handlerKey struct {
 	Event string
-- 
2.43.0


From 89d1aeb33b8f480d5b3e792a7ac82dce86bd80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 47/71] fix: lumberjack lost track of backups without extension
 made at the same time

---
 countlog/output/lumberjack/lumberjack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 5cefceb..bbcf685 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -222,7 +222,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname, err := unusedBackupName(backupName(name, l.LocalTime, l.backupTimeFormat()))
+		newname, err := unusedBackupName(backupName(name, l.LocalTime, l.backupTimeFormat()), filepath.Ext(name))
 		if err != nil {
 			return err
 		}
@@ -267,12 +267,11 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 
 // unusedBackupName adds an index after the timestamp of the backup name if
 // there are backups of the same timestamp already.
-func unusedBackupName(name string) (string, error) {
+func unusedBackupName(name string, ext string) (string, error) {
 	files, err := ioutil.ReadDir(filepath.Dir(name))
 	if err != nil {
 		return "", fmt.Errorf("can't read log file directory: %s", err)
 	}
-	ext := filepath.Ext(name)
 	prefix := name[:len(name)-len(ext)]
 	next := 0
 	for _, f := range files {
-- 
2.43.0


From d9f3da23df3635476821dc2d8c66ec7366a515fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 48/71] fix: lumberjack deleted a compressed backup when a
 logger closed before had compressed it too

---
 countlog/output/lumberjack/lumberjack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index bbcf685..34e58a5 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -574,7 +574,8 @@ func compressLogFile(src, dst string) (err error) {
 	if err := f.Close(); err != nil {
 		return err
 	}
-	if err := os.Remove(src); err != nil {
+	// a logger closed before might have compressed it at the same time
+	if err := os.Remove(src); err != nil && !os.IsNotExist(err) {
 		return err
 	}
 
-- 
2.43.0


From 9cdda1971b0f21b60b0b8f84385c5f700460dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 49/71] fix: a backup being compressed was overwritten by
 another one of the same timestamp

---
 countlog/output/lumberjack/lumberjack.go | 28 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 34e58a5..4eefb83 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -268,14 +268,19 @@ func backupName(name string, local bool, backupTimeFormat string) string {
 // unusedBackupName adds an index after the timestamp of the backup name if
 // there are backups of the same timestamp already.
 func unusedBackupName(name string, ext string) (string, error) {
-	files, err := ioutil.ReadDir(filepath.Dir(name))
+	dir, err := os.Open(filepath.Dir(name))
+	if err != nil {
+		return "", fmt.Errorf("can't read log file directory: %s", err)
+	}
+	defer dir.Close()
+	files, err := dir.Readdirnames(-1)
 	if err != nil {
 		return "", fmt.Errorf("can't read log file directory: %s", err)
 	}
 	prefix := name[:len(name)-len(ext)]
 	next := 0
 	for _, f := range files {
-		used := strings.TrimSuffix(f.Name(), compressSuffix)
+		used := strings.TrimSuffix(f, compressSuffix)
 		if used == filepath.Base(name) && next == 0 {
 			next = 1
 		}
@@ -288,10 +293,23 @@ func unusedBackupName(name string, ext string) (string, error) {
 			next = index + 1
 		}
 	}
-	if next == 0 {
-		return name, nil
+	for {
+		unused := name
+		if next > 0 {
+			unused = fmt.Sprintf("%s%s%d%s", prefix, indexSeparator, next, ext)
+		}
+		// the mill might have replaced a file by its compressed one while the
+		// directory was read, the compressed one is there before the other is gone
+		_, err := os.Lstat(unused)
+		_, errCompressed := os.Lstat(unused + compressSuffix)
+		if os.IsNotExist(err) && errCompressed != nil {
+			return unused, nil
+		}
+		if err != nil && !os.IsNotExist(err) {
+			return "", fmt.Errorf("can't find a name for the backup: %s", err)
+		}
+		next++
 	}
-	return fmt.Sprintf("%s%s%d%s", prefix, indexSeparator, next, ext), nil
 }
 
 // openExistingOrNew opens the logfile if it exists and if the current write
-- 
2.43.0


From 7847e9bc01cba9bda1c1e1519ace3acd98e7cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:26 +0000
Subject: [PATCH 50/71] fix: a typed nil in an empty interface was taken for a
 nil interface

---
 reflect2/unsafe_eface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect2/unsafe_eface.go b/reflect2/unsafe_eface.go
index 446f420..b7d9bc6 100644
--- a/reflect2/unsafe_eface.go
+++ b/reflect2/unsafe_eface.go
@@ -45,7 +45,7 @@ func (type2 *UnsafeEFaceType) UnsafeIsNil(ptr unsafe.Pointer) bool {
 	if ptr == nil {
 		return true
 	}
-	return unpackEFace(*(*interface{})(ptr)).data == nil
+	return *(*interface{})(ptr) == nil
 }
 
 func (type2 *UnsafeEFaceType) Indirect(obj interface{}) interface{} {
-- 
2.43.0


From 78dc5d3228bcc413406f40ff919627601aa4167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:21 +0000
Subject: [PATCH 51/71] fix: lumberjack started a new file for a first write
 that exactly fits the existing one

---
 countlog/output/lumberjack/lumberjack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 4eefb83..846838e 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -327,7 +327,7 @@ func (l *Logger) openExistingOrNew(writeLen int) error {
 		return fmt.Errorf("error getting log file info: %s", err)
 	}
 
-	if info.Size()+int64(writeLen) >= l.max() {
+	if info.Size()+int64(writeLen) > l.max() {
 		return l.rotate()
 	}
 
-- 
2.43.0


From eac5bb60fb17bb66de3ff34a333aafce90f5b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:56 +0000
Subject: [PATCH 52/71] fix: a huge MaxAge of the rolling log removed every
 backup

---
 countlog/output/lumberjack/lumberjack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 846838e..25cc869 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -27,6 +27,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -387,7 +388,8 @@ func (l *Logger) millRunOnce() error {
 		}
 		files = remaining
 	}
-	if l.MaxAge > 0 {
+	// an age that is too much for a time.Duration (about 292 years) is never reached
+	if l.MaxAge > 0 && int64(l.MaxAge) <= math.MaxInt64/int64(24*time.Hour) {
 		diff := time.Duration(int64(24*time.Hour) * int64(l.MaxAge))
 		cutoff := currentTime().Add(-1 * diff)
 
-- 
2.43.0


From 6a2434735a08cf885e40d5d86b703d7b337adad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 53/71] fix: a huge MaxSize of the rolling log refused every
 write

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 25cc869..1077ccc 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -529,6 +529,9 @@ func (l *Logger) max() int64 {
 	if l.MaxSize == 0 {
 		return int64(defaultMaxSize * megabyte)
 	}
+	if int64(l.MaxSize) > math.MaxInt64/int64(megabyte) {
+		return math.MaxInt64
+	}
 	return int64(l.MaxSize) * int64(megabyte)
 }
 
-- 
2.43.0


From 19270f0780e3cc9567382b80749226e3e08552ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:49 +0000
Subject: [PATCH 54/71] fix: a rotated log file lost the mode bits of the umask

---
 countlog/output/lumberjack/chown_linux.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/countlog/output/lumberjack/chown_linux.go b/countlog/output/lumberjack/chown_linux.go
index 2758ec9..5d34db9 100644
--- a/countlog/output/lumberjack/chown_linux.go
+++ b/countlog/output/lumberjack/chown_linux.go
@@ -13,7 +13,12 @@ func chown(name string, info os.FileInfo) error {
 	if err != nil {
 		return err
 	}
+	// the mode given above is subject to the umask
+	err = f.Chmod(info.Mode())
 	f.Close()
+	if err != nil {
+		return err
+	}
 	stat := info.Sys().(*syscall.Stat_t)
 	return os_Chown(name, int(stat.Uid), int(stat.Gid))
 }
-- 
2.43.0


From c6392f365b4e55f3493f61b51c902ba9e6ebd61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 55/71] fix: counting an event with other properties than the
 first one, or with a dimension that is no string, panicked or blocked forever

---
 countlog/stats/counter.go |  13 +++-
 countlog/stats/stats.go   |  13 ++--
 countlog/stats/window.go  | 125 ++++++++++++++++++++++++++++++--------
 3 files changed, 118 insertions(+), 33 deletions(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..696e3d8 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -5,15 +5,24 @@ import "github.com/v2pro/plz/countlog/spi"
 type countEvent struct {
 	*Window
 	site *spi.LogSite
+	shape dimensionShape
 	extractor dimensionExtractor
+	indices []propIdx
 }
 
 func (state *countEvent) Handle(event *spi.Event) {
+	extractor, indices := state.extractor, state.indices
+	if !state.shape.match(event.Properties) {
+		// extractor is made for the sample of the site
+		extractor, indices = newDimensionExtractor(event.Properties)
+	}
+	// before locking, as methods of the values might be called
+	event = withDimensionTexts(event, indices)
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
-	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
+	defer lock.Unlock()
+	counter := extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index 07943a9..6048c3d 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -30,9 +30,10 @@ func (aggregator *EventAggregator) HandlerOf(site *spi.LogSite) spi.EventHandler
 		return aggregator.createHandler(site.Agg, site)
 	}
 	sample := site.Sample
-	for i := 0; i < len(sample); i += 2 {
-		if sample[i].(string) == "agg" {
-			return aggregator.createHandler(sample[i+1].(string), site)
+	for i := 0; i+1 < len(sample); i += 2 {
+		agg, isStr := sample[i+1].(string)
+		if isStr && sample[i] == "agg" {
+			return aggregator.createHandler(agg, site)
 		}
 	}
 	return nil
@@ -45,11 +46,13 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 	}
 	switch agg {
 	case "counter":
-		extractor, dimensionElemCount := newDimensionExtractor(site)
-		window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
+		extractor, indices := newDimensionExtractor(site.Sample)
+		window := newWindow(aggregator.executor, aggregator.collector, site.Event)
 		return &countEvent{
 			Window:    window,
+			shape:     dimensionShapeOf(site.Sample),
 			extractor: extractor,
+			indices:   indices,
 			site:      site,
 		}
 	default:
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 3fd1d43..695bb6a 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -9,13 +9,13 @@ import (
 	"github.com/v2pro/plz/gls"
 	"time"
 	"context"
+	"fmt"
 )
 
 type Window struct {
-	collector          Collector
-	event              string
-	dimensionElemCount int
-	shards             [16]windowShard
+	collector Collector
+	event     string
+	shards    [16]windowShard
 }
 
 type windowShard struct {
@@ -23,11 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string) *Window {
 	window := &Window{
-		collector:          collector,
-		event:              event,
-		dimensionElemCount: dimensionElemCount,
+		collector: collector,
+		event:     event,
 	}
 	for i := 0; i < 16; i++ {
 		window.shards[i] = windowShard{
@@ -68,13 +67,18 @@ func (window *Window) exportShard(now time.Time, shard windowShard) {
 	shard.lock.Lock()
 	defer shard.lock.Unlock()
 	// batch allocate memory to hold dimensions
-	space := make([]string, len(shard.MapMonoid)*window.dimensionElemCount)
+	elemCount := 0
+	for dimensionObj := range shard.MapMonoid {
+		elemCount += dimensionElemCount(dimensionObj)
+	}
+	space := make([]string, elemCount)
 	for dimensionObj, monoid := range shard.MapMonoid {
-		dimension := space[:window.dimensionElemCount]
-		space = space[window.dimensionElemCount:]
+		elemCount := dimensionElemCount(dimensionObj)
+		dimension := space[:elemCount:elemCount]
+		space = space[elemCount:]
 		slice := &sliceHeader{
-			Cap:  window.dimensionElemCount,
-			Len:  window.dimensionElemCount,
+			Cap:  elemCount,
+			Len:  elemCount,
 			Data: (*emptyInterface)(unsafe.Pointer(&dimensionObj)).word,
 		}
 		copy(dimension, *(*[]string)(unsafe.Pointer(slice)))
@@ -93,17 +97,86 @@ type dimensionExtractor interface {
 	Extract(event *spi.Event, monoid MapMonoid, createElem func() Monoid) Monoid
 }
 
-func newDimensionExtractor(site *spi.LogSite) (dimensionExtractor, int) {
-	var dimensionElems []string
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
-		if key == "dim" {
-			dimensionElems = strings.Split(site.Sample[i+1].(string), ",")
+// dimensionElemCount tells the length of the string array used as key
+func dimensionElemCount(dimensionObj interface{}) int {
+	typ := reflect.TypeOf(dimensionObj)
+	if typ.Kind() != reflect.Array {
+		// there is no dimension
+		return 0
+	}
+	return typ.Len()
+}
+
+// dimensionShape is the keys of the properties and the dim,
+// events of same shape can share one extractor
+type dimensionShape struct {
+	length int
+	keys   []string
+	dim    string
+}
+
+func dimensionShapeOf(sample []interface{}) dimensionShape {
+	shape := dimensionShape{length: len(sample), dim: dimOf(sample)}
+	for i := 0; i < len(sample); i += 2 {
+		key, _ := sample[i].(string)
+		shape.keys = append(shape.keys, key)
+	}
+	return shape
+}
+
+func (shape dimensionShape) match(properties []interface{}) bool {
+	if shape.length != len(properties) {
+		return false
+	}
+	for i, key := range shape.keys {
+		propertyKey, _ := properties[i*2].(string)
+		if key != propertyKey {
+			return false
 		}
 	}
+	return shape.dim == dimOf(properties)
+}
+
+func dimOf(properties []interface{}) string {
+	lastDim := ""
+	for i := 0; i+1 < len(properties); i += 2 {
+		dim, isStr := properties[i+1].(string)
+		if isStr && properties[i] == "dim" {
+			lastDim = dim
+		}
+	}
+	return lastDim
+}
+
+// withDimensionTexts returns an event of which all the dimension is string
+func withDimensionTexts(event *spi.Event, indices []propIdx) *spi.Event {
+	copied := false
+	for _, idx := range indices {
+		if _, isStr := event.Properties[idx].(string); isStr {
+			continue
+		}
+		if !copied {
+			copied = true
+			copyOfEvent := *event
+			copyOfEvent.Properties = append([]interface{}(nil), event.Properties...)
+			event = &copyOfEvent
+		}
+		event.Properties[idx] = fmt.Sprint(event.Properties[idx])
+	}
+	return event
+}
+
+func newDimensionExtractor(sample []interface{}) (dimensionExtractor, []propIdx) {
+	var dimensionElems []string
+	if dim := dimOf(sample); dim != "" {
+		dimensionElems = strings.Split(dim, ",")
+	}
 	indices := make([]propIdx, 0, len(dimensionElems))
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isStr := sample[i].(string)
+		if !isStr {
+			continue
+		}
 		for _, dimension := range dimensionElems {
 			if key == dimension {
 				indices = append(indices, propIdx(i))
@@ -115,30 +188,30 @@ func newDimensionExtractor(site *spi.LogSite) (dimensionExtractor, int) {
 	arrayObj := reflect.New(arrayType).Elem().Interface()
 	sampleInterface := *(*emptyInterface)(unsafe.Pointer(&arrayObj))
 	if len(indices) == 0 {
-		return &dimensionExtractor0{}, 0
+		return &dimensionExtractor0{}, indices
 	}
 	if len(indices) <= 2 {
 		return &dimensionExtractor2{
 			sampleInterface: sampleInterface,
 			indices:         indices,
-		}, len(indices)
+		}, indices
 	}
 	if len(indices) <= 4 {
 		return &dimensionExtractor4{
 			sampleInterface: sampleInterface,
 			indices:         indices,
-		}, len(indices)
+		}, indices
 	}
 	if len(indices) <= 8 {
 		return &dimensionExtractor8{
 			sampleInterface: sampleInterface,
 			indices:         indices,
-		}, len(indices)
+		}, indices
 	}
 	return &dimensionExtractorAny{
 		sampleInterface: sampleInterface,
 		indices:         indices,
-	}, len(indices)
+	}, indices
 }
 
 type dimensionExtractor0 struct {
-- 
2.43.0


From b4ed0d7f357744b278d7f3f9a4f1909ba0418489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 56/71] fix: an event was written twice when it can not be
 counted, and not counted when it can not be written

---
 countlog/root.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/countlog/root.go b/countlog/root.go
index cd146e2..c606753 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -8,7 +8,8 @@ import (
 	"github.com/v2pro/plz/countlog/loglog"
 )
 
-type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
+// panicHandler returns true if the event has been handled again
+type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite) bool
 
 // newRootHandler returns nil if the site is not acceptable to the sinks
 func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
@@ -63,23 +64,36 @@ type statsAndOutput struct {
 }
 
 func (handler *statsAndOutput) Handle(event *spi.Event) {
+	if event.Level >= spi.MinCallLevel && handler.output(event) {
+		// has been counted as well
+		return
+	}
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			handler.onPanic(recovered, event, handler.site)
+			// has been written already
+			fallbackModeOnPanic(recovered, event, handler.site)
 		}
 	}()
-	if event.Level >= spi.MinCallLevel {
-		handler.outputHandler.Handle(event)
-	}
 	handler.statsHandler.Handle(event)
 }
 
+func (handler *statsAndOutput) output(event *spi.Event) (handledAgain bool) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			handledAgain = handler.onPanic(recovered, event, handler.site)
+		}
+	}()
+	handler.outputHandler.Handle(event)
+	return false
+}
+
 func (handler *statsAndOutput) LogSite() *spi.LogSite {
 	return handler.site
 }
 
-func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
+func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) bool {
 	redirector := &redirector{
 		site:            *site,
 	}
@@ -92,13 +106,15 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	if handler != nil {
 		handler.Handle(event)
 	}
+	return handler != nil
 }
 
-func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
+func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) bool {
 	loglog.Error(fmt.Errorf("%v", recovered))
 	if spi.MinLevel <= spi.LevelDebug {
 		debug.PrintStack()
 	}
+	return false
 }
 
 type redirector struct {
-- 
2.43.0


From 24a0f52d8996cf7f33c46509ed6002b1f12dcd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 57/71] fix: goroutines running the same function returned by
 WithGls shared one gls

---
 gls/gls.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..e289212 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -52,26 +52,31 @@ func GetGls(goid int64) map[interface{}]interface{} {
 }
 
 func WithGls(f func()) func() {
-	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
-		asCopiable, ok := v.(copiable)
-		if ok {
-			childGls[k] = asCopiable.Copy()
-		} else {
-			childGls[k] = v
-		}
-	}
+	childGls := copyGls(GetGls(GoID()))
 	return func() {
 		goid := GoID()
-		ResetGls(goid, childGls)
+		// there might be more than one goroutine running the returned function
+		ResetGls(goid, copyGls(childGls))
 		defer DeleteGls(goid)
 		f()
 	}
 }
 
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
+		asCopiable, ok := v.(copiable)
+		if ok {
+			copied[k] = asCopiable.Copy()
+		} else {
+			copied[k] = v
+		}
+	}
+	return copied
+}
+
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-- 
2.43.0


From 10b405492d3c1cbc168deb7e5f5c46a424ebb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:43 +0800
Subject: [PATCH 58/71] fix: a marshaler that gives no json or line breaks made
 the whole output invalid or several lines

---
 msgfmt/jsonfmt/encoder_json_marshaler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index d2635e2..2af49eb 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -1,6 +1,7 @@
 package jsonfmt
 
 import (
+	"bytes"
 	"unsafe"
 	"encoding/json"
 	"context"
@@ -20,6 +21,11 @@ func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, p
 	if err != nil {
 		return WriteString(space, err.Error())
 	}
-	space = append(space, buf...)
-	return space
+	// what is not json must not make the rest invalid, and the output has no line breaks
+	compacted := bytes.Buffer{}
+	err = json.Compact(&compacted, buf)
+	if err != nil {
+		return WriteString(space, err.Error())
+	}
+	return append(space, compacted.Bytes()...)
 }
\ No newline at end of file
-- 
2.43.0


From ef3d3fcb4cf7073ee44572b8100ed82beb7d1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:43 +0800
Subject: [PATCH 59/71] fix: map keys of a string type with a MarshalJSON
 method made invalid json

---
 msgfmt/jsonfmt/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 65def62..eb214ab 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -214,7 +214,7 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
-	if keyType.Kind() == reflect.String || keyType == bytesType {
+	if _, isStr := keyEncoder.(*stringEncoder); isStr {
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-- 
2.43.0


From f398c64f34c9650d468164f1577b763523edb869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:16 +0800
Subject: [PATCH 60/71] fix: an extension for an interface type was not asked
 for map keys of it

---
 msgfmt/jsonfmt/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index eb214ab..893fb36 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -217,7 +217,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 	if _, isStr := keyEncoder.(*stringEncoder); isStr {
 		return &mapStringKeyEncoder{keyEncoder}
 	}
-	if keyType.Kind() == reflect.Interface {
+	if _, isDynamic := keyEncoder.(*dynamicEncoder); isDynamic {
 		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
-- 
2.43.0


From d4334db27c2112071ee363b9ccaf94a923a22198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 61/71] fix: writing to an async writer that was closed waited
 forever

---
 countlog/output/async/async.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 6562e6f..2a2692a 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -2,6 +2,7 @@ package async
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"sync/atomic"
@@ -15,8 +16,12 @@ type blockingQueueWriter struct {
 	queue    chan []byte
 	writer   io.Writer
 	executor *concurrent.UnboundedExecutor
+	// closed when nobody takes from the queue any more
+	stopped chan struct{}
 }
 
+var errClosed = errors.New("countlog async writer is closed")
+
 type nonBlockingQueueWriter struct {
 	blockingQueueWriter
 	onMessageDropped func(message []byte)
@@ -55,6 +60,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 			queue:    make(chan []byte, queueLength),
 			writer:   cfg.Writer,
 			executor: executor,
+			stopped:  make(chan struct{}),
 		}
 		executor.Go(asyncWriter.asyncWrite)
 		return asyncWriter
@@ -64,6 +70,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 			queue:    make(chan []byte, queueLength),
 			writer:   cfg.Writer,
 			executor: executor,
+			stopped:  make(chan struct{}),
 		},
 		onMessageDropped: onMessageDropped,
 	}
@@ -72,6 +79,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 }
 
 func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
+	defer close(writer.stopped)
 	for {
 		select {
 		case <-ctx.Done():
@@ -110,8 +118,18 @@ func (writer *blockingQueueWriter) write(buf []byte) {
 }
 
 func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
-	writer.queue <- append([]byte(nil), buf...)
-	return len(buf), nil
+	select {
+	case <-writer.stopped:
+		return 0, errClosed
+	default:
+	}
+	select {
+	case writer.queue <- append([]byte(nil), buf...):
+		return len(buf), nil
+	case <-writer.stopped:
+		// waiting for room, which there will never be
+		return 0, errClosed
+	}
 }
 
 func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
-- 
2.43.0


From c7f2f69dbfc9e639a31bf97a0af24f4cef00a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 62/71] fix: a collector that counts events itself blocked, one
 that panics ended the exports

---
 countlog/stats/window.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 695bb6a..f9126af 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/countlog/loglog"
 	"unsafe"
 	"strings"
 	"reflect"
@@ -59,11 +60,24 @@ func (window *Window) Mutate() (*sync.Mutex, MapMonoid) {
 
 func (window *Window) Export(now time.Time) {
 	for i := 0; i < 16; i++ {
-		window.exportShard(now, window.shards[i])
+		for _, point := range window.exportShard(now, window.shards[i]) {
+			window.collect(point)
+		}
 	}
 }
 
-func (window *Window) exportShard(now time.Time, shard windowShard) {
+// collect is called without lock held, as the collector might count events
+func (window *Window) collect(point *Point) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			loglog.Error(fmt.Errorf("countlog stats collector panic: %v", recovered))
+		}
+	}()
+	window.collector.Collect(point)
+}
+
+func (window *Window) exportShard(now time.Time, shard windowShard) []*Point {
 	shard.lock.Lock()
 	defer shard.lock.Unlock()
 	// batch allocate memory to hold dimensions
@@ -72,6 +86,7 @@ func (window *Window) exportShard(now time.Time, shard windowShard) {
 		elemCount += dimensionElemCount(dimensionObj)
 	}
 	space := make([]string, elemCount)
+	points := make([]*Point, 0, len(shard.MapMonoid))
 	for dimensionObj, monoid := range shard.MapMonoid {
 		elemCount := dimensionElemCount(dimensionObj)
 		dimension := space[:elemCount:elemCount]
@@ -82,13 +97,14 @@ func (window *Window) exportShard(now time.Time, shard windowShard) {
 			Data: (*emptyInterface)(unsafe.Pointer(&dimensionObj)).word,
 		}
 		copy(dimension, *(*[]string)(unsafe.Pointer(slice)))
-		window.collector.Collect(&Point{
+		points = append(points, &Point{
 			Event:     window.event,
 			Timestamp: now,
 			Dimension: dimension,
 			Value:     monoid.Export(),
 		})
 	}
+	return points
 }
 
 type propIdx int
-- 
2.43.0


From eb0d8bbde4bd604ef66e9e0f21be44d92b592244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 63/71] fix: a log hook that starts a goroutine on the executor
 waited for blocked it

---
 concurrent/unbounded_executor.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/concurrent/unbounded_executor.go b/concurrent/unbounded_executor.go
index 70a1cf0..05111a5 100644
--- a/concurrent/unbounded_executor.go
+++ b/concurrent/unbounded_executor.go
@@ -85,15 +85,24 @@ func (executor *UnboundedExecutor) StopAndWait(ctx context.Context) {
 }
 
 func (executor *UnboundedExecutor) checkGoroutines() bool {
+	startFrom, count := executor.anyActive()
+	if count == 0 {
+		return true
+	}
+	// not under the lock: what is called here might start a goroutine itself
+	LogInfo("event!unbounded_executor.still waiting goroutines to quit",
+		"startFrom", startFrom,
+		"count", count)
+	return false
+}
+
+func (executor *UnboundedExecutor) anyActive() (string, int) {
 	executor.activeGoroutinesMutex.Lock()
 	defer executor.activeGoroutinesMutex.Unlock()
 	for startFrom, count := range executor.activeGoroutines {
 		if count > 0 {
-			LogInfo("event!unbounded_executor.still waiting goroutines to quit",
-				"startFrom", startFrom,
-				"count", count)
-			return false
+			return startFrom, count
 		}
 	}
-	return true
+	return "", 0
 }
-- 
2.43.0


From 0976dbdba5b535b37b21adddf54bc60bf115f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:44 +0800
Subject: [PATCH 64/71] fix: a non-blocking async writer accepted messages
 after it was closed, which went nowhere

---
 countlog/output/async/async.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 2a2692a..33b84de 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -133,6 +133,11 @@ func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
 }
 
 func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
+	select {
+	case <-writer.stopped:
+		return 0, errClosed
+	default:
+	}
 	select {
 	case writer.queue <- append([]byte(nil), buf...):
 	default:
-- 
2.43.0


From 209a71a6f95e5c79e6c9b94bb88d711e8cc57890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:16 +0000
Subject: [PATCH 65/71] fix: a recovered value that panics again when formatted
 took the application down

---
 countlog/loglog/loglog.go      | 15 +++++++++++++++
 countlog/output/async/async.go |  2 +-
 countlog/root.go               |  3 +--
 countlog/stats/window.go       |  2 +-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/countlog/loglog/loglog.go b/countlog/loglog/loglog.go
index 2a4dda8..fd3eea4 100644
--- a/countlog/loglog/loglog.go
+++ b/countlog/loglog/loglog.go
@@ -2,6 +2,7 @@
 package loglog
 
 import (
+	"errors"
 	"os"
 	"fmt"
 )
@@ -16,3 +17,17 @@ var Error = func(err error) {
 var Message = func(a ...interface{}) (n int, err error) {
 	return 0, nil
 }
+
+// Panic reports what was recovered, formatting it might panic again
+func Panic(where string, recovered interface{}) {
+	Error(errors.New(where + textOf(recovered)))
+}
+
+func textOf(recovered interface{}) (text string) {
+	defer func() {
+		if recover() != nil {
+			text = fmt.Sprintf("%T", recovered)
+		}
+	}()
+	return fmt.Sprintf("%v", recovered)
+}
diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 33b84de..c90c64f 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -108,7 +108,7 @@ func (writer *blockingQueueWriter) write(buf []byte) {
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			loglog.Error(fmt.Errorf("countlog async writer panic: %v", recovered))
+			loglog.Panic("countlog async writer panic: ", recovered)
 		}
 	}()
 	_, err := writer.writer.Write(buf)
diff --git a/countlog/root.go b/countlog/root.go
index c606753..1ee5007 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -3,7 +3,6 @@ package countlog
 import (
 	"github.com/v2pro/plz/countlog/spi"
 	"runtime"
-	"fmt"
 	"runtime/debug"
 	"github.com/v2pro/plz/countlog/loglog"
 )
@@ -110,7 +109,7 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 }
 
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) bool {
-	loglog.Error(fmt.Errorf("%v", recovered))
+	loglog.Panic("", recovered)
 	if spi.MinLevel <= spi.LevelDebug {
 		debug.PrintStack()
 	}
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9126af..74a043a 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -71,7 +71,7 @@ func (window *Window) collect(point *Point) {
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			loglog.Error(fmt.Errorf("countlog stats collector panic: %v", recovered))
+			loglog.Panic("countlog stats collector panic: ", recovered)
 		}
 	}()
 	window.collector.Collect(point)
-- 
2.43.0


From 1b366731f7127c349cac64be7961fa6114df6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 66/71] fix: a panic of a job of the executor that could not be
 logged took the application down

---
 concurrent/unbounded_executor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/concurrent/unbounded_executor.go b/concurrent/unbounded_executor.go
index 05111a5..0553067 100644
--- a/concurrent/unbounded_executor.go
+++ b/concurrent/unbounded_executor.go
@@ -18,6 +18,16 @@ var LogPanic = func(recovered interface{}, properties ...interface{}) interface{
 	return recovered
 }
 
+// logPanic contains the panic of LogPanic itself, formatting what was recovered might panic
+func logPanic(recovered interface{}) {
+	defer func() {
+		if recover() != nil {
+			fmt.Println("paniced, but failed to log what was recovered")
+		}
+	}()
+	LogPanic(recovered)
+}
+
 const StopSignal = "STOP!"
 
 type UnboundedExecutor struct {
@@ -51,7 +61,7 @@ func (executor *UnboundedExecutor) Go(handler func(ctx context.Context)) {
 		defer func() {
 			recovered := recover()
 			if recovered != nil && recovered != StopSignal {
-				LogPanic(recovered)
+				logPanic(recovered)
 			}
 			executor.activeGoroutinesMutex.Lock()
 			defer executor.activeGoroutinesMutex.Unlock()
-- 
2.43.0


From aa04c6ffd3139d4cec7afdb6e5ac27fbc8213b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:27 +0800
Subject: [PATCH 67/71] fix: iterating over a map with safe reflection panicked
 at a NaN key

---
 reflect2/safe_map.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 8b55fa3..f68c989 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -62,10 +62,10 @@ func (type2 *safeMapType) UnsafeGetIndex(obj unsafe.Pointer, key unsafe.Pointer)
 }
 
 func (type2 *safeMapType) Iterate(obj interface{}) MapIterator {
-	m := reflect.ValueOf(obj).Elem()
+	iter := reflect.ValueOf(obj).Elem().MapRange()
 	return &safeMapIterator{
-		m:    m,
-		keys: m.MapKeys(),
+		iter:    iter,
+		hasNext: iter.Next(),
 	}
 }
 
@@ -74,23 +74,22 @@ func (type2 *safeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 }
 
 type safeMapIterator struct {
-	i int
-	m reflect.Value
-	keys []reflect.Value
+	iter    *reflect.MapIter
+	hasNext bool
 }
 
 func (iter *safeMapIterator) HasNext() bool {
-	return iter.i != len(iter.keys)
+	return iter.hasNext
 }
 
 func (iter *safeMapIterator) Next() (interface{}, interface{}) {
-	key := iter.keys[iter.i]
-	elem := iter.m.MapIndex(key)
-	iter.i += 1
+	// not looked up by key: NaN is a key that can not be found
+	key, elem := iter.iter.Key(), iter.iter.Value()
 	keyPtr := reflect.New(key.Type())
 	keyPtr.Elem().Set(key)
 	elemPtr := reflect.New(elem.Type())
 	elemPtr.Elem().Set(elem)
+	iter.hasNext = iter.iter.Next()
 	return keyPtr.Interface(), elemPtr.Interface()
 }
 
-- 
2.43.0


From 629365785328e107498c46288268d8f1f81b88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:05 +0800
Subject: [PATCH 68/71] fix: formatting a nil pointer panicked when String can
 not be called on it

---
 msgfmt/formatter_stringer.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/msgfmt/formatter_stringer.go b/msgfmt/formatter_stringer.go
index a6e51aa..d1b8f0f 100644
--- a/msgfmt/formatter_stringer.go
+++ b/msgfmt/formatter_stringer.go
@@ -1,9 +1,25 @@
 package msgfmt
 
-import "fmt"
+import (
+	"fmt"
+	"reflect"
+)
 
 type stringerFormatter int
 
-func (formatter stringerFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(fmt.Stringer).String()...)
+func (formatter stringerFormatter) Format(space []byte, kv []interface{}) (formatted []byte) {
+	value := kv[formatter]
+	defer func() {
+		recovered := recover()
+		if recovered == nil {
+			return
+		}
+		// String can not always be called on nil, that is no reason to fail
+		ptr := reflect.ValueOf(value)
+		if ptr.Kind() != reflect.Ptr || !ptr.IsNil() {
+			panic(recovered)
+		}
+		formatted = append(space, "null"...)
+	}()
+	return append(space, value.(fmt.Stringer).String()...)
 }
-- 
2.43.0


From 89bf6d6e705e42070f26120b4189aecacf452b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:05 +0800
Subject: [PATCH 69/71] fix: a format function that fails with an error whose
 Error panics made formatting panic

---
 msgfmt/custom.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 0e9ac3f..33415e5 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -1,6 +1,7 @@
 package msgfmt
 
 import (
+	"errors"
 	"fmt"
 	"time"
 	"strings"
@@ -18,14 +19,28 @@ func newFuncFormatter(key string, funcName string, funcArgs []string, sample []i
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			err = fmt.Errorf("newFormatter panic: %v", recovered)
+			err = newPanicError(recovered)
 		}
 	}()
 	format := Formats[funcName]
 	if format == nil {
 		return nil, fmt.Errorf("format %s is not supported", funcName)
 	}
-	return format.FormatterOf(key, funcArgs, sample)
+	ret, err = format.FormatterOf(key, funcArgs, sample)
+	if err != nil {
+		err = errors.New(err.Error())
+	}
+	return ret, err
+}
+
+// newPanicError formats what was recovered, which might panic again
+func newPanicError(recovered interface{}) (err error) {
+	defer func() {
+		if recover() != nil {
+			err = fmt.Errorf("newFormatter panic: %T", recovered)
+		}
+	}()
+	return fmt.Errorf("newFormatter panic: %v", recovered)
 }
 
 type GoTimeFormat struct {
-- 
2.43.0


From 796faf6a66603533a5f0b60bb7a359edafb843ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:35 +0800
Subject: [PATCH 70/71] fix: backups of a log file whose name ends in .gz were
 taken as compressed already

---
 countlog/output/lumberjack/lumberjack.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 1077ccc..51b8837 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -375,7 +375,7 @@ func (l *Logger) millRunOnce() error {
 			// Only count the uncompressed log file or the
 			// compressed log file, not both.
 			fn := f.Name()
-			if strings.HasSuffix(fn, compressSuffix) {
+			if f.compressed {
 				fn = fn[:len(fn)-len(compressSuffix)]
 			}
 			preserved[fn] = true
@@ -406,7 +406,7 @@ func (l *Logger) millRunOnce() error {
 
 	if l.Compress {
 		for _, f := range files {
-			if !strings.HasSuffix(f.Name(), compressSuffix) {
+			if !f.compressed {
 				compress = append(compress, f)
 			}
 		}
@@ -467,11 +467,11 @@ func (l *Logger) oldLogFiles() ([]logInfo, error) {
 			continue
 		}
 		if t, err := l.timeFromName(f.Name(), prefix, ext); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+			logFiles = append(logFiles, logInfo{t, f, false})
 			continue
 		}
 		if t, err := l.timeFromName(f.Name(), prefix, ext+compressSuffix); err == nil {
-			logFiles = append(logFiles, logInfo{t, f})
+			logFiles = append(logFiles, logInfo{t, f, true})
 			continue
 		}
 		// error parsing means that the suffix at the end was not generated
@@ -610,6 +610,8 @@ func compressLogFile(src, dst string) (err error) {
 type logInfo struct {
 	timestamp time.Time
 	os.FileInfo
+	// the name of the log file itself might end with the suffix
+	compressed bool
 }
 
 // byFormatTime sorts by newest time formatted in the name.
-- 
2.43.0


From 2efce397e4815c0d0ebcddf694932384d55bc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:42 +0800
Subject: [PATCH 71/71] fix: after a panic the location of events named the
 function of another call site

---
 countlog/root.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 1ee5007..6b87284 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -121,7 +121,7 @@ type redirector struct {
 }
 
 func (redirector *redirector) Handle(event *spi.Event) {
-	_, callerFile, callerLine, _ := runtime.Caller(3)
+	pc, callerFile, callerLine, _ := runtime.Caller(3)
 	key := accurateHandlerKey{redirector.site.Event, redirector.site.Agg, callerFile, callerLine}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
@@ -129,6 +129,7 @@ func (redirector *redirector) Handle(event *spi.Event) {
 		return
 	}
 	site := redirector.site
+	site.Func = runtime.FuncForPC(pc).Name()
 	site.File = callerFile
 	site.Line = callerLine
 	site.Sample = event.Properties
-- 
2.43.0

