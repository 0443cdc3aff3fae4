From 6d2b468592e52f07de0b86d07c13cbd8ee51922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 01/66] fix: bencode: reject non-canonical string lengths and
 do not allocate more than the input holds

---
 bencode/decode.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..ab9750b 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -123,19 +123,45 @@ func (d *Decoder) consume(buf *bytes.Buffer) error {
 	}
 }
 
+// parseLength parses the length prefix of a string, which must be a minimal unsigned decimal.
+func parseLength(lengthStr string) (int, error) {
+	for i := range len(lengthStr) {
+		if !isDigit(lengthStr[i]) {
+			return 0, fmt.Errorf("invalid string length: %q", lengthStr)
+		}
+	}
+	if leadingZero(lengthStr) {
+		return 0, fmt.Errorf("invalid string length: %q", lengthStr)
+	}
+	return strconv.Atoi(lengthStr)
+}
+
+// readBytes reads exactly length bytes. The result grows with the data actually
+// available, so that a bogus length cannot exhaust memory.
+func (d *Decoder) readBytes(length int) ([]byte, error) {
+	if length <= d.Buffered() {
+		b := make([]byte, length)
+		_, err := io.ReadFull(d, b)
+		return b, err
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, d, int64(length))
+	return buf.Bytes(), err
+}
+
 func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unterminated string prefix: %w", err)
 	}
 	lengthStr = lengthStr[:len(lengthStr)-1]
-	length, err := strconv.Atoi(lengthStr)
+	length, err := parseLength(lengthStr)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
+	n := len(bytes)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
@@ -261,13 +287,13 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: unterminated string prefix: %w", err)
 	}
-	length, err := strconv.Atoi(lengthStr[:len(lengthStr)-1])
+	length, err := parseLength(lengthStr[:len(lengthStr)-1])
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
+	n := len(bytes)
 	if err != nil {
 		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
-- 
2.43.0


From 8d74c922013aabc752d964c8c2a6c206e9d32118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 02/66] fix: bencode: reject integers with a plus sign

---
 bencode/decode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index ab9750b..36a7826 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 func Unmarshal(b []byte, v any) error {
@@ -188,7 +189,7 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
 	_, err = strconv.ParseInt(intStr, 10, 64)
@@ -333,7 +334,7 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseInt(intStr, 10, 64)
@@ -359,7 +360,7 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if leadingZero(intStr) || strings.HasPrefix(intStr, "+") {
 		return d.newSyntaxError("decodeUint: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseUint(intStr, 10, 64)
-- 
2.43.0


From 3d081914a457d2ebc867cd9da9b984bfcf31d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 03/66] fix: bencode: accept the empty string as first
 dictionary key

---
 bencode/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 36a7826..0e719f9 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -253,7 +253,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		buf.WriteByte('d')
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -268,7 +268,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
 		lastKey = key
@@ -444,7 +444,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		v.Set(reflect.MakeMap(t))
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -459,7 +459,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
 		lastKey = key.String()
@@ -492,7 +492,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -507,7 +507,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
 		lastKey = key.String()
-- 
2.43.0


From 843edfb818771e993a665618d47c04c9ec742899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 04/66] fix: bencode: report integers that do not fit their
 destination

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 0e719f9..23465cd 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -341,6 +341,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %s out of range for %s", intStr, v.Type())
+	}
 	d.offset += len(intStr) + 1
 	v.SetInt(i)
 	return nil
@@ -367,6 +370,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %s out of range for %s", intStr, v.Type())
+	}
 	d.offset += len(intStr) + 1
 	v.SetUint(i)
 	return nil
-- 
2.43.0


From 2e6af9639020e9d48a60ed2750271b639f14da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 05/66] fix: bencode: allocate nil pointers inside lists,
 dictionaries and pointers

---
 bencode/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 23465cd..f263655 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -51,6 +51,13 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		// Allocate nil elements of lists and dictionaries and pointers to pointers.
+		if !v.CanSet() {
+			return errors.New("bencode: cannot decode into nil pointer")
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
-- 
2.43.0


From b4edd8d4a734ea094f43ccefc8ed8c9392662359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 06/66] fix: bencode: replace non-pointer values held by an
 interface instead of panicking

---
 bencode/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index f263655..83005ba 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -550,8 +550,8 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	if e := v.Elem(); e.CanAddr() || (e.Kind() == reflect.Pointer || e.Kind() == reflect.Map) && !e.IsNil() {
+		return d.decode(e)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From 5dad7550bd8d13fae1ae71d93426e52337ab283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 07/66] fix: bencode: report unexported embedded pointers
 instead of panicking

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 83005ba..60c70f7 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -536,6 +536,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return fmt.Errorf("bencode: cannot set embedded pointer to unexported struct: %s", elem.Type())
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 5427f6dcdfe18692755618e6f6d53e56ee60e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 08/66] fix: bencode: limit the nesting depth of decoded input

---
 bencode/decode.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 60c70f7..227c056 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -20,8 +20,14 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
 }
 
+// maxDepth bounds the nesting of decoded values, so that hostile input cannot exhaust the stack.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("bencode: exceeded max depth")
+
 func NewDecoder(r io.Reader) *Decoder {
 	if br, ok := r.(*bufio.Reader); ok {
 		return &Decoder{Reader: br}
@@ -51,6 +57,10 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if d.depth++; d.depth > maxDepth {
+		return errMaxDepth
+	}
+	defer func() { d.depth-- }()
 	if v.Kind() == reflect.Pointer && v.IsNil() {
 		// Allocate nil elements of lists and dictionaries and pointers to pointers.
 		if !v.CanSet() {
@@ -108,6 +118,10 @@ func isDigit(b byte) bool {
 }
 
 func (d *Decoder) consume(buf *bytes.Buffer) error {
+	if d.depth++; d.depth > maxDepth {
+		return errMaxDepth
+	}
+	defer func() { d.depth-- }()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
-- 
2.43.0


From 756db1224f9d8379a12a96aed4417f3a246771e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 09/66] fix: bencode: bound pointer cycles and keep the encoder
 usable after an error

---
 bencode/encode.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..90cb780 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -85,10 +85,19 @@ func (e *Encoder) encode(v reflect.Value) error {
 	case reflect.Struct:
 		return e.encodeStruct(v)
 	case reflect.Interface, reflect.Pointer:
-		if v.IsNil() {
-			return nil
+		for depth := 0; v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer; depth++ {
+			if v.IsNil() {
+				return nil
+			}
+			if v.Type().Implements(marshalerType) {
+				break
+			}
+			if depth >= ptrDepthLimit {
+				return errors.New("bencode: maximum pointer depth exceeded")
+			}
+			v = v.Elem()
 		}
-		return e.encode(v.Elem())
+		return e.encode(v)
 	default:
 		return &UnsupportedTypeError{v.Type()}
 	}
@@ -168,8 +177,10 @@ func (e *Encoder) encodeSlice(v reflect.Value) error {
 		return nil
 	}
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
+		e.ptrDepth--
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
+	defer func() { e.ptrDepth-- }()
 	if err := e.writeByte('l'); err != nil {
 		return err
 	}
@@ -181,7 +192,6 @@ func (e *Encoder) encodeSlice(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
 
@@ -193,8 +203,10 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return &UnsupportedTypeError{v.Type()}
 	}
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
+		e.ptrDepth--
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
+	defer func() { e.ptrDepth-- }()
 	if err := e.writeByte('d'); err != nil {
 		return err
 	}
@@ -213,7 +225,6 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
 
@@ -396,8 +407,10 @@ func fieldByIndex(v reflect.Value, index []int) reflect.Value {
 
 func (e *Encoder) encodeStruct(v reflect.Value) error {
 	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
+		e.ptrDepth--
 		return errors.New("bencode: maximum pointer depth exceeded")
 	}
+	defer func() { e.ptrDepth-- }()
 	if err := e.writeByte('d'); err != nil {
 		return err
 	}
@@ -419,6 +432,5 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 	if err := e.writeByte('e'); err != nil {
 		return err
 	}
-	e.ptrDepth--
 	return nil
 }
-- 
2.43.0


From 4a4e05b2ad40be728e1dcb5d299aadc0f0c36367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 10/66] fix: bencode: do not panic on nil values and nil
 marshalers

---
 bencode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 90cb780..3fa3e0e 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -60,6 +60,9 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	if !v.IsValid() || (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) && v.IsNil() {
+		return nil
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-- 
2.43.0


From a3264a414b24ca7d660949f85c033e57e0e8361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 11/66] fix: bencode: leave out keys whose value is nil

---
 bencode/encode.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 3fa3e0e..2ecaceb 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -218,10 +218,14 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
+		value := v.MapIndex(key)
+		if writesNothing(value) {
+			continue
+		}
 		if err := e.encodeString(key); err != nil {
 			return err
 		}
-		if err := e.encode(v.MapIndex(key)); err != nil {
+		if err := e.encode(value); err != nil {
 			return err
 		}
 	}
@@ -381,6 +385,28 @@ func isNil(v reflect.Value) bool {
 	}
 }
 
+// writesNothing reports whether encode writes no bytes for v, so that its key
+// must be left out too.
+func writesNothing(v reflect.Value) bool {
+	for depth := 0; v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer; depth++ {
+		if v.IsNil() {
+			return true
+		}
+		if v.Type().Implements(marshalerType) || depth >= ptrDepthLimit {
+			return false
+		}
+		v = v.Elem()
+	}
+	switch v.Kind() {
+	case reflect.Slice:
+		return v.IsNil() && v.Type().Elem().Kind() != reflect.Uint8 && !v.Type().Implements(marshalerType)
+	case reflect.Map:
+		return v.IsNil() && !v.Type().Implements(marshalerType)
+	default:
+		return false
+	}
+}
+
 func isEmptyValue(v reflect.Value) bool {
 	switch v.Kind() {
 	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
@@ -419,7 +445,7 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 	}
 	for _, f := range getFieldsForStruct(v).fields {
 		fv := fieldByIndex(v, f.index)
-		if isNil(fv) {
+		if isNil(fv) || writesNothing(fv) {
 			continue
 		}
 		if f.omitempty && isEmptyValue(fv) {
-- 
2.43.0


From 9555ff32ce18a16ef3f922d0af9de89b6e2d7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 12/66] fix: bencode: do not decode into ambiguous fields that
 are never encoded

---
 bencode/encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 2ecaceb..c456c2d 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -359,6 +359,8 @@ func getFieldsForStruct(v reflect.Value) *fieldInfo {
 	var fields []*field
 	for _, f := range keyToField {
 		if f.ignored {
+			// Ambiguous keys belong to no field, when decoding either.
+			delete(keyToField, f.key)
 			continue
 		}
 		fields = append(fields, f)
-- 
2.43.0


From cbe35e14e0505b0969ea6d8d30da44cf18ff8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 13/66] fix: bencode: encode raw messages verbatim when they
 are not addressable

---
 bencode/raw_message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/raw_message.go b/bencode/raw_message.go
index 2e9406a..096cff3 100644
--- a/bencode/raw_message.go
+++ b/bencode/raw_message.go
@@ -2,8 +2,8 @@ package bencode
 
 type RawMessage []byte
 
-func (r *RawMessage) MarshalBencoding() ([]byte, error) {
-	return []byte(*r), nil
+func (r RawMessage) MarshalBencoding() ([]byte, error) {
+	return []byte(r), nil
 }
 
 func (r *RawMessage) UnmarshalBencoding(data []byte) error {
-- 
2.43.0


From c8f9500aa504b4c5b372ec705d97a44b81cec814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 14/66] fix: bitfield: ignore indices outside the bitfield
 instead of panicking

---
 bitfield/bitfield.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..a14e68c 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -10,13 +10,24 @@ func New(n int) Bitfield {
 	return make(Bitfield, size)
 }
 
+// contains reports whether i lies within the storage of b.
+func (b Bitfield) contains(i int) bool {
+	return i >= 0 && i/8 < len(b)
+}
+
 func (b Bitfield) Has(i int) bool {
+	if !b.contains(i) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
 }
 
 func (b Bitfield) Add(i int) {
+	if !b.contains(i) {
+		return
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	b[bi] |= 1 << bj
-- 
2.43.0


From e02fc1dc6194c22d350a09985d92c935e4abaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 15/66] fix: peer: tolerate empty reads before a handshake

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..cf0653b 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From 7a9e0d73d222b6b522a228e34162944c2fab7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 16/66] fix: peer: reject malformed messages instead of
 panicking

---
 api/peer/peer.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cf0653b..c2a1cce 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -354,12 +354,21 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
-	payload := make([]byte, length)
-	if _, err := io.ReadFull(r, payload); err != nil {
+	// Grow with the data that arrives, the announced length may be bogus.
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(length)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return err
 	}
-	m.Type = MessageType(payload[0])
+	payload := buf.Bytes()
+	messageType := MessageType(payload[0])
 	payload = payload[1:]
+	if err := checkPayload(messageType, len(payload)); err != nil {
+		return err
+	}
+	m.Type = messageType
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
@@ -378,6 +387,29 @@ func (m *Message) Decode(r io.Reader) error {
 	return nil
 }
 
+// checkPayload reports an error unless a message of type t can have a payload of n bytes.
+func checkPayload(t MessageType, n int) error {
+	valid := false
+	switch t {
+	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
+		valid = n == 0
+	case HAVE:
+		valid = n == 4
+	case BITFIELD:
+		valid = true
+	case REQUEST, CANCEL:
+		valid = n == 12
+	case PIECE:
+		valid = n >= 8
+	default:
+		return fmt.Errorf("unknown message type: %d", t)
+	}
+	if !valid {
+		return fmt.Errorf("invalid payload length for %s message: %d", t, n)
+	}
+	return nil
+}
+
 func (m *Message) UnmarshalBinary(data []byte) error {
 	return m.Decode(bytes.NewReader(data))
 }
-- 
2.43.0


From d943dcc8ed5d3c19e60ed2964935fda4f108a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 17/66] fix: bencode: keep keys whose nil value has a marshaler
 of its own

---
 bencode/encode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index c456c2d..d17bb3d 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -399,11 +399,14 @@ func writesNothing(v reflect.Value) bool {
 		}
 		v = v.Elem()
 	}
+	if v.Type().Implements(marshalerType) || v.CanAddr() && reflect.PointerTo(v.Type()).Implements(marshalerType) {
+		return false
+	}
 	switch v.Kind() {
 	case reflect.Slice:
-		return v.IsNil() && v.Type().Elem().Kind() != reflect.Uint8 && !v.Type().Implements(marshalerType)
+		return v.IsNil() && v.Type().Elem().Kind() != reflect.Uint8
 	case reflect.Map:
-		return v.IsNil() && !v.Type().Implements(marshalerType)
+		return v.IsNil()
 	default:
 		return false
 	}
-- 
2.43.0


From 2acfea5003260692affcbb6ccd67efcb03d24dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 18/66] fix: metainfo: encode dates and piece hashes that are
 not addressable

---
 api/metainfo/metainfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/metainfo/metainfo.go b/api/metainfo/metainfo.go
index aedf13b..f3ad02f 100644
--- a/api/metainfo/metainfo.go
+++ b/api/metainfo/metainfo.go
@@ -24,7 +24,7 @@ type Time struct {
 	time.Time
 }
 
-func (t *Time) MarshalBencoding() ([]byte, error) {
+func (t Time) MarshalBencoding() ([]byte, error) {
 	return bencode.Marshal(t.Unix())
 }
 
@@ -84,9 +84,9 @@ func (i *Info) UnmarshalBencoding(data []byte) error {
 
 type Pieces [][20]byte
 
-func (p *Pieces) MarshalBencoding() ([]byte, error) {
+func (p Pieces) MarshalBencoding() ([]byte, error) {
 	var sb strings.Builder
-	for _, hash := range *p {
+	for _, hash := range p {
 		sb.Write(hash[:])
 	}
 	return bencode.Marshal(sb.String())
-- 
2.43.0


From 5393484cc4a5a1e30d2ca3c09d8dfa322d75e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 19/66] fix: tracker: refuse to encode ports outside 16 bits
 compactly

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..adecb6b 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -141,6 +141,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > 65535 {
+			return nil, fmt.Errorf(`peer "port" is out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
-- 
2.43.0


From b1a6a2811cbf2f31c3e39ed5587012f954fced42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 20/66] fix: tracker: encode empty and non-addressable peer
 lists

---
 api/tracker/tracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index adecb6b..75e8622 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -122,7 +122,7 @@ type Peers struct {
 	List    []*Peer
 }
 
-func (p *Peers) MarshalBencoding() ([]byte, error) {
+func (p Peers) MarshalBencoding() ([]byte, error) {
 	if p.Compact {
 		compact, err := compactPeers(p.List)
 		if err != nil {
@@ -130,6 +130,10 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		// A nil list would encode to nothing at all.
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From f3e901276ad6f77a0f28d31277ad8d162080591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 21/66] fix: tracker: report malformed peer dictionaries
 instead of panicking

---
 api/tracker/tracker.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 75e8622..24eb5a6 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -169,6 +169,7 @@ func (p *Peers) UnmarshalBencoding(data []byte) error {
 		p.Compact = true
 		p.List, err = parseCompactPeers(v)
 	case []any:
+		p.Compact = false
 		p.List, err = parsePeers(v)
 	default:
 		return errors.New("unknown peers format")
@@ -196,11 +197,21 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
-		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		peer := &Peer{}
+		if id, found := m["peer id"]; found {
+			if peer.ID, ok = id.(string); !ok {
+				return nil, errors.New(`peer "peer id" is not a string`)
+			}
+		}
+		if peer.IP, ok = m["ip"].(string); !ok {
+			return nil, errors.New(`peer "ip" is missing or not a string`)
+		}
+		if peer.Port, ok = m["port"].(int); !ok {
+			return nil, errors.New(`peer "port" is missing or not an integer`)
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From ed58b554d4614d184ed5b4f24d44f31fd4edfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 22/66] fix: storage: reject blocks outside the torrent's
 pieces instead of panicking

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..d0dff59 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -228,7 +228,13 @@ func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: piece index out of range: %d", index)
+	}
 	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin >= pieceLength {
+		return fmt.Errorf("storage: block offset out of range: %d", begin)
+	}
 	expectedBlockLength := BLOCK_LENGTH
 	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
 	if begin == lastBlock {
-- 
2.43.0


From a267adf4a332b6fa59e3f98370b272d6dbfadd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 23/66] fix: storage: refuse to read ranges outside a piece
 instead of panicking or returning foreign data

---
 storage/storage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index d0dff59..df00e01 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,6 +95,13 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if index < 0 || index >= len(s.Torrent.pieces) {
+		return nil, fmt.Errorf("storage: piece index out of range: %d", index)
+	}
+	pieceLength := s.Torrent.pieces[index].Length
+	if begin < 0 || length < 0 || begin > pieceLength || length > pieceLength-begin {
+		return nil, fmt.Errorf("storage: block out of range: begin=%d length=%d", begin, length)
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
-- 
2.43.0


From 16af3a29da8cadf2d67e7ecc6df742189ee7ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 24/66] fix: storage: take the torrent lock before the piece
 lock when storing, as reading does

---
 storage/storage.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index df00e01..217e6aa 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -121,20 +121,18 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
-	s.Torrent.mu.RLock()
+	// Same lock order as GetBlock: torrent, then piece
+	s.Torrent.mu.Lock()
+	defer s.Torrent.mu.Unlock()
 	if s.Torrent.coalesced {
-		s.Torrent.mu.RUnlock()
 		return ErrBlockExists
 	}
-	s.Torrent.mu.RUnlock()
 	piece := s.Torrent.pieces[index]
 	piece.mu.Lock()
 	defer piece.mu.Unlock()
 	if err := piece.putBlock(begin, data); err != nil {
 		return err
 	}
-	s.Torrent.mu.Lock()
-	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
 		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
-- 
2.43.0


From 5b903d273a4a8307a5911c37f9196117e0f74327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 25/66] fix: storage: count completed pieces as downloaded, not
 failed ones or directory sizes

---
 storage/storage.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 217e6aa..5f81140 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,7 +38,8 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	s.downloaded.Store(0)
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -48,7 +49,7 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
+		s.downloaded.Store(s.Torrent.Info.GetLength())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -134,10 +135,12 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 		return err
 	}
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
+	if piece.coalesced {
+		s.downloaded.Add(int64(piece.Length))
+	}
 	if err := s.coalescePieces(); err != nil {
 		return err
 	}
-- 
2.43.0


From f4fc4abc3e9767f917f3f2c423a14a2fe49ac0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 26/66] fix: storage: resetting a failed or complete piece must
 not panic

---
 storage/torrent.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..868c432 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,7 +102,14 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
-	p.err.Deliver(errors.New("storage: piece reset"))
+	if p.coalesced {
+		return
+	}
+	select {
+	case <-p.err.Done:
+	default:
+		p.err.Deliver(errors.New("storage: piece reset"))
+	}
 	p.err = future.New[error]()
 	p.blocks = nil
 	p.completeBlocks = 0
-- 
2.43.0


From 735d353659cba33cf94a57bc963320d489724507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 27/66] fix: storage: on reopening, ignore work files that are
 not whole pieces of the torrent

---
 storage/storage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5f81140..516335a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -60,15 +60,22 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
-				if err != nil {
+				if err != nil || i < 0 || i >= len(s.Torrent.pieces) {
+					continue
+				}
+				piece := s.Torrent.pieces[i]
+				if dr.Name() != piece.FileName() {
 					continue
 				}
 				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
 				if err != nil {
 					return err
 				}
+				if !st.Mode().IsRegular() || st.Size() != int64(piece.Length) {
+					continue
+				}
 				s.downloaded.Add(st.Size())
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				s.Torrent.completePiece(piece)
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
-- 
2.43.0


From ee83cdaeff56681cdb6bd4ddfdc5f8f72b31e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 28/66] fix: storage: refuse torrents whose names escape the
 target directory or collide

---
 storage/storage.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 516335a..d6eaff0 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
@@ -38,6 +39,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if err := checkPaths(s.Torrent.Info); err != nil {
+		return err
+	}
 	s.downloaded.Store(0)
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
@@ -261,6 +265,34 @@ func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	return nil
 }
 
+// checkPaths refuses torrents whose files would not be distinct files below the target directory.
+func checkPaths(info *metainfo.Info) error {
+	if !isPathComponent(info.Name) {
+		return fmt.Errorf("storage: unsafe torrent name: %q", info.Name)
+	}
+	seen := make(map[string]bool)
+	for _, file := range info.Files {
+		if len(file.Path) == 0 {
+			return errors.New("storage: empty file path")
+		}
+		for _, name := range file.Path {
+			if !isPathComponent(name) {
+				return fmt.Errorf("storage: unsafe file path: %q", file.Path)
+			}
+		}
+		path := filepath.Join(file.Path...)
+		if seen[path] {
+			return fmt.Errorf("storage: duplicate file path: %q", file.Path)
+		}
+		seen[path] = true
+	}
+	return nil
+}
+
+func isPathComponent(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\x00"+string(filepath.Separator))
+}
+
 func (s *Storage) coalesceBlocks(piece *Piece) error {
 	if piece.completeBlocks != len(piece.blocks) {
 		return nil
@@ -306,6 +338,9 @@ func (s *Storage) coalescePieces() error {
 		return nil
 	}
 	slog.Debug("coalescePieces", "name", s.Torrent.Info.Name)
+	if err := checkPaths(s.Torrent.Info); err != nil {
+		return err
+	}
 	if len(s.Torrent.Info.Files) > 0 {
 		return s.coalescePiecesForMultiFile()
 	}
-- 
2.43.0


From f43e166a39582222bd283c7b821cb8b3681bf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 29/66] fix: pex: recognise the requester whatever the spelling
 of its address

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..9d4ec3b 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 094874edac60f9f89f346501373ca6738ba92043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 30/66] fix: pex: list the peer id of the latest announce, not
 of the first

---
 pex/http.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index 9d4ec3b..588eb14 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -111,15 +111,14 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	defer torrent.mu.Unlock()
 	peer, ok := torrent.Peers[addr]
 	if !ok {
-		peer = &Peer{
-			tp: &trackerapi.Peer{
-				ID:   string(r.PeerID[:]),
-				IP:   netIP.String(),
-				Port: r.Port,
-			},
-		}
+		peer = &Peer{}
 		torrent.Peers[addr] = peer
 	}
+	peer.tp = &trackerapi.Peer{
+		ID:   string(r.PeerID[:]),
+		IP:   netIP.String(),
+		Port: r.Port,
+	}
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From cbf9c84deca95a4d93fc295960f7039015bdade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 31/66] fix: pex: one IPv6 peer must not break every compact
 answer

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 588eb14..8311ca7 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -126,6 +126,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
 			continue
 		}
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// Only IPv4 addresses have a compact form
+			continue
+		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
-- 
2.43.0


From f4f882768f80bd3f0210ca3ee0f73d235c1357d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 32/66] fix: pex: refuse ports out of range, which break
 compact answers

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 8311ca7..2180b1b 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port <= 0 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From eed7d25f751c3cc11d915a96cad2aa57d71ac7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 33/66] fix: pex: answer unusable remote addresses with a
 failure reason

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 2180b1b..693a90f 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -91,7 +91,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	if r.IP == "" {
 		ip, _, err = net.SplitHostPort(req.RemoteAddr)
 		if err != nil {
-			rw.WriteHeader(http.StatusBadRequest)
+			fail(err)
 			return
 		}
 	} else {
-- 
2.43.0


From 9bb82466a8856d1941fbdea636010c4ccf28ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 34/66] fix: p2p: release the server lock when a connection is
 refused

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..83428d3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From 80590e2d90d9d40908d8f2f44ec9e7384310d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 35/66] fix: p2p: close connections that are refused or fail to
 connect

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..6f8f00d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -164,6 +164,7 @@ func (p *Peer) NotInterest() error {
 
 func (peer *Peer) serve(ctx context.Context) {
 	if err := peer.server.Connect(peer); err != nil {
+		peer.Close()
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
-- 
2.43.0


From 9dc4311ef92ac7f605982017176b6311e4a6b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 36/66] fix: p2p: forget a peer whose connection fails before
 the bitfield is sent

---
 p2p/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/server.go b/p2p/server.go
index 83428d3..354a47e 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -302,6 +302,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 	p2p.activePeers[peer.IDIP()] = peer
 	bf := p2p.Storage.Torrent.Bitfield
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
+		p2p.disconnect(peer)
 		return err
 	}
 	return nil
-- 
2.43.0


From 549291732b7f68e85dec8e52a4ee4af79eb6c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 37/66] fix: p2p: disconnecting an old connection must not
 forget a newer one

---
 p2p/server.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 354a47e..443d03d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -461,13 +461,16 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
-	for addr := range p2p.knownAddrs[peer.IDIP()] {
-		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
-			delete(p2p.knownIDIPs, addr)
+	// The peer may be connected again already, over another connection
+	if p2p.activePeers[peer.IDIP()] == peer {
+		for addr := range p2p.knownAddrs[peer.IDIP()] {
+			if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
+				delete(p2p.knownIDIPs, addr)
+			}
 		}
+		delete(p2p.knownAddrs, peer.IDIP())
+		delete(p2p.activePeers, peer.IDIP())
 	}
-	delete(p2p.knownAddrs, peer.IDIP())
-	delete(p2p.activePeers, peer.IDIP())
 	return peer.Close()
 }
 
-- 
2.43.0


From b9775f2bdb2540cf4a0a3515d960b31d0b24e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 38/66] fix: p2p: guard the table of pieces in flight

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 443d03d..e71c0d4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -402,8 +402,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
-- 
2.43.0


From e1803355d4bb52164eedad1d1b445a0981971be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 39/66] fix: p2p: do not wait for the download queue under the
 server lock, nor for ever

---
 p2p/peer.go   |  2 ++
 p2p/server.go | 25 ++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 6f8f00d..3e1f2ec 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -28,6 +28,7 @@ type Peer struct {
 
 	server     *Server
 	cancel     context.CancelFunc
+	done       <-chan struct{} // closed when the connection ends
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
@@ -163,6 +164,7 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	peer.done = ctx.Done()
 	if err := peer.server.Connect(peer); err != nil {
 		peer.Close()
 		if !errors.Is(err, ErrAlreadyConnected) {
diff --git a/p2p/server.go b/p2p/server.go
index e71c0d4..67a4d18 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -242,8 +242,12 @@ func (p2p *Server) Announce(ctx context.Context) error {
 
 func (p2p *Server) QueuePeer(peer *Peer) bool {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
-	return p2p.queuePeer(peer)
+	ok := p2p.queuePeer(peer)
+	p2p.mu.Unlock()
+	if ok {
+		p2p.enqueue(peer)
+	}
+	return ok
 }
 
 func (p2p *Server) AddPeer(tp *tracker.Peer) error {
@@ -414,7 +418,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			p2p.enqueue(peer)
 		}()
 		return nil
 	}
@@ -423,7 +427,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+			p2p.enqueue(peer)
 		}
 	}()
 	return nil
@@ -456,10 +460,21 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
 	return true
 }
 
+// enqueue hands a peer marked as queued to RequestPieces. It must be called without p2p.mu,
+// and gives up when the connection ends.
+func (p2p *Server) enqueue(peer *Peer) {
+	select {
+	case p2p.downloadQueue <- peer:
+	case <-peer.done:
+		p2p.mu.Lock()
+		delete(p2p.queuedPeers, peer)
+		p2p.mu.Unlock()
+	}
+}
+
 func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
-- 
2.43.0


From 066d12828be5aa12be2bf42f19a704a84f94d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 40/66] fix: p2p: order pieces by their own availability

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 67a4d18..f927f1f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -395,10 +395,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		return peer.NotInterest()
 	}
 	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
+		ni, nj := len(p2p.indexToPeers[pieces[i]]), len(p2p.indexToPeers[pieces[j]])
+		if ni == nj {
 			return rand.Float64() < 0.5
 		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+		return ni < nj
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 67a6204cdeb6a227726cc4dd152433f949c55e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 41/66] fix: p2p: refuse announcements of pieces that do not
 exist

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3e1f2ec..1ed8636 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -226,6 +226,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: piece index out of range: %d", i)
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-- 
2.43.0


From 7188b7fd66358110c0c0c881e83f21dd34c68c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 42/66] fix: p2p: guard the bitfields of the peers and of the
 torrent

---
 p2p/peer.go        | 3 +--
 p2p/server.go      | 5 +++--
 storage/storage.go | 9 +++++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1ed8636..7d9332c 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -229,9 +229,8 @@ func (peer *Peer) HandleHave(i int) error {
 	if i < 0 || i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: piece index out of range: %d", i)
 	}
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Bitfield().Has(i) {
 		peer.server.QueuePeer(peer)
 		return peer.Interest()
 	}
diff --git a/p2p/server.go b/p2p/server.go
index f927f1f..fc2465f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -304,7 +304,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Bitfield()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		p2p.disconnect(peer)
 		return err
@@ -338,6 +338,7 @@ func (p2p *Server) RecordIndex(i int, peer *Peer) {
 		p2p.indexToPeers[i] = m
 	}
 	m[peer] = struct{}{}
+	peer.Bitfield.Add(i)
 }
 
 func (p2p *Server) Downloaded() int64 {
@@ -387,7 +388,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Bitfield()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/storage.go b/storage/storage.go
index d6eaff0..36ffd8d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,10 +9,12 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
+	"github.com/browles/drip/bitfield"
 )
 
 const BLOCK_LENGTH = 1 << 14
@@ -93,6 +95,13 @@ func (s *Storage) Downloaded() int64 {
 	return s.downloaded.Load()
 }
 
+// Bitfield returns a copy of the torrent's bitfield, safe to use while blocks are stored.
+func (s *Storage) Bitfield() bitfield.Bitfield {
+	s.Torrent.mu.RLock()
+	defer s.Torrent.mu.RUnlock()
+	return slices.Clone(s.Torrent.Bitfield)
+}
+
 func (s *Storage) GetPiece(index int) *Piece {
 	return s.Torrent.pieces[index]
 }
-- 
2.43.0


From 32510609fcf70e6f9c5ddcc6de71d808c6f800d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 43/66] fix: p2p: a cancel must not swallow a later request

---
 p2p/peer.go   | 20 +++++++++++++++-----
 p2p/server.go |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 7d9332c..8e81280 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -35,6 +35,7 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
+	pendingRequests  map[blockRequest]int
 	canceledRequests map[blockRequest]struct{}
 }
 
@@ -243,13 +244,19 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	}
 	req := blockRequest{index, begin, length}
 	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
+	peer.pendingRequests[req]++
+	peer.mu.Unlock()
+	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
+	peer.mu.Lock()
+	_, canceled := peer.canceledRequests[req]
+	if peer.pendingRequests[req]--; peer.pendingRequests[req] == 0 {
+		delete(peer.pendingRequests, req)
 		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
 	}
 	peer.mu.Unlock()
-	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
+	if canceled {
+		return nil
+	}
 	if err != nil {
 		return err
 	}
@@ -266,7 +273,10 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 	peer.mu.Lock()
 	defer peer.mu.Unlock()
 	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
+	// A request that has been answered already cannot be cancelled, and later ones are new
+	if peer.pendingRequests[k] > 0 {
+		peer.canceledRequests[k] = struct{}{}
+	}
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index fc2465f..49bf245 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -500,6 +500,7 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
+		pendingRequests:  make(map[blockRequest]int),
 		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
-- 
2.43.0


From aacd0ab44a14ed83380dd431a042b6b3e997d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 44/66] fix: p2p: requests sent while a choke is handled must
 fail with the others

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8e81280..1eeccbc 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -123,6 +123,7 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
+		p.RemoteChoked.Store(true) // before a new request can be sent
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
-- 
2.43.0


From a66ba02717cf0461d66d85b03266812b3bd6e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 45/66] fix: p2p: send choke and interest changes in the order
 they are made

---
 p2p/peer.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1eeccbc..b52de35 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -98,6 +98,23 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+// sendIf sends m if it changes flag from old, in the same order as the changes.
+func (p *Peer) sendIf(flag *atomic.Bool, old bool, m *peerapi.Message) error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if flag.CompareAndSwap(old, !old) {
+		return p.send(m)
+	}
+	return nil
+}
+
+func (p *Peer) send(m *peerapi.Message) error {
+	if m.Type == peerapi.PIECE && p.Choked.Load() {
+		return ErrChoked
+	}
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -138,31 +155,19 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
-	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
-	}
-	return nil
+	return p.sendIf(&p.Choked, false, peerapi.Choke())
 }
 
 func (p *Peer) Unchoke() error {
-	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
-	}
-	return nil
+	return p.sendIf(&p.Choked, true, peerapi.Unchoke())
 }
 
 func (p *Peer) Interest() error {
-	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
-	}
-	return nil
+	return p.sendIf(&p.Interested, false, peerapi.Interested())
 }
 
 func (p *Peer) NotInterest() error {
-	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
-	}
-	return nil
+	return p.sendIf(&p.Interested, true, peerapi.NotInterested())
 }
 
 func (peer *Peer) serve(ctx context.Context) {
-- 
2.43.0


From 28bc9c52267b54113444b777a3e815bcc643e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 46/66] fix: p2p: block peers that disconnected in the meantime
 as well

---
 p2p/peer.go   | 3 ++-
 p2p/server.go | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index b52de35..c198cbc 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -28,7 +28,8 @@ type Peer struct {
 
 	server     *Server
 	cancel     context.CancelFunc
-	done       <-chan struct{} // closed when the connection ends
+	done       <-chan struct{}   // closed when the connection ends
+	addrs      map[addr]struct{} // known addresses, guarded by server.mu
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
diff --git a/p2p/server.go b/p2p/server.go
index 49bf245..7f896ca 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -303,6 +303,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if _, ok := p2p.activePeers[peer.IDIP()]; ok {
 		return ErrAlreadyConnected
 	}
+	peer.addrs = addrs
 	p2p.activePeers[peer.IDIP()] = peer
 	bf := p2p.Storage.Bitfield()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
@@ -323,7 +324,8 @@ func (p2p *Server) Block(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	slog.Debug("Block", "peer", peer.Addr())
-	for addr := range p2p.knownAddrs[peer.IDIP()] {
+	// Not knownAddrs, the connection may be gone already
+	for addr := range peer.addrs {
 		p2p.blockedPeers[addr] = struct{}{}
 	}
 	return p2p.disconnect(peer)
-- 
2.43.0


From 773ecf5fc2b051fb831a8643aeac3b93d91d83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 47/66] fix: p2p: write IPv6 addresses as they are dialled and
 compared

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 7f896ca..ebc62ee 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -353,7 +354,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -530,5 +531,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From cc89f03b4dc4e38046ef9dab9bfad0a60e10b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 48/66] fix: p2p: tell every peer about a new piece, even if
 one cannot be told

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index ebc62ee..35c4776 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -451,7 +451,7 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		}
 		err := p.Send(peerapi.Have(i))
 		if err != nil {
-			return err
+			slog.Error("requestPiece.Send", "err", err)
 		}
 	}
 	return nil
-- 
2.43.0


From e2098d9b6cc77b19bf06611cc1a60b1cfbb471d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 49/66] fix: p2p: announce what is left of multi-file torrents

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..44d4675 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -109,7 +109,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From a39bb005ec1387c1412b05a118d44d3238a9d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 50/66] fix: p2p: close the bodies of tracker responses

---
 p2p/multitracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 44d4675..8fe86eb 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -122,6 +122,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2fb37bd8fa451cdcba9c9db2e82860c9eb70d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 51/66] fix: p2p: accept tracker responses without peers

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 8fe86eb..ae3b05f 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -134,5 +134,8 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
-- 
2.43.0


From dc06a1b7f57cab4f72533c0aed66ec9e0270d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 52/66] fix: p2p: do not panic on announce intervals that are
 missing or absurd

---
 p2p/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 35c4776..ae7fda1 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -115,7 +115,11 @@ func (p2p *Server) Start() error {
 			slog.Error("Start.AddPeer", "err", err)
 		}
 	}
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
+	interval := time.Duration(res.Interval) * time.Second
+	if res.Interval <= 0 || res.Interval > 24*60*60 {
+		interval = 30 * time.Minute
+	}
+	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From c4fc7038221a423c04d2e13fbbc842658ebd12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 53/66] fix: p2p: fail announces when there is no tracker

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index ae3b05f..5f23c9c 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -69,6 +69,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 			slog.Error("get", "err", err)
 		}
 	}
+	if err == nil {
+		err = errors.New("tracker: no trackers")
+	}
 	return
 }
 
-- 
2.43.0


From 32a146e2715e73f7f4f5f053ac35ac969a64522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 54/66] fix: p2p: guard the order of the trackers

---
 p2p/multitracker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 5f23c9c..bf74065 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -17,6 +18,8 @@ import (
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
+
+	mu sync.Mutex // guards the order of the tiers
 }
 
 func NewMultitracker(mi *metainfo.Metainfo, s *Server) *Multitracker {
@@ -59,9 +62,15 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	for _, tier := range mt.TrackerTiers {
-		for j, tracker := range tier {
+		mt.mu.Lock()
+		trackers := slices.Clone(tier)
+		mt.mu.Unlock()
+		for _, tracker := range trackers {
 			res, err = tracker.get(event)
 			if err == nil {
+				mt.mu.Lock()
+				defer mt.mu.Unlock()
+				j := slices.Index(tier, tracker)
 				copy(tier[1:j+1], tier[0:j])
 				tier[0] = tracker
 				return
-- 
2.43.0


From 0772e490a4f68c5f0a5f2e1e2a46eb22bfcf4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 55/66] fix: p2p: keep the query of the announce URL

---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index bf74065..4b8444c 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -129,7 +129,10 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	if url.RawQuery != "" {
+		url.RawQuery += "&"
+	}
+	url.RawQuery += req.Encode()
 	httpRes, err := http.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f8b0c49e512d42c8c7e583622c13bb515e7d78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 56/66] fix: p2p: bound the time a peer may take to accept a
 message

---
 p2p/peer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index c198cbc..51a7cc4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -123,6 +123,8 @@ func (p *Peer) send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
+	// A peer that does not read must not block those waiting to send
+	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
 	return peerapi.Write(p.Conn, m)
 }
 
-- 
2.43.0


From 48741c18ab258befe08d07b9142384bd8c6935fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 57/66] fix: p2p: starting and stopping the server must not
 race

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index ae7fda1..ef91c57 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -88,14 +88,17 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	tcp, err := net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
-	p2p.cancel = cancel
 	defer cancel()
+	p2p.mu.Lock()
+	p2p.tcp = tcp
+	p2p.cancel = cancel
+	p2p.mu.Unlock()
 	eg, ctx := errgroup.WithContext(ctx)
 	go func() {
 		<-ctx.Done()
-- 
2.43.0


From b6311fc22cff21bb2bbd691637e5107ec3b864bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 58/66] fix: serve a finished torrent even if its piece files
 cannot be removed

---
 storage/storage.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 36ffd8d..72e6d78 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -379,11 +379,10 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	// The torrent is in place, even when the piece files cannot be removed
+	err = os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 	s.Torrent.complete()
-	return nil
+	return err
 }
 
 func (s *Storage) coalescePiecesForMultiFile() error {
@@ -419,9 +418,8 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	// The torrent is in place, even when the piece files cannot be removed
+	err = os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 	s.Torrent.complete()
-	return nil
+	return err
 }
-- 
2.43.0


From 4058eb8d910625093a845e9a8430dfa5be204712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 59/66] fix: loading a storage again does not panic

---
 storage/torrent.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/torrent.go b/storage/torrent.go
index 868c432..036b494 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -50,6 +50,9 @@ func (t *Torrent) Wait() error {
 }
 
 func (t *Torrent) completePiece(piece *Piece) {
+	if piece.coalesced {
+		return
+	}
 	piece.coalesced = true
 	piece.err.Deliver(nil)
 	piece.blocks = nil
@@ -58,6 +61,9 @@ func (t *Torrent) completePiece(piece *Piece) {
 }
 
 func (t *Torrent) complete() {
+	if t.coalesced {
+		return
+	}
 	t.coalesced = true
 	t.err.Deliver(nil)
 }
-- 
2.43.0


From ccc41073d75064aec1d427cfc87cc8175c43bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 60/66] fix: dial a listed peer again after its connection
 failed or ended

---
 p2p/server.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index ef91c57..e54a8a6 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -191,6 +191,7 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 				if err := p2p.dialPeer(ctx, tp); err != nil {
 					slog.Error("DialPeers.dialPeer", "err", err)
 				}
+				p2p.forget(tp)
 			}()
 		}
 	}
@@ -271,6 +272,11 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	if _, ok := p2p.blockedPeers[addr]; ok {
 		return nil
 	}
+	if idip, ok := p2p.knownIDIPs[addr]; ok {
+		if _, ok := p2p.activePeers[idip]; ok {
+			return nil
+		}
+	}
 	select {
 	case p2p.newPeerQueue <- tp:
 		p2p.knownPeers[addr] = tp
@@ -279,6 +285,15 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	return nil
 }
 
+// forget lets a peer be added and dialled again, once it is not connected any more.
+func (p2p *Server) forget(tp *tracker.Peer) {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	if addr, err := remoteAddr(tp); err == nil {
+		delete(p2p.knownPeers, addr)
+	}
+}
+
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
-- 
2.43.0


From 477f77b5960c05e6e2f88a0198bc4a3ddafe11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 61/66] fix: keep running when an announce fails

---
 p2p/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index e54a8a6..69c60a4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -542,8 +542,9 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 			return ctx.Err()
 		case <-ticker.C:
 		}
+		// A tracker that fails now may answer the next time
 		if err := f(ctx); err != nil {
-			return err
+			slog.Error("every", "err", err)
 		}
 	}
 }
-- 
2.43.0


From 7c70be0c75412523a2b1418dbd62fd251e190776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 62/66] fix: ignore blocks that were not asked of the peer that
 sends them

---
 p2p/peer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 51a7cc4..b4c06cb 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -136,11 +136,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		p.RemoteChoked.Store(true) // before a new request can be sent
@@ -289,6 +284,15 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
+	// Only what was asked of this peer is stored: it must not spoil the pieces of others. The lock
+	// keeps the request from ending meanwhile.
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	br := blockRequest{index, begin, len(data)}
+	if _, ok := peer.inflightRequests[br]; !ok {
+		return nil
+	}
+	defer peer.completeRequest(&br, nil)
 	err := peer.server.Storage.PutBlock(index, begin, data)
 	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
 		return err
-- 
2.43.0


From f81bea3f8a5dabaeeda8a564bc410aee385b4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 63/66] fix: let others download a piece that a peer failed to
 deliver

---
 p2p/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 69c60a4..5d4be89 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -444,6 +444,13 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 						slog.Error("requestPieceFromPeer.Block", "err", err)
 					}
 				}
+				if !errors.Is(err, ErrChoked) {
+					// Leave the piece to others for a while
+					select {
+					case <-peer.done:
+					case <-time.After(10 * time.Second):
+					}
+				}
 			}
 			p2p.enqueue(peer)
 		}()
-- 
2.43.0


From 4d4f47019620a6b5c4e0482219348990ffeb0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 64/66] fix: do not dial a peer that connected while its
 address was queued

---
 p2p/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 5d4be89..f916c1e 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -395,6 +395,13 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		p2p.mu.Unlock()
 		return nil
 	}
+	// It may have connected to us while it was queued
+	if idip, ok := p2p.knownIDIPs[addr]; ok {
+		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
+			return nil
+		}
+	}
 	p2p.mu.Unlock()
 	peer, err := p2p.dialTCP(tp)
 	if err != nil {
-- 
2.43.0


From b29cc13f501e2358b07a44921a7fdaceeef13d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:16 +0000
Subject: [PATCH 65/66] fix: reading a multi-file torrent whose files were
 changed gives no misplaced data

---
 storage/storage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 72e6d78..c1910b6 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -223,12 +223,14 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 			if err != nil {
 				return nil, err
 			}
-			n, err := f.ReadAt(data[curr:], int64(offset))
+			// Not beyond the file's part of the torrent, and all of that
+			part := data[curr:min(length, curr+int(file.Length)-offset)]
+			n, err := f.ReadAt(part, int64(offset))
 			curr += n
-			if err != nil && !errors.Is(err, io.EOF) {
+			f.Close()
+			if n < len(part) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
-- 
2.43.0


From bb28bf5b02ea120d453736772a3e2d54113123c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 66/66] fix: refuse torrents whose pieces do not make up their
 files

A piece without blocks was waited for for ever, and a piece of absurd length
made the first block of it exhaust the memory.
---
 storage/storage.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index c1910b6..6a411f2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"os"
 	"path/filepath"
 	"slices"
@@ -44,6 +45,9 @@ func (s *Storage) Load() error {
 	if err := checkPaths(s.Torrent.Info); err != nil {
 		return err
 	}
+	if err := checkLengths(s.Torrent.Info); err != nil {
+		return err
+	}
 	s.downloaded.Store(0)
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
@@ -300,6 +304,31 @@ func checkPaths(info *metainfo.Info) error {
 	return nil
 }
 
+// checkLengths refuses torrents whose pieces do not make up their files: they could never be completed.
+func checkLengths(info *metainfo.Info) error {
+	files := info.Files
+	if len(files) == 0 {
+		files = []*metainfo.File{{Length: info.Length}}
+	}
+	var total int64
+	for _, file := range files {
+		if file.Length < 0 || total+file.Length < total {
+			return fmt.Errorf("storage: bad file length: %d", file.Length)
+		}
+		total += file.Length
+	}
+	// Messages have 32 bits for an offset in a piece
+	pieceLength := int64(info.PieceLength)
+	if pieceLength <= 0 || pieceLength > math.MaxUint32 {
+		return fmt.Errorf("storage: bad piece length: %d", pieceLength)
+	}
+	rest := total - int64(len(info.Pieces))*pieceLength
+	if rest > 0 || rest <= -pieceLength {
+		return fmt.Errorf("storage: bad number of pieces: %d", len(info.Pieces))
+	}
+	return nil
+}
+
 func isPathComponent(name string) bool {
 	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\x00"+string(filepath.Separator))
 }
-- 
2.43.0

