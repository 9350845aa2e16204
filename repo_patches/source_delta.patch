From b54d219214cb24338cbe0e69cba6f12fb20092e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 01/20] fix: escape the text returned by MarshalText

The bytes were copied verbatim between double quotes, so a quote, a
backslash or a control character in the text produced invalid JSON.
---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7525b1f..8ec81b8 100644
--- a/encode.go
+++ b/encode.go
@@ -716,13 +716,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 079f91884dac8c6836e2c15f59ecb000dd8962c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 02/20] fix: escape strings twice with the string tag option

The content of a field with the "string" option must be the JSON
encoding of the value. The inner text was escaped only once, so that it
did not decode back to the original string.
---
 encode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 8ec81b8..8e98e1c 100644
--- a/encode.go
+++ b/encode.go
@@ -43,9 +43,16 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	// The content of the JSON string is itself the
+	// JSON encoding of the value, which is why the
+	// bytes of the value have to be escaped twice.
+	buf := cachedBuffer()
+	buf.B = appendEscapedBytes(buf.B, sp2b(p), opts)
+
 	dst = append(dst, `"\"`...)
-	dst = appendEscapedBytes(dst, sp2b(p), opts)
+	dst = appendEscapedBytes(dst, buf.B, opts)
 	dst = append(dst, `\""`...)
+	bufferPool.Put(buf)
 
 	return dst, nil
 }
-- 
2.43.0


From 7039be8176eb3651c036fc84984209e2147edefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 03/20] fix: escape times formatted with a custom layout

A layout or a time zone name that contains a quote, a backslash or a
control character produced invalid JSON.
---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 8e98e1c..34381b1 100644
--- a/encode.go
+++ b/encode.go
@@ -128,8 +128,11 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
+		// The layout and the name of the time zone
+		// can contain any characters.
+		var buf [64]byte
 		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
+		dst = appendEscapedBytes(dst, t.AppendFormat(buf[:0], opts.timeLayout), opts)
 		dst = append(dst, '"')
 		return dst, nil
 	}
-- 
2.43.0


From 0ec2ee13d7451fa87bb148cb0446324be4986682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 04/20] fix: reject json.RawMessage values that are not valid
 JSON

Like the result of MarshalJSON, the content of a raw message must be
validated before its compaction, otherwise an invalid payload is
returned without error.
---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 34381b1..f113426 100644
--- a/encode.go
+++ b/encode.go
@@ -106,6 +106,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From 1f6bfe0f8c7d0b30ad50340afb65e51252b06ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 05/20] fix: do not emit a leading comma after an omitted first
 field

When the first field of a struct is a json.Marshaler that returns null
and has the omitnil option, the separator of the next field was a comma
directly following the opening brace.
---
 encode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index f113426..9f3e7b9 100644
--- a/encode.go
+++ b/encode.go
@@ -253,10 +253,8 @@ fieldLoop:
 			key = f.keyNonEsc
 		}
 		lastKeyOffset := len(dst)
+		lastNxt := nxt
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
 		nxt = ','
 		dst = append(dst, key...)
 
@@ -266,6 +264,7 @@ fieldLoop:
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
 			dst = dst[:lastKeyOffset]
+			nxt = lastNxt
 		}
 	}
 	if nxt == '{' {
-- 
2.43.0


From 3a49469207158bc4b46514e8c10ca8a68ea75308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 06/20] fix: encode nil values of a sync.Map as null

The instruction was looked up for the type of the value even if the
value is a nil interface, which has none, and caused a panic.
---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 9f3e7b9..5f5da47 100644
--- a/encode.go
+++ b/encode.go
@@ -533,7 +533,7 @@ func encodeUnsortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, erro
 		dst = append(dst, ':')
 
 		// Encode the value.
-		if dst, err = appendJSON(dst, value, opts); err != nil {
+		if dst, err = encodeInterface(unsafe.Pointer(&value), dst, opts); err != nil {
 			return false
 		}
 		n++
@@ -573,7 +573,7 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
 		// delimited key/value pair.
-		if buf.B, err = appendJSON(buf.B, value, opts); err != nil {
+		if buf.B, err = encodeInterface(unsafe.Pointer(&value), buf.B, opts); err != nil {
 			return false
 		}
 		kv.keyval = buf.B[off:len(buf.B)]
-- 
2.43.0


From 9bdff1bf4bcecfdb87c6bd492063cf34a19f3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 07/20] fix: encode values stored in interfaces that have
 methods

The value was read with the layout of the empty interface, whose first
word is a type and not a method table, causing a crash for fields or
elements of types such as error or fmt.Stringer.
---
 encode.go      | 12 +++++++++++-
 instruction.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 5f5da47..3680b8d 100644
--- a/encode.go
+++ b/encode.go
@@ -70,7 +70,17 @@ func encodeFloat64(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 }
 
 func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	v := *(*interface{})(p)
+	return appendInterface(dst, *(*interface{})(p), opts)
+}
+
+// encodeMethodInterface is similar to encodeInterface,
+// but for interface types that have methods, which use
+// another memory layout than the empty interface.
+func encodeMethodInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	return appendInterface(dst, *(*interface{ M() })(p), opts)
+}
+
+func appendInterface(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
 	if v == nil {
 		return append(dst, "null"...), nil
 	}
diff --git a/instruction.go b/instruction.go
index 138d7d2..5077d86 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From 2fa14a54b1f95c9934090b024974ffdc341e7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 08/20] fix: handle all pointer-shaped types stored in
 interfaces

Arrays of one pointer-shaped element, functions, channels and unsafe
pointers are also stored directly in the data word of an interface, and
the word of the interface given to the marshaler methods of these types,
as well as of maps and structs with a single pointer-shaped field, must
be the value itself and not its address.
---
 encode.go | 2 +-
 types.go  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 3680b8d..36e7539 100644
--- a/encode.go
+++ b/encode.go
@@ -695,7 +695,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, !canAddr && isInlined(t))
 	}
 	return fn(i, dst, opts, t)
 }
diff --git a/types.go b/types.go
index b4aaab4..52a0dd7 100644
--- a/types.go
+++ b/types.go
@@ -66,12 +66,17 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether the values of type t are
+// pointer-shaped, and therefore stored directly in the
+// data word of an interface.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	default:
 		return false
 	}
-- 
2.43.0


From 19e32349dad90d389bde8d11cfd985ce20a3516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 09/20] fix: do not share the offset sequence of sibling
 embedded structs

Appending to the sequence of the parent could write in the spare
capacity already used by a sibling, so that its fields were read at the
offset of another embedded struct.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From 37e78e4681f776e4e1d60678d676181fb08ca9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 10/20] fix: format the dates of the year 0

The number of seconds is negative for these dates, which resulted in
non-digit characters in the output.
---
 time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/time.go b/time.go
index 892ab6b..cd60196 100644
--- a/time.go
+++ b/time.go
@@ -2,7 +2,11 @@ package jettison
 
 import "time"
 
-const epoch = 62135683200 // 1970-01-01T00:00:00
+// epoch is the number of seconds between the origin
+// of the rata die days, shifted by a 400-years cycle
+// to keep the dates of the year 0 positive, and the
+// Unix epoch (1970-01-01T00:00:00).
+const epoch = 62135683200 + 146097*86400
 
 // DurationFmt represents the format used
 // to encode a time.Duration value.
@@ -181,6 +185,7 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 	_, offset := t.Zone()
 	sec := t.Unix() + int64(offset) + epoch
 	y, m, d := rdnToYmd(uint32(sec / 86400))
+	y -= 400 // cycle included in epoch
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
 		y /= 10
-- 
2.43.0


From 634be86d8cb45a529f299044c05a9a9ab2cbafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 11/20] fix: reject time zone offsets that RFC 3339 cannot
 represent

---
 encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode.go b/encode.go
index 36e7539..5577492 100644
--- a/encode.go
+++ b/encode.go
@@ -137,6 +137,12 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	if opts.flags.has(unixTime) {
 		return strconv.AppendInt(dst, t.Unix(), 10), nil
 	}
+	if opts.timeLayout == time.RFC3339 || opts.timeLayout == time.RFC3339Nano {
+		// See issue golang.org/issue/54580.
+		if _, offset := t.Zone(); offset <= -24*3600 || offset >= 24*3600 {
+			return dst, errors.New("time: timezone hour outside of range [0,23]")
+		}
+	}
 	switch opts.timeLayout {
 	case time.RFC3339:
 		return appendRFC3339Time(t, dst, false), nil
-- 
2.43.0


From e2afdb2eba67378e97dc52772c304a08653bab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 12/20] fix: escape U+2028 and U+2029 with the NoUTF8Coercion
 option

The option only disables the replacement of invalid bytes, these two
characters are escaped unconditionally.
---
 encode.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/encode.go b/encode.go
index 5577492..045c25a 100644
--- a/encode.go
+++ b/encode.go
@@ -895,25 +895,23 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 				at = i
 				continue
 			}
-			// U+2028 is LINE SEPARATOR.
-			// U+2029 is PARAGRAPH SEPARATOR.
-			// They are both technically valid characters in
-			// JSON strings, but don't work in JSONP, which has
-			// to be evaluated as JavaScript, and can lead to
-			// security holes there. It is valid JSON to escape
-			// them, so we do so unconditionally.
-			// See http://timelessrepo.com/json-isnt-a-javascript-subset.
-			if r == '\u2028' || r == '\u2029' {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\u202`...)
-				dst = append(dst, hex[r&0xF])
-				i += size
-				at = i
-				continue
+		}
+		// U+2028 is LINE SEPARATOR.
+		// U+2029 is PARAGRAPH SEPARATOR.
+		// They are both technically valid characters in
+		// JSON strings, but don't work in JSONP, which has
+		// to be evaluated as JavaScript, and can lead to
+		// security holes there. It is valid JSON to escape
+		// them, so we do so unconditionally.
+		// See http://timelessrepo.com/json-isnt-a-javascript-subset.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
 			i += size
+			at = i
 			continue
 		}
 		i += size
-- 
2.43.0


From 0e59d53c47453b33b08cca5062537fb2097572be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 13/20] fix: fields promoted through an embedded pointer are
 addressable

The marshaler methods with a pointer receiver of these fields were
ignored when the outer struct is not addressable itself.
---
 instruction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 5077d86..24b03f5 100644
--- a/instruction.go
+++ b/instruction.go
@@ -316,7 +316,13 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		// A field promoted through an embedded pointer
+		// is always addressable.
+		addr := canAddr
+		for _, s := range f.embedSeq {
+			addr = addr || s.indir
+		}
+		f.instr = newInstruction(ftyp, addr, f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
-- 
2.43.0


From 5a7b38707ff174befc8b69c637875b0375d0b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 14/20] fix: use the AppendJSON methods of byte types in slices
 and arrays

Only MarshalJSON and MarshalText were considered to decide if a slice
or an array of bytes must be encoded element by element.
---
 instruction.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/instruction.go b/instruction.go
index 24b03f5..58aa4fd 100644
--- a/instruction.go
+++ b/instruction.go
@@ -346,10 +346,7 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			isba = true
-		}
+		isba = newMarshalerTypeInstr(etyp, true) == nil
 	}
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeArray(p, dst, opts, ins, size, t.Len(), isba)
@@ -360,8 +357,7 @@ func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if newMarshalerTypeInstr(etyp, true) == nil {
 			return encodeByteSlice
 		}
 	}
-- 
2.43.0


From bf632f9d41780b34edd47cdd293350d478f0d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 15/20] fix: always encode the keys of maps as JSON strings

The generic instruction of the key type was used, so keys of type
time.Time with UnixTime, time.Duration with DurationString, integers
and text marshalers that also implement another marshaler interface,
and nil text marshalers gave an object that is not valid JSON.
---
 encode.go      | 57 ++++++++++++++++++++++++--------------------------
 instruction.go | 49 ++++++++++++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 49 deletions(-)

diff --git a/encode.go b/encode.go
index 045c25a..e5d5b94 100644
--- a/encode.go
+++ b/encode.go
@@ -159,6 +159,15 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	}
 }
 
+// encodeQuotedTime is similar to encodeTime, but always
+// encodes the time as a JSON string.
+func encodeQuotedTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.flags.has(unixTime) {
+		return wrapQuotedInstr(encodeTime)(p, dst, opts)
+	}
+	return encodeTime(p, dst, opts)
+}
+
 // encodeDuration appends the time.Duration value pointed
 // by p to dst based on the format configured in opts.
 func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -183,6 +192,15 @@ func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	}
 }
 
+// encodeQuotedDuration is similar to encodeDuration, but
+// always encodes the duration as a JSON string.
+func encodeQuotedDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.durationFmt != DurationString {
+		return wrapQuotedInstr(encodeDuration)(p, dst, opts)
+	}
+	return encodeDuration(p, dst, opts)
+}
+
 func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	if math.IsInf(f, 0) || math.IsNaN(f) {
 		return dst, &UnsupportedValueError{
@@ -623,39 +641,18 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 		return dst, errors.New("unsupported nil key in sync.Map")
 	}
 	kt := reflect.TypeOf(key)
-	var (
-		isStr = isString(kt)
-		isInt = isInteger(kt)
-		isTxt = kt.Implements(textMarshalerType)
-	)
-	if !isStr && !isInt && !isTxt {
-		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
-	}
-	var err error
 
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
-	}
-	if err != nil {
-		return dst, err
+	ins := newMapKeyInstr(kt)
+	if ins == nil {
+		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	if quoted {
-		dst = append(dst, '"')
+	if isInlined(kt) {
+		ins = wrapInlineInstr(ins)
 	}
-	return dst, nil
+	dst, err := ins(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/instruction.go b/instruction.go
index 58aa4fd..759a8b7 100644
--- a/instruction.go
+++ b/instruction.go
@@ -381,27 +381,9 @@ func newMapInstr(t reflect.Type) instruction {
 	kt := t.Key()
 	et := t.Elem()
 
-	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
+	if ki = newMapKeyInstr(kt); ki == nil {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
 	vi = newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -409,6 +391,35 @@ func newMapInstr(t reflect.Type) instruction {
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode t as
+// the key of a JSON object, which is always a string, or
+// nil if the type cannot be used as a key.
+// The standard library has a strict precedence order
+// for map key types, defined by the documentation of
+// the json.Marshal function. That's why we bypass the
+// newInstruction function.
+func newMapKeyInstr(t reflect.Type) instruction {
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType:
+		return encodeQuotedTime
+	case t == timeDurationType:
+		return encodeQuotedDuration
+	case t.Implements(textMarshalerType):
+		ins := newTextMarshalerInstr(t, false)
+		// See issue golang.org/issue/33675 for reference.
+		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
+			ins = wrapTextMarshalerNilCheck(ins)
+		}
+		return ins
+	case isInteger(t):
+		return newBasicTypeInstr(t, true)
+	default:
+		return nil
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
-- 
2.43.0


From 95007fd2e4fd499cbd3ba9df7bef06f2b799805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 16/20] fix: support recursive slice, map and pointer types

Only struct types were registered while their instruction was being
built, so a type such as "type T []T" overflowed the stack.
---
 instruction.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instruction.go b/instruction.go
index 759a8b7..9ca7142 100644
--- a/instruction.go
+++ b/instruction.go
@@ -104,15 +104,20 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		}
 		return encodeInterface
 	case reflect.Struct:
-		return newStructInstr(t, canAddr)
+		return newRecursiveInstr(t, canAddr, newStructFieldsInstr)
 	case reflect.Map:
-		return newMapInstr(t)
+		return newRecursiveInstr(t, canAddr, newMapInstr)
 	case reflect.Slice:
-		return newSliceInstr(t)
+		return newRecursiveInstr(t, canAddr, newSliceInstr)
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
 	case reflect.Ptr:
-		return newPtrInstr(t, quoted)
+		if quoted {
+			return newPtrInstr(t, quoted)
+		}
+		return newRecursiveInstr(t, canAddr, func(t reflect.Type, _ bool) instruction {
+			return newPtrInstr(t, false)
+		})
 	}
 	return newUnsupportedTypeInstr(t)
 }
@@ -251,7 +256,12 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 	}
 }
 
-func newStructInstr(t reflect.Type, canAddr bool) instruction {
+// newRecursiveInstr returns the instruction generated
+// by the build function for a type that may refer to
+// itself, directly or through other types.
+func newRecursiveInstr(
+	t reflect.Type, canAddr bool, build func(reflect.Type, bool) instruction,
+) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
 	if instr, ok := structInstrCache.Load(id); ok {
@@ -279,7 +289,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = build(t, canAddr)
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
@@ -353,7 +363,7 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	}
 }
 
-func newSliceInstr(t reflect.Type) instruction {
+func newSliceInstr(t reflect.Type, _ bool) instruction {
 	etyp := t.Elem()
 
 	if etyp.Kind() == reflect.Uint8 {
@@ -373,7 +383,7 @@ func newSliceInstr(t reflect.Type) instruction {
 	}
 }
 
-func newMapInstr(t reflect.Type) instruction {
+func newMapInstr(t reflect.Type, _ bool) instruction {
 	var (
 		ki instruction
 		vi instruction
-- 
2.43.0


From 5ed4b1fc9e5851db2f2c6a0770ad4e06fb07604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 17/20] fix: honor the string tag option of numbers and
 durations

The option was ignored for fields of type json.Number and
time.Duration.
---
 instruction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instruction.go b/instruction.go
index 9ca7142..ee479cf 100644
--- a/instruction.go
+++ b/instruction.go
@@ -88,7 +88,7 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// be interpreted as a basic type. Also, the time.Time
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
-	if ins := newGoTypeInstr(t); ins != nil {
+	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -122,15 +122,21 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	return newUnsupportedTypeInstr(t)
 }
 
-func newGoTypeInstr(t reflect.Type) instruction {
+func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 	switch t {
 	case syncMapType:
 		return encodeSyncMap
 	case timeTimeType:
 		return encodeTime
 	case timeDurationType:
+		if quoted {
+			return encodeQuotedDuration
+		}
 		return encodeDuration
 	case jsonNumberType:
+		if quoted {
+			return wrapQuotedInstr(encodeNumber)
+		}
 		return encodeNumber
 	case jsonRawMessageType:
 		return encodeRawMessage
-- 
2.43.0


From e462dd033345ac61dcf9c10a3df113250f1242e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 18/20] fix: apply the time options to pointers to time.Time

The MarshalJSON method of the type was called instead, which ignores
the UnixTime and TimeLayout options.
---
 instruction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index ee479cf..90931e7 100644
--- a/instruction.go
+++ b/instruction.go
@@ -91,6 +91,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	if t.Kind() == reflect.Ptr && newGoTypeInstr(t.Elem(), quoted) != nil {
+		// The pointers to these types have the
+		// methods of their element.
+		return newPtrInstr(t, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
-- 
2.43.0


From 83ed86fc1de3793ef79b3fa17b8aef0cff243e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 19/20] fix: report a benchstat header without unit as invalid

The parser panicked with an index out of range.
---
 tools/benchparse/benchparse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/benchparse/benchparse.go b/tools/benchparse/benchparse.go
index 87f44b8..1801d48 100644
--- a/tools/benchparse/benchparse.go
+++ b/tools/benchparse/benchparse.go
@@ -95,8 +95,11 @@ func parse(scanr *bufio.Scanner) (set, error) {
 			if len(r) != 2 {
 				return nil, fmt.Errorf("invalid header at line %d", i)
 			}
-			s := strings.Split(r[1], " ")[1]
-			unit = strings.Trim(s, "()")
+			s := strings.Split(r[1], " ")
+			if len(s) < 2 {
+				return nil, fmt.Errorf("invalid header at line %d", i)
+			}
+			unit = strings.Trim(s[1], "()")
 			nextIsHdr = false
 			continue
 		}
-- 
2.43.0


From 60bd66d835fd4179bb46b24f65e22d6f01924a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 20/20] fix: accept semicolons in the names of struct tags

encoding/json allows this character since Go 1.17.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 34080c1..3a6c16c 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0

