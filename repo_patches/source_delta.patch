From f8fd648f9e7c3b9e2ce91b906dfb43bc5fe751ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 01/21] fix: escape the text returned by MarshalText

The text was copied between quotes as is, so a quote, a backslash or
a control character in it produced invalid JSON.
---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7525b1f..8ec81b8 100644
--- a/encode.go
+++ b/encode.go
@@ -716,13 +716,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 434312e97c18b592a2f707fb4b74e0ff5e319191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 02/21] fix: escape the inner string of fields with the string
 option

The escape sequences of the inner JSON string were not escaped again,
so decoding the field did not give back a JSON string.
---
 encode.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/encode.go b/encode.go
index 8ec81b8..3dcadab 100644
--- a/encode.go
+++ b/encode.go
@@ -41,10 +41,28 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	return dst, nil
 }
 
+// encodeQuotedString appends the JSON encoding of the
+// JSON string that represents the string pointed by p.
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	dst = append(dst, `"\"`...)
+	off := len(dst)
 	dst = appendEscapedBytes(dst, sp2b(p), opts)
+
+	if !opts.flags.has(noStringEscaping) && bytes.IndexByte(dst[off:], '\\') != -1 {
+		// The escape sequences of the inner string
+		// must be escaped as well. They are the only
+		// source of backslashes, and the other special
+		// characters have already been escaped.
+		inner := append([]byte(nil), dst[off:]...)
+		dst = dst[:off]
+		for _, c := range inner {
+			if c == '\\' || c == '"' {
+				dst = append(dst, '\\')
+			}
+			dst = append(dst, c)
+		}
+	}
 	dst = append(dst, `\""`...)
 
 	return dst, nil
-- 
2.43.0


From bba09bd8b874d9a94d5757d3e88f3f30c7bc30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 03/21] fix: apply the string option to json.Number and
 time.Duration fields

Both are basic kinds that encoding/json puts between quotes, but the
native instructions of these types ignored the option.
---
 instruction.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/instruction.go b/instruction.go
index 138d7d2..c0e1163 100644
--- a/instruction.go
+++ b/instruction.go
@@ -89,6 +89,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
 	if ins := newGoTypeInstr(t); ins != nil {
+		if quoted {
+			return wrapUnquotedInstr(ins)
+		}
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -422,6 +425,23 @@ func wrapQuotedInstr(ins instruction) instruction {
 	}
 }
 
+// wrapUnquotedInstr is similar to wrapQuotedInstr, but
+// does not add the quotes if ins encodes to a JSON string.
+func wrapUnquotedInstr(ins instruction) instruction {
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		off := len(dst)
+		dst, err := ins(p, dst, opts)
+		if err != nil || len(dst) == off || dst[off] == '"' {
+			return dst, err
+		}
+		dst = append(dst, `""`...)
+		copy(dst[off+1:], dst[off:len(dst)-2])
+		dst[off], dst[len(dst)-1] = '"', '"'
+
+		return dst, nil
+	}
+}
+
 func wrapTextMarshalerNilCheck(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		if *(*unsafe.Pointer)(p) == nil {
-- 
2.43.0


From a4d28fec69630e5b7c8db6259070fedb496926b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 04/21] fix: encode values of interface types that have methods

They were read with the memory layout of the empty interface, so the
interface table was taken for a type and the process crashed.
---
 encode.go      | 12 +++++++++++-
 instruction.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 3dcadab..a44028a 100644
--- a/encode.go
+++ b/encode.go
@@ -81,7 +81,17 @@ func encodeFloat64(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 }
 
 func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	v := *(*interface{})(p)
+	return encodeInterfaceElem(*(*interface{})(p), dst, opts)
+}
+
+// encodeMethodInterface is similar to encodeInterface, but
+// for interface types that have methods, which don't share
+// the memory layout of the empty interface.
+func encodeMethodInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	return encodeInterfaceElem(*(*interface{ M() })(p), dst, opts)
+}
+
+func encodeInterfaceElem(v interface{}, dst []byte, opts encOpts) ([]byte, error) {
 	if v == nil {
 		return append(dst, "null"...), nil
 	}
diff --git a/instruction.go b/instruction.go
index c0e1163..ecb5fd4 100644
--- a/instruction.go
+++ b/instruction.go
@@ -102,6 +102,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From 06ec6ec552c298cdfac5ea657fadd2c7bf0ea356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 05/21] fix: handle all types stored directly in interfaces

Arrays of length one with a pointer-shaped element were not recognized
as such, and the interface given to the methods of maps, channels,
functions, and structs or arrays with one pointer-shaped element held
the address of the value instead of the value.
---
 encode.go | 2 +-
 types.go  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index a44028a..f84ce1c 100644
--- a/encode.go
+++ b/encode.go
@@ -699,7 +699,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, !canAddr && isInlined(t))
 	}
 	return fn(i, dst, opts, t)
 }
diff --git a/types.go b/types.go
index b4aaab4..6b6fb2a 100644
--- a/types.go
+++ b/types.go
@@ -66,12 +66,16 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether a value of type t is stored
+// directly in the data word of an interface.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	default:
 		return false
 	}
-- 
2.43.0


From dc6bde883b15cf7793563d94833d18633438abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 06/21] fix: do not share offset sequences between embedded
 structs

Sibling structs embedded at the same depth appended their offset to the
same backing array, so the fields of the first were read at the offset
of the second.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From 513105f85fde7c10e4871b58423fdaeaa803e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 07/21] fix: treat fields behind embedded pointers as
 addressable

The methods with a pointer receiver of such fields were not called when
the outer struct itself was not addressable.
---
 instruction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index ecb5fd4..b11ac1d 100644
--- a/instruction.go
+++ b/instruction.go
@@ -316,10 +316,16 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 			// eliminate a check at runtime.
 			f.omitNil = false
 		}
+		// A field reached through an embedded pointer
+		// is always addressable.
+		fldAddr := canAddr
+		for _, s := range f.embedSeq {
+			fldAddr = fldAddr || s.indir
+		}
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		f.instr = newInstruction(ftyp, fldAddr, f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
-- 
2.43.0


From bed335ec04515590e55f064f7a308576c32c1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 08/21] fix: encode map keys by kind or MarshalText only

Keys that also implement another marshaler interface, and durations and
times under some options, were encoded with their general instruction,
which gave members without quotes or with nested quotes, and a nil
pointer key of a sync.Map was encoded as a null literal.
---
 encode.go      | 38 ++++++++------------------------------
 instruction.go | 49 ++++++++++++++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 49 deletions(-)

diff --git a/encode.go b/encode.go
index f84ce1c..55b0ae4 100644
--- a/encode.go
+++ b/encode.go
@@ -621,39 +621,17 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 		return dst, errors.New("unsupported nil key in sync.Map")
 	}
 	kt := reflect.TypeOf(key)
-	var (
-		isStr = isString(kt)
-		isInt = isInteger(kt)
-		isTxt = kt.Implements(textMarshalerType)
-	)
-	if !isStr && !isInt && !isTxt {
+	ki := newMapKeyInstr(kt)
+	if ki == nil {
 		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	var err error
-
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
+	if isInlined(kt) {
+		ki = wrapInlineInstr(ki)
 	}
-	if err != nil {
-		return dst, err
-	}
-	if quoted {
-		dst = append(dst, '"')
-	}
-	return dst, nil
+	dst, err := ki(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/instruction.go b/instruction.go
index b11ac1d..c2a4c4b 100644
--- a/instruction.go
+++ b/instruction.go
@@ -388,27 +388,9 @@ func newMapInstr(t reflect.Type) instruction {
 	kt := t.Key()
 	et := t.Elem()
 
-	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
+	if ki = newMapKeyInstr(kt); ki == nil {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
 	vi = newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -416,6 +398,35 @@ func newMapInstr(t reflect.Type) instruction {
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode a map
+// key of type t as a JSON string, or nil if the type is
+// not supported.
+// The standard library has a strict precedence order for
+// map key types, defined by the documentation of the
+// json.Marshal function, that only considers the kind of
+// the type and the encoding.TextMarshaler interface.
+func newMapKeyInstr(t reflect.Type) instruction {
+	var ins instruction
+
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType || t == timeDurationType:
+		return wrapUnquotedInstr(newGoTypeInstr(t))
+	case t.Implements(textMarshalerType):
+		ins = newTextMarshalerInstr(t, false)
+	case isInteger(t):
+		return newBasicTypeInstr(t, true)
+	default:
+		return nil
+	}
+	// See issue golang.org/issue/33675 for reference.
+	if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
+		ins = wrapTextMarshalerNilCheck(ins)
+	}
+	return ins
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
-- 
2.43.0


From 02daf81808d349f2f8476fcf40df1ca9e991bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 09/21] fix: encode nil values of a sync.Map as null

They caused a nil pointer dereference.
---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 337396f..df3513b 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,9 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0


From d7c72721446f5ef91ad140ee4334ca4cf6b1e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 10/21] fix: sort map entries by their unescaped keys

The order was that of the escaped keys, so keys with a character that
needs escaping were misplaced.
---
 encode.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/encode.go b/encode.go
index 55b0ae4..593612b 100644
--- a/encode.go
+++ b/encode.go
@@ -453,16 +453,25 @@ func encodeSortedMap(
 	} else {
 		mel = &mapElems{s: make([]kv, 0, ml)}
 	}
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	for ; it.key != nil; mapiternext(it) {
 		kv := kv{}
 
-		// Encode the key and store the buffer
-		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		// Encode the unescaped key and store the
+		// buffer portion to use during sort.
+		if buf.B, err = ki(it.key, buf.B, keyOpts); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
+
+		// Encode the final key.
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"')
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
@@ -570,16 +579,25 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	} else {
 		mel = &mapElems{s: make([]kv, 0)}
 	}
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	sm.Range(func(key, value interface{}) bool {
 		kv := kv{}
 
-		// Encode the key and store the buffer
-		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		// Encode the unescaped key and store the
+		// buffer portion to use during the later sort.
+		if buf.B, err = appendSyncMapKey(buf.B, key, keyOpts); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
+
+		// Encode the final key.
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"')
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
-- 
2.43.0


From aa13504d5c4aa02f4bf184fa7af7c57b620a40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 11/21] fix: reject invalid json.RawMessage values

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 593612b..ae88af6 100644
--- a/encode.go
+++ b/encode.go
@@ -127,6 +127,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From cd06dd970d758216eaa90ce72d1ad27d815596fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 12/21] fix: allow semicolons in the names of field tags

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 34080c1..3a6c16c 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From a67eba9ec86dbd1105cecaac2474eaae857463fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 13/21] fix: keep the separators valid when the first fields
 are omitted as null

---
 encode.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index ae88af6..fd238df 100644
--- a/encode.go
+++ b/encode.go
@@ -272,19 +272,18 @@ fieldLoop:
 		}
 		lastKeyOffset := len(dst)
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
-		nxt = ','
 		dst = append(dst, key...)
+		valueOffset := len(dst)
 
 		var err error
 		if dst, err = f.instr(fp, dst, opts); err != nil {
 			return dst, err
 		}
-		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
+		if f.omitNullMarshaler && len(dst) == valueOffset+4 && string(dst[valueOffset:]) == "null" {
 			dst = dst[:lastKeyOffset]
+			continue
 		}
+		nxt = ','
 	}
 	if nxt == '{' {
 		return append(dst, "{}"...), nil
-- 
2.43.0


From 339c09fa7e0f49739a3948ac6e560fef5c19b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 14/21] fix: format RFC 3339 times of year zero and very large
 zone offsets

---
 time.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/time.go b/time.go
index 892ab6b..c9da03d 100644
--- a/time.go
+++ b/time.go
@@ -180,6 +180,18 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 	// Year.
 	_, offset := t.Zone()
 	sec := t.Unix() + int64(offset) + epoch
+	if sec < 0 || offset/60 <= -100*60 || offset/60 >= 100*60 {
+		// The algorithms used below don't support the
+		// year zero, nor the zone offsets whose hours
+		// have more than two digits.
+		layout := time.RFC3339
+		if nano {
+			layout = time.RFC3339Nano
+		}
+		dst = append(dst, '"')
+		dst = t.AppendFormat(dst, layout)
+		return append(dst, '"')
+	}
 	y, m, d := rdnToYmd(uint32(sec / 86400))
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
-- 
2.43.0


From 068c857d8a789f77964a57dd23f45019cff294ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 15/21] fix: do not overflow the stack on recursive types
 without structs

---
 instruction.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/instruction.go b/instruction.go
index c2a4c4b..6f9dbff 100644
--- a/instruction.go
+++ b/instruction.go
@@ -100,6 +100,15 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newBasicTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	// The types that can be recursive by themselves are
+	// always named, except for the structs, which may be
+	// part of a cycle formed by any other type.
+	if t.Name() != "" && !quoted {
+		switch t.Kind() {
+		case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+			return newRecursiveInstr(t, canAddr, newCompositeInstr)
+		}
+	}
 	switch t.Kind() {
 	case reflect.Interface:
 		if t.NumMethod() != 0 {
@@ -108,6 +117,16 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
+	case reflect.Ptr:
+		return newPtrInstr(t, quoted)
+	}
+	return newCompositeInstr(t, canAddr)
+}
+
+// newCompositeInstr returns an instruction to encode a
+// value of a composite type other than a struct.
+func newCompositeInstr(t reflect.Type, canAddr bool) instruction {
+	switch t.Kind() {
 	case reflect.Map:
 		return newMapInstr(t)
 	case reflect.Slice:
@@ -115,7 +134,7 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
 	case reflect.Ptr:
-		return newPtrInstr(t, quoted)
+		return newPtrInstr(t, false)
 	}
 	return newUnsupportedTypeInstr(t)
 }
@@ -255,6 +274,14 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 }
 
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
+	return newRecursiveInstr(t, canAddr, newStructFieldsInstr)
+}
+
+// newRecursiveInstr returns the instruction created by fn
+// for the type t, which may refer to itself.
+func newRecursiveInstr(
+	t reflect.Type, canAddr bool, fn func(reflect.Type, bool) instruction,
+) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
 	if instr, ok := structInstrCache.Load(id); ok {
@@ -282,7 +309,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = fn(t, canAddr)
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
-- 
2.43.0


From caf92269cbc5262a95a1f77404e9263074956bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 16/21] fix: return an error for values that contain themselves

---
 encode.go      | 70 +++++++++++++++++++++++++++++++++++++++++++++++---
 instruction.go |  4 +--
 options.go     |  5 ++++
 3 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/encode.go b/encode.go
index fd238df..08af000 100644
--- a/encode.go
+++ b/encode.go
@@ -215,9 +215,61 @@ func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	return dst, nil
 }
 
-func encodePointer(p unsafe.Pointer, dst []byte, opts encOpts, ins instruction) ([]byte, error) {
+// startDetectCyclesAfter is the number of pointers,
+// maps and slices nested in each other after which
+// they are checked for cycles.
+const startDetectCyclesAfter = 1000
+
+// ptrKey identifies a pointer, map or slice.
+type ptrKey struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+// enterPointer records that the encoding of the pointer,
+// map or slice value of type t stored at v has started.
+// It returns an error if the value contains itself. The
+// function exitPointer must be called when it is done.
+func enterPointer(opts *encOpts, t reflect.Type, v, ptr unsafe.Pointer, len int) error {
+	if opts.ptrLevel++; opts.ptrLevel <= startDetectCyclesAfter {
+		return nil
+	}
+	if opts.ptrSeen == nil {
+		opts.ptrSeen = make(map[ptrKey]struct{})
+	}
+	k := ptrKey{t, ptr, len}
+	if _, ok := opts.ptrSeen[k]; ok {
+		// The value must be copied, because v may
+		// not point to the heap.
+		rv := reflect.New(t).Elem()
+		rv.Set(reflect.NewAt(t, v).Elem())
+
+		return &UnsupportedValueError{
+			rv,
+			fmt.Sprintf("encountered a cycle via %s", t),
+		}
+	}
+	opts.ptrSeen[k] = struct{}{}
+
+	return nil
+}
+
+func exitPointer(opts *encOpts, t reflect.Type, ptr unsafe.Pointer, len int) {
+	if opts.ptrLevel > startDetectCyclesAfter {
+		delete(opts.ptrSeen, ptrKey{t, ptr, len})
+	}
+}
+
+func encodePointer(p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction) ([]byte, error) {
+	v := p
 	if p = *(*unsafe.Pointer)(p); p != nil {
-		return ins(p, dst, opts)
+		if err := enterPointer(&opts, t, v, p, 0); err != nil {
+			return dst, err
+		}
+		dst, err := ins(p, dst, opts)
+		exitPointer(&opts, t, p, 0)
+		return dst, err
 	}
 	return append(dst, "null"...), nil
 }
@@ -292,7 +344,7 @@ fieldLoop:
 }
 
 func encodeSlice(
-	p unsafe.Pointer, dst []byte, opts encOpts, ins instruction, es uintptr,
+	p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction, es uintptr,
 ) ([]byte, error) {
 	shdr := (*sliceHeader)(p)
 	if shdr.Data == nil {
@@ -304,7 +356,13 @@ func encodeSlice(
 	if shdr.Len == 0 {
 		return append(dst, "[]"...), nil
 	}
-	return encodeArray(shdr.Data, dst, opts, ins, es, shdr.Len, false)
+	if err := enterPointer(&opts, t, p, shdr.Data, shdr.Len); err != nil {
+		return dst, err
+	}
+	dst, err := encodeArray(shdr.Data, dst, opts, ins, es, shdr.Len, false)
+	exitPointer(&opts, t, shdr.Data, shdr.Len)
+
+	return dst, err
 }
 
 // encodeByteSlice appends a byte slice to dst as
@@ -392,6 +450,9 @@ func encodeMap(
 	if ml == 0 {
 		return append(dst, "{}"...), nil
 	}
+	if err := enterPointer(&opts, t, p, m, 0); err != nil {
+		return dst, err
+	}
 	dst = append(dst, '{')
 
 	rt := unpackEface(t).word
@@ -404,6 +465,7 @@ func encodeMap(
 		dst, err = encodeSortedMap(it, dst, opts, ki, vi, ml)
 	}
 	hiterPool.Put(it)
+	exitPointer(&opts, t, m, 0)
 
 	if err != nil {
 		return dst, err
diff --git a/instruction.go b/instruction.go
index 6f9dbff..1a1cf0e 100644
--- a/instruction.go
+++ b/instruction.go
@@ -245,7 +245,7 @@ func newPtrInstr(t reflect.Type, quoted bool) instruction {
 	e := t.Elem()
 	i := newInstruction(e, true, quoted)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodePointer(p, dst, opts, i)
+		return encodePointer(p, dst, opts, t, i)
 	}
 }
 
@@ -403,7 +403,7 @@ func newSliceInstr(t reflect.Type) instruction {
 		size = etyp.Size()
 	)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodeSlice(p, dst, opts, ins, size)
+		return encodeSlice(p, dst, opts, t, ins, size)
 	}
 }
 
diff --git a/options.go b/options.go
index f9e69c7..41d8434 100644
--- a/options.go
+++ b/options.go
@@ -46,6 +46,11 @@ type encOpts struct {
 	flags       bitmask
 	allowList   stringSet
 	denyList    stringSet
+
+	// ptrLevel and ptrSeen keep track of the pointers,
+	// maps and slices being encoded to detect cycles.
+	ptrLevel uint
+	ptrSeen  map[ptrKey]struct{}
 }
 
 func defaultEncOpts() encOpts {
-- 
2.43.0


From 429d52ce10d5cf0aee59fc182e7ebc23d1b36331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 17/21] fix: escape the text of times formatted with a custom
 layout

---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 08af000..a0a75aa 100644
--- a/encode.go
+++ b/encode.go
@@ -154,8 +154,12 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
+		// The layout and the name of the location
+		// may contain any character.
+		var buf [64]byte
+		b := t.AppendFormat(buf[:0], opts.timeLayout)
 		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
+		dst = appendEscapedBytes(dst, b, opts)
 		dst = append(dst, '"')
 		return dst, nil
 	}
-- 
2.43.0


From 83450e94e7e2d22f5d45215e630e9f82579f5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 18/21] fix: do not encode elements with an append method as
 bytes

---
 instruction.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/instruction.go b/instruction.go
index 1a1cf0e..6754daf 100644
--- a/instruction.go
+++ b/instruction.go
@@ -376,10 +376,7 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			isba = true
-		}
+		isba = newMarshalerTypeInstr(etyp, true) == nil
 	}
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeArray(p, dst, opts, ins, size, t.Len(), isba)
@@ -390,8 +387,7 @@ func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if newMarshalerTypeInstr(etyp, true) == nil {
 			return encodeByteSlice
 		}
 	}
-- 
2.43.0


From 0a403fa38d6b75fa6a7c819331b75b40b7307773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 19/21] fix: escape line separators with NoUTF8Coercion too

---
 encode.go | 52 ++++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/encode.go b/encode.go
index a0a75aa..3185eda 100644
--- a/encode.go
+++ b/encode.go
@@ -947,37 +947,33 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 		}
 		r, size := utf8.DecodeRune(b[i:])
 
-		if !noCoerce {
-			// Coerce to valid UTF-8, by replacing invalid
-			// bytes with the Unicode replacement rune.
-			if r == utf8.RuneError && size == 1 {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\ufffd`...)
-				i += size
-				at = i
-				continue
+		// Coerce to valid UTF-8, by replacing invalid
+		// bytes with the Unicode replacement rune.
+		if !noCoerce && r == utf8.RuneError && size == 1 {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
-			// U+2028 is LINE SEPARATOR.
-			// U+2029 is PARAGRAPH SEPARATOR.
-			// They are both technically valid characters in
-			// JSON strings, but don't work in JSONP, which has
-			// to be evaluated as JavaScript, and can lead to
-			// security holes there. It is valid JSON to escape
-			// them, so we do so unconditionally.
-			// See http://timelessrepo.com/json-isnt-a-javascript-subset.
-			if r == '\u2028' || r == '\u2029' {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\u202`...)
-				dst = append(dst, hex[r&0xF])
-				i += size
-				at = i
-				continue
+			dst = append(dst, `\ufffd`...)
+			i += size
+			at = i
+			continue
+		}
+		// U+2028 is LINE SEPARATOR.
+		// U+2029 is PARAGRAPH SEPARATOR.
+		// They are both technically valid characters in
+		// JSON strings, but don't work in JSONP, which has
+		// to be evaluated as JavaScript, and can lead to
+		// security holes there. It is valid JSON to escape
+		// them, so we do so unconditionally.
+		// See http://timelessrepo.com/json-isnt-a-javascript-subset.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
 			i += size
+			at = i
 			continue
 		}
 		i += size
-- 
2.43.0


From 39bbdaf692a03d76bb64ced29601afa620b2fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 20/21] fix: apply the time options to pointers to time.Time

---
 instruction.go | 7 +++++++
 types.go       | 1 +
 2 files changed, 8 insertions(+)

diff --git a/instruction.go b/instruction.go
index 6754daf..e6920bc 100644
--- a/instruction.go
+++ b/instruction.go
@@ -94,6 +94,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		}
 		return ins
 	}
+	// A pointer to time.Time also implements interfaces
+	// that must not be used.
+	if t == timeTimePtrType {
+		return newPtrInstr(t, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
@@ -436,6 +441,8 @@ func newMapKeyInstr(t reflect.Type) instruction {
 		return encodeString
 	case t == timeTimeType || t == timeDurationType:
 		return wrapUnquotedInstr(newGoTypeInstr(t))
+	case t == timeTimePtrType:
+		ins = wrapUnquotedInstr(newPtrInstr(t, false))
 	case t.Implements(textMarshalerType):
 		ins = newTextMarshalerInstr(t, false)
 	case isInteger(t):
diff --git a/types.go b/types.go
index 6b6fb2a..365bff0 100644
--- a/types.go
+++ b/types.go
@@ -11,6 +11,7 @@ import (
 
 var (
 	timeTimeType           = reflect.TypeOf(time.Time{})
+	timeTimePtrType        = reflect.TypeOf((*time.Time)(nil))
 	timeDurationType       = reflect.TypeOf(time.Duration(0))
 	syncMapType            = reflect.TypeOf((*sync.Map)(nil)).Elem()
 	jsonNumberType         = reflect.TypeOf(json.Number(""))
-- 
2.43.0


From be7eacf2a46fd259b6223f08266929c00d30aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 21/21] verif: add scheduling points for the runtime monitors

---
 instruction.go |  5 +++++
 struct.go      |  1 +
 verif_off.go   |  7 +++++++
 verif_on.go    | 14 ++++++++++++++
 4 files changed, 27 insertions(+)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/instruction.go b/instruction.go
index e6920bc..b7c166f 100644
--- a/instruction.go
+++ b/instruction.go
@@ -36,6 +36,7 @@ func cachedInstr(t reflect.Type) instruction {
 	if instr, ok := loadInstr(id); ok {
 		return instr
 	}
+	verifPoint("instr-miss")
 	canAddr := t.Kind() == reflect.Ptr
 
 	// canAddr indicates if the input value is addressable.
@@ -71,6 +72,7 @@ func storeInstr(key unsafe.Pointer, instr instruction, cache instrCache) {
 		newCache[k] = v
 	}
 	newCache[key] = instr
+	verifPoint("instr-publish")
 
 	atomic.StorePointer(
 		&instrCachePtr,
@@ -314,8 +316,11 @@ func newRecursiveInstr(
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
+	verifPoint("build-start")
 	ins = fn(t, canAddr)
+	verifPoint("build-done")
 	wg.Done()
+	verifPoint("build-release")
 	structInstrCache.Store(id, ins)
 
 	return ins
diff --git a/struct.go b/struct.go
index 3a6c16c..525f022 100644
--- a/struct.go
+++ b/struct.go
@@ -65,6 +65,7 @@ func cachedFields(t reflect.Type) []field {
 	if f, ok := fieldsCache.Load(t); ok {
 		return f.([]field)
 	}
+	verifPoint("fields-miss")
 	f, _ := fieldsCache.LoadOrStore(t, structFields(t))
 	return f.([]field)
 }
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..c47949a
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package jettison
+
+// verifPoint marks a point of interest for the runtime
+// monitors. It does nothing in regular builds.
+func verifPoint(string) {}
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..bfc1c62
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package jettison
+
+// VerifHook, when set, is called at the points of interest
+// of the runtime monitors. It must be set before any other
+// use of the package.
+var VerifHook func(point string)
+
+func verifPoint(point string) {
+	if VerifHook != nil {
+		VerifHook(point)
+	}
+}
-- 
2.43.0

