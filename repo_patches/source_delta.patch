From 81557396d95aaa6774dd07a9d1874cc37955e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:50 +0000
Subject: [PATCH 01/24] fix: reject non-string object keys when decoding into a
 map

---
 val_decoder_native_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..a489a64 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,14 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		// the object key must be a string, whatever the key decoder accepts
+		c, err = it.nextToken()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
-- 
2.43.0


From 4c8729afe6deaead625686cc50f92c6fa32583d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 02/24] fix: pass the field name as the folding pattern in the
 one field struct decoder

---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From da353a125b0161c0516e3941cb9f1428d50731d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 03/24] fix: do not call a nil empty check for omitempty
 marshalers of kind string

---
 is_empty.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..2c4b9a0 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -37,9 +37,21 @@ func init() {
 	isEmptyFunctions[reflect.Float32] = (*float32Encoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Float64] = (*float64Encoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Array] = (*arrayEncoder)(nil).IsEmpty
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Map] = (*directMapEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Slice] = (*sliceEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Struct] = (*structEncoder)(nil).IsEmpty
 	// Interface
 	// Ptr
+
+	// the other kinds have no empty value
+	for kind := range isEmptyFunctions {
+		if isEmptyFunctions[kind] == nil {
+			isEmptyFunctions[kind] = neverEmpty
+		}
+	}
+}
+
+func neverEmpty(unsafe.Pointer) bool {
+	return false
 }
-- 
2.43.0


From 481ed109acc48bd272a6cc2b28e9b662a64ffd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 04/24] fix: encode interface types which embed a marshaler by
 their dynamic type

---
 encoder_config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..edd1ee2 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -148,7 +148,8 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		kind := typ.Kind()
 
 		// check json.Marshaler interface
-		if typ.Implements(jsonMarshalerType) {
+		// (the value of an interface type is encoded by its dynamic type)
+		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -183,7 +184,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		// check encoding.TextMarshaler interface
-		if typ.Implements(textMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
-- 
2.43.0


From 1ccab082e2e4acfbf8f11ec3253e9b3f31c4dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:29 +0000
Subject: [PATCH 05/24] fix: encode a nil pointer to encoding.TextMarshaler as
 null

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From a3e581a9e591c5cda4c5e3d2354f539e37406b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:53 +0000
Subject: [PATCH 06/24] fix: encode a nil json.RawMessage as null

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From 09c5f9100b7b47fb2386304ce84204e448614de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 07/24] fix: do not split a number when reading an integer from
 it

---
 iterator_int.go   | 19 +++++++++++++++++++
 iterator_int16.go |  4 ++--
 iterator_int32.go |  4 ++--
 iterator_int64.go |  4 ++--
 iterator_int8.go  | 19 +++++++++++++++----
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/iterator_int.go b/iterator_int.go
index f7c6d15..f26581f 100644
--- a/iterator_int.go
+++ b/iterator_int.go
@@ -1,6 +1,7 @@
 package jzon
 
 import (
+	"io"
 	"strconv"
 )
 
@@ -21,6 +22,24 @@ func init() {
 	}
 }
 
+// the digits of the integer have been consumed, make sure that the number
+// ends here as well: a fraction or an exponent is part of the same number,
+// which is then not an integer
+func (it *Iterator) expectIntEnd() error {
+	c, err := it.nextByte()
+	if err != nil {
+		if err == io.EOF {
+			return nil
+		}
+		return err
+	}
+	switch floatDigits[c] {
+	case dotInNumber, expInNumber:
+		return InvalidDigitError{c: c}
+	}
+	return nil
+}
+
 // ReadInt reads an int value
 func (it *Iterator) ReadInt() (int, error) {
 	if strconv.IntSize == 32 {
diff --git a/iterator_int16.go b/iterator_int16.go
index 391fbf0..e348053 100644
--- a/iterator_int16.go
+++ b/iterator_int16.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint16() (uint16, error) {
 func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint16Div10NumDigits {
 				if ret > maxUint16Div10 ||
diff --git a/iterator_int32.go b/iterator_int32.go
index dbd0135..a333b23 100644
--- a/iterator_int32.go
+++ b/iterator_int32.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint32() (uint32, error) {
 func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint32Div10NumDigits {
 				if ret > maxUint32Div10 ||
diff --git a/iterator_int64.go b/iterator_int64.go
index 62f9faf..424d63d 100644
--- a/iterator_int64.go
+++ b/iterator_int64.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint64() (uint64, error) {
 func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -39,7 +39,7 @@ func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint64Div10NumDigits {
 				if ret > maxUint64Div10 ||
diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..51ec2d3 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -24,7 +24,7 @@ func (it *Iterator) ReadUint8() (uint8, error) {
 func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -40,7 +40,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // second digit
 	if u == invalidDigit {
-		return
+		return ret, it.expectIntEnd()
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
 	it.head++
@@ -54,7 +54,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // third digit
 	if u == invalidDigit {
-		return
+		return ret, it.expectIntEnd()
 	}
 	it.head++
 	if ret > maxUint8Div10 ||
@@ -63,7 +63,18 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
-	return
+	c, err = it.nextByte() // there must be no fourth digit
+	if err != nil {
+		if err == io.EOF {
+			err = nil
+		}
+		return
+	}
+	if intDigits[c] != invalidDigit {
+		err = IntOverflowError{}
+		return
+	}
+	return ret, it.expectIntEnd()
 }
 
 func (it *Iterator) readInt8(c byte) (int8, error) {
-- 
2.43.0


From 382463e253c820e3e97f2ebf4475a3d166a6e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:04 +0000
Subject: [PATCH 08/24] fix: honor the string option on float fields

---
 iterator_float32.go         | 20 ++++++++------
 streamer_float.go           | 24 +++++++++++++++++
 val_decoder_native_float.go | 52 ++++++++++++++++++++++++++++++++++---
 val_encoder_native_float.go | 12 +++++++--
 4 files changed, 94 insertions(+), 14 deletions(-)

diff --git a/iterator_float32.go b/iterator_float32.go
index b38ac2a..22f0c05 100644
--- a/iterator_float32.go
+++ b/iterator_float32.go
@@ -5,15 +5,9 @@ import (
 	"strconv"
 )
 
-// ReadFloat32 reads a float32 value
-func (it *Iterator) ReadFloat32() (float32, error) {
-	c, err := it.nextToken()
-	if err != nil {
-		return 0, err
-	}
-	it.head++
+func (it *Iterator) readFloat32(c byte) (float32, error) {
 	if c == '-' {
-		c, err = it.nextByte()
+		c, err := it.nextByte()
 		if err != nil {
 			return 0, err
 		}
@@ -27,6 +21,16 @@ func (it *Iterator) ReadFloat32() (float32, error) {
 	return f, err
 }
 
+// ReadFloat32 reads a float32 value
+func (it *Iterator) ReadFloat32() (float32, error) {
+	c, err := it.nextToken()
+	if err != nil {
+		return 0, err
+	}
+	it.head++
+	return it.readFloat32(c)
+}
+
 func (it *Iterator) parseFloat32(buf []byte) (ret float32, err error) {
 	f, err := strconv.ParseFloat(localByteToString(buf), 32)
 	return float32(f), err
diff --git a/streamer_float.go b/streamer_float.go
index fcecf45..0e25d0c 100644
--- a/streamer_float.go
+++ b/streamer_float.go
@@ -85,3 +85,27 @@ func (s *Streamer) Float64(f float64) *Streamer {
 	}
 	return s
 }
+
+func (s *Streamer) quotedFloat32(f float32) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float32(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
+
+func (s *Streamer) quotedFloat64(f float64) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float64(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
diff --git a/val_decoder_native_float.go b/val_decoder_native_float.go
index 3cb4035..1a7fd64 100644
--- a/val_decoder_native_float.go
+++ b/val_decoder_native_float.go
@@ -8,7 +8,7 @@ import (
 type float32Decoder struct {
 }
 
-func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -17,10 +17,32 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
-	f, err := it.ReadFloat32()
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+	}
+	it.head++
+	f, err := it.readFloat32(c)
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float32)(ptr) = f
 	return nil
 }
@@ -29,7 +51,7 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 type float64Decoder struct {
 }
 
-func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -38,10 +60,32 @@ func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
-	f, err := it.ReadFloat64()
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+	}
+	it.head++
+	f, err := it.readFloat64(c)
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float64)(ptr) = f
 	return nil
 }
diff --git a/val_encoder_native_float.go b/val_encoder_native_float.go
index 11d8cb6..6736a08 100644
--- a/val_encoder_native_float.go
+++ b/val_encoder_native_float.go
@@ -16,7 +16,11 @@ func (*float32Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float32(*(*float32)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float32(*(*float32)(ptr))
+	} else {
+		s.quotedFloat32(*(*float32)(ptr))
+	}
 }
 
 // float64 encoder
@@ -31,5 +35,9 @@ func (*float64Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float64(*(*float64)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float64(*(*float64)(ptr))
+	} else {
+		s.quotedFloat64(*(*float64)(ptr))
+	}
 }
-- 
2.43.0


From 699a212b1941acf32c76d40d2c10b03cd9cf1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:11 +0000
Subject: [PATCH 09/24] fix: honor the string option when encoding json.Number
 fields

---
 val_encoder_json_number.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_number.go b/val_encoder_json_number.go
index 3e8d2e4..3b3d8b7 100644
--- a/val_encoder_json_number.go
+++ b/val_encoder_json_number.go
@@ -20,6 +20,10 @@ func (*jsonNumberEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts)
 	if str == "" {
 		str = "0"
 	}
+	if opts != nil && opts.Quoted {
+		s.String(str)
+		return
+	}
 	// TODO: the standard library will check the validity in future
 	s.RawString(str)
 }
-- 
2.43.0


From f9a513e1b83a1c2a335796686675349f2a22a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:18 +0000
Subject: [PATCH 10/24] fix: apply the html escaping setting inside quoted
 string fields

---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From 41ca0635889a05e30e19d6aa87e09b4c35d9cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:56 +0000
Subject: [PATCH 11/24] fix: unescape the json string before base64 decoding it

---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..56e561f 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From b08588913a0f9e7d0c2e6d2d8a6e1185e3919d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:11 +0000
Subject: [PATCH 12/24] fix: apply omitempty to the value when its marshaler
 has a pointer receiver

---
 encoder_config.go     |  9 +++++++++
 val_encoder_direct.go | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/encoder_config.go b/encoder_config.go
index edd1ee2..ca6a94a 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -37,6 +37,15 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 		return pe.encoder
 	}
 	// the element has a special pointer encoder
+	switch ptrEncoder.(type) {
+	case pointerJSONMarshalerEncoder, pointerTextMarshalerEncoder:
+		// the pointer is the address of the element, it's the element
+		// which can be empty
+		return &elemMarshalerEncoder{
+			directEncoder: directEncoder{ptrEncoder},
+			isEmpty:       isEmptyFunctions[typ.Kind()],
+		}
+	}
 	return &directEncoder{ptrEncoder}
 }
 
diff --git a/val_encoder_direct.go b/val_encoder_direct.go
index 64fb277..38a6a53 100644
--- a/val_encoder_direct.go
+++ b/val_encoder_direct.go
@@ -15,3 +15,13 @@ func (enc *directEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 func (enc *directEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	enc.encoder.Encode(unsafe.Pointer(&ptr), s, opts)
 }
+
+// encode the element with the marshaler of its address
+type elemMarshalerEncoder struct {
+	directEncoder
+	isEmpty isEmptyFunc
+}
+
+func (enc *elemMarshalerEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return enc.isEmpty(ptr)
+}
-- 
2.43.0


From 7ac10e4cdb5c4498f05010989f7368b4285fb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 13/24] fix: never omit a struct without fields

---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 5806e68a3a33f3802e3ffc3669171c99a7d200f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 14/24] fix: keep the array of a slice under construction
 visible to the garbage collector

---
 eface.go                    | 7 ++-----
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 9 ++++-----
 4 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..a0c5601 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,8 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
-
-/*
+// The data must be kept as a pointer, otherwise the garbage collector
+// does not know that the underlying array is still in use
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +37,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index 56e561f..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..dd66834 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < sh.Len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From f233a478e69ea29eda18a4299e97e3957fa68c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:54 +0000
Subject: [PATCH 15/24] fix: detect pointer loops which do not contain the
 first interface

---
 iterator.go                     |  2 ++
 val_decoder_native_interface.go | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..3f1c69b 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,8 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceSteps      int
+	efaceLimit      int
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..0c84544 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,24 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps = 0
+		it.efaceLimit = 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the pointer we recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the first pointer we met may not be part of the loop, so move
+	// the recorded one forward (Brent's cycle detection)
+	it.efaceSteps++
+	if it.efaceSteps == it.efaceLimit {
+		it.lastEfacePtr = uptr
+		it.efaceSteps = 0
+		it.efaceLimit <<= 1
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From 3338dfb26f0a96965e83de560b869d08c4d56f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:28 +0000
Subject: [PATCH 16/24] fix: encode a struct without fields to marshal as an
 object when its pointer is nil

---
 encoder_config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index ca6a94a..1943b14 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -295,7 +295,12 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				// no fields to marshal
 				v := (*emptyStructEncoder)(nil)
 				internalCache[rType] = v
-				cache[rType] = v
+				if ifaceIndir(rType) {
+					cache[rType] = v
+				} else {
+					// the struct holds a single pointer which may be nil
+					cache[rType] = &directEncoder{v}
+				}
 			} else {
 				for i := range w.fields {
 					fi := &w.fields[i]
-- 
2.43.0


From e4fda00b52340223a9110ac5cf6842670ce731f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:22 +0000
Subject: [PATCH 17/24] fix: reject white space before a quoted bool

---
 val_decoder_native.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native.go b/val_decoder_native.go
index b2f15b0..685734b 100644
--- a/val_decoder_native.go
+++ b/val_decoder_native.go
@@ -37,7 +37,7 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 			return UnexpectedByteError{got: c}
 		}
 		it.head++
-		c, err := it.nextToken()
+		c, err := it.nextByte()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9142e36d8a23fc0bee412a0f3db1c79064609e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:13 +0000
Subject: [PATCH 18/24] fix: pass the address of a pointer shaped value to its
 custom encoder

---
 encoder_config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 1943b14..404a65a 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -76,8 +76,13 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 	if opt != nil {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
-			cache[rtype] = valEnc
 			internalCache[rtype] = valEnc
+			if !ifaceIndir(rtype) {
+				// the interface holds the value itself, while the encoder
+				// takes the address of the value
+				valEnc = &directEncoder{valEnc}
+			}
+			cache[rtype] = valEnc
 		}
 		encCfg.escapeHTML = opt.EscapeHTML
 		if opt.Tag != "" {
-- 
2.43.0


From 3e600470e4143eb624d1a774ef9fbfceb575cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:50 +0000
Subject: [PATCH 19/24] fix: prefer a custom encoder to the pointer receiver
 marshalers of its type

---
 encoder_config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoder_config.go b/encoder_config.go
index 404a65a..9e6e752 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -77,6 +77,14 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
 			internalCache[rtype] = valEnc
+			ptrType := reflect.PtrTo(typ)
+			if _, ok := opt.ValEncoders[ptrType]; !ok {
+				// the custom encoder is preferred to the marshalers on
+				// the pointer receiver
+				ptrRType := rtypeOfType(ptrType)
+				internalCache[ptrRType] = &pointerEncoder{valEnc}
+				cache[ptrRType] = valEnc
+			}
 			if !ifaceIndir(rtype) {
 				// the interface holds the value itself, while the encoder
 				// takes the address of the value
-- 
2.43.0


From d650867c4721ba9a2bd0ad04ff1fc3001f419640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 20/24] fix: omit empty arrays whose type has a marshaler under
 omitempty

---
 encoder_config.go | 10 +++++-----
 is_empty.go       | 12 ++++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 9e6e752..744d671 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -43,7 +43,7 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 		// which can be empty
 		return &elemMarshalerEncoder{
 			directEncoder: directEncoder{ptrEncoder},
-			isEmpty:       isEmptyFunctions[typ.Kind()],
+			isEmpty:       isEmptyFuncOf(typ),
 		}
 	}
 	return &directEncoder{ptrEncoder}
@@ -174,7 +174,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -197,7 +197,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directJSONMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
@@ -209,7 +209,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -232,7 +232,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directTextMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
diff --git a/is_empty.go b/is_empty.go
index 2c4b9a0..d71b1ca 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -55,3 +55,15 @@ func init() {
 func neverEmpty(unsafe.Pointer) bool {
 	return false
 }
+
+func alwaysEmpty(unsafe.Pointer) bool {
+	return true
+}
+
+// the array functions of the kind do not know the length of the array
+func isEmptyFuncOf(typ reflect.Type) isEmptyFunc {
+	if typ.Kind() == reflect.Array && typ.Len() == 0 {
+		return alwaysEmpty
+	}
+	return isEmptyFunctions[typ.Kind()]
+}
-- 
2.43.0


From 04486ddd061398a6a77835b68bd4dddcc418e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 21/24] fix: call the text marshaler of a map key which is not
 a pointer but holds a nil one

---
 val_encoder_native_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index b74a0bd..99f9f67 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -86,10 +86,10 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	// go1.14 ignore the error silently
 	// check `func (w *reflectWithString) resolve()` in encoding/json
 	ptr = *(*unsafe.Pointer)(ptr)
-	if ptr == nil {
+	obj := packEFace(rtype, ptr)
+	if ptr == nil && reflect.TypeOf(obj).Kind() == reflect.Ptr {
 		s.String("")
 	} else {
-		obj := packEFace(rtype, ptr)
 		marshaler := obj.(encoding.TextMarshaler)
 		b, err := marshaler.MarshalText()
 		if err != nil {
-- 
2.43.0


From 02fdb37e5fecf36ffac37c2459b7878e2c855d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 22/24] fix: encode map keys of interface types by the text
 marshalers they hold

---
 val_encoder_native_map.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index 99f9f67..09ac57f 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -22,7 +22,9 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 	case keyKind == reflect.String:
 		keyEncoder = keyEncoders[keyKind]
 	case keyType.Implements(textMarshalerType):
-		if ifaceIndir(keyRType) {
+		if keyKind == reflect.Interface {
+			keyEncoder = (*dynamicTextMarshalerKeyEncoder)(nil)
+		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
@@ -78,6 +80,28 @@ func (enc textMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
 
 type directTextMarshalerKeyEncoder rtype
 
+// for the interface types, whose keys have different types
+type dynamicTextMarshalerKeyEncoder struct{}
+
+func (*dynamicTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	if s.Error != nil {
+		return
+	}
+	marshaler, ok := packIFace(ptr).(encoding.TextMarshaler)
+	if v := reflect.ValueOf(marshaler); !ok || v.Kind() == reflect.Ptr && v.IsNil() {
+		s.String("")
+	} else {
+		b, err := marshaler.MarshalText()
+		if err != nil {
+			s.Error = err
+			return
+		}
+		s.String(localByteToString(b))
+	}
+	s.buffer = append(s.buffer, ':')
+	s.poped = false
+}
+
 func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
 	if s.Error != nil {
 		return
-- 
2.43.0


From 41bab85b3f9f834ad314cd2b0c64bc2de819f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 23/24] fix: make a stream decoder consume a bytes.Buffer and
 see what is appended to it

---
 decoder_config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder_config.go b/decoder_config.go
index 339e1d3..117ab6d 100644
--- a/decoder_config.go
+++ b/decoder_config.go
@@ -1,6 +1,7 @@
 package jzon
 
 import (
+	"bytes"
 	"io"
 	"reflect"
 	"sync"
@@ -107,6 +108,11 @@ func (decCfg *DecoderConfig) getDecoderFromCache(rType rtype) ValDecoder {
 // NewDecoder returns a new decoder that reads from r.
 func (decCfg *DecoderConfig) NewDecoder(r io.Reader) *Decoder {
 	it := decCfg.NewIterator()
+	if b, ok := r.(*bytes.Buffer); ok {
+		// the iterator would only look at what the buffer holds now, a
+		// decoder must consume the buffer and see what is appended to it
+		r = struct{ io.Reader }{b}
+	}
 	it.Reset(r)
 	return &Decoder{
 		it: it,
-- 
2.43.0


From 510d11564c2c68a69ad23862bc8df42e33104cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 24/24] fix: report a short write of the stream encoder instead
 of losing the rest

---
 encoder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 2d5e5b5..2235678 100644
--- a/encoder.go
+++ b/encoder.go
@@ -1,5 +1,9 @@
 package jzon
 
+import (
+	"io"
+)
+
 // Encoder is almost standard library compatible
 // The following standard methods are not implemented
 // - SetIndent
@@ -18,10 +22,16 @@ func encodeInternal(s *Streamer, v interface{}) error {
 	if err := s.Value(v).Flush(); err != nil {
 		return err
 	}
-	_, err := s.writer.Write([]byte{'\n'})
+	if len(s.buffer) > 0 {
+		return io.ErrShortWrite
+	}
+	n, err := s.writer.Write([]byte{'\n'})
 	if err != nil {
 		return err
 	}
+	if n < 1 {
+		return io.ErrShortWrite
+	}
 	s.Reset(s.writer)
 	return nil
 }
-- 
2.43.0

