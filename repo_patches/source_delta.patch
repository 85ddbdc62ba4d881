From af3edd52ff92d1172c04aaa5c8d90bd9862d7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 01/72] fix: compact protocol loses the message type ONEWAY
 when reading a header

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..d135414 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From dffdf54069c6491b8d91935dfa9f4dfd0f28be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 02/72] fix: compact protocol cannot read a bool field that is
 false

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index d135414..03730a4 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From b238c2e72b3607ed37c0e889c610b2031cbb28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 03/72] fix: compact protocol restores the wrong field id after
 nested structs are read

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 03730a4..0edc231 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -394,6 +394,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 57446068eaf6a8a69f3c42a12e29382e1ce1f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 04/72] fix: compact protocol accepts truncated strings and
 panics on negative lengths

---
 lib/go/src/thrift/tcompact_protocol.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0edc231..094c1ae 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -602,9 +602,13 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, nil
 	}
 
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, fmt.Sprint("Negative length in ReadBinary: ", length))
+	}
+
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From f9fe37fce3042da5b23677e16d4068a0e767d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/72] fix: JSON protocol cannot read i16 fields and map types

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..bdabdbc 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -509,7 +509,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From e787aec30e3a833dc8ab18acb3fac812ca08b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 06/72] fix: JSON protocols misread messages that the transport
 delivers in pieces

---
 lib/go/src/thrift/tjson_protocol.go        |  4 +--
 lib/go/src/thrift/tsimple_json_protocol.go | 39 +++++++++++++---------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index bdabdbc..1b135a2 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -241,8 +241,8 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	if e := p.readWhitespaceBeforeValue(); e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
 	b, _ := p.reader.Peek(1)
 	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..4bc1ee7 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,9 +337,6 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
@@ -731,13 +728,10 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 }
 
 func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
+	if e := p.readWhitespaceBeforeValue(); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
 	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
@@ -747,7 +741,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.readWhitespaceBeforeValue(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -763,7 +757,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.readWhitespaceBeforeValue(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -777,7 +771,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 			switch b[0] {
 			case JSON_COLON[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.readWhitespaceBeforeValue(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -830,6 +824,22 @@ func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	return nil
 }
 
+// Skips whitespace up to a character that must follow, waiting for the
+// transport to deliver it. It fails when the data ends first.
+func (p *TSimpleJSONProtocol) readWhitespaceBeforeValue() error {
+	for {
+		if _, e := p.reader.Peek(1); e != nil {
+			return e
+		}
+		if e := p.readNonSignificantWhitespace(); e != nil {
+			return e
+		}
+		if p.reader.Buffered() > 0 {
+			return nil
+		}
+	}
+}
+
 func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	line, err := p.reader.ReadString(JSON_QUOTE)
 	if err != nil {
@@ -1139,9 +1149,6 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
@@ -1200,7 +1207,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1219,7 +1226,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1235,7 +1242,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
-- 
2.43.0


From 163d76b3b130eb4a12082d5c5dd2b9302168c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 07/72] fix: JSON protocols read a malformed string as an empty
 one

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 4bc1ee7..af4c7be 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -856,7 +856,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From 1a862c6a85501c476916ea608ff80dc829da33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 08/72] fix: compact protocol panics on fields and containers
 of type BINARY

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 094c1ae..ac4e1c0 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -848,5 +848,5 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
  * Given a TType value, find the appropriate TCompactProtocol.Types constant.
  */
 func (p *TCompactProtocol) getCompactType(t TType) TCompactType {
-	return _TTypeToCompactType[int(t)]
+	return _TTypeToCompactType[int(t.ThriftTypeId())]
 }
-- 
2.43.0


From 08506465f3631a06d196b925059267d76f36e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 09/72] fix: JSON protocols write no usable type tag for fields
 and containers of type BINARY

---
 lib/go/src/thrift/tjson_protocol.go        | 2 +-
 lib/go/src/thrift/tsimple_json_protocol.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 1b135a2..713b5a2 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -460,7 +460,7 @@ func (p *TJSONProtocol) writeElemListBegin(elemType TType, size int) TProtocolEx
 }
 
 func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
-	switch byte(fieldType) {
+	switch fieldType.ThriftTypeId() {
 	case STOP:
 		return "stp"
 	case VOID:
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index af4c7be..dd9d2b7 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -217,10 +217,10 @@ func (p *TSimpleJSONProtocol) WriteMapBegin(keyType TType, valueType TType, size
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(keyType)); e != nil {
+	if e := p.WriteByte(keyType.ThriftTypeId()); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(valueType)); e != nil {
+	if e := p.WriteByte(valueType.ThriftTypeId()); e != nil {
 		return e
 	}
 	return p.WriteI32(int32(size))
@@ -718,7 +718,7 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(elemType)); e != nil {
+	if e := p.WriteByte(elemType.ThriftTypeId()); e != nil {
 		return e
 	}
 	if e := p.WriteI64(int64(size)); e != nil {
-- 
2.43.0


From 8f0735fd1f748ad2cddef4e1cc6779c7a9e33c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 10/72] fix: ReadAll reports an error for a complete read that
 ends the stream, and success for an incomplete one

---
 lib/go/src/thrift/ttransport.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..b0c4e8e 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -163,14 +163,14 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	for n < size {
 		ret, err = p.Read(buf[n:])
 		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
-			}
-			return ret, err
+			return n, NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
 		}
 		n += ret
+		if err != nil && n < size {
+			return n, NewTTransportExceptionFromOsError(err)
+		}
 	}
-	return n, err
+	return n, nil
 }
 
 var (
-- 
2.43.0


From 051e9e27a013838aaf016ea302cb72a4eca26185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 11/72] fix: a length announced by the remote side makes the
 reader allocate gigabytes at once

---
 lib/go/src/thrift/tbinary_protocol.go  |  7 ++-----
 lib/go/src/thrift/tcompact_protocol.go |  3 +--
 lib/go/src/thrift/tframed_transport.go |  5 ++---
 lib/go/src/thrift/ttransport.go        | 26 ++++++++++++++++++++++++++
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..4e241ba 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -436,8 +436,7 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if e != nil {
 		return nil, e
 	}
-	buf := make([]byte, isize)
-	_, err := p.trans.ReadAll(buf)
+	buf, err := readBytes(p.trans, isize)
 	return buf, NewTProtocolExceptionFromOsError(err)
 }
 
@@ -485,8 +484,6 @@ func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolE
 	if err != nil {
 		return "", err
 	}
-	isize := int(size)
-	buf := make([]byte, isize)
-	_, e := p.trans.ReadAll(buf)
+	buf, e := readBytes(p.trans, size)
 	return string(buf), NewTProtocolExceptionFromOsError(e)
 }
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index ac4e1c0..0f9f1a4 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -606,8 +606,7 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, fmt.Sprint("Negative length in ReadBinary: ", length))
 	}
 
-	buf := make([]byte, length)
-	_, e = p.trans.ReadAll(buf)
+	buf, e := readBytes(p.trans, int(length))
 	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..fd8d7e9 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -121,10 +121,9 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
-	buf2 := make([]byte, size)
-	n, err := p.transport.ReadAll(buf2)
+	buf2, err := readBytes(p.transport, size)
 	if err != nil {
-		return n, err
+		return len(buf2), err
 	}
 	p.readBuffer = bytes.NewBuffer(buf2)
 	return size, nil
diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index b0c4e8e..6d9afea 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -173,6 +173,32 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	return n, nil
 }
 
+// Reads size bytes off the transport. The memory used stays in proportion to
+// the data that arrives, whatever size the remote side has announced.
+func readBytes(p TTransport, size int) ([]byte, error) {
+	const step = 64 * 1024
+	if size <= step {
+		buf := make([]byte, size)
+		_, err := p.ReadAll(buf)
+		return buf, err
+	}
+	buf := make([]byte, 0, step)
+	for len(buf) < size {
+		l, n := len(buf), step
+		if l > n {
+			n = l
+		}
+		if n > size-l {
+			n = size - l
+		}
+		buf = append(buf, make([]byte, n)...)
+		if got, err := p.ReadAll(buf[l:]); err != nil {
+			return buf[:l+got], err
+		}
+	}
+	return buf, nil
+}
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From e11e166fd407306c85be8121bc47ccd8d9fb1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 12/72] fix: binary protocol panics on a negative length or
 accepts it as empty

---
 lib/go/src/thrift/tbinary_protocol.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 4e241ba..01a77c7 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"math"
 	"strings"
@@ -328,7 +329,7 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return kType, vType, size, nil
+	return kType, vType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadMapEnd() TProtocolException {
@@ -348,7 +349,7 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return elemType, size, nil
+	return elemType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadListEnd() TProtocolException {
@@ -368,7 +369,7 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return elemType, size, nil
+	return elemType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadSetEnd() TProtocolException {
@@ -432,6 +433,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if e = checkSize(isize); e != nil {
+		return nil, e
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -476,9 +480,17 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 	return nil
 }
 
-func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
+// Sizes on the wire are signed, but never negative.
+func checkSize(size int) TProtocolException {
 	if size < 0 {
-		return "", nil
+		return NewTProtocolException(NEGATIVE_SIZE, fmt.Sprint("Negative size: ", size))
+	}
+	return nil
+}
+
+func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
+	if err = checkSize(size); err != nil {
+		return "", err
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From 9188a6229e843b296df39d90c487799e578ff38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 13/72] fix: compact protocol accepts negative sizes, unknown
 types and endless varints

---
 lib/go/src/thrift/tcompact_protocol.go | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0f9f1a4..50ca54f 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -351,16 +351,19 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
 	}
 	versionAndType, err := p.ReadByte()
-	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
+	version := versionAndType & COMPACT_VERSION_MASK
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if version != COMPACT_VERSION {
 		s := fmt.Sprintf("Expected version %02x but got %02x", COMPACT_VERSION, version)
 		err = NewTProtocolException(BAD_VERSION, s)
@@ -456,6 +459,9 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if err = checkSize(size); err != nil {
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -463,8 +469,13 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if keyType, e = p.getTType(TCompactType(keyAndValueType >> 4)); e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	if valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf)); e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+	}
 	return
 }
 
@@ -489,6 +500,9 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if err = checkSize(size); err != nil {
+			return 0, size, err
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
@@ -759,6 +773,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "A variable-length integer has more than 10 bytes")
+		}
 	}
 	return result, nil
 }
@@ -840,7 +857,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	case COMPACT_STRUCT:
 		return STRUCT, nil
 	}
-	return STOP, NewTException("don't know what type: " + string(t&0x0f))
+	return STOP, NewTProtocolException(INVALID_DATA, fmt.Sprint("don't know what type: ", byte(t)&0x0f))
 }
 
 /**
-- 
2.43.0


From 2c019d1d4669e9914d257b965f153cf2aae69711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 14/72] fix: Skip ignores errors and its depth limit, and spins
 on unreadable elements

---
 lib/go/src/thrift/tprotocol.go | 46 ++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..dd9cb27 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 const (
 	VERSION_MASK = 0xffff0000
 	VERSION_1    = 0x80010000
@@ -118,6 +122,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case STOP:
 		return
@@ -149,12 +156,19 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +180,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				if err = skipElement(self, keyType, maxDepth-1); err != nil {
+					return err
+				}
+				if err = skipElement(self, valueType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +197,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = skipElement(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,10 +211,20 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = skipElement(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Cannot skip a value of unknown type "+strconv.Itoa(int(fieldType)))
+}
+
+// An element of a collection takes up data, so it cannot be of type STOP.
+func skipElement(self TProtocol, elemType TType, maxDepth int) TProtocolException {
+	if elemType == STOP {
+		return NewTProtocolException(INVALID_DATA, "Cannot skip collection elements of type STOP")
+	}
+	return Skip(self, elemType, maxDepth)
 }
-- 
2.43.0


From 0742d9c2a41f07a0b7315bcea0decb7c6de845c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 15/72] fix: JSON protocols accept a bool that the end of the
 data cuts short

---
 lib/go/src/thrift/tjson_protocol.go        | 7 ++++---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 713b5a2..8c2f7d8 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 )
@@ -318,7 +319,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			if bytes.HasPrefix(b, JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -326,7 +327,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			if bytes.HasPrefix(b, JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -334,7 +335,7 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			if bytes.HasPrefix(b, JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index dd9d2b7..803d874 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -429,7 +429,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			if bytes.HasPrefix(b, JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -437,7 +437,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			if bytes.HasPrefix(b, JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -445,7 +445,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			if bytes.HasPrefix(b, JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
-- 
2.43.0


From 0fb2d0ac299d4b35dc67903412fbb837e8cdd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 16/72] fix: JSON protocol does not report transport failures
 while it writes binary data

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8c2f7d8..f69ecab 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -188,13 +188,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From 51ebe869f0593e673d6081efd2f1516f24161d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 17/72] fix: stream transport panics when an empty buffer is
 written

TIOStreamTransport.Write logged err.Error() whenever no byte was written, and
writing an empty buffer (an empty binary field, say) leaves err nil.
---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From b7daa29f491a4528ca8e0e70dfc285a09aae2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 18/72] fix: framed transport drops data at an empty read,
 stops at an empty frame and hides read errors

Reading into an empty buffer with part of a frame pending fetched the next
frame over it; an empty frame (a flush without data) looked like the end of the
stream; an error while a frame was read came out as plain end of file.
---
 lib/go/src/thrift/tframed_transport.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index fd8d7e9..0536b32 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -65,16 +65,15 @@ func (p *TFramedTransport) Close() error {
 }
 
 func (p *TFramedTransport) Read(buf []byte) (int, error) {
-	if p.readBuffer.Len() > 0 {
-		got, err := p.readBuffer.Read(buf)
-		if got > 0 {
-			return got, NewTTransportExceptionFromOsError(err)
+	if len(buf) == 0 {
+		return 0, nil
+	}
+	// Read frames until there is data; a frame may be empty
+	for p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
 		}
 	}
-
-	// Read another frame of data
-	p.readFrame()
-
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From df0b5e1c740c4cff30e48a0c1e912c2cd41be676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 19/72] fix: a closed two-way stream transport can still be
 written to

---
 lib/go/src/thrift/tiostream_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..071ec58 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -167,9 +167,9 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Reader = nil
 	}
-	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
+	if p.Writer != nil {
 		c, ok := p.Writer.(io.Closer)
-		if ok {
+		if ok && (!closedReader || !p.IsReadWriter) {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
-- 
2.43.0


From 9ace788fe1bba8073e4c3042e79d4b1bd7620eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 20/72] fix: socket timeout for writing counts from the
 buffering of data, not from sending it

The deadline was set when data was put in the buffer, so a flush after a pause
failed at once and ignored a timeout changed in the meantime.
---
 lib/go/src/thrift/tsocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..8237b28 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -199,7 +199,6 @@ func (p *TSocket) Write(buf []byte) (int, error) {
 	if !p.IsOpen() {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(false, true)
 	p.writeBuffer.Write(buf)
 	return len(buf), nil
 }
@@ -212,6 +211,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 50fc5e6f66abf781867f42bb6d07815c89593011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 21/72] fix: unsent data of a closed socket goes out on the
 next connection

---
 lib/go/src/thrift/tsocket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 8237b28..4935b46 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -178,6 +178,7 @@ func (p *TSocket) Close() error {
 			return err
 		}
 		p.conn = nil
+		p.writeBuffer.Reset()
 	}
 	return nil
 }
-- 
2.43.0


From 877da81bf15a1d7a2b4419fcf376225df20950a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 22/72] fix: a server cannot serve on a nonblocking server
 socket that is open already

Serve calls Listen, which failed with ALREADY_OPEN for a socket made from a
listener or opened by the caller.
---
 lib/go/src/thrift/tnonblocking_server_socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..1550ce1 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -71,6 +71,9 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
+	if p.IsOpen() {
+		return nil
+	}
 	return p.Open()
 }
 
-- 
2.43.0


From 495a2a3b8ad2c47d3be0e1c34c22417286774c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 23/72] fix: HTTP client panics when written without a request
 buffer, and stays open after Close

Writing or flushing a client opened with GET or closed before dereferenced a nil
buffer; closing a client that had a response left its request buffer, and thus
the client, open.
---
 lib/go/src/thrift/thttp_client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..63df9cc 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -102,15 +102,12 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
+	p.requestBuffer = nil
 	if p.response != nil && p.response.Body != nil {
 		err := p.response.Body.Close()
 		p.response = nil
 		return err
 	}
-	if p.requestBuffer != nil {
-		p.requestBuffer.Reset()
-		p.requestBuffer = nil
-	}
 	return nil
 }
 
@@ -127,11 +124,17 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is not open.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is not open.")
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 0211a16ed8af41258182d1b961b66ceea98eb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 24/72] fix: HTTP client sends a failed request again in front
 of the next one

---
 lib/go/src/thrift/thttp_client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 63df9cc..ee74100 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -135,7 +135,11 @@ func (p *THttpClient) Flush() error {
 	if p.requestBuffer == nil {
 		return NewTTransportException(NOT_OPEN, "Request buffer is not open.")
 	}
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	// The request is done with whatever becomes of it: left in the buffer, it
+	// would go out again in front of the next one
+	request := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", request)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
-- 
2.43.0


From 740e88d3326fec7acb8803e6ccea68221b0cedfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 25/72] fix: HTTP client leaks responses and reads an old one
 after a failed request

---
 lib/go/src/thrift/thttp_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ee74100..883da31 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -139,11 +139,16 @@ func (p *THttpClient) Flush() error {
 	// would go out again in front of the next one
 	request := p.requestBuffer
 	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	if p.response != nil && p.response.Body != nil {
+		p.response.Body.Close()
+		p.response = nil
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", request)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
+		response.Body.Close()
 		// TODO(pomack) log bad response
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
-- 
2.43.0


From e1d041f94dea0bef6834ed3641bbc19a45085e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 26/72] fix: servers read and write their stop flag without
 synchronisation

Stop is called from another goroutine than Serve.
---
 lib/go/src/thrift/tnonblocking_server.go | 16 +++++++++-------
 lib/go/src/thrift/tsimple_server.go      | 14 +++++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..2fd77d9 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -34,7 +36,7 @@ import ()
  */
 type TNonblockingServer struct {
 	/** Flag for stopping the server */
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -139,13 +141,13 @@ func (p *TNonblockingServer) Serve() error {
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
@@ -163,7 +165,7 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
+			if atomic.LoadInt32(&p.stopped) == 0 {
 				// TODO(pomack) log error
 				break
 			}
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..dd4b55f 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -129,7 +133,7 @@ func (p *TSimpleServer) Serve() error {
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
@@ -149,7 +153,7 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
+			if atomic.LoadInt32(&p.stopped) == 0 {
 				// TODO(pomack) log error
 				break
 			}
-- 
2.43.0


From 1c144fb16b8df7a4b8cddeca8356cb2674762391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 27/72] fix: server sockets are not safe to interrupt from
 another thread, and listen again afterwards

TServerTransport demands that Interrupt be thread safe. The sockets used their
listener without synchronisation, and TServerSocket.Accept opened a new one when
Interrupt had closed it, so that a server told to stop just before it accepted
never ended.
---
 .../src/thrift/tnonblocking_server_socket.go  | 46 +++++++++----
 lib/go/src/thrift/tserver_socket.go           | 65 ++++++++++++++-----
 2 files changed, 82 insertions(+), 29 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index 1550ce1..bd16d69 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
@@ -33,6 +34,12 @@ type TNonblockingServerSocket struct {
 	 * Socket timeout
 	 */
 	nsecTimeout int64
+
+	/**
+	 * Guards listener: Interrupt may be called from another thread than the
+	 * other methods
+	 */
+	mutex sync.Mutex
 }
 
 type TNonblockingServerSocketTransportFactory struct {
@@ -71,10 +78,12 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		return nil
 	}
-	return p.Open()
+	return p.listen()
 }
 
 /**
@@ -91,6 +100,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -98,17 +109,23 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
+		return p.listen()
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
 
+func (p *TNonblockingServerSocket) listen() error {
+	l, err := net.Listen(p.addr.Network(), p.addr.String())
+	if err != nil {
+		return err
+	}
+	p.listener = l
+	return nil
+}
+
 /**
  * Perform a nonblocking read into buffer.
  */
@@ -139,10 +156,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -157,7 +177,9 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..1563b0d 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
@@ -42,6 +43,13 @@ type TServerSocket struct {
 	 * Client timeout in nanoseconds
 	 */
 	nsecClientTimeout int64
+
+	/**
+	 * Guards conn, listener and interrupted: Interrupt may be called from
+	 * another thread than the other methods
+	 */
+	mutex       sync.Mutex
+	interrupted bool
 }
 
 type TServerSocketTransportFactory struct {
@@ -84,24 +92,37 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.listen("tcp")
+}
+
+func (p *TServerSocket) listen(network string) (err error) {
+	p.interrupted = false
 	if p.listener == nil {
-		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
+		l, err := net.Listen(network, p.addr.String())
+		if err != nil {
 			return err
 		}
+		p.listener = l
 	}
 	return nil
 }
 
 func (p *TServerSocket) Accept() (TTransport, error) {
-	if p.listener == nil {
-		if err := p.Listen(); err != nil {
+	p.mutex.Lock()
+	if p.listener == nil && !p.interrupted {
+		if err := p.listen("tcp"); err != nil {
+			p.mutex.Unlock()
 			return nil, NewTTransportExceptionFromOsError(err)
 		}
-		if p.listener == nil {
-			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
-		}
 	}
-	conn, err := p.listener.Accept()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
+		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
+	}
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -112,6 +133,8 @@ func (p *TServerSocket) Accept() (TTransport, error) {
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,13 +142,10 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
+		return p.listen(p.addr.Network())
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
@@ -167,7 +187,13 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.close()
+}
+
+func (p *TServerSocket) close() (err error) {
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
@@ -184,7 +210,12 @@ func (p *TServerSocket) Close() (err error) {
 	return nil
 }
 
+/**
+ * Breaks a blocked Accept and, until the socket is opened again, every later one.
+ */
 func (p *TServerSocket) Interrupt() error {
-	// TODO(pomack) fix Interrupt as it is probably not right
-	return NewTTransportExceptionFromOsError(p.Close())
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.interrupted = true
+	return NewTTransportExceptionFromOsError(p.close())
 }
-- 
2.43.0


From 3cef1351ab8aeda2de577060a1a198f4b5de54d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 28/72] fix: TApplicationException.Write ignores a failure to
 begin the struct

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From e9ec41b9fa4632785c1f783c43f28c183a17d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 29/72] fix: TApplicationException cannot be read from
 protocols that identify fields by name

---
 lib/go/src/thrift/tapplication_exception.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 42e00e4..a3a540a 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -86,13 +86,22 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 	type_ := int32(UNKNOWN_APPLICATION_EXCEPTION)
 
 	for {
-		_, ttype, id, er := iprot.ReadFieldBegin()
+		name, ttype, id, er := iprot.ReadFieldBegin()
 		if er != nil {
 			return nil, er
 		}
 		if ttype == STOP {
 			break
 		}
+		if id < 0 && ttype == GENERIC {
+			// The protocol identifies fields by their names
+			switch name {
+			case "message":
+				id, ttype = 1, STRING
+			case "type":
+				id, ttype = 2, I32
+			}
+		}
 		switch id {
 		case 1:
 			if ttype == STRING {
-- 
2.43.0


From 531a94243149305dc002fc38525e37a1474ae3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 30/72] fix: lists panic when an element is set behind the
 last, insert values unconverted, and misreport their order

Set at the length of the list panicked instead of appending, Insert kept
values of other types than the list's (which then were not found), looking
for a binary value panicked when the list held a nil, and Less was true for
any two comparable elements.
---
 lib/go/src/thrift/tlist.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..0c627ab 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
@@ -105,9 +105,15 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
-	newl := make([]interface{}, 1)
-	newl[0] = data
-	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(data)
+	}
+	data, ok := p.elemType.CoerceData(data)
+	if ok {
+		newl := make([]interface{}, 1)
+		newl[0] = data
+		p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
+	}
 }
 
 func (p *tList) Delete(i int) {
@@ -119,8 +125,8 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	cmp, ok := p.elemType.Compare(p.l[i], p.l[j])
+	return ok && cmp < 0
 }
 
 func (p *tList) Iter() <-chan interface{} {
@@ -153,7 +159,7 @@ func (p *tList) indexOf(data interface{}) int {
 	size := len(p.l)
 	if p.elemType == BINARY {
 		for i := 0; i < size; i++ {
-			if bytes.Compare(data.([]byte), p.l[i].([]byte)) == 0 {
+			if v, ok := p.l[i].([]byte); ok && bytes.Compare(data.([]byte), v) == 0 {
 				return i
 			}
 		}
-- 
2.43.0


From 7b61b93204357a7b591914f0a2a57a3dff4f4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 31/72] fix: sets lose elements smaller than the ones they
 hold, and report a size they do not have

Add dropped an element smaller than all present ones. Len of an empty set was
the size given to the constructor, with which generated code writes a header
for elements that do not follow. A set without an element type did not take
the type of its first element, as lists and maps do, and Less was true for the
greater set.
---
 lib/go/src/thrift/tset.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..a781772 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -42,12 +42,11 @@ type TSet interface {
 
 type tSet struct {
 	elemType TType
-	size     int
 	l        *list.List
 }
 
 func NewTSet(t TType, s int) TSet {
-	return &tSet{elemType: t, size: s, l: list.New()}
+	return &tSet{elemType: t, l: list.New()}
 }
 
 func NewTSetDefault() TSet {
@@ -67,10 +66,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
@@ -78,19 +74,19 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(other)
+	}
 	if data, ok := p.elemType.CoerceData(other); ok {
-		if p.l.Front() == nil {
-			p.l.PushFront(data)
-		} else {
-			for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-				if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
-					if cmp > 0 {
-						p.l.InsertBefore(data, elem)
-					}
-					return
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp >= 0 {
+				if cmp > 0 {
+					p.l.InsertBefore(data, elem)
 				}
+				return
 			}
 		}
+		p.l.PushBack(data)
 	}
 }
 
@@ -103,7 +99,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
@@ -130,7 +126,7 @@ func (p *tSet) find(data interface{}) *list.Element {
 	}
 	if p.elemType == BINARY {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
-			if bytes.Compare(data.([]byte), elem.Value.([]byte)) == 0 {
+			if v, ok := elem.Value.([]byte); ok && bytes.Compare(data.([]byte), v) == 0 {
 				return elem
 			}
 		}
-- 
2.43.0


From 762a52f0ff9f1e11b6a12405d8f5891d7cf4817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 32/72] fix: maps find bool keys that are not there, crash on
 map keys, and order equal maps differently

Get of an absent bool key reported it as found. Iterating over a map with maps
as keys ended the program by a panic in the iterating goroutine. Len of an empty
map with keys of a composite type was the size given to the constructor. Keys and
Values came in a random order, so that maps with the same elements compared as
different at random. Less was true for the greater map, and an iterator that was
not read to its end leaked its goroutine.
---
 lib/go/src/thrift/tmap.go | 83 ++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..ee1675b 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -23,6 +23,7 @@ import (
 	"bytes"
 	"container/list"
 	"reflect"
+	"sort"
 )
 
 /**
@@ -54,7 +55,6 @@ type TMapElem interface {
 type tMap struct {
 	keyType   TType
 	valueType TType
-	size      int
 	l         *list.List
 	b         map[bool]interface{}
 	i08       map[byte]interface{}
@@ -83,7 +83,7 @@ func NewTMapElem(k, v interface{}) TMapElem {
 }
 
 func NewTMap(k, v TType, s int) TMap {
-	return &tMap{keyType: k, valueType: v, size: s, l: list.New()}
+	return &tMap{keyType: k, valueType: v, l: list.New()}
 }
 
 func NewTMapDefault() TMap {
@@ -99,12 +99,9 @@ func (p *tMap) ValueType() TType {
 }
 
 func (p *tMap) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
 	switch p.KeyType() {
 	case STOP, VOID:
-		return 0
+		return p.l.Len()
 	case BOOL:
 		return len(p.b)
 	case BYTE:
@@ -120,9 +117,9 @@ func (p *tMap) Len() int {
 	case STRING, UTF8, UTF16:
 		return len(p.s)
 	default:
-		return p.size
+		return p.l.Len()
 	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
@@ -156,7 +153,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
@@ -604,7 +601,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -616,8 +613,8 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 
 // Channel iterator for range.
 func (p *tMap) Iter() <-chan TMapElem {
-	c := make(chan TMapElem)
-	go p.iterate(c)
+	c := make(chan TMapElem, p.Len())
+	p.iterate(c)
 	return c
 }
 
@@ -661,7 +658,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -672,8 +669,8 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 }
 
 func (p *tMap) KeyIter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterateKeys(c)
+	c := make(chan interface{}, p.Len())
+	p.iterateKeys(c)
 	return c
 }
 
@@ -717,7 +714,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
@@ -728,14 +725,14 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 }
 
 func (p *tMap) ValueIter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterateValues(c)
+	c := make(chan interface{}, p.Len())
+	p.iterateValues(c)
 	return c
 }
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
@@ -748,23 +745,47 @@ func (p *tMap) CompareTo(other interface{}) (int, bool) {
 }
 
 func (p *tMap) Keys() []interface{} {
-	size := p.Len()
-	values := make([]interface{}, size, size)
-	i := 0
-	for k := range p.KeyIter() {
-		values[i] = k
-		i++
+	elems := p.sortedElems()
+	values := make([]interface{}, len(elems))
+	for i, elem := range elems {
+		values[i] = elem.Key()
 	}
 	return values
 }
 
 func (p *tMap) Values() []interface{} {
-	size := p.Len()
-	values := make([]interface{}, size, size)
-	i := 0
-	for v := range p.ValueIter() {
-		values[i] = v
-		i++
+	elems := p.sortedElems()
+	values := make([]interface{}, len(elems))
+	for i, elem := range elems {
+		values[i] = elem.Value()
 	}
 	return values
 }
+
+// The elements in the order of their keys, so that equal maps have equal Keys and Values
+func (p *tMap) sortedElems() []TMapElem {
+	elems := make([]TMapElem, 0, p.Len())
+	for elem := range p.Iter() {
+		elems = append(elems, elem)
+	}
+	sort.Sort(&tMapElemsByKey{p.KeyType(), elems})
+	return elems
+}
+
+type tMapElemsByKey struct {
+	keyType TType
+	elems   []TMapElem
+}
+
+func (p *tMapElemsByKey) Len() int {
+	return len(p.elems)
+}
+
+func (p *tMapElemsByKey) Less(i, j int) bool {
+	cmp, ok := p.keyType.Compare(p.elems[i].Key(), p.elems[j].Key())
+	return ok && cmp < 0
+}
+
+func (p *tMapElemsByKey) Swap(i, j int) {
+	p.elems[i], p.elems[j] = p.elems[j], p.elems[i]
+}
-- 
2.43.0


From 175b615caf329f89c146f503fbbf06dca341f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 33/72] fix: structs compare as equal whatever their
 attributes, and comparing binary values as another type panics

Compare took the attributes from the metadata that generated structs embed,
which has none, so that all structs of a type were equal: a set of them held one
element, a map one key. It panicked when an unset (nil) struct met a set one, and
when two slices were compared as strings. Less was true for the greater value.
---
 lib/go/src/thrift/tlist.go |  8 +++++
 lib/go/src/thrift/tmap.go  |  4 +--
 lib/go/src/thrift/tset.go  |  8 +++++
 lib/go/src/thrift/ttype.go | 63 +++++++++++++++++++++++++++++++++++---
 4 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 0c627ab..59d5ac2 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -173,6 +173,14 @@ func (p *tList) indexOf(data interface{}) int {
 		}
 		return -1
 	}
+	if s, ok := data.(TStruct); ok && p.elemType == STRUCT {
+		for i := 0; i < size; i++ {
+			if v, ok := p.l[i].(TStruct); ok && equalStructs(s, v) {
+				return i
+			}
+		}
+		return -1
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for i := 0; i < size; i++ {
 			if cmp.Equals(p.l[i]) {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index ee1675b..d790c55 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -234,7 +234,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(useKey.(TStruct)) {
+				if equalStructs(structkey, useKey.(TStruct)) {
 					return e.Value(), true
 				}
 				continue
@@ -497,7 +497,7 @@ func (p *tMap) Contains(key interface{}) bool {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(coercedKey.(TStruct)) {
+				if equalStructs(structkey, coercedKey.(TStruct)) {
 					return true
 				}
 				continue
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index a781772..b904c93 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -140,6 +140,14 @@ func (p *tSet) find(data interface{}) *list.Element {
 		}
 		return nil
 	}
+	if s, ok := data.(TStruct); ok && p.elemType == STRUCT {
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if v, ok := elem.Value.(TStruct); ok && equalStructs(s, v) {
+				return elem
+			}
+		}
+		return nil
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
 			if cmp.Equals(elem.Value) {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..2ddd30d 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"reflect"
 	"strconv"
 )
 
@@ -254,12 +255,18 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
+	if isNilPointer(i) {
+		i = nil
+	}
+	if isNilPointer(j) {
+		j = nil
+	}
 	if p != BINARY {
-		if i == j {
+		if isSame(i, j) {
 			return 0, true
 		}
 	}
@@ -285,7 +292,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		return 0, false
 	}
 	if p != BINARY {
-		if ci == cj {
+		if isSame(ci, cj) {
 			return 0, true
 		}
 	}
@@ -413,8 +420,7 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 			return cmp, ok
 		}
 		for field := range si.TStructFields().Iter() {
-			a := si.AttributeFromFieldId(field.Id())
-			b := sj.AttributeFromFieldId(field.Id())
+			a, b := attributes(si, sj, field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
@@ -487,6 +493,53 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+type attributed interface {
+	AttributeByFieldId(id int) interface{}
+}
+
+// Whether two structs are equal. Generated structs embed an Equals that does
+// not know their attributes.
+func equalStructs(i, j TStruct) bool {
+	_, iok := i.(attributed)
+	_, jok := j.(attributed)
+	if iok && jok {
+		cmp, ok := TType(STRUCT).Compare(i, j)
+		return ok && cmp == 0
+	}
+	return i.Equals(j)
+}
+
+// The attribute of two structs for a field. Generated structs provide their
+// attributes by AttributeByFieldId; the AttributeFromFieldId that they embed
+// does not know them.
+func attributes(i, j TStruct, fieldId int) (interface{}, interface{}) {
+	ai, iok := i.(attributed)
+	aj, jok := j.(attributed)
+	if iok && jok {
+		return ai.AttributeByFieldId(fieldId), aj.AttributeByFieldId(fieldId)
+	}
+	return i.AttributeFromFieldId(fieldId), j.AttributeFromFieldId(fieldId)
+}
+
+// Whether the interface value holds a nil pointer, such as an unset struct.
+func isNilPointer(i interface{}) bool {
+	v := reflect.ValueOf(i)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
+// Whether two values are trivially the same; never for types that the
+// language cannot compare.
+func isSame(i, j interface{}) bool {
+	if i == nil || j == nil {
+		return i == j
+	}
+	switch reflect.TypeOf(i).Kind() {
+	case reflect.Slice, reflect.Map, reflect.Func, reflect.Array, reflect.Struct:
+		return false
+	}
+	return i == j
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 12860776ac6216fc0e668f1cc8957518a1c9b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0000
Subject: [PATCH 34/72] fix: field containers order by their declaration, not
 by their ids, and leak iterators

Two different containers could each compare as greater than the other, and so could
structs with the same fields declared in another order. Comparing structs left
an iterating goroutine behind for every difference found.
---
 lib/go/src/thrift/tfield.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..ec288ca 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -152,7 +152,7 @@ func NewTFieldContainer(fields []TField) TFieldContainer {
 	}
 	sort.Sort(tFieldArray(sortedFields))
 	return &tFieldContainer{
-		fields:         fields,
+		fields:         sortedFields,
 		nameToFieldMap: nameToFieldMap,
 		idToFieldMap:   idToFieldMap,
 	}
@@ -253,8 +253,13 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		others := make([]TField, 0, len(p.fields))
+		for other := range data.Iter() {
+			others = append(others, other)
+		}
+		sort.Sort(tFieldArray(others))
+		for i, field := range p.fields {
+			if cmp, ok3 := field.CompareTo(others[i]); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
@@ -264,8 +269,8 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 }
 
 func (p *tFieldContainer) Iter() <-chan TField {
-	c := make(chan TField)
-	go p.iterate(c)
+	c := make(chan TField, len(p.fields))
+	p.iterate(c)
 	return c
 }
 
-- 
2.43.0


From 7714709ec238c3e59ee76763d0926c75ff9d6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 35/72] fix: a list iterator that is not read to its end leaks
 its goroutine

---
 lib/go/src/thrift/tlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 59d5ac2..e20c8b4 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -130,8 +130,8 @@ func (p *tList) Less(i, j int) bool {
 }
 
 func (p *tList) Iter() <-chan interface{} {
-	c := make(chan interface{})
-	go p.iterate(c)
+	c := make(chan interface{}, len(p.l))
+	p.iterate(c)
 	return c
 }
 
-- 
2.43.0


From 7d101b529ab54756ff3363f62787fde25381e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 36/72] fix: CompareInt64 does not take 64-bit integers

---
 lib/go/src/thrift/tcompare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..80d6897 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
-- 
2.43.0


From 7416709c2242fcdf69fb377b86824dd8aeef1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 37/72] fix: descriptions of fields and messages show numbers
 as characters

---
 lib/go/src/thrift/tfield.go   | 3 ++-
 lib/go/src/thrift/tmessage.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index ec288ca..c7396cc 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + p.typeId.String() + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..02c3337 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +60,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(p.seqid) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
-- 
2.43.0


From d049c96ab1e2e2a4fe60afcda28cb5a922354b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 38/72] fix: coercion refuses text that is a number, makes
 bools of numbers and characters of integers

---
 lib/go/src/thrift/ttype.go | 87 +++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 2ddd30d..c0d42ee 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -680,6 +680,8 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b != 0, true
 		case []byte:
 			return len(b) > 1 || (len(b) == 1 && b[0] != 0), true
+		case Enumer:
+			return b.Value() != 0, true
 		case Stringer:
 			v := b.String()
 			if v == "false" || v == "0" || len(v) == 0 {
@@ -747,12 +749,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return byte(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return byte(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return byte(int(i1)), true
 			}
 		}
@@ -765,7 +770,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
+			return b.Float64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return float64(b), true
@@ -812,12 +817,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return float64(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return float64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
 			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
+			if err == nil {
 				return d1, true
 			}
 		}
@@ -830,7 +838,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int16(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
+			return b.Int16(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int16(b), true
@@ -871,12 +879,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int16(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int16(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int16(i1), true
 			}
 		}
@@ -889,7 +900,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int32(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
+			return b.Int32(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int32(b), true
@@ -930,12 +941,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int32(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int32(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int32(i1), true
 			}
 		}
@@ -951,7 +965,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int64(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
+			return b.Int64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int64(b), true
@@ -989,12 +1003,15 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int64(b), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
+			if err == nil {
 				return i1, true
 			}
 		}
@@ -1004,9 +1021,6 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return string(b), true
 		}
 		if b, ok := data.(Enumer); ok {
-			if i1, ok := data.(int); ok {
-				return string(i1), true
-			}
 			return b.String(), true
 		}
 		if b, ok := data.(Stringer); ok {
@@ -1016,10 +1030,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(int); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(byte); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1028,31 +1042,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return "false", true
 		}
 		if b, ok := data.(int8); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int16); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int32); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int64); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(uint); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint8); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint16); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint32); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint64); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(float32); ok {
 			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
@@ -1066,9 +1080,6 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Enumer); ok {
-			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
-			}
 			return []byte(b.String()), true
 		}
 		if b, ok := data.(Stringer); ok {
@@ -1078,10 +1089,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte(b), true
 		}
 		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1090,31 +1101,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte("false"), true
 		}
 		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(float32); ok {
 			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
@@ -1127,7 +1138,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
-- 
2.43.0


From cb57b0c1ac7eeb57cab86f0deb927e3dfb3171ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 39/72] fix: numbers made of integers show as characters,
 fractions and exponents lose their integer part

---
 lib/go/src/thrift/tnumeric.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..dedba10 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,21 +62,21 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(iValue, 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -91,8 +91,7 @@ func NewNumericFromString(sValue string) Numeric {
 	if sValue == NAN.String() {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
-	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, dValue := parseNumeric(sValue)
 	isNil := len(sValue) == 0
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -110,11 +109,19 @@ func NewNumericFromJSONString(sValue string, isNull bool) Numeric {
 	if sValue == JSON_NAN {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
-	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, dValue := parseNumeric(sValue)
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNull}
 }
 
+func parseNumeric(sValue string) (iValue int64, dValue float64) {
+	dValue, _ = strconv.ParseFloat(sValue, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
+	if err != nil && math.Abs(dValue) < 1<<63 {
+		iValue = int64(dValue) // has a fraction or an exponent
+	}
+	return iValue, dValue
+}
+
 func NewNullNumeric() Numeric {
 	return &numeric{iValue: 0, dValue: 0.0, sValue: "", isNil: true}
 }
-- 
2.43.0


From 5e41174b38d8ce8e5a444e00a120838f060ff66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 40/72] fix: protocol exceptions show the field id as a
 character

---
 lib/go/src/thrift/tprotocol_exception.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From 68e040efa4fea724dbdf6d82da7354f689a1dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 41/72] fix: a socket whose connection fails to close, as after
 Interrupt, stays open forever

---
 lib/go/src/thrift/tnonblocking_socket.go | 5 +++--
 lib/go/src/thrift/tsocket.go             | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index a811149..1806870 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -184,11 +184,12 @@ func (p *TNonblockingSocket) Peek() bool {
  */
 func (p *TNonblockingSocket) Close() error {
 	if p.conn != nil {
-		if err := p.conn.Close(); err != nil {
+		err := p.conn.Close()
+		p.conn = nil
+		if err != nil {
 			LOGGER.Print("Could not close socket.", err.Error())
 			return err
 		}
-		p.conn = nil
 	}
 	return nil
 }
diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 4935b46..b7a4c92 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -173,12 +173,12 @@ func (p *TSocket) Close() error {
 	// Close the socket
 	if p.conn != nil {
 		err := p.conn.Close()
+		p.conn = nil
+		p.writeBuffer.Reset()
 		if err != nil {
 			LOGGER.Print("Could not close socket. ", err.Error())
 			return err
 		}
-		p.conn = nil
-		p.writeBuffer.Reset()
 	}
 	return nil
 }
-- 
2.43.0


From f8ce03759cada30a118952ed86abdbc3bda0c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:55 +0000
Subject: [PATCH 42/72] fix: JSON protocols take quadratic time to read a
 string with many quotes

---
 lib/go/src/thrift/tsimple_json_protocol.go | 36 ++++++++++------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 803d874..b3726a6 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -873,27 +873,25 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) ParseQuotedStringBody() (string, TProtocolException) {
-	line, err := p.reader.ReadString(JSON_QUOTE)
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	l := len(line)
-	// count number of escapes to see if we need to keep going
-	i := 1
-	for ; i < l; i++ {
-		if line[l-i-1] != '\\' {
-			break
+	body := make([]byte, 0)
+	for {
+		line, err := p.reader.ReadBytes(JSON_QUOTE)
+		if err != nil {
+			return "", NewTProtocolExceptionFromOsError(err)
+		}
+		body = append(body, line...)
+		l := len(line)
+		// count number of escapes to see if we need to keep going
+		i := 1
+		for ; i < l; i++ {
+			if line[l-i-1] != '\\' {
+				break
+			}
+		}
+		if i&0x01 == 1 {
+			return string(body), nil
 		}
 	}
-	if i&0x01 == 1 {
-		return line, nil
-	}
-	s, err := p.ParseQuotedStringBody()
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	v := line + s
-	return v, nil
 }
 
 func (p *TSimpleJSONProtocol) ParseBase64EncodedBody() ([]byte, TProtocolException) {
-- 
2.43.0


From 2945c534889234a05d00c5d5151ce397e3c703f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 43/72] fix: JSON protocols do not wait for data behind a
 message that ends soon

---
 lib/go/src/thrift/tsimple_json_protocol.go | 33 +++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index b3726a6..7e9b2fc 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,7 +425,7 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, _ := p.peekLiteral()
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
@@ -488,7 +488,7 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekLiteral()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -512,7 +512,7 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekLiteral()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -840,6 +840,25 @@ func (p *TSimpleJSONProtocol) readWhitespaceBeforeValue() error {
 	}
 }
 
+// Returns the literal null, true or false if one of them may follow, and else
+// just the next character. It must not ask for more than that: when the
+// message ends before, the transport may have to wait for the next one.
+func (p *TSimpleJSONProtocol) peekLiteral() ([]byte, error) {
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return b, e
+	}
+	switch b[0] {
+	case JSON_NULL[0]:
+		return p.reader.Peek(len(JSON_NULL))
+	case JSON_TRUE[0]:
+		return p.reader.Peek(len(JSON_TRUE))
+	case JSON_FALSE[0]:
+		return p.reader.Peek(len(JSON_FALSE))
+	}
+	return b, nil
+}
+
 func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	line, err := p.reader.ReadString(JSON_QUOTE)
 	if err != nil {
@@ -912,7 +931,7 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekLiteral()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -935,7 +954,7 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekLiteral()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -956,7 +975,7 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b, _ := p.peekLiteral()
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
@@ -995,7 +1014,7 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
+	b, e := p.peekLiteral()
 	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
-- 
2.43.0


From 1b06e5157bbf8f3c3b98176c0d443c20352ed219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:56 +0000
Subject: [PATCH 44/72] fix: generated files without structs compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..10185b3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -202,7 +202,7 @@ public:
 
     std::string go_autogen_comment();
     std::string go_package();
-    std::string go_imports();
+    std::string go_imports(bool has_structs);
     std::string render_includes();
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
@@ -474,7 +474,7 @@ void t_go_generator::init_generator()
     f_types_ <<
              go_autogen_comment() <<
              go_package() <<
-             go_imports() <<
+             go_imports(!program_->get_objects().empty()) <<
              render_includes() <<
              render_fastbinary_includes() << endl << endl;
 }
@@ -529,8 +529,10 @@ string t_go_generator::go_package()
 
 /**
  * Prints standard thrift imports
+ *
+ * @param has_structs Whether the file defines structs, which use all of them
  */
-string t_go_generator::go_imports()
+string t_go_generator::go_imports(bool has_structs)
 {
     return
         string("import (\n"
@@ -546,7 +548,10 @@ string t_go_generator::go_imports()
                "func init() {\n"
                "\tvar temporaryAndUnused int32 = math.MinInt32\n"
                "\ttemporaryAndUnused++\n"
-               "}\n\n");
+               "}\n\n") +
+        (has_structs ? "" :
+               "var _ = fmt.Sprint\n"
+               "var _ thrift.TException\n\n");
 }
 
 /**
@@ -1406,7 +1411,7 @@ void t_go_generator::generate_service(t_service* tservice)
     f_service_ <<
                go_autogen_comment() <<
                go_package() <<
-               go_imports();
+               go_imports(!tservice->get_functions().empty());
 
     if (tservice->get_extends() != NULL) {
         f_service_ <<
-- 
2.43.0


From 9627927fcff933664aa02aac76863b7465e1dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:15 +0000
Subject: [PATCH 45/72] fix: structs with negative field ids compile and are
 read

---
 compiler/cpp/src/generate/t_go_generator.cc | 50 +++++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 10185b3..d2ee5a3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -242,6 +242,7 @@ private:
     static std::string publicize(const std::string& value);
     static std::string privatize(const std::string& value);
     static std::string variable_name_to_go_name(const std::string& value);
+    static std::string field_id_to_go_name(int32_t field_id);
     static bool can_be_nil(t_type* value);
 
 };
@@ -413,6 +414,24 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
 }
 
 
+/**
+ * Renders a field id as a part of a Go name: a field that has no id of its own
+ * in the IDL has a negative one.
+ */
+std::string t_go_generator::field_id_to_go_name(int32_t field_id)
+{
+    std::ostringstream out;
+
+    if (field_id < 0) {
+        out << "_" << -field_id;
+    } else {
+        out << field_id;
+    }
+
+    return out.str();
+}
+
+
 /**
  * Prepares for file generation by opening up the necessary file output
  * streams.
@@ -916,10 +935,10 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         }
     } else {
         for (m_iter = members.begin(); m_iter != members.end(); ++m_iter) {
-            // This fills in default values, as opposed to nulls
-            out <<
-                indent() << publicize((*m_iter)->get_name()) << " " <<
-                type_to_enum((*m_iter)->get_type()) << endl;
+            indent(out) << publicize(variable_name_to_go_name((*m_iter)->get_name())) << " "
+                        << type_to_go_type((*m_iter)->get_type()) << " \"" << escape_string((*m_iter)->get_name())
+                        << "\"; // " << (*m_iter)->get_key()
+                        << endl;
         }
     }
 
@@ -1160,13 +1179,16 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
     out <<
         indent() << "_, err = iprot.ReadStructBegin()" << endl <<
         indent() << "if err != nil { return thrift.NewTProtocolExceptionReadStruct(p.ThriftName(), err); }" << endl;
+    // A field whose id is negative is known by it when the protocol has no names
+    const vector<t_field*>& sorted_fields = tstruct->get_sorted_members();
+    const bool has_negative_id = !sorted_fields.empty() && sorted_fields[0]->get_key() < 0;
     // Loop over reading in fields
     indent(out) << "for {" << endl;
     indent_up();
     // Read beginning field marker
     out <<
         indent() << "fieldName, fieldTypeId, fieldId, err := iprot.ReadFieldBegin()" << endl <<
-        indent() << "if fieldId < 0 {" << endl <<
+        indent() << (has_negative_id ? "if fieldId < 0 && fieldName != \"\" {" : "if fieldId < 0 {") << endl <<
         indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl <<
         indent() << "} else if fieldName == \"\" {" << endl <<
         indent() << "  fieldName = p.FieldNameFromFieldId(int(fieldId))" << endl <<
@@ -1206,13 +1228,13 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
             indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
@@ -1250,7 +1272,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         string field_name(publicize((*f_iter)->get_name()));
         int32_t field_id = (*f_iter)->get_key();
         out <<
-            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id_to_go_name(field_id) << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
         generate_deserialize_field(out, *f_iter, false, "p.");
         indent_down();
@@ -1258,7 +1280,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") ReadField" << field_name << "(iprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  return p.ReadField" << field_id_to_go_name(field_id) << "(iprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -1297,13 +1319,13 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             if (can_be_nil((*fr_iter)->get_type()) && fieldId != 0) {
                 out <<
                     indent() << "case p." << publicize(variable_name_to_go_name(field_name)) << " != nil:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             } else {
                 out <<
                     indent() << "default:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             }
@@ -1317,7 +1339,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name = escape_string(field_name);
             fieldId = (*f_iter)->get_key();
             out <<
-                indent() << "err = p.WriteField" << fieldId << "(oprot)" << endl <<
+                indent() << "err = p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
                 indent() << "if err != nil { return err }" << endl;
         }
     }
@@ -1342,7 +1364,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
         field_required = (*f_iter)->get_req();
         field_can_be_nil = can_be_nil((*f_iter)->get_type());
         out <<
-            indent() << "func (p *" << tstruct_name << ") WriteField" << fieldId << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") WriteField" << field_id_to_go_name(fieldId) << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
 
         // Write field header
@@ -1394,7 +1416,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") WriteField" << publicize(field_name) << "(oprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.WriteField" << fieldId << "(oprot)" << endl <<
+            indent() << "  return p.WriteField" << field_id_to_go_name(fieldId) << "(oprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
-- 
2.43.0


From a340777f21acef11570025d0118ac8c00557b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 46/72] fix: default values of container and struct fields
 compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d2ee5a3..df266d4 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -977,7 +977,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From bd3e5cd63b9a7afa133776d047825b6ca385e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:51 +0000
Subject: [PATCH 47/72] fix: enums with two names for one value compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index df266d4..06dcd38 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -28,6 +28,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <set>
 #include <vector>
 
 #include <stdlib.h>
@@ -627,6 +628,7 @@ void t_go_generator::generate_enum(t_enum* tenum)
                         indent() << "  switch s {" << endl;
     vector<t_enum_value*> constants = tenum->get_constants();
     vector<t_enum_value*>::iterator c_iter;
+    std::set<int> named_values;
     int value = -1;
 
     for (c_iter = constants.begin(); c_iter != constants.end(); ++c_iter) {
@@ -641,8 +643,11 @@ void t_go_generator::generate_enum(t_enum* tenum)
         f_types_ <<
                  indent() << "  " << tenum_name << "_" << iter_name << ' ' << tenum_name << " = " << value << endl;
         // Dictionaries to/from string names of enums
-        to_string_mapping <<
-                          indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        // (of several names for one value, the first one is its string)
+        if (named_values.insert(value).second) {
+            to_string_mapping <<
+                              indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        }
 
         if (iter_std_name != escape_string(iter_name)) {
             from_string_mapping <<
-- 
2.43.0


From 1d4fc3d594a36dcc4ce64f33ceadf8d868b1fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:29 +0000
Subject: [PATCH 48/72] fix: fields whose type is a typedef of a struct compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 06dcd38..5fb195d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -3342,6 +3342,13 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
+        t_type* true_type = get_true_type(type);
+
+        // A named pointer type would not have the methods of the struct
+        if (true_type->is_struct() || true_type->is_xception()) {
+            return type_to_go_type(true_type);
+        }
+
         return publicize(((t_typedef*)type)->get_symbolic());
     }
 
-- 
2.43.0


From 84186bef124180db2dea759447dd89e4de08f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 49/72] fix: struct constants with typedef and keyword-named
 fields compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 5fb195d..ae35c61 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -759,7 +759,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
 
             for (f_iter = fields.begin(); f_iter != fields.end(); ++f_iter) {
                 if ((*f_iter)->get_name() == v_iter->first->get_string()) {
-                    field_type = (*f_iter)->get_type();
+                    field_type = get_true_type((*f_iter)->get_type());
                 }
             }
 
@@ -769,13 +769,13 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
 
             if (field_type->is_base_type() || field_type->is_enum()) {
                 out <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
             } else {
                 string k(tmp("k"));
                 string v(tmp("v"));
                 out <<
                     indent() << v << " := " << render_const_value(field_type, v_iter->second, v) << endl <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << v << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << v << endl;
             }
         }
 
-- 
2.43.0


From b93ec934b923166d04d44e642474ae6db53ab7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 50/72] fix: binary constants compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index ae35c61..013d5f3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -686,7 +686,10 @@ void t_go_generator::generate_const(t_const* tconst)
     string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
     t_const_value* value = tconst->get_value();
 
-    if (type->is_base_type() || type->is_enum()) {
+    if (type->is_base_type() && ((t_base_type*)type)->is_binary()) {
+        // A slice cannot be a Go constant
+        indent(f_types_) << "var " << name << " = " << render_const_value(type, value, name) << endl;
+    } else if (type->is_base_type() || type->is_enum()) {
         indent(f_types_) << "const " << name << " = " << render_const_value(type, value, name) << endl;
     } else {
         f_types_ <<
-- 
2.43.0


From ca7f7fac73f2731329b2850c1321ce43e9b03171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 51/72] fix: negative byte constants and defaults compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 013d5f3..0ea929f 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -727,6 +727,10 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             break;
 
         case t_base_type::TYPE_BYTE:
+            // A Go byte has no sign
+            out << (value->get_integer() & 0xff);
+            break;
+
         case t_base_type::TYPE_I16:
         case t_base_type::TYPE_I32:
         case t_base_type::TYPE_I64:
@@ -1124,6 +1128,11 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                 case t_base_type::TYPE_I32:
                 case t_base_type::TYPE_I64:
                     i_check_value = (field_default_value == NULL) ? 0 : field_default_value->get_integer();
+
+                    if (tbase == t_base_type::TYPE_BYTE) {
+                        i_check_value &= 0xff;
+                    }
+
                     out <<
                         indent() << "return p." << field_name << " != " << i_check_value << endl;
                     break;
-- 
2.43.0


From 2178086f15bb8c1bd35bd19e10052323f9eb1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 52/72] fix: the command of a service without functions uses
 its client

---
 compiler/cpp/src/generate/t_go_generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 0ea929f..a7f9271 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1967,6 +1967,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
              indent() << "client := " << package_name_ << ".New" << publicize(service_name_) << "ClientFactory(trans, protocolFactory)" << endl <<
+             (functions.empty() ? indent() + "_ = client\n" : "") <<
              indent() << "if err = trans.Open(); err != nil {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Error opening socket to \", host, \":\", port, \" \", err.Error())" << endl <<
              indent() << "  os.Exit(1)" << endl <<
-- 
2.43.0


From c003e9441fe27f13d826ac072deda81d426b78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 53/72] fix: services that extend another service compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 40 +++++++++++++--------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index a7f9271..d3fce27 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -203,7 +203,7 @@ public:
 
     std::string go_autogen_comment();
     std::string go_package();
-    std::string go_imports(bool has_structs);
+    std::string go_imports(bool has_structs, t_service* extends = NULL);
     std::string render_includes();
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
@@ -226,6 +226,20 @@ public:
         return real_module;
     }
 
+    /**
+     * The path under which a program's package is imported, and its name
+     */
+    static std::string get_go_import_path(const t_program* program) {
+        std::string path = get_real_go_module(program);
+        std::replace(path.begin(), path.end(), '.', '/');
+        return path;
+    }
+
+    static std::string get_go_package_name(const t_program* program) {
+        std::string module = get_real_go_module(program);
+        return module.substr(module.rfind('.') + 1);
+    }
+
 private:
 
     /**
@@ -551,15 +565,18 @@ string t_go_generator::go_package()
  * Prints standard thrift imports
  *
  * @param has_structs Whether the file defines structs, which use all of them
+ * @param extends     The service that the file's service extends, if any
  */
-string t_go_generator::go_imports(bool has_structs)
+string t_go_generator::go_imports(bool has_structs, t_service* extends)
 {
     return
         string("import (\n"
                "\t\"fmt\"\n"
                "\t\"math\"\n"
-               "\t\"thrift\"\n"
-               ")\n\n"
+               "\t\"thrift\"\n") +
+        (extends != NULL && extends->get_program() != program_ ?
+               "\t\"" + get_go_import_path(extends->get_program()) + "\"\n" : "") +
+        string(")\n\n"
                "// This is a temporary safety measure to ensure that the `math'\n"
                "// import does not trip up any generated output that may not\n"
                "// happen to use the math import due to not having emited enums.\n"
@@ -1450,12 +1467,7 @@ void t_go_generator::generate_service(t_service* tservice)
     f_service_ <<
                go_autogen_comment() <<
                go_package() <<
-               go_imports(!tservice->get_functions().empty());
-
-    if (tservice->get_extends() != NULL) {
-        f_service_ <<
-                   "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
-    }
+               go_imports(!tservice->get_functions().empty(), tservice->get_extends());
 
     f_service_ <<
                //             "import (" << endl <<
@@ -1620,7 +1632,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Factory(t, f)}";
+                   "{" << extends_client.substr(extends_client.rfind(".") + 1) << ": " << extends_client_new << "Factory(t, f)}";
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -1646,7 +1658,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
     if (!extends.empty()) {
         f_service_ <<
-                   "{" << extends_client << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
+                   "{" << extends_client.substr(extends_client.rfind(".") + 1) << ": " << extends_client_new << "Protocol(t, iprot, oprot)}" << endl;
     } else {
         indent_up();
         f_service_ << "{Transport: t," << endl <<
@@ -3231,8 +3243,8 @@ string t_go_generator::type_name(t_type* ttype)
 {
     t_program* program = ttype->get_program();
 
-    if (ttype->is_service()) {
-        return get_real_go_module(program) + "." + ttype->get_name();
+    if (ttype->is_service() && program != program_) {
+        return get_go_package_name(program) + "." + ttype->get_name();
     }
 
     if (program != NULL && program != program_) {
-- 
2.43.0


From 52f176dd3c803703d3f2d33437e0446415ba079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 54/72] fix: clients of functions whose exceptions are named by
 Go words compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d3fce27..880f146 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1825,8 +1825,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << variable_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
-- 
2.43.0


From 3d9bb3e3628ba67b4a37652d14f723144fd98052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 55/72] fix: commands pass i16, binary, struct and container
 arguments

---
 compiler/cpp/src/generate/t_go_generator.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 880f146..7427e09 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2025,8 +2025,14 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                     break;
 
                 case t_base_type::TYPE_STRING:
-                    f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    if (((t_base_type*)the_type2)->is_binary()) {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := []byte(flag.Arg(" << flagArg << "))" << endl;
+                    } else {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    }
+
                     break;
 
                 case t_base_type::TYPE_BOOL:
@@ -2051,7 +2057,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
-                             indent() << "argvalue" << i << " := byte(tmp" << i << ")" << endl;
+                             indent() << "argvalue" << i << " := int16(tmp" << i << ")" << endl;
                     break;
 
                 case t_base_type::TYPE_I32:
@@ -2094,7 +2100,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type->get_name()));
+                std::string tstruct_name(publicize(the_type2->get_name()));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2119,7 +2125,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string argName(publicize(args[i]->get_name()));
+                std::string argName(publicize(variable_name_to_go_name(args[i]->get_name())));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2132,7 +2138,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << (i + 1) << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_to_go_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
-- 
2.43.0


From e5245fc9f03481146e015c7c1792c4402c754fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 56/72] fix: functions with arguments named like the variables
 of the client compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 53 +++++++++++++++++----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7427e09..d2031b9 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -211,7 +211,8 @@ public:
     std::string type_name(t_type* ttype);
     std::string function_signature(t_function* tfunction, std::string prefix = "");
     std::string function_signature_if(t_function* tfunction, std::string prefix = "", bool addOsError = false);
-    std::string argument_list(t_struct* tstruct);
+    std::string argument_list(t_struct* tstruct, t_struct* others = NULL);
+    std::string argument_name(const std::string& name);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
@@ -1709,7 +1710,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                 f_service_ << ", ";
             }
 
-            f_service_ << variable_name_to_go_name((*fld_iter)->get_name());
+            f_service_ << argument_name((*fld_iter)->get_name());
         }
 
         f_service_ << ")" << endl <<
@@ -1743,7 +1744,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
-                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << variable_name_to_go_name((*fld_iter)->get_name()) << endl;
+                       indent() << args << "." << publicize(variable_name_to_go_name((*fld_iter)->get_name())) << " = " << argument_name((*fld_iter)->get_name()) << endl;
         }
 
         // Write to the stream
@@ -1826,7 +1827,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
                            indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
-                           indent() << "  " << variable_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
+                           indent() << "  " << argument_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
@@ -3194,7 +3195,7 @@ string t_go_generator::function_signature_if(t_function* tfunction,
     signature += argument_list(tfunction->get_arglist()) + ") (";
     t_type* ret = tfunction->get_returntype();
     t_struct* exceptions = tfunction->get_xceptions();
-    string errs = argument_list(exceptions);
+    string errs = argument_list(exceptions, tfunction->get_arglist());
     string retval(tmp("retval"));
 
     if (!ret->is_void()) {
@@ -3223,9 +3224,30 @@ string t_go_generator::function_signature_if(t_function* tfunction,
 
 
 /**
- * Renders a field list
+ * Renders the name of an argument of a function, or of one of its exceptions,
+ * avoiding the names that the generated functions use themselves.
  */
-string t_go_generator::argument_list(t_struct* tstruct)
+string t_go_generator::argument_name(const string& name)
+{
+    string go_name(variable_name_to_go_name(name));
+    string stem(go_name.substr(0, go_name.find_last_not_of("0123456789") + 1));
+
+    if (go_name == "p" || go_name == "err" || go_name == "value" || go_name == "iprot" ||
+            go_name == "oprot" || go_name == "mTypeId" || go_name == "seqId" ||
+            go_name == "nil" || go_name == "thrift" ||
+            (stem != go_name &&
+             (stem == "args" || stem == "result" || stem == "error" || stem == "retval"))) {
+        go_name += "_a1";
+    }
+
+    return go_name;
+}
+
+
+/**
+ * Renders a field list, whose names differ from those of the others, if given
+ */
+string t_go_generator::argument_list(t_struct* tstruct, t_struct* others)
 {
     string result = "";
     const vector<t_field*>& fields = tstruct->get_members();
@@ -3239,7 +3261,22 @@ string t_go_generator::argument_list(t_struct* tstruct)
             result += ", ";
         }
 
-        result += variable_name_to_go_name((*f_iter)->get_name()) + " " + type_to_go_type((*f_iter)->get_type());
+        string name = argument_name((*f_iter)->get_name());
+
+        // a result must not have the name of an argument
+        if (others != NULL) {
+            const vector<t_field*>& taken = others->get_members();
+            vector<t_field*>::const_iterator t_iter;
+
+            for (t_iter = taken.begin(); t_iter != taken.end(); ++t_iter) {
+                if (argument_name((*t_iter)->get_name()) == name) {
+                    name += "_x1";
+                    break;
+                }
+            }
+        }
+
+        result += name + " " + type_to_go_type((*f_iter)->get_type());
     }
 
     return result;
-- 
2.43.0


From 2163abdadab2b02bd7e93c9a3f7443a42244b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 57/72] fix: programs that include others compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 122 +++++++++++++++-----
 1 file changed, 96 insertions(+), 26 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d2031b9..685680e 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -203,8 +203,9 @@ public:
 
     std::string go_autogen_comment();
     std::string go_package();
-    std::string go_imports(bool has_structs, t_service* extends = NULL);
-    std::string render_includes();
+    std::string go_imports(bool has_structs);
+    std::string render_include_imports();
+    std::string render_include_uses();
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
     std::string render_field_default_value(t_field* tfield, const string& name);
@@ -216,6 +217,8 @@ public:
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
+    std::string go_qualifier(const t_program* program);
+    static void collect_includes(const t_program* program, std::vector<t_program*>& found);
 
     static std::string get_real_go_module(const t_program* program) {
         std::string real_module = program->get_namespace("go");
@@ -510,29 +513,82 @@ void t_go_generator::init_generator()
              go_autogen_comment() <<
              go_package() <<
              go_imports(!program_->get_objects().empty()) <<
-             render_includes() <<
              render_fastbinary_includes() << endl << endl;
 }
 
 /**
- * Renders all the imports necessary for including another Thrift program
+ * Collects the programs that a program includes, or that these include in
+ * turn, one for each Go package
  */
-string t_go_generator::render_includes()
+void t_go_generator::collect_includes(const t_program* program, vector<t_program*>& found)
 {
-    const vector<t_program*>& includes = program_->get_includes();
-    string result = "";
+    const vector<t_program*>& includes = program->get_includes();
 
     for (size_t i = 0; i < includes.size(); ++i) {
-        result += "import \"" + get_real_go_module(includes[i]) + "\"\n";
+        bool known = false;
+
+        for (size_t j = 0; j < found.size(); ++j) {
+            if (get_go_import_path(found[j]) == get_go_import_path(includes[i])) {
+                known = true;
+            }
+        }
+
+        if (!known) {
+            found.push_back(includes[i]);
+            collect_includes(includes[i], found);
+        }
     }
+}
 
-    if (includes.size() > 0) {
-        result += "\n";
+/**
+ * Renders all the imports necessary for including other Thrift programs
+ */
+string t_go_generator::render_include_imports()
+{
+    vector<t_program*> includes;
+    collect_includes(program_, includes);
+    string result = "";
+
+    for (size_t i = 0; i < includes.size(); ++i) {
+        // A package that declares nothing can only be imported without a name
+        bool empty = includes[i]->get_objects().empty() && includes[i]->get_enums().empty() &&
+                     includes[i]->get_typedefs().empty() && includes[i]->get_services().empty();
+        result += string("\t") + (empty ? "_ " : "") + "\"" + get_go_import_path(includes[i]) + "\"\n";
     }
 
     return result;
 }
 
+/**
+ * Renders a use of each imported program, since Go has no unused imports
+ */
+string t_go_generator::render_include_uses()
+{
+    vector<t_program*> includes;
+    collect_includes(program_, includes);
+    string result = "";
+
+    for (size_t i = 0; i < includes.size(); ++i) {
+        string name;
+
+        if (!includes[i]->get_objects().empty()) {
+            name = publicize(includes[i]->get_objects()[0]->get_name());
+        } else if (!includes[i]->get_enums().empty()) {
+            name = publicize(includes[i]->get_enums()[0]->get_name());
+        } else if (!includes[i]->get_typedefs().empty()) {
+            name = publicize(includes[i]->get_typedefs()[0]->get_symbolic());
+        } else if (!includes[i]->get_services().empty()) {
+            name = "I" + publicize(includes[i]->get_services()[0]->get_name());
+        } else {
+            continue;
+        }
+
+        result += "var _ " + go_qualifier(includes[i]) + name + "\n";
+    }
+
+    return result.empty() ? result : result + "\n";
+}
+
 /**
  * Renders all the imports necessary to use the accelerated TBinaryProtocol
  */
@@ -563,20 +619,18 @@ string t_go_generator::go_package()
 }
 
 /**
- * Prints standard thrift imports
+ * Prints standard thrift imports, and those of the included programs
  *
  * @param has_structs Whether the file defines structs, which use all of them
- * @param extends     The service that the file's service extends, if any
  */
-string t_go_generator::go_imports(bool has_structs, t_service* extends)
+string t_go_generator::go_imports(bool has_structs)
 {
     return
         string("import (\n"
                "\t\"fmt\"\n"
                "\t\"math\"\n"
                "\t\"thrift\"\n") +
-        (extends != NULL && extends->get_program() != program_ ?
-               "\t\"" + get_go_import_path(extends->get_program()) + "\"\n" : "") +
+        render_include_imports() +
         string(")\n\n"
                "// This is a temporary safety measure to ensure that the `math'\n"
                "// import does not trip up any generated output that may not\n"
@@ -587,6 +641,7 @@ string t_go_generator::go_imports(bool has_structs, t_service* extends)
                "\tvar temporaryAndUnused int32 = math.MinInt32\n"
                "\ttemporaryAndUnused++\n"
                "}\n\n") +
+        render_include_uses() +
         (has_structs ? "" :
                "var _ = fmt.Sprint\n"
                "var _ thrift.TException\n\n");
@@ -771,7 +826,7 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
         indent(out) << value->get_integer();
     } else if (type->is_struct() || type->is_xception()) {
         out <<
-            "New" << publicize(type->get_name()) << "()" << endl <<
+            go_qualifier(type->get_program()) << "New" << publicize(type->get_name()) << "()" << endl <<
             indent() << "{" << endl;
         indent_up();
         const vector<t_field*>& fields = ((t_struct*)type)->get_members();
@@ -1468,7 +1523,7 @@ void t_go_generator::generate_service(t_service* tservice)
     f_service_ <<
                go_autogen_comment() <<
                go_package() <<
-               go_imports(!tservice->get_functions().empty(), tservice->get_extends());
+               go_imports(!tservice->get_functions().empty());
 
     f_service_ <<
                //             "import (" << endl <<
@@ -1877,8 +1932,10 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "        \"strconv\"" << endl <<
              indent() << "        \"thrift\"" << endl <<
              indent() << "        \"" << service_module << "\"" << endl <<
+             render_include_imports() <<
              indent() << ")" << endl <<
              indent() << endl <<
+             render_include_uses() <<
              indent() << "func Usage() {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Usage of \", os.Args[0], \" [-h host:port] [-u url] [-f[ramed]] function [arg1 [arg2...]]:\\n\")" << endl <<
              indent() << "  flag.PrintDefaults()" << endl <<
@@ -2016,7 +2073,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
                          indent() << "}" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
+                         indent() << "argvalue" << i << " := " << get_go_package_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
             } else if (the_type2->is_base_type()) {
                 t_base_type::t_base e = ((t_base_type*)the_type2)->get_base();
                 string err(tmp("err"));
@@ -2113,7 +2170,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent()  << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "argvalue" << i << " := " << package_name_ << ".New" << tstruct_name << "()" << endl <<
+                         indent() << "argvalue" << i << " := " << get_go_package_name(the_type2->get_program()) << ".New" << tstruct_name << "()" << endl <<
                          indent() << err2 << " := argvalue" << i << ".Read(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2158,7 +2215,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
             if (the_type->is_typedef()) {
                 f_remote <<
-                         indent() << "value" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
+                         indent() << "value" << i << " := " << get_go_package_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
             } else {
                 f_remote <<
                          indent() << "value" << i << " := argvalue" << i << endl;
@@ -2608,13 +2665,13 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
             if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
+                indent(out) << name << " := " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
             } else {
                 indent(out) << name << " := " << v << endl;
             }
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
+                indent(out) << name << " = " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
             } else {
                 indent(out) << name << " = " << v << endl;
             }
@@ -2641,7 +2698,7 @@ void t_go_generator::generate_deserialize_struct(ofstream &out,
     }
 
     out <<
-        indent() << prefix << eq << "New" << publicize(type_name(tstruct)) << "()" << endl <<
+        indent() << prefix << eq << go_qualifier(tstruct->get_program()) << "New" << publicize(tstruct->get_name()) << "()" << endl <<
         indent() << err2 << " := " << prefix << ".Read(iprot)" << endl <<
         indent() << "if " << err2 << " != nil { return thrift.NewTProtocolExceptionReadStruct(\"" <<
         escape_string(prefix + tstruct->get_name()) << "\", " <<
@@ -3297,6 +3354,19 @@ string t_go_generator::type_name(t_type* ttype)
     return ttype->get_name();
 }
 
+/**
+ * Renders what precedes the name of something that a program declares where
+ * the code of this one uses it
+ */
+string t_go_generator::go_qualifier(const t_program* program)
+{
+    if (program == NULL || program == program_) {
+        return "";
+    }
+
+    return get_go_package_name(program) + ".";
+}
+
 /**
  * Converts the parse type to a go tyoe
  */
@@ -3390,9 +3460,9 @@ string t_go_generator::type_to_go_type(t_type* type)
             return "float64";
         }
     } else if (type->is_enum()) {
-        return publicize(type->get_name());
+        return go_qualifier(type->get_program()) + publicize(type->get_name());
     } else if (type->is_struct() || type->is_xception()) {
-        return string("*") + publicize(type->get_name());
+        return string("*") + go_qualifier(type->get_program()) + publicize(type->get_name());
     } else if (type->is_map()) {
         return "thrift.TMap";
         //t_map* t = (t_map*)type;
@@ -3417,7 +3487,7 @@ string t_go_generator::type_to_go_type(t_type* type)
             return type_to_go_type(true_type);
         }
 
-        return publicize(((t_typedef*)type)->get_symbolic());
+        return go_qualifier(type->get_program()) + publicize(((t_typedef*)type)->get_symbolic());
     }
 
     throw "INVALID TYPE IN type_to_go_type: " + type->get_name();
-- 
2.43.0


From 0ddfd22def7382dd02049ca9c7ec93dff3d56e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 58/72] fix: lists, sets and maps of enums and typedefs can be
 written

---
 compiler/cpp/src/generate/t_go_generator.cc | 22 ++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 685680e..079d13c 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -216,6 +216,7 @@ public:
     std::string argument_name(const std::string& name);
     std::string type_to_enum(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
+    std::string element_to_go_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
     std::string go_qualifier(const t_program* program);
     static void collect_includes(const t_program* program, std::vector<t_program*>& found);
@@ -3014,7 +3015,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << element_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << element_to_go_type(tmap->get_val_type()) << ")" << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -3025,7 +3026,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".Value.(" << element_to_go_type(tset->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -3036,7 +3037,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".(" << element_to_go_type(tlist->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
@@ -3493,6 +3494,21 @@ string t_go_generator::type_to_go_type(t_type* type)
     throw "INVALID TYPE IN type_to_go_type: " + type->get_name();
 }
 
+/**
+ * The go type by which a list, set or map holds its elements: they know
+ * nothing of typedefs, and enums are numbers to them.
+ */
+string t_go_generator::element_to_go_type(t_type* type)
+{
+    type = get_true_type(type);
+
+    if (type->is_enum()) {
+        return "int32";
+    }
+
+    return type_to_go_type(type);
+}
+
 
 /**
  * Converts the parse type to a go tyoe
-- 
2.43.0


From 6d8dae4ee372f1e5dd6535d083367995045f1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:13 +0000
Subject: [PATCH 59/72] fix: lists, sets and maps are read with the types that
 are declared

---
 compiler/cpp/src/generate/t_go_generator.cc | 34 +++++++++------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 079d13c..3f9354d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2665,11 +2665,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             "\", " << structName << ", " << err2 << "); }" << endl;
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
-            if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
-            } else {
-                indent(out) << name << " := " << v << endl;
-            }
+            // An element of a container, to which it is a value of the true type
+            indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
                 indent(out) << name << " = " << type_to_go_type(orig_type) << "(" << v << ")" << endl;
@@ -2717,50 +2714,49 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
-    t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
         eq = " := ";
     }
 
-    // Declare variables, read header
+    // Declare variables, read header. Of the elements' types the declared ones
+    // count: a message does not tell binary from string, and not every protocol
+    // tells the types of what is empty.
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" <<
+            type_to_enum(((t_map*)ttype)->get_key_type()) << ", " <<
+            type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" <<
+            type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" <<
+            type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
-- 
2.43.0


From 1fe28409f4b19b8012e43998b4656be7f84f946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 60/72] fix: doubles of the IDL keep all their digits

---
 compiler/cpp/src/generate/t_go_generator.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 3f9354d..4494c34 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -815,7 +815,21 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
-                out << value->get_double();
+                // As many digits as it takes to tell it from every other number
+                string digits;
+
+                for (int precision = 6; precision <= 17; ++precision) {
+                    std::ostringstream number;
+                    number.precision(precision);
+                    number << value->get_double();
+                    digits = number.str();
+
+                    if (strtod(digits.c_str(), NULL) == value->get_double()) {
+                        break;
+                    }
+                }
+
+                out << digits;
             }
 
             break;
@@ -1172,7 +1186,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
             indent_up();
             string s_check_value;
             int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1212,9 +1225,9 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From 71b4095dc3dc6160af094255f445877eece6e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 61/72] fix: maps with keys of a base type hold their values
 unconverted

---
 lib/go/src/thrift/tmap.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index d790c55..eeee9cc 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -352,43 +352,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
 			p.f64 = make(map[float64]interface{})
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[b] = coercedValue
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
-- 
2.43.0


From f3b017a33ff98b5dc1bae9c9bbff535847a9db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:03 +0000
Subject: [PATCH 62/72] fix: fields of a typedef of an enum are not written
 when they are not set

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 4494c34..ef943c1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1478,7 +1478,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent_up();
         }
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             out <<
                 indent() << "if p.IsSet" << publicize(variable_name_to_go_name(field_name)) << "() {" << endl;
             indent_up();
@@ -1503,7 +1503,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name << "\", " <<
             "p.ThriftName(), err); }" << endl;
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             indent_down();
             out <<
                 indent() << "}" << endl;
-- 
2.43.0


From b7f30eff257d6eea8a40bc2ef7a587a3fcea4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:50 +0000
Subject: [PATCH 63/72] fix: fields named like methods of every struct do not
 compile, or their struct is none to containers

---
 compiler/cpp/src/generate/t_go_generator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index ef943c1..abd5e93 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -318,6 +318,19 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
         return value;
     }
 
+    // What every struct has already
+    static const char* const struct_names[] = {
+        "At", "AttributeByFieldId", "AttributeFromFieldId", "AttributeFromFieldName",
+        "CompareTo", "Contains", "Equals", "FieldFromFieldId", "FieldFromFieldName", "FieldIdFromFieldName",
+        "FieldNameFromFieldId", "Iter", "Len", "Read", "String", "TStruct", "TStructFields", "TStructName",
+        "ThriftName", "Write"
+    };
+    static const set<string> taken(struct_names, struct_names + sizeof(struct_names) / sizeof(struct_names[0]));
+
+    if (taken.count(publicize(value))) {
+        return value + "_a1";
+    }
+
     std::string value2(value);
     std::transform(value2.begin(), value2.end(), value2.begin(), ::tolower);
 
-- 
2.43.0


From 49fd88164a2480fa7b2d1340567aa81e7e9dc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 64/72] fix: values of typedefs neither compare nor go into
 containers

---
 lib/go/src/thrift/ttype.go | 39 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index c0d42ee..48d6ddb 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -607,6 +607,45 @@ func TypeFromValue(data interface{}) TType {
 }
 
 func (p TType) CoerceData(data interface{}) (interface{}, bool) {
+	coerced, ok := p.coerceData(data)
+	if !ok {
+		if plain, isNamed := withoutName(data); isNamed {
+			return p.coerceData(plain)
+		}
+	}
+	return coerced, ok
+}
+
+// The value of a named type, such as generated for a typedef of the IDL, as
+// one of the type that it is made from.
+func withoutName(data interface{}) (interface{}, bool) {
+	v := reflect.ValueOf(data)
+	var plain interface{}
+	switch v.Kind() {
+	case reflect.Bool:
+		plain = v.Bool()
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		plain = v.Int()
+	case reflect.Uint8:
+		plain = byte(v.Uint())
+	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		plain = v.Uint()
+	case reflect.Float32, reflect.Float64:
+		plain = v.Float()
+	case reflect.String:
+		plain = v.String()
+	case reflect.Slice:
+		if v.Type().Elem().Kind() != reflect.Uint8 {
+			return nil, false
+		}
+		plain = v.Bytes()
+	default:
+		return nil, false
+	}
+	return plain, v.Type() != reflect.TypeOf(plain)
+}
+
+func (p TType) coerceData(data interface{}) (interface{}, bool) {
 	if data == nil {
 		switch p {
 		case STOP:
-- 
2.43.0


From a9a25fbe7a766400fff07fb144349be58b90d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:51 +0000
Subject: [PATCH 65/72] fix: oneway functions are answered

---
 compiler/cpp/src/generate/t_go_generator.cc | 42 +++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index abd5e93..9cdf8aa 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -109,6 +109,7 @@ public:
     void generate_service_remote    (t_service* tservice);
     void generate_service_server    (t_service* tservice);
     void generate_process_function  (t_service* tservice, t_function* tfunction);
+    void generate_process_oneway    (t_function* tfunction, const std::string& argsname);
 
     /**
      * Serialization constructs
@@ -2445,6 +2446,41 @@ void t_go_generator::generate_service_server(t_service* tservice)
     f_service_ << endl;
 }
 
+/**
+ * Generates the body of the process function of a oneway function: nobody
+ * reads an answer to it.
+ *
+ * @param tfunction The function to write a dispatcher for
+ * @param argsname  The go name of the struct of its arguments
+ */
+void t_go_generator::generate_process_oneway(t_function* tfunction,
+        const string& argsname)
+{
+    const vector<t_field*>& fields = tfunction->get_arglist()->get_members();
+    vector<t_field*>::const_iterator f_iter;
+    f_service_ <<
+               indent() << "args := New" << argsname << "()" << endl <<
+               indent() << "err = args.Read(iprot)" << endl <<
+               indent() << "iprot.ReadMessageEnd()" << endl <<
+               indent() << "if err != nil {" << endl <<
+               indent() << "  return" << endl <<
+               indent() << "}" << endl <<
+               indent() << "if err = p.handler." << publicize(tfunction->get_name()) << "(";
+
+    for (f_iter = fields.begin(); f_iter != fields.end(); ++f_iter) {
+        f_service_ << (f_iter == fields.begin() ? "" : ", ") <<
+                   "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
+    }
+
+    f_service_ << "); err != nil {" << endl <<
+               indent() << "  return" << endl <<
+               indent() << "}" << endl <<
+               indent() << "return true, err" << endl;
+    indent_down();
+    f_service_ <<
+               indent() << "}" << endl << endl;
+}
+
 /**
  * Generates a process function definition.
  *
@@ -2466,6 +2502,12 @@ void t_go_generator::generate_process_function(t_service* tservice,
                indent() << "}" << endl << endl <<
                indent() << "func (p *" << processorName << ") Process(seqId int32, iprot, oprot thrift.TProtocol) (success bool, err thrift.TException) {" << endl;
     indent_up();
+
+    if (tfunction->is_oneway()) {
+        generate_process_oneway(tfunction, argsname);
+        return;
+    }
+
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
                indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-- 
2.43.0


From d7584319eb9722928a2a5f4978101d56a264c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 66/72] fix: constants of lists, sets and maps are not exported

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 9cdf8aa..d06d020 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -771,7 +771,14 @@ void t_go_generator::generate_enum(t_enum* tenum)
 void t_go_generator::generate_const(t_const* tconst)
 {
     t_type* type = tconst->get_type();
-    string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
+    string type_name = type->get_name();
+
+    if (type_name.empty()) {
+        // Containers have no name: without one, the constant would not be exported
+        type_name = type->is_map() ? "map" : type->is_set() ? "set" : "list";
+    }
+
+    string name = publicize(type_name) + "_" + publicize(tconst->get_name());
     t_const_value* value = tconst->get_value();
 
     if (type->is_base_type() && ((t_base_type*)type)->is_binary()) {
-- 
2.43.0


From c499c79393edb361ae5a56df438db0a1ba200044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:23 +0000
Subject: [PATCH 67/72] fix: the simple JSON protocol panics when a list or an
 object ends whose beginning could not be written

---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 7e9b2fc..4e5f5e1 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -682,6 +682,9 @@ func (p *TSimpleJSONProtocol) OutputObjectBegin() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) OutputObjectEnd() TProtocolException {
+	if len(p.dumpContext) < 2 {
+		return NewTProtocolException(INVALID_DATA, "Expected to be in the Object Context, but not in Object Context")
+	}
 	if _, e := p.writer.Write(JSON_RBRACE); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
@@ -704,6 +707,9 @@ func (p *TSimpleJSONProtocol) OutputListBegin() TProtocolException {
 }
 
 func (p *TSimpleJSONProtocol) OutputListEnd() TProtocolException {
+	if len(p.dumpContext) < 2 {
+		return NewTProtocolException(INVALID_DATA, "Expected to be in the List Context, but not in List Context")
+	}
 	if _, e := p.writer.Write(JSON_RBRACKET); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-- 
2.43.0


From 8906b402931131a95fff4452358991adcbe9d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:33 +0000
Subject: [PATCH 68/72] fix: structs whose enum field is not set equal those
 that hold 2147483647

---
 lib/go/src/thrift/ttype.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 48d6ddb..fd8e879 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -421,7 +421,12 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		}
 		for field := range si.TStructFields().Iter() {
 			a, b := attributes(si, sj, field.Id())
-			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
+			typeId := field.TypeId()
+			if typeId == I32 && isInt64(a) && isInt64(b) {
+				// enums: one that is not set is no 32-bit integer
+				typeId = I64
+			}
+			if cmp, ok := typeId.Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
 		}
@@ -527,6 +532,11 @@ func isNilPointer(i interface{}) bool {
 	return v.Kind() == reflect.Ptr && v.IsNil()
 }
 
+// Whether the value is a 64-bit integer, such as one of an enum.
+func isInt64(i interface{}) bool {
+	return reflect.ValueOf(i).Kind() == reflect.Int64
+}
+
 // Whether two values are trivially the same; never for types that the
 // language cannot compare.
 func isSame(i, j interface{}) bool {
-- 
2.43.0


From 42eef6067c96e85a048ece019f658725a033f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:50 +0000
Subject: [PATCH 69/72] fix: services and functions with two underscores in
 their names are called by other names than they are declared with

---
 compiler/cpp/src/generate/t_go_generator.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d06d020..6152f6f 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1819,7 +1819,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl <<
                    indent() << "func (p *" << serviceName << "Client) Send" << function_signature(*f_iter) << "(err error) {" << endl;
         indent_up();
-        std::string argsname = privatize((*f_iter)->get_name()) + "Args";
+        std::string argsname = publicize((*f_iter)->get_name()) + "Args";
         // Serialize the request header
         string args(tmp("args"));
         f_service_ <<
@@ -1830,7 +1830,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
                    indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
-                   indent() << args << " := New" << publicize(argsname) << "()" << endl;
+                   indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
@@ -1848,7 +1848,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl;
 
         if (true) { //!(*f_iter)->is_oneway() || true) {}
-            std::string resultname = privatize((*f_iter)->get_name()) + "Result";
+            std::string resultname = publicize((*f_iter)->get_name()) + "Result";
             // Open function
             f_service_ << endl <<
                        indent() << "func (p *" << serviceName << "Client) Recv" << publicize((*f_iter)->get_name()) <<
@@ -1900,7 +1900,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-                       indent() << result << " := New" << publicize(resultname) << "()" << endl <<
+                       indent() << result << " := New" << resultname << "()" << endl <<
                        indent() << "err = " << result << ".Read(iprot)" << endl <<
                        indent() << "iprot.ReadMessageEnd()" << endl;
 
@@ -2359,7 +2359,7 @@ void t_go_generator::generate_service_server(t_service* tservice)
         }
     }
 
-    string pServiceName(privatize(serviceName));
+    string pServiceName(privatize(tservice->get_name()));
     // Generate the header portion
     string self(tmp("self"));
 
-- 
2.43.0


From a2decbd68b6a3080a6d4553bdae01d5c896dc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:29 +0000
Subject: [PATCH 70/72] fix: names that begin with an underscore are not
 exported by the generated code

---
 compiler/cpp/src/generate/t_go_generator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 6152f6f..9cc9095 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -277,6 +277,11 @@ std::string t_go_generator::publicize(const std::string& value)
 
     std::string value2(value);
 
+    // a name is exported if it begins with a capital
+    if (value2[0] == '_') {
+        value2.insert(0, 1, 'X');
+    }
+
     if (!isupper(value2[0])) {
         value2[0] = toupper(value2[0]);
     }
@@ -2655,7 +2660,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
 {
     t_type* orig_type = tfield->get_type();
     t_type* type = get_true_type(orig_type);
-    string name(prefix + publicize(variable_name_to_go_name(tfield->get_name())));
+    // without a prefix it is a variable
+    string name(prefix.empty() ? tfield->get_name() : prefix + publicize(variable_name_to_go_name(tfield->get_name())));
 
     if (type->is_void()) {
         throw "CANNOT GENERATE DESERIALIZE CODE FOR void TYPE: " + name;
@@ -2944,7 +2950,8 @@ void t_go_generator::generate_serialize_field(ofstream &out,
         string err)
 {
     t_type* type = get_true_type(tfield->get_type());
-    string name(prefix + publicize(variable_name_to_go_name(tfield->get_name())));
+    // without a prefix it is a variable
+    string name(prefix.empty() ? tfield->get_name() : prefix + publicize(variable_name_to_go_name(tfield->get_name())));
 
     // Do nothing for void types
     if (type->is_void()) {
@@ -3361,7 +3368,7 @@ string t_go_generator::argument_name(const string& name)
     string go_name(variable_name_to_go_name(name));
     string stem(go_name.substr(0, go_name.find_last_not_of("0123456789") + 1));
 
-    if (go_name == "p" || go_name == "err" || go_name == "value" || go_name == "iprot" ||
+    if (go_name == "_" || go_name == "p" || go_name == "err" || go_name == "value" || go_name == "iprot" ||
             go_name == "oprot" || go_name == "mTypeId" || go_name == "seqId" ||
             go_name == "nil" || go_name == "thrift" ||
             (stem != go_name &&
-- 
2.43.0


From 89c282ab892afe225763f78c7256f096a814d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:33 +0000
Subject: [PATCH 71/72] fix: the go tool ignores the files of some services
 because of their names

---
 compiler/cpp/src/generate/t_go_generator.cc | 38 +++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 9cc9095..b3688b7 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -263,12 +263,43 @@ private:
     static std::string publicize(const std::string& value);
     static std::string privatize(const std::string& value);
     static std::string variable_name_to_go_name(const std::string& value);
+    static std::string service_file_name(const std::string& service_name);
     static std::string field_id_to_go_name(int32_t field_id);
     static bool can_be_nil(t_type* value);
 
 };
 
 
+/**
+ * The name of a service's file, without its extension. The go tool ignores
+ * the files whose names begin with an underscore, and those whose last part
+ * says that they are tests or are for another system; the types have a file
+ * of their own.
+ */
+std::string t_go_generator::service_file_name(const std::string& service_name)
+{
+    static const char* const parts[] = {
+        "test", "unix",
+        "aix", "android", "darwin", "dragonfly", "freebsd", "hurd", "illumos",
+        "ios", "js", "linux", "nacl", "netbsd", "openbsd", "plan9", "solaris",
+        "wasip1", "windows", "zos",
+        "386", "amd64", "amd64p32", "arm", "armbe", "arm64", "arm64be",
+        "loong64", "mips", "mipsle", "mips64", "mips64le", "mips64p32",
+        "mips64p32le", "ppc", "ppc64", "ppc64le", "riscv", "riscv64", "s390",
+        "s390x", "sparc", "sparc64", "wasm"
+    };
+    static const set<string> ignored(parts, parts + sizeof(parts) / sizeof(parts[0]));
+
+    string name(service_name[0] == '_' ? "X" + service_name : service_name);
+    string::size_type last = name.rfind('_');
+
+    if (name == "ttypes" || (last != string::npos && ignored.count(name.substr(last + 1)) > 0)) {
+        name += "_service";
+    }
+
+    return name;
+}
+
 std::string t_go_generator::publicize(const std::string& value)
 {
     if (value.size() <= 0) {
@@ -520,7 +551,7 @@ void t_go_generator::init_generator()
     vector<t_service*>::iterator sv_iter;
 
     for (sv_iter = services.begin(); sv_iter != services.end(); ++sv_iter) {
-        string service_dir = package_dir_ + "/" + (*sv_iter)->get_name();
+        string service_dir = package_dir_ + "/" + service_file_name((*sv_iter)->get_name());
 #ifdef MINGW
         mkdir(service_dir.c_str());
 #else
@@ -1558,7 +1589,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
  */
 void t_go_generator::generate_service(t_service* tservice)
 {
-    string f_service_name = package_dir_ + "/" + service_name_ + ".go";
+    string f_service_name = package_dir_ + "/" + service_file_name(service_name_) + ".go";
     f_service_.open(f_service_name.c_str());
     f_service_ <<
                go_autogen_comment() <<
@@ -1949,7 +1980,8 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 {
     vector<t_function*> functions = tservice->get_functions();
     vector<t_function*>::iterator f_iter;
-    string f_remote_name = package_dir_ + "/" + service_name_ + "/" + service_name_ + "-remote.go";
+    string file_name = service_file_name(service_name_);
+    string f_remote_name = package_dir_ + "/" + file_name + "/" + file_name + "-remote.go";
     ofstream f_remote;
     f_remote.open(f_remote_name.c_str());
     string service_module = get_real_go_module(program_);
-- 
2.43.0


From d595c55d4ab7c066dacdc6a79b0d7eb76493e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:56 +0000
Subject: [PATCH 72/72] fix: packages whose names others have, the generated
 code uses itself or Go does not allow

---
 compiler/cpp/src/generate/t_go_generator.cc | 133 +++++++++++++++++---
 1 file changed, 115 insertions(+), 18 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index b3688b7..04c778d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -28,6 +28,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <map>
 #include <set>
 #include <vector>
 
@@ -242,10 +243,39 @@ public:
     }
 
     static std::string get_go_package_name(const t_program* program) {
+        static const char* const words[] = {
+            "break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for",
+            "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return",
+            "select", "struct", "switch", "type", "var", "main", "_"
+        };
+        static const std::set<std::string> taken(words, words + sizeof(words) / sizeof(words[0]));
         std::string module = get_real_go_module(program);
-        return module.substr(module.rfind('.') + 1);
+        std::string name = module.substr(module.rfind('.') + 1);
+
+        for (size_t i = 0; i < name.size(); ++i) {
+            if (!isalnum(name[i])) {
+                name[i] = '_';
+            }
+        }
+
+        if (isdigit(name[0]) || taken.count(name) > 0) {
+            name = "go_" + name;
+        }
+
+        return name;
+    }
+
+    /**
+     * The name by which the code of this program uses the package of another,
+     * or the command of a service that of this one
+     */
+    std::string go_import_name(const t_program* program) {
+        return import_names_[get_go_import_path(program)];
     }
 
+    std::string go_import(const t_program* program);
+    void name_imports();
+
 private:
 
     /**
@@ -258,6 +288,7 @@ private:
     std::ofstream f_service_;
 
     std::string package_name_;
+    std::map<std::string, std::string> import_names_;
     std::string package_dir_;
 
     static std::string publicize(const std::string& value);
@@ -528,7 +559,7 @@ void t_go_generator::init_generator()
         if (pos == string::npos) {
             package_dir_ += "/";
             package_dir_ += module;
-            package_name_ = module;
+            package_name_ = get_go_package_name(program_);
             module.clear();
         } else {
             package_dir_ += "/";
@@ -543,6 +574,8 @@ void t_go_generator::init_generator()
         target.replace(loc, 1, 1, '/');
     }
 
+    name_imports();
+
     // Make output file
     f_types_name_ = package_dir_ + "/" + "ttypes.go";
     f_types_.open(f_types_name_.c_str());
@@ -591,6 +624,70 @@ void t_go_generator::collect_includes(const t_program* program, vector<t_program
     }
 }
 
+/**
+ * Chooses the names of the packages of this program and of those it includes
+ * where they are used: two of them may have the same name, or one that the
+ * generated code uses itself.
+ */
+void t_go_generator::name_imports()
+{
+    static const char* const names[] = {
+        // packages and variables
+        "thrift", "fmt", "math", "flag", "net", "url", "os", "strconv", "init", "p", "err", "value", "iprot", "oprot",
+        "mTypeId", "seqId", "output", "result", "args", "process", "nameFound", "fieldName", "fieldTypeId", "fieldId",
+        "data", "ok", "x", "l", "i", "e", "v", "s", "k", "key", "host", "port", "protocol", "urlString", "framed", "useHttp",
+        "help", "parsedUrl", "trans", "addr", "cmd", "protocolFactory", "client", "skippedErr", "temporaryAndUnused",
+        "found", "handler", "t", "f", "c", "other", "id", "success", "processorMap",
+        // what Go declares
+        "any", "bool", "byte", "comparable", "complex64", "complex128", "error", "float32", "float64", "int", "int8",
+        "int16", "int32", "int64", "rune", "string", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "true",
+        "false", "iota", "nil", "append", "cap", "clear", "close", "complex", "copy", "delete", "imag", "len", "make",
+        "max", "min", "new", "panic", "print", "println", "real", "recover"
+    };
+    set<string> taken(names, names + sizeof(names) / sizeof(names[0]));
+    vector<t_program*> programs(1, program_);
+    collect_includes(program_, programs);
+
+    for (size_t i = 0; i < programs.size(); ++i) {
+        string name = get_go_package_name(programs[i]);
+
+        // exported names are those of what a program declares
+        name[0] = tolower(name[0]);
+
+        // variables have a number at the end
+        string stem(name.substr(0, name.find_last_not_of("0123456789") + 1));
+        static const char* const stems[] = {
+            "arg", "args", "argvalue", "containerStruct", "err", "error", "factory", "jsProt", "mbTrans", "output",
+            "result", "retval", "self", "tmp", "v", "value", "x"
+        };
+        static const set<string> numbered(stems, stems + sizeof(stems) / sizeof(stems[0]));
+
+        if (taken.count(name) > 0 || (stem != name && numbered.count(stem) > 0)) {
+            name += "_pkg";
+        }
+
+        string unique(name);
+
+        for (int number = 2; taken.count(unique) > 0; ++number) {
+            std::ostringstream suffix;
+            suffix << number;
+            unique = name + suffix.str();
+        }
+
+        taken.insert(unique);
+        import_names_[get_go_import_path(programs[i])] = unique;
+    }
+}
+
+/**
+ * Renders the import of a program's package
+ */
+string t_go_generator::go_import(const t_program* program)
+{
+    string name = go_import_name(program);
+    return (name == get_go_package_name(program) ? "" : name + " ") + "\"" + get_go_import_path(program) + "\"";
+}
+
 /**
  * Renders all the imports necessary for including other Thrift programs
  */
@@ -604,7 +701,7 @@ string t_go_generator::render_include_imports()
         // A package that declares nothing can only be imported without a name
         bool empty = includes[i]->get_objects().empty() && includes[i]->get_enums().empty() &&
                      includes[i]->get_typedefs().empty() && includes[i]->get_services().empty();
-        result += string("\t") + (empty ? "_ " : "") + "\"" + get_go_import_path(includes[i]) + "\"\n";
+        result += "\t" + (empty ? "_ \"" + get_go_import_path(includes[i]) + "\"" : go_import(includes[i])) + "\n";
     }
 
     return result;
@@ -1984,13 +2081,6 @@ void t_go_generator::generate_service_remote(t_service* tservice)
     string f_remote_name = package_dir_ + "/" + file_name + "/" + file_name + "-remote.go";
     ofstream f_remote;
     f_remote.open(f_remote_name.c_str());
-    string service_module = get_real_go_module(program_);
-    string::size_type loc;
-
-    while ((loc = service_module.find(".")) != string::npos) {
-        service_module.replace(loc, 1, 1, '/');
-    }
-
     f_remote <<
              go_autogen_comment() <<
              indent() << "package main" << endl << endl <<
@@ -2003,7 +2093,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "        \"os\"" << endl <<
              indent() << "        \"strconv\"" << endl <<
              indent() << "        \"thrift\"" << endl <<
-             indent() << "        \"" << service_module << "\"" << endl <<
+             indent() << "        " << go_import(program_) << endl <<
              render_include_imports() <<
              indent() << ")" << endl <<
              indent() << endl <<
@@ -2108,7 +2198,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  Usage()" << endl <<
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
-             indent() << "client := " << package_name_ << ".New" << publicize(service_name_) << "ClientFactory(trans, protocolFactory)" << endl <<
+             indent() << "client := " << go_import_name(program_) << ".New" << publicize(service_name_) << "ClientFactory(trans, protocolFactory)" << endl <<
              (functions.empty() ? indent() + "_ = client\n" : "") <<
              indent() << "if err = trans.Open(); err != nil {" << endl <<
              indent() << "  fmt.Fprint(os.Stderr, \"Error opening socket to \", host, \":\", port, \" \", err.Error())" << endl <<
@@ -2145,7 +2235,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "  Usage()" << endl <<
                          indent() << " return" << endl <<
                          indent() << "}" << endl <<
-                         indent() << "argvalue" << i << " := " << get_go_package_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
+                         indent() << "argvalue" << i << " := " << go_import_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(tmp" << i << ")" << endl;
             } else if (the_type2->is_base_type()) {
                 t_base_type::t_base e = ((t_base_type*)the_type2)->get_base();
                 string err(tmp("err"));
@@ -2242,7 +2332,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent()  << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "argvalue" << i << " := " << get_go_package_name(the_type2->get_program()) << ".New" << tstruct_name << "()" << endl <<
+                         indent() << "argvalue" << i << " := " << go_import_name(the_type2->get_program()) << ".New" << tstruct_name << "()" << endl <<
                          indent() << err2 << " := argvalue" << i << ".Read(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2267,7 +2357,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl <<
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
-                         indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
+                         indent() << "containerStruct" << i << " := " << go_import_name(program_) << ".New" << pubName << "Args()" << endl <<
                          indent() << err2 << " := containerStruct" << i << ".ReadField" << field_id_to_go_name(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
@@ -2287,7 +2377,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
 
             if (the_type->is_typedef()) {
                 f_remote <<
-                         indent() << "value" << i << " := " << get_go_package_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
+                         indent() << "value" << i << " := " << go_import_name(the_type->get_program()) << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
             } else {
                 f_remote <<
                          indent() << "value" << i << " := argvalue" << i << endl;
@@ -3408,6 +3498,13 @@ string t_go_generator::argument_name(const string& name)
         go_name += "_a1";
     }
 
+    // nor those of the packages
+    for (map<string, string>::const_iterator i_iter = import_names_.begin(); i_iter != import_names_.end(); ++i_iter) {
+        if (go_name == i_iter->second && i_iter->first != get_go_import_path(program_)) {
+            return go_name + "_a1";
+        }
+    }
+
     return go_name;
 }
 
@@ -3455,7 +3552,7 @@ string t_go_generator::type_name(t_type* ttype)
     t_program* program = ttype->get_program();
 
     if (ttype->is_service() && program != program_) {
-        return get_go_package_name(program) + "." + ttype->get_name();
+        return go_import_name(program) + "." + ttype->get_name();
     }
 
     if (program != NULL && program != program_) {
@@ -3475,7 +3572,7 @@ string t_go_generator::go_qualifier(const t_program* program)
         return "";
     }
 
-    return get_go_package_name(program) + ".";
+    return go_import_name(program) + ".";
 }
 
 /**
-- 
2.43.0

