From 8ce4efd8847bd937c256b09665bd55f677dc4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/50] fix: encode messages into valid chunks and send nothing
 of a message that cannot be encoded

---
 encoding/encoding_v1/encoderV1.go | 34 ++++++++++++-----------------
 encoding/encoding_v2/encoderV2.go | 36 +++++++++++++------------------
 2 files changed, 29 insertions(+), 41 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..052ab27 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -43,7 +43,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// Write buffers the message, flush sends it in chunks of at most chunkSize.
 func (e EncoderV1) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -55,32 +55,23 @@ func (e EncoderV1) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -97,12 +88,15 @@ func (e EncoderV1) flush() error {
 // Encode encodes an object to the stream
 func (e EncoderV1) Encode(iVal interface{}) error {
 
+	// nothing of a message that could not be encoded or written may end up in a later one
+	defer e.buf.Reset()
+
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
+	// the whole message is in the buffer now, write it out
 	return e.flush()
 }
 
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..44ca5ec 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -46,7 +46,7 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// Write buffers the message, flush sends it in chunks of at most chunkSize.
 func (e EncoderV2) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -58,34 +58,25 @@ func (e EncoderV2) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		log.TraceBytesFromBuf(e.buf)
+	log.TraceBytesFromBuf(e.buf)
+
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
 
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		chunk := e.buf.Next(chunkSize)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
@@ -102,12 +93,15 @@ func (e EncoderV2) flush() error {
 // Encode encodes an object to the stream
 func (e EncoderV2) Encode(iVal interface{}) error {
 
+	// nothing of a message that could not be encoded or written may end up in a later one
+	defer e.buf.Reset()
+
 	err := e.encode(iVal)
 	if err != nil {
 		return err
 	}
 
-	// Whatever is left in the buffer for the chunk at the end, write it out
+	// the whole message is in the buffer now, write it out
 	return e.flush()
 }
 
-- 
2.43.0


From 09d6387dc5cfb70158ea25406a276d5a51e585a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/50] fix: read string, list, map and structure sizes as
 unsigned

---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++-----------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..fdb5cdc 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -161,19 +161,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -184,19 +184,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..8f6965f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -156,19 +156,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -179,19 +179,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 5364c72ed4b83911d4eea1faac25d6934e992b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 03/50] fix: do not trust the sizes a server claims when
 decoding strings, lists and maps

---
 encoding/encoding_v1/decoderV1.go | 23 ++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 23 ++++++++++++++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index fdb5cdc..468ba82 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -159,25 +159,25 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -248,21 +248,30 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String of %d bytes in a message with only %d bytes left", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// grown as items are read: size is only what the server claims
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8f6965f..0f3bad1 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -154,25 +154,25 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -243,21 +243,30 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String of %d bytes in a message with only %d bytes left", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// grown as items are read: size is only what the server claims
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From 9d20e18b96ae50a394fa4aee056c9615043fbb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 04/50] fix: report wrongly typed identities in graph
 structures instead of panicking

---
 encoding/encoding_v1/decoderV1.go | 30 +++++++++++++++++++++++-------
 encoding/encoding_v2/decoderV2.go | 30 +++++++++++++++++++++++-------
 encoding/util.go                  |  6 +++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 468ba82..d2a5ede 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -329,12 +329,16 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -364,26 +368,35 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -449,14 +462,17 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0f3bad1..398010f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -641,12 +641,16 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -676,26 +680,35 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -761,14 +774,17 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..60dc462 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int64 value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 8698a1a3b16314ab8956076528fdc88eee114eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 05/50] fix: reject structures with the wrong number of fields

---
 encoding/encoding_v1/decoderV1.go | 18 ++++++++++++++++++
 encoding/encoding_v2/decoderV2.go | 27 +++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d2a5ede..6679fc8 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -292,6 +292,20 @@ func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSizes is the number of fields of each structure, a structure with any other number is malformed
+var structSizes = map[byte]int{
+	graph.NodeSignature:                 3,
+	graph.RelationshipSignature:         5,
+	graph.PathSignature:                 3,
+	graph.UnboundRelationshipSignature:  3,
+	messages.RecordMessageSignature:     1,
+	messages.FailureMessageSignature:    1,
+	messages.SuccessMessageSignature:    1,
+	messages.DiscardAllMessageSignature: 0,
+	messages.PullAllMessageSignature:    0,
+	messages.ResetMessageSignature:      0,
+}
+
 func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -299,6 +313,10 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Expected: %d fields in struct with signature %x, but got %d", expected, signature, size)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 398010f..0dd20d7 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -287,6 +287,29 @@ func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 	return mapp, nil
 }
 
+// structSizes is the number of fields of each structure, a structure with any other number is malformed
+var structSizes = map[byte]int{
+	graph.NodeSignature:                           3,
+	graph.RelationshipSignature:                   5,
+	graph.PathSignature:                           3,
+	graph.UnboundRelationshipSignature:            3,
+	messages.RecordMessageSignature:               1,
+	messages.FailureMessageSignature:              1,
+	messages.SuccessMessageSignature:              1,
+	messages.DiscardAllMessageSignature:           0,
+	messages.PullAllMessageSignature:              0,
+	messages.ResetMessageSignature:                0,
+	types.Point2DStructSignature:                  types.Point2DStructSize,
+	types.Point3DStructSignature:                  types.Point3DStructSize,
+	encode_consts.DateSignature:                   encode_consts.DateStructSize,
+	encode_consts.TimeSignature:                   encode_consts.TimeStructSize,
+	encode_consts.LocalTimeSignature:              encode_consts.LocalTimeStructSize,
+	encode_consts.LocalDateTimeSignature:          encode_consts.LocalDateTimeStructSize,
+	encode_consts.DateTimeWithZoneOffsetSignature: encode_consts.DateTimeStructSize,
+	encode_consts.DateTimeWithZoneIdSignature:     encode_consts.DateTimeStructSize,
+	encode_consts.DurationSignature:               encode_consts.DurationTimeStructSize,
+}
+
 func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, error) {
 
 	signature, err := buffer.ReadByte()
@@ -294,6 +317,10 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if expected, ok := structSizes[signature]; ok && size != expected {
+		return nil, errors.New("Expected: %d fields in struct with signature %x, but got %d", expected, signature, size)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
-- 
2.43.0


From c52a1519940a24d10ecae1cc15f27fa8493e35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 06/50] fix: limit the nesting depth when encoding and decoding

---
 encoding/encode_consts/const.go   |  4 ++++
 encoding/encoding_v1/decoderV1.go | 10 ++++++++--
 encoding/encoding_v1/encoderV1.go |  6 ++++++
 encoding/encoding_v2/decoderV2.go | 10 ++++++++--
 encoding/encoding_v2/encoderV2.go |  6 ++++++
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/encoding/encode_consts/const.go b/encoding/encode_consts/const.go
index aa74f75..cc88811 100644
--- a/encoding/encode_consts/const.go
+++ b/encoding/encode_consts/const.go
@@ -55,6 +55,10 @@ const (
 	// Struct16Marker represents the encoding marker byte for a struct object
 	Struct16Marker = 0xDD
 
+	// MaxDepth is how deep values can be nested in a message. Without a limit a malicious
+	// message or a value containing itself overflows the stack, which can not be recovered
+	MaxDepth = 10000
+
 	DateSignature  byte = 'D'
 	DateStructSize int  = 1
 
diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 6679fc8..212948b 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -21,8 +21,9 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type DecoderV1 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV1 object
@@ -101,6 +102,11 @@ func (d DecoderV1) Decode() (interface{}, error) {
 }
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this only counts the values the current one is nested in
+	d.depth++
+	if d.depth > encode_consts.MaxDepth {
+		return nil, errors.New("Message nested deeper than %d levels", encode_consts.MaxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index 052ab27..84550aa 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -25,6 +25,7 @@ type EncoderV1 struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	chunkSize uint16
+	depth     int
 }
 
 // NewEncoder Creates a new EncoderV1 object
@@ -102,6 +103,11 @@ func (e EncoderV1) Encode(iVal interface{}) error {
 
 // Encode encodes an object to the stream
 func (e EncoderV1) encode(iVal interface{}) error {
+	// e is a copy, so this only counts the values the current one is nested in
+	e.depth++
+	if e.depth > encode_consts.MaxDepth {
+		return errors.New("Value contains itself or is nested deeper than %d levels", encode_consts.MaxDepth)
+	}
 
 	var err error
 	switch val := iVal.(type) {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0dd20d7..cf2d013 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -16,8 +16,9 @@ import (
 )
 
 type DecoderV2 struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV2 object
@@ -96,6 +97,11 @@ func (d DecoderV2) Decode() (interface{}, error) {
 }
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
+	// d is a copy, so this only counts the values the current one is nested in
+	d.depth++
+	if d.depth > encode_consts.MaxDepth {
+		return nil, errors.New("Message nested deeper than %d levels", encode_consts.MaxDepth)
+	}
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 44ca5ec..d42bdff 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -28,6 +28,7 @@ type EncoderV2 struct {
 	w         io.Writer
 	buf       *bytes.Buffer
 	chunkSize uint16
+	depth     int
 }
 
 // NewEncoder Creates a new EncoderV2 object
@@ -107,6 +108,11 @@ func (e EncoderV2) Encode(iVal interface{}) error {
 
 // Encode encodes an object to the stream
 func (e EncoderV2) encode(iVal interface{}) error {
+	// e is a copy, so this only counts the values the current one is nested in
+	e.depth++
+	if e.depth > encode_consts.MaxDepth {
+		return errors.New("Value contains itself or is nested deeper than %d levels", encode_consts.MaxDepth)
+	}
 
 	var err error
 	switch val := iVal.(type) {
-- 
2.43.0


From 31c92de53a3d2df4be533827790a90ed646eb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 07/50] fix: report a connection closed by the server as a bad
 connection

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..112cd19 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -47,7 +47,7 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	}
 
 	n, err = r.connection.conn.Read(p)
-	if err != nil && err != io.EOF {
+	if err != nil {
 		err = driver.ErrBadConn
 	}
 	return n, err
-- 
2.43.0


From 009d2727c24b00fced5f6bdbaa9f266ac42a206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 08/50] fix: read the whole handshake reply however the network
 splits it

---
 connection/connection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 112cd19..da0ecce 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -242,11 +242,9 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	_, err = io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
-	} else if numRead != 4 {
-		return nil, fmt.Errorf("expected [4] bytes but got [%v]", numRead)
 	} else if bytes.Equal(version, noVersionSupported) {
 		return nil, errors.New("server responded with no supported version")
 	}
-- 
2.43.0


From 7488569b3a16520f0dd624033d54403314cdf0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 09/50] fix: failed connection attempts return an error and
 close the socket

---
 connection/connection.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index da0ecce..fcaf410 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,7 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		conn.abort()
 		return nil, err
 	}
 
@@ -298,7 +299,7 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return nil
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return errors.New("Unrecognized response type initializing connection: %#v", resp)
 	}
 }
 
@@ -423,6 +424,14 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 	}
 }
 
+// abort closes the network connection without any of the protocol's goodbyes
+func (c *Connection) abort() {
+	c.closed = true
+	if c.conn != nil {
+		c.conn.Close()
+	}
+}
+
 func (c *Connection) Close() error {
 	if c.closed {
 		return errors.ErrClosed
-- 
2.43.0


From da1addd76383d21c7e2c95b73f51f4748bd02fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 10/50] fix: close the connection once its replies can no
 longer be matched to requests

---
 connection/connection.go  | 14 ++++++++++++--
 connection/transaction.go | 12 ++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index fcaf410..285bf6d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.abort()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.abort()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,11 +45,13 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.abort()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
 	if err != nil {
+		r.connection.abort()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -401,6 +405,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.abort()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -419,6 +424,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.abort()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
@@ -513,14 +519,16 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		}
 	}
 
-	success, ok := runSucc.(messages.SuccessMessage)
+	_, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		c.abort()
+		return nil, errors.New("Unrecognized response type beginning transaction: %#v", runSucc)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.abort()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -558,6 +566,7 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		c.abort()
 		return respInt, err
 	}
 
@@ -589,6 +598,7 @@ func (c *Connection) reset() error {
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.abort()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..0b7adf8 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -88,7 +88,8 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		t.conn.abort()
+		return errors.New("Unrecognized response type committing transaction: %#v", runSucc)
 	}
 
 	log.Tracef("Got success message committing transaction: %#v", success)
@@ -96,7 +97,8 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
-			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+			t.conn.abort()
+			return errors.New("Unrecognized response type pulling transaction:  %#v", pullSucc)
 		}
 
 		log.Tracef("Got success message pulling transaction: %#v", pull)
@@ -149,7 +151,8 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		t.conn.abort()
+		return errors.New("Unrecognized response type rolling back transaction: %#v", runSucc)
 	}
 
 	log.Tracef("Got success message rolling back transaction: %#v", success)
@@ -157,7 +160,8 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
-			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+			t.conn.abort()
+			return errors.New("Unrecognized response type pulling transaction:  %#v", pullSucc)
 		}
 
 		log.Tracef("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From b623e0f29e4a7a80013e25968d9d5e2fc1175455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 11/50] fix: end the transaction when the server ended it and
 refuse statements on an ended one

---
 connection/connection.go  | 30 +++++++++++++++++++++++-------
 connection/transaction.go | 12 +++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 285bf6d..64ba04d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -79,7 +79,7 @@ type Connection struct {
 
 	// handlers
 	readWrite   *readWrite
-	transaction ITransaction
+	transaction *boltTransaction
 
 	// connection stuff
 	timeout   time.Duration
@@ -348,7 +348,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -365,7 +365,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -373,19 +373,23 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
 		return nil, nil, errors.New("runQuery already open")
 	}
 
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	if c.closed {
 		return nil, nil, errors.New("connection already closed")
 	}
 
 	log.Tracef("running query")
-	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
+	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, c.transaction == nil))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -433,11 +437,20 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 // abort closes the network connection without any of the protocol's goodbyes
 func (c *Connection) abort() {
 	c.closed = true
+	c.endTransaction()
 	if c.conn != nil {
 		c.conn.Close()
 	}
 }
 
+// endTransaction marks the open transaction as ended, for whatever reason it ended
+func (c *Connection) endTransaction() {
+	if c.transaction != nil {
+		c.transaction.closed = true
+		c.transaction = nil
+	}
+}
+
 func (c *Connection) Close() error {
 	if c.closed {
 		return errors.ErrClosed
@@ -533,12 +546,13 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		}
 	}
 
-	c.transaction = &boltTransaction{
+	tx := &boltTransaction{
 		conn:   c,
 		closed: false,
 	}
+	c.transaction = tx
 
-	return c.transaction, nil
+	return tx, nil
 }
 
 func (c *Connection) Begin() (ITransaction, error) {
@@ -608,6 +622,8 @@ func (c *Connection) reset() error {
 			continue
 		case messages.SuccessMessage:
 			log.Tracef("Got success message when resetting session: %#v", resp)
+			// the server rolls back whatever was open
+			c.endTransaction()
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
diff --git a/connection/transaction.go b/connection/transaction.go
index 0b7adf8..1594bbc 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,7 +13,7 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
@@ -21,7 +21,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -38,7 +38,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -104,8 +104,7 @@ func (t *boltTransaction) Commit() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
@@ -167,8 +166,7 @@ func (t *boltTransaction) Rollback() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
-- 
2.43.0


From 62d6f293457ea4e78594394ce70433a5184c0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 12/50] fix: never ignore a requested database

---
 connection/connection.go  | 10 ++++++++++
 connection/transaction.go |  1 +
 2 files changed, 11 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 64ba04d..85bfbd3 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -388,6 +388,11 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, t
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	// the database of a transaction is fixed when it begins
+	if c.transaction != nil && dbName != "" && dbName != c.transaction.db {
+		return nil, nil, errors.New("can not run query on database [%s] in a transaction on database [%s]", dbName, c.transaction.db)
+	}
+
 	log.Tracef("running query")
 	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, c.transaction == nil))
 	if err != nil {
@@ -494,6 +499,10 @@ func (c *Connection) MakeIdle() error {
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
@@ -548,6 +557,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	tx := &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 	c.transaction = tx
diff --git a/connection/transaction.go b/connection/transaction.go
index 1594bbc..2ab93eb 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
-- 
2.43.0


From 8d135a931c5127eb961b23140dd6a78f6307074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 13/50] fix: closing a connection always closes its socket

---
 connection/connection.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 85bfbd3..009481a 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -461,33 +461,35 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
-	if c.transaction != nil {
-		err := c.transaction.Rollback()
-		if err != nil {
-			return err
-		}
-	}
-
 	if c.conn == nil {
 		return errors.New("can not close nil transaction")
 	}
 
-	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
-		err := c.sendMessage(msg)
-		if err != nil {
-			return err
+	var err error
+	if c.transaction != nil {
+		err = c.transaction.Rollback()
+	}
+
+	// the rollback may have found the connection broken and closed it already
+	if msg, ok := c.boltProtocol.GetCloseMessage(); ok && !c.closed {
+		sendErr := c.sendMessage(msg)
+		if err == nil {
+			err = sendErr
 		}
 
 		// explicitly not consuming since we're closing the connection
 	}
 
-	err := c.conn.Close()
-	c.closed = true
-	if err != nil {
-		return err
+	if !c.closed {
+		c.closed = true
+		c.endTransaction()
+		closeErr := c.conn.Close()
+		if err == nil {
+			err = closeErr
+		}
 	}
 
-	return nil
+	return err
 }
 
 func (c *Connection) MakeIdle() error {
-- 
2.43.0


From 969e2a281caddf87a9997e4c2d2b1bafc895397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 14/50] fix: a session that can not be reset is closed instead
 of being reset forever

---
 connection/connection.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 009481a..23e0292 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -639,14 +639,11 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			c.abort()
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.abort()
 			return driver.ErrBadConn
 		}
 	}
-- 
2.43.0


From 1cfe2c979325e5b49af4c2fcdaf2adf7350466d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 15/50] fix: detect that the server closed an idle connection

---
 connection/connection.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 23e0292..df64535 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -318,15 +318,22 @@ func (c *Connection) ValidateOpen() bool {
 	}
 
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
-	if err != nil {
-		return false
-	}
-	if _, err := c.conn.Read(one); err == io.EOF {
-		return false
-	} else {
-		return true
+	// A read only looks at the network if its deadline is still ahead when it starts,
+	// so it is tried twice in case this goroutine was held up in between
+	for i := 0; i < 2; i++ {
+		err := c.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
+		if err == nil {
+			_, err = c.conn.Read(one)
+		}
+
+		// the server is not supposed to send anything now, so only running into the deadline is fine
+		if netErr, ok := err.(net.Error); !ok || !netErr.Timeout() {
+			c.abort()
+			return false
+		}
 	}
+
+	return true
 }
 
 // Sets the size of the chunks to write to the stream
-- 
2.43.0


From 67889c8e17321f91feaafacdd746dd32d45af7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 16/50] fix: transaction control, liveness checks and close
 take the connection's lock like queries do

---
 connection/connection.go  | 22 ++++++++++++++++++++--
 connection/transaction.go | 14 ++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index df64535..5ccc5de 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -308,6 +308,9 @@ func (c *Connection) sendInit(message structures.Structure) error {
 }
 
 func (c *Connection) ValidateOpen() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	//log.Tracef("checking validate open")
 	if c.closed {
 		return false
@@ -338,11 +341,17 @@ func (c *Connection) ValidateOpen() bool {
 
 // Sets the size of the chunks to write to the stream
 func (c *Connection) SetChunkSize(chunkSize uint16) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.chunkSize = chunkSize
 }
 
 // Sets the timeout for reading and writing to the stream
 func (c *Connection) SetTimeout(timeout time.Duration) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.timeout = timeout
 }
 
@@ -464,6 +473,9 @@ func (c *Connection) endTransaction() {
 }
 
 func (c *Connection) Close() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return errors.ErrClosed
 	}
@@ -474,7 +486,7 @@ func (c *Connection) Close() error {
 
 	var err error
 	if c.transaction != nil {
-		err = c.transaction.Rollback()
+		err = c.transaction.rollback()
 	}
 
 	// the rollback may have found the connection broken and closed it already
@@ -500,8 +512,11 @@ func (c *Connection) Close() error {
 }
 
 func (c *Connection) MakeIdle() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
-		return c.transaction.Rollback()
+		return c.transaction.rollback()
 	}
 
 	return nil
@@ -512,6 +527,9 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 2ab93eb..bbb1fbb 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -48,6 +48,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -110,6 +113,14 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
+	return t.rollback()
+}
+
+// rollback rolls back with the connection's lock already held
+func (t *boltTransaction) rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -172,5 +183,8 @@ func (t *boltTransaction) Rollback() error {
 }
 
 func (t *boltTransaction) IsClosed() bool {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	return t.closed
 }
-- 
2.43.0


From 55015df3cc61b917e49369a5eab4b5c119d7009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 17/50] fix: bound the time taken to dial and shake hands over
 TLS

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 5ccc5de..9dad555 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -183,7 +183,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8f04d0f93d5b432da95c3e3283696d24d30a9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 18/50] fix: keep formatting characters of server messages in
 error texts

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 9dad555..08dce88 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -629,7 +629,7 @@ func (c *Connection) consume() (interface{}, error) {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.reset()
 		if err != nil {
-			return nil, errors.Wrap(failure, err.Error())
+			return nil, errors.Wrap(failure, "%s", err.Error())
 		}
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
-- 
2.43.0


From 0e9f2d92561f062ec9b251a2a0583628e3f2da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 19/50] fix: statistics accessors report absent or ill-typed
 counters instead of panicking

---
 connection/result.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..987ef24 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -30,8 +30,11 @@ func (b *boltResult) GetNodesCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	num, ok := stats["nodes-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +43,11 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	num, ok := stats["relationships-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +56,11 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
+	num, ok := stats["nodes-deleted"].(int64)
 	if !ok {
 		return -1, false
 	}
-	return num.(int64), ok
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +69,11 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	num, ok := stats["relationships-deleted"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From 005fbc0c42e0d8e4beb727f4cc473add4efa8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 20/50] fix: mark exactly read work as read

---
 connection/connection.go       | 2 ++
 structures/messages/builder.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 08dce88..68d454e 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -120,6 +120,8 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		timeout:   time.Second * time.Duration(60),
 		chunkSize: math.MaxUint16,
 		mutex:     sync.Mutex{},
+		// a connection can be used for anything, unless it is known to be only read from
+		accessMode: bolt_mode.WriteMode,
 	}
 
 	connection.hostPort = _url.Host
diff --git a/structures/messages/builder.go b/structures/messages/builder.go
index fe4f891..abfc6d1 100644
--- a/structures/messages/builder.go
+++ b/structures/messages/builder.go
@@ -25,7 +25,7 @@ func BuildTxMetadataWithDatabase(txTimeout *time.Duration, txMetadata map[string
 	bookmarksPresent := false
 	txTimeoutPresent := txTimeout != nil && *txTimeout != 0
 	txMetaDataPresent := txMetadata != nil && len(txMetadata) != 0
-	accessModePresent := mode != bolt_mode.ReadMode
+	accessModePresent := mode == bolt_mode.ReadMode
 	databaseNamePresent := databaseName != ""
 
 	if !bookmarksPresent && !txTimeoutPresent && !txMetaDataPresent && !accessModePresent && !databaseNamePresent {
-- 
2.43.0


From e902f70bf2715a9e1e78c146b2eca5dd7e36c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 21/50] fix: send the metadata of DISCARD messages, and
 DISCARD_ALL to version 3

---
 protocol/protocol_v3/bolt.go   | 2 +-
 structures/messages/discard.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/protocol_v3/bolt.go b/protocol/protocol_v3/bolt.go
index fae8b4a..2eca833 100644
--- a/protocol/protocol_v3/bolt.go
+++ b/protocol/protocol_v3/bolt.go
@@ -20,7 +20,7 @@ func (b *BoltProtocolV3) GetResultConsumedAfterKey() string {
 }
 
 func (b *BoltProtocolV3) GetDiscardMessage(qid int64) structures.Structure {
-	return messages.NewDiscardMessage(messages.StreamUnlimited, qid)
+	return messages.NewDiscardAllMessage()
 }
 
 func (b *BoltProtocolV3) GetDiscardAllMessage() structures.Structure {
diff --git a/structures/messages/discard.go b/structures/messages/discard.go
index 1be4272..451aa70 100644
--- a/structures/messages/discard.go
+++ b/structures/messages/discard.go
@@ -33,5 +33,5 @@ func (i DiscardMessage) Signature() int {
 
 // AllFields gets the fields to encode for the struct
 func (i DiscardMessage) AllFields() []interface{} {
-	return []interface{}{}
+	return []interface{}{i.metadata}
 }
-- 
2.43.0


From d1f6ab4c424474493378890c27fb4f5e41fe804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 22/50] fix: send the realm when there is one

---
 structures/messages/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structures/messages/init.go b/structures/messages/init.go
index dc1a48f..f8ba096 100644
--- a/structures/messages/init.go
+++ b/structures/messages/init.go
@@ -28,7 +28,7 @@ func BuildAuthTokenBasicWithRealm(username, password, realm string) map[string]i
 		CredentialsKey: password,
 	}
 
-	if realm == "" {
+	if realm != "" {
 		toReturn[RealmKey] = realm
 	}
 
-- 
2.43.0


From 049888c0f62160459613c6390996f858d74223fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 23/50] fix: durations denote the same length of time in both
 directions

---
 encoding/encoding_v2/decoderV2.go | 15 ++++++++++++++-
 encoding/encoding_v2/encoderV2.go | 11 +++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index cf2d013..0d035d5 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,9 +12,13 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math/big"
 	"time"
 )
 
+// averageMonthSeconds is the length neo4j takes a month to have when it needs one
+const averageMonthSeconds = 2629746
+
 type DecoderV2 struct {
 	r     io.Reader
 	buf   *bytes.Buffer
@@ -582,7 +586,16 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	total := new(big.Int).Mul(big.NewInt(month), big.NewInt(averageMonthSeconds))
+	total.Add(total, new(big.Int).Mul(big.NewInt(days), big.NewInt(24*60*60)))
+	total.Add(total, big.NewInt(seconds))
+	total.Mul(total, big.NewInt(int64(time.Second)))
+	total.Add(total, big.NewInt(nanoSeconds))
+	if !total.IsInt64() {
+		return -1, errors.New("duration of %d months, %d days, %d seconds and %d nanoseconds does not fit a time.Duration", month, days, seconds, nanoSeconds)
+	}
+
+	return time.Duration(total.Int64()), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index d42bdff..1222254 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -303,10 +303,8 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
@@ -318,12 +316,13 @@ func (e EncoderV2) encodeDuration(d time.Duration) error {
 		return err
 	}
 
-	err = e.encode(months)
+	// months and days have no fixed length, so neither is used
+	err = e.encode(0)
 	if err != nil {
 		return err
 	}
 
-	err = e.encode(days)
+	err = e.encode(0)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3f373ca7cff9902a1707c6d74100e5dd2092ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 24/50] fix: decode zoned date-times next to a daylight saving
 change

---
 encoding/encoding_v2/decoderV2.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0d035d5..52970c4 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -532,16 +532,13 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 
 	loc, err := time.LoadLocation(zoneId)
 	if err != nil {
-		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
+		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", zoneId)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
+	// the fields of the local time, which only loc knows the offset of
+	local := time.Unix(epochSecondLocal, nanoOfDayLocal).UTC()
 
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
-
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return time.Date(local.Year(), local.Month(), local.Day(), local.Hour(), local.Minute(), local.Second(), local.Nanosecond(), loc), nil
 }
 
 // todo improve time functions
-- 
2.43.0


From 161ccf01a6a1b2115ed8b9e9b3da9bedb41f0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 25/50] fix: decode local date-times next to a daylight saving
 change

---
 encoding/encoding_v2/decoderV2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 52970c4..1b464e9 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -455,7 +455,10 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	// the fields of the local time, whose offset may differ from the one at epochSeconds
+	local := time.Unix(epochSeconds, nanoOfDay).UTC()
+
+	return gotime.NewLocalTimeFromTime(time.Date(local.Year(), local.Month(), local.Day(), local.Hour(), local.Minute(), local.Second(), local.Nanosecond(), time.Local)), nil
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
-- 
2.43.0


From 4e786d4ea68326acdd9fd38627dc90d4554f2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 26/50] fix: do not print local times when decoding them

---
 encoding/encoding_v2/decoderV2.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 1b464e9..21395ed 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -426,7 +426,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
-- 
2.43.0


From 1f2f14eac7feb34e56b614a132c8275ae6b1eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 27/50] fix: points returned by a query can be sent as
 parameters

---
 structures/types/point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structures/types/point.go b/structures/types/point.go
index 6b7dff2..defac79 100644
--- a/structures/types/point.go
+++ b/structures/types/point.go
@@ -13,11 +13,11 @@ type Point2D struct {
 	X, Y float64
 }
 
-func (p *Point2D) Signature() int {
+func (p Point2D) Signature() int {
 	return int(Point2DStructSignature)
 }
 
-func (p *Point2D) AllFields() []interface{} {
+func (p Point2D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y}
 }
 
@@ -26,10 +26,10 @@ type Point3D struct {
 	X, Y, Z float64
 }
 
-func (p *Point3D) Signature() int {
+func (p Point3D) Signature() int {
 	return int(Point3DStructSignature)
 }
 
-func (p *Point3D) AllFields() []interface{} {
+func (p Point3D) AllFields() []interface{} {
 	return []interface{}{p.SRID, p.X, p.Y, p.Z}
 }
-- 
2.43.0


From 18749841679b575d89da94e119cd8dcf90be41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 28/50] fix: encode dates and clocks far from 1970

---
 encoding/encoding_v2/encoderV2.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 1222254..4faa846 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -210,7 +210,8 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	// not ToEpochDays, which is limited to the 292 years around the epoch
+	return e.encode(d.GetTime().Unix() / (24 * 60 * 60))
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
@@ -224,7 +225,10 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	// not ToDayNano, which counts from 1970 whatever day the clock is on
+	sinceMidnight := time.Duration(c.Hour())*time.Hour + time.Duration(c.Minute())*time.Minute +
+		time.Duration(c.Second())*time.Second + time.Duration(c.Nanosecond())
+	err = e.encode(int64(sinceMidnight))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 27118f97fcfca43f053eec618dd39d0958e01dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 29/50] fix: refuse nil structures as values instead of
 panicking

---
 encoding/encoding_v1/encoderV1.go | 3 +++
 encoding/encoding_v2/encoderV2.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index 84550aa..6080341 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -149,6 +149,9 @@ func (e EncoderV1) encode(iVal interface{}) error {
 	case map[string]interface{}:
 		err = e.encodeMap(val)
 	case structures.Structure:
+		if s := reflect.ValueOf(val); s.Kind() == reflect.Ptr && s.IsNil() {
+			return errors.New("Unable to encode nil %T for Bolt transport", val)
+		}
 		err = e.encodeStructure(val)
 	default:
 		// arbitrary slice types
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 4faa846..363a0c9 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -166,6 +166,9 @@ func (e EncoderV2) encode(iVal interface{}) error {
 	case time.Duration:
 		err = e.encodeDuration(val)
 	case structures.Structure:
+		if s := reflect.ValueOf(val); s.Kind() == reflect.Ptr && s.IsNil() {
+			return errors.New("Unable to encode nil %T for Bolt transport", val)
+		}
 		err = e.encodeStructure(val)
 	default:
 		// arbitrary slice types
-- 
2.43.0


From e60e222c3ff368689101a52debbaaa8289b2f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 30/50] fix: do not take the answer to an earlier request for
 the answer to a reset

A server that answers a pipelined request with SUCCESS after reporting a
failure made reset return early, leaving the reset's own answer to be
delivered to the next request. Answers still owed are counted instead.
---
 connection/connection.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 68d454e..9c4aee1 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -89,6 +89,9 @@ type Connection struct {
 	openQuery bool
 	mutex     sync.Mutex
 
+	// number of requests the server has not answered yet
+	pending int
+
 	// for pool tracking
 	id string
 }
@@ -602,7 +605,13 @@ func (c *Connection) sendMessage(message structures.Structure) error {
 	if message == nil {
 		return errors.New("message can not be nil")
 	}
-	return c.boltProtocol.NewEncoder(c.readWrite, c.chunkSize).Encode(message)
+	err := c.boltProtocol.NewEncoder(c.readWrite, c.chunkSize).Encode(message)
+	if err != nil {
+		return err
+	}
+
+	c.pending++
+	return nil
 }
 
 func (c *Connection) sendMessageConsume(message structures.Structure) (interface{}, error) {
@@ -627,6 +636,10 @@ func (c *Connection) consume() (interface{}, error) {
 		log.Tracef("Consumed Response: %#v", respInt)
 	}
 
+	if _, isRecord := respInt.(messages.RecordMessage); !isRecord {
+		c.pending--
+	}
+
 	if failure, isFail := respInt.(messages.FailureMessage); isFail {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.reset()
@@ -642,8 +655,7 @@ func (c *Connection) consume() (interface{}, error) {
 func (c *Connection) reset() error {
 	log.Trace("Resetting session")
 
-	reset := messages.NewResetMessage()
-	err := c.boltProtocol.NewEncoder(c.readWrite, c.chunkSize).Encode(reset)
+	err := c.sendMessage(messages.NewResetMessage())
 	if err != nil {
 		return errors.Wrap(err, "An error occurred encoding reset message")
 	}
@@ -655,11 +667,22 @@ func (c *Connection) reset() error {
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
+		c.pending--
+
 		switch resp := respInt.(type) {
 		case messages.IgnoredMessage:
 			log.Tracef("Got ignored message when resetting session: %#v", resp)
+			if c.pending == 0 {
+				c.abort()
+				return errors.New("Reset was ignored. CLOSING SESSION!")
+			}
 			continue
 		case messages.SuccessMessage:
+			// the requests sent before the reset are answered first, and they can only be ignored
+			if c.pending != 0 {
+				c.abort()
+				return errors.New("Got success message before the one for the reset: %#v", resp)
+			}
 			log.Tracef("Got success message when resetting session: %#v", resp)
 			// the server rolls back whatever was open
 			c.endTransaction()
-- 
2.43.0


From dfbd85815137e8f0b272b690a96a309cac6efbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 31/50] fix: a reply that arrives together with the end of a
 TLS stream is complete

---
 connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index 9c4aee1..2ae2c44 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -50,6 +50,10 @@ func (r *readWrite) Read(p []byte) (n int, err error) {
 	}
 
 	n, err = r.connection.conn.Read(p)
+	if n > 0 {
+		// a stream may end together with its last bytes, in which case the next read reports the end
+		return n, nil
+	}
 	if err != nil {
 		r.connection.abort()
 		err = driver.ErrBadConn
-- 
2.43.0


From f27f2bf52ea5ece729fe65da2960d9c26b749abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 32/50] fix: escape user names and passwords in connection
 strings

---
 client.go       | 10 ++++++++--
 routing/pool.go |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index a9002be..5b6209e 100644
--- a/client.go
+++ b/client.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -95,7 +96,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
+		_url := url.URL{
+			Scheme: protocol,
+			User:   url.UserPassword(client.user, client.password),
+			Host:   net.JoinHostPort(strings.TrimSuffix(strings.TrimPrefix(client.host, "["), "]"), strconv.Itoa(client.port)),
+		}
+		client.connStr = _url.String()
 
 		// append tls portion if needed
 		if client.useTLS {
@@ -201,7 +207,7 @@ func (c *Client) getUsernamePassword() (string, error) {
 		pwd = ""
 	}
 
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	return url.UserPassword(u.User.Username(), pwd).String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..0660f00 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -57,8 +57,8 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	if strings.HasPrefix(leaderConnStr, "bolt+routing://") {
+		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", 1)
 	}
 
 	if numConns == 0 || numConns == 1 {
@@ -557,5 +557,8 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
+	if r.userPassPart == "" {
+		return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
+	}
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 42d70207d21ebada8909f36a8d98fb86ae4d543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 33/50] fix: use TLS for every connection when it is requested

---
 client.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index 5b6209e..bd2db69 100644
--- a/client.go
+++ b/client.go
@@ -105,8 +105,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		// append tls portion if needed
 		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
+			tlsPortion := fmt.Sprintf("?tls=true&tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
+				url.QueryEscape(client.certFile), url.QueryEscape(client.keyFile), url.QueryEscape(client.caCertFile), client.tlsNoVerify)
 			client.connStr += tlsPortion
 		}
 	} else {
@@ -168,28 +168,18 @@ func NewClient(opts ...Opt) (IClient, error) {
 }
 
 func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
-
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
-
-		if certFile == "" {
-			return "", nil
-		}
+	// parse connection string
+	u, err := url.Parse(c.connStr)
+	if err != nil {
+		return "", nil
+	}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+	if u.RawQuery == "" {
+		return "", nil
 	}
+
+	// the members of a cluster are connected to with all the settings of the connection string
+	return "?" + u.RawQuery, nil
 }
 
 func (c *Client) getUsernamePassword() (string, error) {
-- 
2.43.0


From 8fa0790831f62875e8b290c846c2f5f190ebf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 34/50] fix: report unusable certificate files instead of
 ignoring them

---
 connection/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2ae2c44..da2bb55 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -222,7 +222,9 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, errors.New("no certificate found in CA cert file [%s]", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
@@ -238,6 +240,8 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 		}
 
 		config.Certificates = []tls.Certificate{cert}
+	} else if c.keyFile != "" {
+		return nil, errors.New("If you're providing a key file, you must also provide a cert file")
 	}
 
 	if c.tlsNoVerify {
-- 
2.43.0


From 5fcb9459e0848ad4d4785218cae58686b77cf4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 35/50] fix: refuse connection strings and options that can not
 work when the client is created

---
 client.go                | 30 +++++++++++++++---------------
 connection/connection.go | 14 ++++++++++++++
 opt.go                   |  4 ++++
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/client.go b/client.go
index bd2db69..93c88a5 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package goBolt
 
 import (
 	"fmt"
+	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
 	"net"
@@ -57,7 +58,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		err := opt(client)
 		if err != nil {
-			return nil, errors.Wrap(errors.ErrConfiguration, err.Error())
+			return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
 		}
 	}
 
@@ -88,7 +89,7 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "host can not be empty")
 		}
 
-		if client.port <= 0 {
+		if client.port <= 0 || client.port > math.MaxUint16 {
 			return nil, errors.Wrap(errors.ErrConfiguration, "invalid port [%v]", client.port)
 		}
 
@@ -110,7 +111,6 @@ func NewClient(opts ...Opt) (IClient, error) {
 			client.connStr += tlsPortion
 		}
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -118,21 +118,16 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
-		hostPort := _url.Host
-		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
-				return nil, errors.New("host/port invalid")
-			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
-			if err != nil {
-				return nil, err
-			}
+		client.routing = strings.HasSuffix(strings.ToLower(_url.Scheme), "+routing")
 
-			client.port = int(_port)
+		client.host = _url.Hostname()
+		_port, err := strconv.ParseInt(_url.Port(), 10, 64)
+		if err != nil {
+			return nil, err
 		}
 
+		client.port = int(_port)
+
 		if _url.User != nil {
 			client.user = _url.User.Username()
 			var isSet bool
@@ -164,6 +159,11 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
+	// whatever the connections would refuse is refused right away
+	if err := connection.CheckConnectionString(client.connStr); err != nil {
+		return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
+	}
+
 	return client, nil
 }
 
diff --git a/connection/connection.go b/connection/connection.go
index da2bb55..04ee835 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -133,6 +133,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	connection.hostPort = _url.Host
 
+	if port, err := strconv.Atoi(_url.Port()); err != nil || port <= 0 || port > math.MaxUint16 {
+		return nil, fmt.Errorf("invalid port [%s]", _url.Port())
+	}
+
 	if _url.User != nil {
 		connection.user = _url.User.Username()
 		var isSet bool
@@ -149,6 +153,10 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
 		}
 
+		if timeoutInt <= 0 || int64(timeoutInt) > math.MaxInt64/int64(time.Second) {
+			return nil, fmt.Errorf("timeout out of range: %s", timeout)
+		}
+
 		connection.timeout = time.Duration(timeoutInt) * time.Second
 	}
 
@@ -166,6 +174,12 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// CheckConnectionString reports what is wrong with a connection string, without connecting
+func CheckConnectionString(connStr string) error {
+	_, err := newConnectionFromConnectionString(connStr)
+	return err
+}
+
 func (c *Connection) GetConnectionId() string {
 	return c.id
 }
diff --git a/opt.go b/opt.go
index 5380af0..adf6696 100644
--- a/opt.go
+++ b/opt.go
@@ -18,6 +18,10 @@ func WithConnectionString(connString string) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithHostPort")
 		}
 
+		if client.routing {
+			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
 		client.connStr = connString
 		return nil
 	}
-- 
2.43.0


From 80e3b1a08951760c1deff99975d91afd5f8db8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 36/50] fix: options reach every connection of the client

---
 client.go                | 65 +++++++++++++++++++++++++++++++++++++---
 connection/connection.go | 37 +++++++++++++++++++----
 2 files changed, 93 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 93c88a5..dd1cde6 100644
--- a/client.go
+++ b/client.go
@@ -62,6 +62,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
+	given := *client
+
 	// timeout not set
 	if client.timeout == 0 {
 		client.timeout = time.Second * time.Duration(60)
@@ -139,12 +141,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
-			timeoutInt, err := strconv.Atoi(timeout)
+			client.timeout, err = connection.ParseTimeout(timeout)
 			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+				return nil, err
 			}
-
-			client.timeout = time.Duration(timeoutInt) * time.Second
 		}
 
 		useTLS := _url.Query().Get("tls")
@@ -159,6 +159,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 		}
 	}
 
+	if err := client.carryOptions(&given); err != nil {
+		return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
+	}
+
 	// whatever the connections would refuse is refused right away
 	if err := connection.CheckConnectionString(client.connStr); err != nil {
 		return nil, errors.Wrap(errors.ErrConfiguration, "%s", err.Error())
@@ -167,6 +171,59 @@ func NewClient(opts ...Opt) (IClient, error) {
 	return client, nil
 }
 
+// carryOptions puts the given options into the connection string, which is all that connections get to see
+func (c *Client) carryOptions(given *Client) error {
+	_url, err := url.Parse(c.connStr)
+	if err != nil {
+		return err
+	}
+
+	if given.user != "" || given.password != "" {
+		if given.user == "" {
+			return errors.New("user can not be empty")
+		}
+
+		user := url.UserPassword(given.user, given.password)
+		if _url.User != nil && _url.User.String() != user.String() {
+			return errors.New("the connection string is for another user or password")
+		}
+		_url.User = user
+	}
+
+	options := map[string]string{}
+	if given.timeout != 0 {
+		options["timeout"] = given.timeout.String()
+	}
+	if given.chunkSize != 0 {
+		options["chunk_size"] = strconv.Itoa(int(given.chunkSize))
+	}
+	if given.useTLS {
+		options["tls"] = "true"
+		options["tls_no_verify"] = strconv.FormatBool(given.tlsNoVerify)
+		options["tls_ca_cert_file"] = given.caCertFile
+		options["tls_cert_file"] = given.certFile
+		options["tls_key_file"] = given.keyFile
+	}
+
+	query := _url.Query()
+	for key, value := range options {
+		current := query.Get(key)
+		if key == "tls" || key == "tls_no_verify" {
+			current = strconv.FormatBool(strings.HasPrefix(strings.ToLower(current), "t") || current == "1")
+		} else if duration, err := connection.ParseTimeout(current); err == nil && key == "timeout" {
+			current = duration.String()
+		}
+		if query.Get(key) != "" && current != value {
+			return errors.New("%s is [%s] in the connection string and [%s] in the options", key, current, value)
+		}
+		query.Set(key, value)
+	}
+	_url.RawQuery = query.Encode()
+
+	c.connStr = _url.String()
+	return nil
+}
+
 func (c *Client) getTlsPortion() (string, error) {
 	// parse connection string
 	u, err := url.Parse(c.connStr)
diff --git a/connection/connection.go b/connection/connection.go
index 04ee835..7526b6d 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -148,16 +148,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
-		timeoutInt, err := strconv.Atoi(timeout)
+		connection.timeout, err = ParseTimeout(timeout)
 		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			return nil, err
 		}
+	}
 
-		if timeoutInt <= 0 || int64(timeoutInt) > math.MaxInt64/int64(time.Second) {
-			return nil, fmt.Errorf("timeout out of range: %s", timeout)
+	chunkSize := _url.Query().Get("chunk_size")
+	if chunkSize != "" {
+		chunkSizeInt, err := strconv.ParseUint(chunkSize, 10, 16)
+		if err != nil || chunkSizeInt == 0 {
+			return nil, fmt.Errorf("invalid chunk size: %s", chunkSize)
 		}
 
-		connection.timeout = time.Duration(timeoutInt) * time.Second
+		connection.chunkSize = uint16(chunkSizeInt)
 	}
 
 	useTLS := _url.Query().Get("tls")
@@ -174,6 +178,29 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// ParseTimeout reads the timeout of a connection string, which is in seconds unless it has a unit
+func ParseTimeout(timeout string) (time.Duration, error) {
+	duration, err := time.ParseDuration(timeout)
+	if err != nil {
+		timeoutInt, err := strconv.Atoi(timeout)
+		if err != nil {
+			return 0, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+		}
+
+		if int64(timeoutInt) > math.MaxInt64/int64(time.Second) {
+			return 0, fmt.Errorf("timeout out of range: %s", timeout)
+		}
+
+		duration = time.Duration(timeoutInt) * time.Second
+	}
+
+	if duration <= 0 {
+		return 0, fmt.Errorf("timeout out of range: %s", timeout)
+	}
+
+	return duration, nil
+}
+
 // CheckConnectionString reports what is wrong with a connection string, without connecting
 func CheckConnectionString(connStr string) error {
 	_, err := newConnectionFromConnectionString(connStr)
-- 
2.43.0


From 0204e445f308bd1f9e8ec26b535d07c05e6b0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 37/50] fix: replacing a dead idle connection does not cost the
 pool its capacity

---
 connection_pool_factory.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..383a8e1 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -73,15 +73,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// the pool replaces objects that can not be activated
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("connection is not open")
 	}
 
 	return nil
-- 
2.43.0


From 04c9cb52d4ffa26f2baea8bcc6c2af9326a54061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 38/50] fix: waiting for a pooled connection blocks neither
 returning nor closing

---
 driver_pool.go | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..fd21381 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -7,8 +7,12 @@ import (
 	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"sync"
+	"time"
 )
 
+// how long to wait for the pool before looking again
+const borrowInterval = 100 * time.Millisecond
+
 type driverPool struct {
 	connStr  string
 	maxConns int
@@ -18,6 +22,10 @@ type driverPool struct {
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
+	if maxConns < 1 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "invalid number of connections [%v]", maxConns)
+	}
+
 	dPool := pool.NewObjectPool(context.Background(), &ConnectionPooledObjectFactory{connectionString: connStr}, &pool.ObjectPoolConfig{
 		LIFO:                     true,
 		MaxTotal:                 maxConns,
@@ -42,11 +50,17 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 }
 
 func (d *driverPool) open() (connection.IConnection, error) {
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
-		connObj, err := d.pool.BorrowObject(context.Background())
+	// nothing is locked while waiting, so that connections can be returned and the pool can be closed
+	for !d.isClosed() {
+		ctx, cancel := context.WithTimeout(context.Background(), borrowInterval)
+		connObj, err := d.pool.BorrowObject(ctx)
+		timedOut := ctx.Err() != nil
+		cancel()
 		if err != nil {
+			// the pool does not notice that there is room for a connection again when one was discarded
+			if _, ok := err.(*pool.NoSuchElementErr); ok && timedOut {
+				continue
+			}
 			return nil, err
 		}
 
@@ -55,8 +69,12 @@ func (d *driverPool) open() (connection.IConnection, error) {
 			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 		}
 
-		if !conn.ValidateOpen() {
-			return nil, errors.New("pool returned dead connection")
+		if d.isClosed() || !conn.ValidateOpen() {
+			err = d.pool.InvalidateObject(context.Background(), connObj)
+			if err != nil {
+				return nil, err
+			}
+			continue
 		}
 
 		return conn, nil
@@ -64,6 +82,13 @@ func (d *driverPool) open() (connection.IConnection, error) {
 	return nil, errors.New("Driver pool has been closed")
 }
 
+func (d *driverPool) isClosed() bool {
+	d.refLock.Lock()
+	defer d.refLock.Unlock()
+
+	return d.closed
+}
+
 func (d *driverPool) close() error {
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
@@ -76,10 +101,10 @@ func (d *driverPool) close() error {
 		return errors.Wrap(errors.ErrPool, "connection pool is nil")
 	}
 
-	d.pool.Close(context.Background())
-
 	d.closed = true
 
+	d.pool.Close(context.Background())
+
 	return nil
 }
 
-- 
2.43.0


From e8fa0c1d43926832688cc7458f5cceb53fce20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 39/50] fix: returning a pooled connection twice does not take
 it from its next borrower

---
 driver_pool.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index fd21381..0a850a3 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -21,6 +21,14 @@ type driverPool struct {
 	closed   bool
 }
 
+// lentConnection is what a borrower gets, so that returning it once more
+// is not taken for its next borrower returning it
+type lentConnection struct {
+	connection.IConnection
+	pool     *driverPool
+	returned bool
+}
+
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 	if maxConns < 1 {
 		return nil, errors.Wrap(errors.ErrConfiguration, "invalid number of connections [%v]", maxConns)
@@ -77,7 +85,7 @@ func (d *driverPool) open() (connection.IConnection, error) {
 			continue
 		}
 
-		return conn, nil
+		return &lentConnection{IConnection: conn, pool: d}, nil
 	}
 	return nil, errors.New("Driver pool has been closed")
 }
@@ -113,7 +121,21 @@ func (d *driverPool) reclaim(conn connection.IConnection) error {
 		return errors.New("cannot reclaim nil connection")
 	}
 
-	return d.pool.ReturnObject(context.Background(), conn)
+	lent, ok := conn.(*lentConnection)
+	if !ok || lent.pool != d {
+		return errors.Wrap(errors.ErrPool, "connection was not opened by this pool")
+	}
+
+	d.refLock.Lock()
+	returned := lent.returned
+	lent.returned = true
+	d.refLock.Unlock()
+
+	if returned {
+		return errors.Wrap(errors.ErrPool, "connection has already been returned")
+	}
+
+	return d.pool.ReturnObject(context.Background(), lent.IConnection)
 }
 
 // ----------------------
-- 
2.43.0


From eeda6b7fc823d43e5796ca9c225a6b56ede23bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 40/50] fix: returned connections get back the timeout and
 chunk size they were opened with

---
 connection/connection.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 7526b6d..33b5140 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -88,10 +88,13 @@ type Connection struct {
 	// connection stuff
 	timeout   time.Duration
 	chunkSize uint16
-	conn      net.Conn
-	closed    bool
-	openQuery bool
-	mutex     sync.Mutex
+	// what timeout and chunk size were to begin with
+	initialTimeout   time.Duration
+	initialChunkSize uint16
+	conn             net.Conn
+	closed           bool
+	openQuery        bool
+	mutex            sync.Mutex
 
 	// number of requests the server has not answered yet
 	pending int
@@ -175,6 +178,9 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		connection.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 	}
 
+	connection.initialTimeout = connection.timeout
+	connection.initialChunkSize = connection.chunkSize
+
 	return &connection, nil
 }
 
@@ -569,6 +575,10 @@ func (c *Connection) MakeIdle() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// the next user starts with the settings the connection was opened with
+	c.timeout = c.initialTimeout
+	c.chunkSize = c.initialChunkSize
+
 	if c.transaction != nil {
 		return c.transaction.rollback()
 	}
-- 
2.43.0


From 8f2d10c98a5dcd662b86916255fec5d515df49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 41/50] fix: routing pools share no unsynchronised state

---
 routing/queue.go | 13 ++++++++++---
 routing/util.go  |  7 +++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/routing/queue.go b/routing/queue.go
index cd9ced6..f4c39bf 100644
--- a/routing/queue.go
+++ b/routing/queue.go
@@ -45,17 +45,24 @@ func (s *Queue) Dequeue() *connectionPoolWrapper {
 // Front returns the item next in the queue, without removing it
 func (s *Queue) Front() *connectionPoolWrapper {
 	s.lock.RLock()
-	item := s.items[0]
-	s.lock.RUnlock()
-	return item
+	defer s.lock.RUnlock()
+	if len(s.items) == 0 {
+		return nil
+	}
+
+	return s.items[0]
 }
 
 // IsEmpty returns true if the queue is empty
 func (s *Queue) IsEmpty() bool {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.items) == 0
 }
 
 // Size returns the number of Items in the queue
 func (s *Queue) Size() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.items)
 }
diff --git a/routing/util.go b/routing/util.go
index 8d4e151..1e57bd9 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,20 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+// the source is shared by all pools and not safe for concurrent use
+var seededRandLock sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	seededRandLock.Lock()
+	defer seededRandLock.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From d88aca2ee730b9ef2e27748f25cc8548eff65c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 42/50] fix: only take the Bolt address of a cluster member for
 its Bolt address

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 3830684934df167d0728767a35695d964be5cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 43/50] fix: routing pool follows the cluster, keeps its size
 and can be stopped

- all state is changed under the lock, which is not held while asking for the overview
- a failed or empty overview keeps the known members
- connections are marked per access mode and by the string they were opened with
- what is closed, lost or can not be opened is replaced up to the configured share
- new members get connections, members that are down do not block the others
- returned connections are rolled back, and discarded when they are marked, dead or
  the pool was stopped; returning twice is an error
- a pool that fails to start keeps nothing; stopping ends the refreshing at once
---
 routing/pool.go | 486 ++++++++++++++++++++++++++++++------------------
 1 file changed, 304 insertions(+), 182 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 0660f00..3b39024 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -19,12 +19,14 @@ type routingPool struct {
 	leaderConnStr string
 
 	// access mutex
-	mutex sync.RWMutex
+	mutex sync.Mutex
 
 	// running
 	running *int32
 	// is updating
 	updating *int32
+	// ends refreshing when closed
+	stop chan struct{}
 
 	// configuration
 	totalConns      int
@@ -36,8 +38,7 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
-	borrowedConns map[string]*connectionPoolWrapper
+	borrowedConns map[*lentConnection]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
 	// write stuff
@@ -51,6 +52,12 @@ type routingPool struct {
 	readQueue   *Queue
 }
 
+// lentConnection is what a borrower gets, so that returning it once more
+// is not taken for its next borrower returning it
+type lentConnection struct {
+	connection.IConnection
+}
+
 // NewRoutingPool creates a new routing pools
 func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Duration, authPart, tlsInfo string) (IRoutingPool, error) {
 	if leaderConnStr == "" {
@@ -61,7 +68,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", 1)
 	}
 
-	if numConns == 0 || numConns == 1 {
+	if numConns < 2 {
 		return nil, fmt.Errorf("number of connections must be greater than 1, provided [%v]", numConns)
 	}
 
@@ -72,7 +79,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		userPassPart:    authPart,
 		tlsInfo:         tlsInfo,
 		leaderConnStr:   leaderConnStr,
-		mutex:           sync.RWMutex{},
+		mutex:           sync.Mutex{},
 		running:         &run,
 		updating:        &update,
 		totalConns:      numConns,
@@ -86,8 +93,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
-		borrowedConns: map[string]*connectionPoolWrapper{},
+		borrowedConns: map[*lentConnection]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
 		rwIndex:       0,
@@ -103,40 +109,73 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	if conn.Connection.ValidateOpen() {
 		err := conn.Connection.Close()
 		if err != nil {
 			return err
 		}
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
+func (r *routingPool) addConn(connType bolt_mode.AccessMode) error {
+	if connType == bolt_mode.WriteMode {
+		return r.addWriteConn()
+	}
+
+	return r.addReadConn()
+}
+
+// hasRoom returns whether fewer connections than configured exist for a mode, idle and lent ones
+func (r *routingPool) hasRoom(connType bolt_mode.AccessMode) bool {
+	size, max := r.readQueue.Size(), r.maxReadIdle
+	if connType == bolt_mode.WriteMode {
+		size, max = r.writeQueue.Size(), r.maxWriteIdle
+	}
+
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			size++
+		}
+	}
+
+	return size < max
+}
+
 func (r *routingPool) addWriteConn() error {
 	// validate we have connection strings
 	if r.rwStrings == nil || len(r.rwStrings) == 0 {
 		return errors.New("no connection strings")
 	}
 
-	r.rwIndex++
+	var err error
 
-	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
-		r.rwIndex = 0
-	}
+	// a member that can not be reached does not keep the others from being used
+	for range r.rwStrings {
+		r.rwIndex++
 
-	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.WriteMode, r.rwStrings[r.rwIndex])
-	if err != nil {
-		return err
-	}
+		// make sure its not an overflow
+		if r.rwIndex >= len(r.rwStrings) {
+			r.rwIndex = 0
+		}
 
-	// add it to the queue
-	r.writeQueue.Enqueue(connWrap)
+		// create the bolt connection
+		var connWrap *connectionPoolWrapper
+		connWrap, err = r.newConnection(bolt_mode.WriteMode, r.rwStrings[r.rwIndex])
+		if err != nil {
+			continue
+		}
 
-	return nil
+		// add it to the queue
+		r.writeQueue.Enqueue(connWrap)
+
+		return nil
+	}
+
+	return err
 }
 
 func (r *routingPool) addReadConn() error {
@@ -145,23 +184,31 @@ func (r *routingPool) addReadConn() error {
 		return errors.New("no connection strings")
 	}
 
-	r.readIndex++
+	var err error
 
-	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
-		r.readIndex = 0
-	}
+	// a member that can not be reached does not keep the others from being used
+	for range r.readStrings {
+		r.readIndex++
 
-	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.ReadMode, r.readStrings[r.readIndex])
-	if err != nil {
-		return err
-	}
+		// make sure its not an overflow
+		if r.readIndex >= len(r.readStrings) {
+			r.readIndex = 0
+		}
 
-	// add it to the queue
-	r.readQueue.Enqueue(connWrap)
+		// create the bolt connection
+		var connWrap *connectionPoolWrapper
+		connWrap, err = r.newConnection(bolt_mode.ReadMode, r.readStrings[r.readIndex])
+		if err != nil {
+			continue
+		}
 
-	return nil
+		// add it to the queue
+		r.readQueue.Enqueue(connWrap)
+
+		return nil
+	}
+
+	return err
 }
 
 func (r *routingPool) makeConnID(connType bolt_mode.AccessMode) string {
@@ -189,42 +236,36 @@ func (r *routingPool) newConnection(connType bolt_mode.AccessMode, connStr strin
 	return connWrap, nil
 }
 
-func (r *routingPool) refreshConnections() {
+// getClusterInfo asks the cluster for its members
+func (r *routingPool) getClusterInfo() (*boltRoutingHandler, error) {
 	conn, err := connection.CreateBoltConn(r.leaderConnStr)
 	if err != nil {
-		log.Error(err)
-		return
+		return nil, err
 	}
 
 	defer conn.Close()
 
-	err = r.routingHandler.refreshClusterInfo(conn)
+	handler := &boltRoutingHandler{}
+	err = handler.refreshClusterInfo(conn)
+	if err != nil {
+		return nil, err
+	}
 
-	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
-	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
+	if len(handler.Leaders)+len(handler.Followers)+len(handler.ReadReplicas) == 0 {
+		return nil, errors.New("cluster overview has no members")
+	}
 
-	var deadStrs, actualWrites, actualReads []string
+	return handler, nil
+}
 
-	// check for dead strings
-	for _, curStr := range r.rwStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualWrites = append(actualWrites, curStr)
-		}
-	}
+func (r *routingPool) refreshConnections(handler *boltRoutingHandler) {
+	r.routingHandler = handler
 
-	for _, curStr := range r.readStrings {
-		// string is not found, so it must be dead
-		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
-		} else {
-			actualReads = append(actualReads, curStr)
-		}
-	}
+	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
+	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
+
+	var actualWrites, actualReads []string
 
-	// add anything new
 	for _, newStr := range newWriteStrs {
 		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualWrites, newStr) {
@@ -239,34 +280,37 @@ func (r *routingPool) refreshConnections() {
 		}
 	}
 
-	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
-			}
+	r.rwStrings = actualWrites
+	r.readStrings = actualReads
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
+	// mark connections to members that are not eligible any more for deletion, system will rebalance elsewhere
+	for _, connWrap := range r.writeQueue.items {
+		r.markConn(connWrap)
+	}
 
-				markedConn.markForDeletion = true
-			}
-		}
+	for _, connWrap := range r.readQueue.items {
+		r.markConn(connWrap)
 	}
 
-	r.rwStrings = actualWrites
-	r.readStrings = actualReads
+	for _, connWrap := range r.borrowedConns {
+		r.markConn(connWrap)
+	}
+}
+
+func (r *routingPool) markConn(connWrap *connectionPoolWrapper) {
+	if connWrap.ConnType == bolt_mode.WriteMode {
+		connWrap.markForDeletion = !stringSliceContains(r.rwStrings, connWrap.ConnStr)
+	} else {
+		connWrap.markForDeletion = !stringSliceContains(r.readStrings, connWrap.ConnStr)
+	}
 }
 
 func (r *routingPool) prune() {
 	reads := []*connectionPoolWrapper{}
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
-		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+		if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -277,7 +321,7 @@ func (r *routingPool) prune() {
 	}
 
 	for _, connWrap := range r.writeQueue.items {
-		if connWrap.markForDeletion {
+		if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
@@ -293,62 +337,107 @@ func (r *routingPool) prune() {
 }
 
 func (r *routingPool) balance() {
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	// make sure amount of conns is correct, what can not be opened now is tried again next time
+	for r.hasRoom(bolt_mode.WriteMode) {
+		err := r.addWriteConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
 	}
 
-	// make sure amount of conns is correct and within limits
-	if r.writeQueue.Size() < r.minWriteIdle {
-		for r.writeQueue.Size() == r.minWriteIdle {
-			err := r.addWriteConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	for r.hasRoom(bolt_mode.ReadMode) {
+		err := r.addReadConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
-	} else if r.writeQueue.Size() > r.maxWriteIdle {
-		for r.writeQueue.Size() == r.maxWriteIdle {
-			err := r.removeConn(r.writeQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	}
+
+	r.spread(bolt_mode.WriteMode, r.writeQueue, r.rwStrings)
+	r.spread(bolt_mode.ReadMode, r.readQueue, r.readStrings)
+}
+
+// spread replaces idle connections to members that have more than their share
+// by connections to members that have less, so that new members are used
+func (r *routingPool) spread(connType bolt_mode.AccessMode, queue *Queue, connStrs []string) {
+	if len(connStrs) == 0 {
+		return
+	}
+
+	counts := map[string]int{}
+	for _, connWrap := range queue.items {
+		counts[connWrap.ConnStr]++
+	}
+	for _, connWrap := range r.borrowedConns {
+		if connWrap.ConnType == connType {
+			counts[connWrap.ConnStr]++
 		}
 	}
 
-	// make sure amount of conns is correct and within limits
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
+	for range queue.items {
+		least := connStrs[0]
+		for _, connStr := range connStrs {
+			if counts[connStr] < counts[least] {
+				least = connStr
 			}
 		}
-	} else if r.readQueue.Size() > r.maxReadIdle {
-		for r.readQueue.Size() == r.maxReadIdle {
-			err := r.removeConn(r.readQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
+
+		most := 0
+		for i, connWrap := range queue.items {
+			if counts[connWrap.ConnStr] > counts[queue.items[most].ConnStr] {
+				most = i
 			}
 		}
+
+		mostWrap := queue.items[most]
+		if counts[mostWrap.ConnStr]-counts[least] < 2 {
+			return
+		}
+
+		connWrap, err := r.newConnection(connType, least)
+		if err != nil {
+			log.Error(err)
+			return
+		}
+
+		queue.items[most] = connWrap
+		counts[least]++
+		counts[mostWrap.ConnStr]--
+
+		err = r.removeConn(mostWrap)
+		if err != nil {
+			log.Error(err)
+		}
 	}
 }
 
-func (r *routingPool) refreshHandler() {
-	for r.isRunning() {
+func (r *routingPool) refreshHandler(stop chan struct{}) {
+	for {
 		// block routine until interval is up
-		<-time.After(r.refreshInterval)
+		select {
+		case <-stop:
+			return
+		case <-time.After(r.refreshInterval):
+		}
+
+		// connections can be used while waiting for the cluster
+		handler, err := r.getClusterInfo()
+
 		r.mutex.Lock()
+		select {
+		case <-stop:
+			r.mutex.Unlock()
+			return
+		default:
+		}
+
 		// refresh connections and mark dead conns
-		r.refreshConnections()
+		if err != nil {
+			log.Error(err)
+		} else {
+			r.refreshConnections(handler)
+		}
 		// remove dead conns
 		r.prune()
 		// balance pool to params
@@ -358,12 +447,13 @@ func (r *routingPool) refreshHandler() {
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
 
-	r.setRunning(true)
-
 	if r.totalConns%2 == 0 {
 		r.maxWriteIdle = r.totalConns / 2
 		r.maxReadIdle = r.totalConns / 2
@@ -381,105 +471,117 @@ func (r *routingPool) Start() error {
 	//defer conn.Close()
 
 	// refresh connections and mark dead conns
-	r.refreshConnections()
+	handler, err := r.getClusterInfo()
+	if err != nil {
+		return err
+	}
 
-	for i := 0; i < r.maxWriteIdle; i++ {
+	r.refreshConnections(handler)
+
+	for r.hasRoom(bolt_mode.WriteMode) {
 		err := r.addWriteConn()
 		if err != nil {
+			_ = r.closeIdle()
 			return err
 		}
 	}
 
-	for i := 0; i < r.maxReadIdle; i++ {
+	for r.hasRoom(bolt_mode.ReadMode) {
 		err := r.addReadConn()
 		if err != nil {
+			_ = r.closeIdle()
 			return err
 		}
 	}
 
-	go r.refreshHandler()
+	r.setRunning(true)
+	r.stop = make(chan struct{})
+	go r.refreshHandler(r.stop)
 
 	return nil
 }
 
+// closeIdle closes all idle connections and returns the first error
+func (r *routingPool) closeIdle() error {
+	var firstErr error
+
+	for _, queue := range []*Queue{r.readQueue, r.writeQueue} {
+		for queue.Size() != 0 {
+			err := r.removeConn(queue.Dequeue())
+			if err != nil && firstErr == nil {
+				firstErr = err
+			}
+		}
+	}
+
+	return firstErr
+}
+
 func (r *routingPool) Stop() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
 
 	r.setRunning(false)
+	close(r.stop)
 
-	for r.readQueue.Size() != 0 {
-		err := r.removeConn(r.readQueue.Dequeue())
-		if err != nil {
-			return err
-		}
-	}
-
-	for r.writeQueue.Size() != 0 {
-		err := r.removeConn(r.writeQueue.Dequeue())
-		if err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return r.closeIdle()
 }
 
-func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
+func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode) (connection.IConnection, error) {
 	if queue == nil {
 		return nil, errors.New("queue can not be nil")
 	}
 
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
+	}
+
 	conn := queue.Dequeue()
 	if conn == nil {
-		return nil, fmt.Errorf("stale queue")
-	}
+		if !r.hasRoom(connType) {
+			return nil, fmt.Errorf("stale queue")
+		}
 
-	if conn.markForDeletion {
-		err := r.removeConn(conn)
+		// connections were lost and could not be replaced
+		err := r.addConn(connType)
 		if err != nil {
 			return nil, err
 		}
-		return r.internalBorrow(queue)
+		return r.internalBorrow(queue, connType)
 	}
 
-	if !conn.Connection.ValidateOpen() {
+	if conn.markForDeletion || !conn.Connection.ValidateOpen() {
 		err := r.removeConn(conn)
 		if err != nil {
-			return nil, err
+			log.Error(err)
 		}
-		return r.internalBorrow(queue)
+		return r.internalBorrow(queue, connType)
 	}
 
+	lent := &lentConnection{IConnection: conn.Connection}
+
 	delete(r.heldConns, conn.Connection.GetConnectionId())
-	r.borrowedConns[conn.Connection.GetConnectionId()] = conn
+	r.borrowedConns[lent] = conn
 
-	return conn, nil
+	return lent, nil
 }
 
 func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
-
-	connWrap, err := r.internalBorrow(r.readQueue)
-	if err != nil {
-		return nil, err
-	}
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
-	return connWrap.Connection, nil
+	return r.internalBorrow(r.readQueue, bolt_mode.ReadMode)
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
-
-	connWrap, err := r.internalBorrow(r.writeQueue)
-	if err != nil {
-		return nil, err
-	}
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 
-	return connWrap.Connection, nil
+	return r.internalBorrow(r.writeQueue, bolt_mode.WriteMode)
 }
 
 func (r *routingPool) isRunning() bool {
@@ -507,17 +609,27 @@ func (r *routingPool) setUpdating(b bool) {
 }
 
 func (r *routingPool) Reclaim(conn connection.IConnection) error {
+	if conn == nil {
+		return errors.New("can not reclaim nil connection")
+	}
+
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	if !r.isRunning() {
-		return errors.New("pool is not running")
-	}
+	lent, isLent := conn.(*lentConnection)
+	connWrap, ok := r.borrowedConns[lent]
+	if !isLent || !ok {
+		if !r.isRunning() {
+			return errors.New("pool is not running")
+		}
+
+		connId := conn.GetConnectionId()
 
-	connId := conn.GetConnectionId()
+		// its connection may have been lent again
+		if isLent {
+			return fmt.Errorf("connection with id [%s] is not borrowed", connId)
+		}
 
-	connWrap, ok := r.borrowedConns[connId]
-	if !ok {
 		err := conn.Close()
 		if err != nil {
 			return fmt.Errorf("connection not found with id [%s]. Also had error closing connection, %w", connId, err)
@@ -525,22 +637,32 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 		return fmt.Errorf("connection not found with id [%s]", connId)
 	}
 
-	// remove from borrowed and replace in held
-	delete(r.borrowedConns, connId)
-	r.heldConns[connId] = connWrap
+	// remove from borrowed
+	delete(r.borrowedConns, lent)
+
+	if !r.isRunning() {
+		return r.removeConn(connWrap)
+	}
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	// check if the connection is dead or not wanted any more, if it is discard and make a new one
+	if connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() || connWrap.Connection.MakeIdle() != nil {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			log.Error(err)
+		}
+
+		// if this fails, it is tried again when it is needed
+		err = r.addConn(connWrap.ConnType)
+		if err != nil {
+			log.Error(err)
 		}
+
+		return nil
 	}
 
+	// replace in held
+	r.heldConns[connWrap.Connection.GetConnectionId()] = connWrap
+
 	if connWrap.ConnType == bolt_mode.WriteMode {
 		r.writeQueue.Enqueue(connWrap)
 	} else {
-- 
2.43.0


From edc0abc068b19621f536494b8771fdb1b868c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 44/50] fix: returning a routed connection twice does not touch
 it

---
 routing/pool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 3b39024..b99fb2c 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -623,13 +623,13 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 			return errors.New("pool is not running")
 		}
 
-		connId := conn.GetConnectionId()
-
-		// its connection may have been lent again
+		// its connection may be in use by someone else
 		if isLent {
-			return fmt.Errorf("connection with id [%s] is not borrowed", connId)
+			return errors.New("connection is not borrowed from this pool")
 		}
 
+		connId := conn.GetConnectionId()
+
 		err := conn.Close()
 		if err != nil {
 			return fmt.Errorf("connection not found with id [%s]. Also had error closing connection, %w", connId, err)
-- 
2.43.0


From 445a1bda52734ec03547171922dd5ddeb6dadd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 45/50] fix: rolling back for the next borrower keeps to the
 timeout that was set

---
 connection/connection.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 33b5140..d568e18 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -575,15 +575,16 @@ func (c *Connection) MakeIdle() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	var err error
+	if c.transaction != nil {
+		err = c.transaction.rollback()
+	}
+
 	// the next user starts with the settings the connection was opened with
 	c.timeout = c.initialTimeout
 	c.chunkSize = c.initialChunkSize
 
-	if c.transaction != nil {
-		return c.transaction.rollback()
-	}
-
-	return nil
+	return err
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
-- 
2.43.0


From 3bf1b09430ef2083f47986c5d21a8a1fa5fc039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 46/50] fix: keep the password out of the error of an
 unparsable connection string

A cluster member advertising a malformed address made the routing pool log
the connection string with its password at error level.
---
 connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index d568e18..2aa0fe4 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -121,6 +121,10 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	_url, err := url.Parse(connStr)
 	if err != nil {
+		// what url.Parse reports quotes the whole connection string with its password, and errors are logged
+		if urlErr, ok := err.(*url.Error); ok {
+			err = urlErr.Err
+		}
 		return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
 	} else if strings.ToLower(_url.Scheme) != "bolt" && strings.ToLower(_url.Scheme) != "bolt+routing" {
 		return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
-- 
2.43.0


From 78b97d91918fdfca08db9e9bcfcc502409ce4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 47/50] fix: read message data from readers that return nothing
 at times or the end together with the last bytes

---
 encoding/encoding_v1/decoderV1.go | 19 ++++---------------
 encoding/encoding_v2/decoderV2.go | 19 ++++---------------
 2 files changed, 8 insertions(+), 30 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 212948b..4d3275a 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -71,21 +71,10 @@ func (d DecoderV1) read() (*bytes.Buffer, error) {
 
 func (d DecoderV1) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	// a reader may return parts of it, nothing at times, or the last part together with the end of the stream
+	numRead, err := io.ReadFull(d.r, output)
+	if err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 21395ed..af3cfc8 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -70,21 +70,10 @@ func (d DecoderV2) read() (*bytes.Buffer, error) {
 
 func (d DecoderV2) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	// a reader may return parts of it, nothing at times, or the last part together with the end of the stream
+	numRead, err := io.ReadFull(d.r, output)
+	if err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 5d8ec21513f53c583c4ed3028a58931ae8c810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 48/50] fix: what the fields of an IGNORED structure say is not
 taken for the next value

---
 encoding/encoding_v1/decoderV1.go | 11 +++++++++--
 encoding/encoding_v2/decoderV2.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 4d3275a..42842e8 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -326,7 +326,7 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
-		return d.decodeIgnoredMessage(buffer)
+		return d.decodeIgnoredMessage(buffer, size)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
 	case messages.DiscardAllMessageSignature:
@@ -533,7 +533,14 @@ func (d DecoderV1) decodeFailureMessage(buffer *bytes.Buffer) (messages.FailureM
 	return messages.NewFailureMessage(metadata), nil
 }
 
-func (d DecoderV1) decodeIgnoredMessage(buffer *bytes.Buffer) (messages.IgnoredMessage, error) {
+func (d DecoderV1) decodeIgnoredMessage(buffer *bytes.Buffer, size int) (messages.IgnoredMessage, error) {
+	// what its fields say does not matter, but they are not the value that comes next
+	for i := 0; i < size; i++ {
+		if _, err := d.decode(buffer); err != nil {
+			return messages.IgnoredMessage{}, err
+		}
+	}
+
 	return messages.NewIgnoredMessage(), nil
 }
 
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index af3cfc8..1601041 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -338,7 +338,7 @@ func (d DecoderV2) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 	case messages.FailureMessageSignature:
 		return d.decodeFailureMessage(buffer)
 	case messages.IgnoredMessageSignature:
-		return d.decodeIgnoredMessage(buffer)
+		return d.decodeIgnoredMessage(buffer, size)
 	case messages.SuccessMessageSignature:
 		return d.decodeSuccessMessage(buffer)
 	case messages.DiscardAllMessageSignature:
@@ -866,7 +866,14 @@ func (d DecoderV2) decodeFailureMessage(buffer *bytes.Buffer) (messages.FailureM
 	return messages.NewFailureMessage(metadata), nil
 }
 
-func (d DecoderV2) decodeIgnoredMessage(buffer *bytes.Buffer) (messages.IgnoredMessage, error) {
+func (d DecoderV2) decodeIgnoredMessage(buffer *bytes.Buffer, size int) (messages.IgnoredMessage, error) {
+	// what its fields say does not matter, but they are not the value that comes next
+	for i := 0; i < size; i++ {
+		if _, err := d.decode(buffer); err != nil {
+			return messages.IgnoredMessage{}, err
+		}
+	}
+
 	return messages.NewIgnoredMessage(), nil
 }
 
-- 
2.43.0


From 63fa188a0111dce477654bec1f70049a4ab2c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:37 +0000
Subject: [PATCH 49/50] fix: a pool does not open connections for ever while
 the server drops them

---
 driver_pool.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/driver_pool.go b/driver_pool.go
index 0a850a3..f58a2e8 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -13,6 +13,9 @@ import (
 // how long to wait for the pool before looking again
 const borrowInterval = 100 * time.Millisecond
 
+// what the pool reports when no connection was returned in time
+const waitTimeoutMsg = "Timeout waiting for idle object"
+
 type driverPool struct {
 	connStr  string
 	maxConns int
@@ -59,14 +62,14 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 
 func (d *driverPool) open() (connection.IConnection, error) {
 	// nothing is locked while waiting, so that connections can be returned and the pool can be closed
-	for !d.isClosed() {
+	for dead := 0; !d.isClosed(); {
 		ctx, cancel := context.WithTimeout(context.Background(), borrowInterval)
 		connObj, err := d.pool.BorrowObject(ctx)
 		timedOut := ctx.Err() != nil
 		cancel()
 		if err != nil {
 			// the pool does not notice that there is room for a connection again when one was discarded
-			if _, ok := err.(*pool.NoSuchElementErr); ok && timedOut {
+			if _, ok := err.(*pool.NoSuchElementErr); ok && timedOut && err.Error() == waitTimeoutMsg {
 				continue
 			}
 			return nil, err
@@ -82,6 +85,12 @@ func (d *driverPool) open() (connection.IConnection, error) {
 			if err != nil {
 				return nil, err
 			}
+
+			// the idle connections may have died, but a server that drops all new ones is not tried for ever
+			dead++
+			if dead > d.maxConns {
+				return nil, errors.New("pool returned dead connection")
+			}
 			continue
 		}
 
-- 
2.43.0


From 6407258fbf92735fa6200b24598d818abfe10f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:37 +0000
Subject: [PATCH 50/50] fix: borrowing from a routing pool ends although
 members drop new connections

---
 routing/pool.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index b99fb2c..720ccbf 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -531,7 +531,8 @@ func (r *routingPool) Stop() error {
 	return r.closeIdle()
 }
 
-func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode) (connection.IConnection, error) {
+// internalBorrow lends a connection and opens up to maxNew ones for it, as members may drop them right away
+func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode, maxNew int) (connection.IConnection, error) {
 	if queue == nil {
 		return nil, errors.New("queue can not be nil")
 	}
@@ -546,12 +547,16 @@ func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode
 			return nil, fmt.Errorf("stale queue")
 		}
 
+		if maxNew <= 0 {
+			return nil, errors.New("no connection stays open")
+		}
+
 		// connections were lost and could not be replaced
 		err := r.addConn(connType)
 		if err != nil {
 			return nil, err
 		}
-		return r.internalBorrow(queue, connType)
+		return r.internalBorrow(queue, connType, maxNew-1)
 	}
 
 	if conn.markForDeletion || !conn.Connection.ValidateOpen() {
@@ -559,7 +564,7 @@ func (r *routingPool) internalBorrow(queue *Queue, connType bolt_mode.AccessMode
 		if err != nil {
 			log.Error(err)
 		}
-		return r.internalBorrow(queue, connType)
+		return r.internalBorrow(queue, connType, maxNew)
 	}
 
 	lent := &lentConnection{IConnection: conn.Connection}
@@ -574,14 +579,14 @@ func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	return r.internalBorrow(r.readQueue, bolt_mode.ReadMode)
+	return r.internalBorrow(r.readQueue, bolt_mode.ReadMode, len(r.readStrings)+1)
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
 
-	return r.internalBorrow(r.writeQueue, bolt_mode.WriteMode)
+	return r.internalBorrow(r.writeQueue, bolt_mode.WriteMode, len(r.rwStrings)+1)
 }
 
 func (r *routingPool) isRunning() bool {
-- 
2.43.0

