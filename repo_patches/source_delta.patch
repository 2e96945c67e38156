From f275db5bd04e18dfa9dfe2e95a921f896ce0b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:44 +0000
Subject: [PATCH 01/29] fix: read string, list, map and struct sizes as
 unsigned

PackStream sizes are unsigned. Reading them as signed integers lost every
string, list or map with 128-255, 32768-65535 or more than 2^31-1 entries
(empty or panicking in bytes.Buffer.Next and make).
---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 3a4263b202221a0b9264487e0e58672b5bb6175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 02/29] fix: report a string that is longer than its message

bytes.Buffer.Next silently returns what is left, so a truncated string was
handed to the caller as if it were complete.
---
 encoding/decoder.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..b4e862a 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -157,25 +157,25 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,6 +246,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes exceeds the %d bytes left in the message", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
-- 
2.43.0


From ffdae6684e5691d293020f194929446fc784e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:48 +0000
Subject: [PATCH 03/29] fix: do not allocate lists and maps by the size the
 server claims

A few bytes claiming 2^31 entries made the decoder allocate gigabytes or
panic before noticing that the entries are not there.
---
 encoding/decoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b4e862a..b9df955 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -254,20 +254,21 @@ func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, erro
 }
 
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// The size comes from the wire: let the slice grow with what is really there
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From 74d9e8e8d32ab25693f8081ae7844a34e9f667ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 04/29] fix: limit the nesting depth of decoded values

A message of a few megabytes of nested list headers overflowed the stack,
which ends the whole process and cannot be recovered from.
---
 encoding/decoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b9df955..95f7237 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -19,10 +19,14 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
+// maxDepth is the deepest nesting of values that is decoded
+const maxDepth = 10000
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -100,6 +104,10 @@ func (d Decoder) Decode() (interface{}, error) {
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	if d.depth++; d.depth > maxDepth {
+		return nil, errors.New("Values are nested deeper than %d levels", maxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
-- 
2.43.0


From 106ec27f6ecda7eb0a169bf69355f2211f07070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:15 +0000
Subject: [PATCH 05/29] fix: report values of an unexpected type instead of
 panicking

Identities of nodes and relationships, path sequences, update statistics and
database/sql arguments were type asserted without a check.
---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 result.go           |  8 ++++++++
 util.go             |  7 ++++++-
 4 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 95f7237..f3715ba 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -336,12 +336,16 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 
 func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -371,26 +375,35 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -456,14 +469,17 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..f968c17 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
diff --git a/result.go b/result.go
index 6011a86..f1454f8 100644
--- a/result.go
+++ b/result.go
@@ -49,6 +49,14 @@ func (r boltResult) RowsAffected() (int64, error) {
 		return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
 	}
 
+	for _, name := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		if count, ok := stats[name]; ok {
+			if _, ok := count.(int64); !ok {
+				return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", name, r.metadata)
+			}
+		}
+	}
+
 	var rowsAffected int64
 	nodesCreated, ok := stats["nodes-created"]
 	if ok {
diff --git a/util.go b/util.go
index 4e16ab7..fdffbf2 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, errors.New("You must pass only an encoded map to the Exec/Query args")
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From 96053a72f9b6e2b07f2039f848e35e0aada21608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:16 +0000
Subject: [PATCH 06/29] fix: split what is left in the encoder into chunks of
 legal size

Write emits at most one chunk per call, so the remainder of a message can
exceed 65535 bytes. Its length was cut to 16 bits, which corrupted the stream.
---
 encoding/encoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..cd8410b 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -131,13 +131,16 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	// What is left can be longer than a chunk can be
+	for length := e.buf.Len(); length > 0; length = e.buf.Len() {
+		if length > math.MaxUint16 {
+			length = math.MaxUint16
+		}
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From d27786b138ed714ec415a89ce9a757831b0c39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:18 +0000
Subject: [PATCH 07/29] fix: treat chunk size 0 as the maximum

With SetChunkSize(0) every write emitted an empty chunk, which is the end of
message marker.
---
 encoding/encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index cd8410b..acd0364 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -89,6 +89,10 @@ type Encoder struct {
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		// A chunk of size 0 would end the message
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
-- 
2.43.0


From 2203da181bf2cf49cc728501589cd1169b5ad9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 08/29] fix: read the whole version in the handshake

A single Read may return fewer than the 4 bytes. The open call then failed
although nothing was wrong, or, as err was nil, reported success without
having sent INIT.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 72f8117..d87aca1 100644
--- a/conn.go
+++ b/conn.go
@@ -246,7 +246,7 @@ func (c *boltConn) handShake() error {
 		return err
 	}
 
-	numRead, err := c.Read(c.serverVersion)
+	numRead, err := io.ReadFull(c, c.serverVersion)
 	if numRead != 4 {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
 		if err != nil {
-- 
2.43.0


From ee40b238d740d840c7a1966d238f140699c9a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 09/29] fix: reject protocol versions the driver did not offer

Whatever else than zero came back was taken as version 1, for example the
first bytes of an HTTP server.
---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index d87aca1..d91d77a 100644
--- a/conn.go
+++ b/conn.go
@@ -255,6 +255,8 @@ func (c *boltConn) handShake() error {
 		return err
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that was not offered: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From 10c2a8ff7589b5c78b52571f9166e79490b0f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 10/29] fix: treat the end of the stream as a broken connection

EOF from the server was not recorded and passed on as io.EOF, so the
connection went back to the pool and callers did not see driver.ErrBadConn.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d91d77a..0d3554d 100644
--- a/conn.go
+++ b/conn.go
@@ -331,7 +331,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
-- 
2.43.0


From c0fbdb78028c1958026247a89106af284f132737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:41 +0000
Subject: [PATCH 11/29] fix: do not use a connection any more after it broke

After a timeout or a failed write the stream is out of sync: the next call
would read the late answer to an earlier one, or wait another timeout.
---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 0d3554d..17d3403 100644
--- a/conn.go
+++ b/conn.go
@@ -320,6 +320,10 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -340,6 +344,10 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
-- 
2.43.0


From 2c924e1f775a6b8d4c1e74e09e07a2ac79a2845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:14 +0000
Subject: [PATCH 12/29] fix: treat undecodable or unexpected responses as a
 broken connection

---
 conn.go | 27 +++++++++++++++++++++------
 rows.go |  8 ++++----
 stmt.go | 12 ++++++------
 tx.go   |  8 ++++----
 4 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/conn.go b/conn.go
index 17d3403..2f8b97a 100644
--- a/conn.go
+++ b/conn.go
@@ -366,6 +366,15 @@ func (c *boltConn) Write(b []byte) (n int, err error) {
 	return n, err
 }
 
+// broken marks the connection as unusable, as what arrives on it can no
+// longer be related to what was asked, and gives the error to return
+func (c *boltConn) broken(msg string, args ...interface{}) error {
+	if c.connErr == nil {
+		c.connErr = errors.New(msg, args...)
+	}
+	return errors.Wrap(driver.ErrBadConn, msg, args...)
+}
+
 // Close closes the connection
 // Driver may allow for pooling in the future, keeping connections alive
 func (c *boltConn) Close() error {
@@ -421,7 +430,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	for {
 		respInt, err := encoding.NewDecoder(c).Decode()
 		if err != nil {
-			return errors.Wrap(err, "An error occurred decoding ack failure message response")
+			return c.broken("An error occurred decoding ack failure message response: %s", err)
 		}
 
 		switch resp := respInt.(type) {
@@ -455,7 +464,7 @@ func (c *boltConn) reset() error {
 	for {
 		respInt, err := encoding.NewDecoder(c).Decode()
 		if err != nil {
-			return errors.Wrap(err, "An error occurred decoding reset message response")
+			return c.broken("An error occurred decoding reset message response: %s", err)
 		}
 
 		switch resp := respInt.(type) {
@@ -533,14 +542,14 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		return nil, c.broken("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	log.Infof("Got success message beginning transaction: %#v", success)
 
 	success, ok = pullInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type pulling transaction:  %#v", success)
+		return nil, c.broken("Unrecognized response type pulling transaction:  %#v", success)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", success)
@@ -563,13 +572,19 @@ func (c *boltConn) consume() (interface{}, error) {
 
 	respInt, err := encoding.NewDecoder(c).Decode()
 	if err != nil {
-		return respInt, err
+		return nil, c.broken("An error occurred decoding a response: %s", err)
 	}
 
 	if log.GetLevel() >= log.TraceLevel {
 		log.Tracef("Consumed Response: %#v", respInt)
 	}
 
+	switch respInt.(type) {
+	case messages.SuccessMessage, messages.RecordMessage, messages.FailureMessage:
+	default:
+		return nil, c.broken("Unrecognized response from the server: %#v", respInt)
+	}
+
 	if failure, isFail := respInt.(messages.FailureMessage); isFail {
 		log.Errorf("Got failure message: %#v", failure)
 		err := c.ackFailure(failure)
@@ -798,7 +813,7 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
 		c.statement.Close()
-		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
+		return nil, c.broken("Unexpected response querying neo from connection: %#v", successResp)
 	}
 
 	c.statement.rows = newQueryRows(c.statement, success.Metadata)
diff --git a/rows.go b/rows.go
index 4eb6782..fe40ee2 100644
--- a/rows.go
+++ b/rows.go
@@ -134,7 +134,7 @@ func (r *boltRows) Close() error {
 		case messages.SuccessMessage:
 			log.Infof("Got success message: %#v", resp)
 		default:
-			return errors.New("Unrecognized response type discarding all rows: Value: %#v", resp)
+			return r.statement.conn.broken("Unrecognized response type discarding all rows: Value: %#v", resp)
 		}
 
 	} else if !r.finishedConsume {
@@ -225,7 +225,7 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, errors.New("Unrecognized response type getting next query row: %#v", resp)
+		return nil, nil, r.statement.conn.broken("Unrecognized response type getting next query row: %#v", resp)
 	}
 }
 
@@ -273,7 +273,7 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.statement.conn.broken("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
 		}
 
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
@@ -284,6 +284,6 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, errors.New("Unrecognized response type getting next pipeline row: %#v", resp)
+		return nil, nil, nil, r.statement.conn.broken("Unrecognized response type getting next pipeline row: %#v", resp)
 	}
 }
diff --git a/stmt.go b/stmt.go
index 42a6f32..cdbc2f0 100644
--- a/stmt.go
+++ b/stmt.go
@@ -103,7 +103,7 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok := runResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type when running exec query: %#v", success)
+		return nil, s.conn.broken("Unrecognized response type when running exec query: %#v", success)
 
 	}
 
@@ -111,7 +111,7 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok = pullResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response when discarding exec rows: %#v", success)
+		return nil, s.conn.broken("Unrecognized response when discarding exec rows: %#v", success)
 	}
 
 	log.Infof("Got discard all success message: %#v", success)
@@ -149,7 +149,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok := runResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query result: %#v", runResp)
+			return nil, s.conn.broken("Unexpected response when getting exec query result: %#v", runResp)
 		}
 
 		_, pullResp, err := s.conn.consumeAll()
@@ -159,7 +159,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok = pullResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query discard result: %#v", pullResp)
+			return nil, s.conn.broken("Unexpected response when getting exec query discard result: %#v", pullResp)
 		}
 
 		results[i] = newResult(success.Metadata)
@@ -199,7 +199,7 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	resp, ok := respInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type running query: %#v", resp)
+		return nil, s.conn.broken("Unrecognized response type running query: %#v", resp)
 	}
 
 	log.Infof("Got success message on run query: %#v", resp)
@@ -235,7 +235,7 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 
 	success, ok := resp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Got unexpected return message when consuming initial pipeline command: %#v", resp)
+		return nil, s.conn.broken("Got unexpected return message when consuming initial pipeline command: %#v", resp)
 	}
 
 	s.rows = newPipelineRows(s, success.Metadata, 0)
diff --git a/tx.go b/tx.go
index e70bbef..6fd5b90 100644
--- a/tx.go
+++ b/tx.go
@@ -43,14 +43,14 @@ func (t *boltTx) Commit() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		return t.conn.broken("Unrecognized response type committing transaction: %#v", success)
 	}
 
 	log.Infof("Got success message committing transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+		return t.conn.broken("Unrecognized response type pulling transaction:  %#v", pull)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
@@ -78,14 +78,14 @@ func (t *boltTx) Rollback() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		return t.conn.broken("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
 	log.Infof("Got success message rolling back transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction: %#v", pull)
+		return t.conn.broken("Unrecognized response type pulling transaction: %#v", pull)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From 629cd635734720ffff7e2c67929cb940c2b0ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:48 +0000
Subject: [PATCH 13/29] fix: track the open transaction and end it with its
 commit or rollback

---
 conn.go |  3 ++-
 tx.go   | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 2f8b97a..49c1883 100644
--- a/conn.go
+++ b/conn.go
@@ -554,7 +554,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index 6fd5b90..1b14ece 100644
--- a/tx.go
+++ b/tx.go
@@ -25,6 +25,12 @@ func newTx(conn *boltConn) *boltTx {
 	}
 }
 
+// end closes the transaction
+func (t *boltTx) end() {
+	t.conn.transaction = nil
+	t.closed = true
+}
+
 // Commit commits and closes the transaction
 func (t *boltTx) Commit() error {
 	if t.closed {
@@ -36,6 +42,9 @@ func (t *boltTx) Commit() error {
 		}
 	}
 
+	// Whatever the answer is, the transaction is over
+	defer t.end()
+
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred committing transaction")
@@ -55,8 +64,6 @@ func (t *boltTx) Commit() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
 
@@ -71,6 +78,9 @@ func (t *boltTx) Rollback() error {
 		}
 	}
 
+	// Whatever the answer is, the transaction is over
+	defer t.end()
+
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred rolling back transaction")
@@ -90,7 +100,5 @@ func (t *boltTx) Rollback() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
-- 
2.43.0


From cf726959a8ad753b5d93f32cdf717454230b3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 14/29] fix: release the connection even if cleaning up the
 session fails

---
 conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 49c1883..7c2124e 100644
--- a/conn.go
+++ b/conn.go
@@ -383,15 +383,24 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// Whatever goes wrong while cleaning up the session, the connection is
+	// released. The first error is returned afterwards.
+	var closeErr error
 	if c.statement != nil {
 		if err := c.statement.Close(); err != nil {
-			return err
+			closeErr = err
 		}
 	}
 
 	if c.transaction != nil {
 		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+			// The transaction may still be open
+			if c.connErr == nil {
+				c.connErr = err
+			}
+			if closeErr == nil {
+				closeErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
+			}
 		}
 	}
 
@@ -403,7 +412,7 @@ func (c *boltConn) Close() error {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
 	if c.conn != nil {
@@ -415,7 +424,7 @@ func (c *boltConn) Close() error {
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
-- 
2.43.0


From 501419012d6d265ce7ca88f50b3523909f9fcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:07 +0000
Subject: [PATCH 15/29] fix: end rows with their first error and always detach
 them on close

---
 rows.go | 57 +++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/rows.go b/rows.go
index fe40ee2..1bf6566 100644
--- a/rows.go
+++ b/rows.go
@@ -58,6 +58,7 @@ type boltRows struct {
 	closed          bool
 	consumed        bool
 	finishedConsume bool
+	err             error
 	pipelineIndex   int
 	closeStatement  bool
 }
@@ -117,12 +118,34 @@ func (r *boltRows) Metadata() map[string]interface{} {
 	return r.metadata
 }
 
+// fail ends the rows with an error, as nothing more arrives for them
+func (r *boltRows) fail(err error) error {
+	r.finishedConsume = true
+	r.err = err
+	return err
+}
+
 // Close closes the rows
 func (r *boltRows) Close() error {
 	if r.closed {
 		return nil
 	}
 
+	err := r.flush()
+
+	r.closed = true
+	r.statement.rows = nil
+
+	if r.closeStatement {
+		if e := r.statement.Close(); err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// flush takes what was not consumed of the rows off the stream
+func (r *boltRows) flush() error {
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -160,12 +183,6 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
-	}
 	return nil
 }
 
@@ -202,18 +219,23 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 	if r.closed {
 		return nil, nil, errors.New("Rows are already closed")
 	}
+	if r.err != nil {
+		return nil, nil, r.err
+	}
+	if r.finishedConsume {
+		return nil, nil, io.EOF
+	}
 
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
-			return nil, nil, err
+			return nil, nil, r.fail(err)
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, r.fail(err)
 	}
 
 	switch resp := respInt.(type) {
@@ -225,7 +247,7 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, r.statement.conn.broken("Unrecognized response type getting next query row: %#v", resp)
+		return nil, nil, r.fail(r.statement.conn.broken("Unrecognized response type getting next query row: %#v", resp))
 	}
 }
 
@@ -251,10 +273,16 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	if r.closed {
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
+	if r.err != nil {
+		return nil, nil, nil, r.err
+	}
+	if r.finishedConsume {
+		return nil, nil, nil, io.EOF
+	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, r.fail(err)
 	}
 
 	switch resp := respInt.(type) {
@@ -268,22 +296,23 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		successResp, err := r.statement.conn.consume()
 		if err != nil && err != io.EOF {
-			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.fail(errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp))
 		}
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, r.statement.conn.broken("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.fail(r.statement.conn.broken("Unexpected response getting next set of rows from pipeline command: %#v", successResp))
 		}
 
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
 		r.statement.rows.closeStatement = r.closeStatement
+		r.closed = true // The next rows take over from here
 		return nil, success.Metadata, r.statement.rows, nil
 
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, r.statement.conn.broken("Unrecognized response type getting next pipeline row: %#v", resp)
+		return nil, nil, nil, r.fail(r.statement.conn.broken("Unrecognized response type getting next pipeline row: %#v", resp))
 	}
 }
-- 
2.43.0


From 4f114e81a44b2ad06cc17dbe80dfa565cdaeebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:08 +0000
Subject: [PATCH 16/29] fix: close open rows with their statement and always
 detach it

---
 stmt.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stmt.go b/stmt.go
index cdbc2f0..df9d96c 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,16 +59,16 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
-			return err
-		}
+	// Rows that close their statement come back here, so close it first
+	s.closed = true
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
 	}
 
-	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 380d9b66e3eb1222120e1f4968e52a628195a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 17/29] fix: do not leave a statement behind when querying a
 pipeline fails

---
 conn.go | 1 +
 stmt.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 7c2124e..ce1aa0b 100644
--- a/conn.go
+++ b/conn.go
@@ -841,6 +841,7 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 	c.statement = newPipelineStmt(queries, c)
 	rows, err := c.statement.QueryPipeline(params...)
 	if err != nil {
+		c.statement.Close()
 		return nil, err
 	}
 
diff --git a/stmt.go b/stmt.go
index df9d96c..63664d8 100644
--- a/stmt.go
+++ b/stmt.go
@@ -218,6 +218,9 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	if len(params) != len(s.queries) {
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
 
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
-- 
2.43.0


From 266fed546f67604e4a03471881d99c79c670d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:44 +0000
Subject: [PATCH 18/29] fix: send nothing of a query or pipeline whose
 parameters cannot be encoded

---
 conn.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 stmt.go | 14 ++++----------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index ce1aa0b..b8b5957 100644
--- a/conn.go
+++ b/conn.go
@@ -656,10 +656,25 @@ func (c *boltConn) sendInit() (interface{}, error) {
 	return c.consume()
 }
 
+// encodeRun encodes a RUN message completely before any of it is sent, as
+// the parameters may turn out not to be encodable
+func (c *boltConn) encodeRun(query string, args map[string]interface{}) ([]byte, error) {
+	buf := &bytes.Buffer{}
+	runMessage := messages.NewRunMessage(query, args)
+	if err := encoding.NewEncoder(buf, c.chunkSize).Encode(runMessage); err != nil {
+		return nil, errors.Wrap(err, "An error occurred running query")
+	}
+
+	return buf.Bytes(), nil
+}
+
 func (c *boltConn) sendRun(query string, args map[string]interface{}) error {
 	log.Infof("Sending RUN message: query %s (args: %#v)", query, args)
-	runMessage := messages.NewRunMessage(query, args)
-	if err := encoding.NewEncoder(c, c.chunkSize).Encode(runMessage); err != nil {
+	run, err := c.encodeRun(query, args)
+	if err != nil {
+		return err
+	}
+	if _, err := c.Write(run); err != nil {
 		return errors.Wrap(err, "An error occurred running query")
 	}
 
@@ -703,6 +718,29 @@ func (c *boltConn) sendRunPullAll(query string, args map[string]interface{}) err
 	return c.sendPullAll()
 }
 
+// sendPipeline sends all of the queries, or none if one cannot be encoded
+func (c *boltConn) sendPipeline(queries []string, params []map[string]interface{}) error {
+	runs := make([][]byte, len(queries))
+	for i, query := range queries {
+		var err error
+		if runs[i], err = c.encodeRun(query, params[i]); err != nil {
+			return errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+	}
+
+	for i, query := range queries {
+		log.Infof("Sending RUN message: query %s (args: %#v)", query, params[i])
+		if _, err := c.Write(runs[i]); err != nil {
+			return errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
+		}
+		if err := c.sendPullAll(); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (c *boltConn) sendRunPullAllConsumeRun(query string, args map[string]interface{}) (interface{}, error) {
 	err := c.sendRunPullAll(query, args)
 	if err != nil {
diff --git a/stmt.go b/stmt.go
index 63664d8..8ee4ba8 100644
--- a/stmt.go
+++ b/stmt.go
@@ -131,11 +131,8 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
-	for i, query := range s.queries {
-		err := s.conn.sendRunPullAll(query, params[i])
-		if err != nil {
-			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
-		}
+	if err := s.conn.sendPipeline(s.queries, params); err != nil {
+		return nil, err
 	}
 
 	log.Info("Successfully ran all pipeline queries")
@@ -222,11 +219,8 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 		return nil, errors.New("Must pass at least one query")
 	}
 
-	for i, query := range s.queries {
-		err := s.conn.sendRunPullAll(query, params[i])
-		if err != nil {
-			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
-		}
+	if err := s.conn.sendPipeline(s.queries, params); err != nil {
+		return nil, err
 	}
 
 	log.Info("Successfully ran all pipeline queries")
-- 
2.43.0


From 2415afaf83ae88269c4ccd0e44537ff995854cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 19/29] fix: leave closing the connection to its owner when the
 session cannot be reset

---
 conn.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index b8b5957..ccb365c 100644
--- a/conn.go
+++ b/conn.go
@@ -454,9 +454,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 			return c.reset()
 		default:
 			log.Errorf("Got unrecognized response from acking failure: %#v", resp)
-			c.connErr = errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
-			c.Close()
-			return driver.ErrBadConn
+			return c.broken("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
 		}
 	}
 }
@@ -485,16 +483,12 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			// The owner of the connection still has to close it
+			c.broken("Error resetting session: %#v", resp)
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.connErr = errors.New("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", resp)
-			c.Close()
-			return driver.ErrBadConn
+			return c.broken("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", resp)
 		}
 	}
 }
-- 
2.43.0


From 8a4e44526d4726075f8e71844c47155680ec13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 20/29] fix: report why the server refused to initialize a
 connection

---
 conn.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ccb365c..d17fc30 100644
--- a/conn.go
+++ b/conn.go
@@ -647,7 +647,17 @@ func (c *boltConn) sendInit() (interface{}, error) {
 		return nil, errors.Wrap(err, "An error occurred sending init message")
 	}
 
-	return c.consume()
+	// There is no session yet in which a failure could be acknowledged
+	respInt, err := encoding.NewDecoder(c).Decode()
+	if err != nil {
+		return nil, c.broken("An error occurred decoding init message response: %s", err)
+	}
+	if failure, isFail := respInt.(messages.FailureMessage); isFail {
+		log.Errorf("Got failure message when initializing connection: %#v", failure)
+		return failure, errors.Wrap(failure, "Neo4J refused to initialize the connection")
+	}
+
+	return respInt, nil
 }
 
 // encodeRun encodes a RUN message completely before any of it is sent, as
-- 
2.43.0


From 3f4da721ce1db5c3b7422b22c9454c072e0e6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:21 +0000
Subject: [PATCH 21/29] fix: apply the timeout to dialing with TLS

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d17fc30..5402d1c 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 3d66f3208c6f96be0e0255ae3974bad4f1516658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 22/29] fix: do not hand out a pooled connection again that the
 server never accepted

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index 5402d1c..2aa2253 100644
--- a/conn.go
+++ b/conn.go
@@ -292,6 +292,7 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -300,6 +301,7 @@ func (c *boltConn) initialize() error {
 
 	respInt, err := c.sendInit()
 	if err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
-- 
2.43.0


From 17fef8aba941bf0f96c011c8b6008a8a203d20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:58 +0000
Subject: [PATCH 23/29] fix: do not use a pooled connection after it was
 returned

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 2aa2253..5bcffdf 100644
--- a/conn.go
+++ b/conn.go
@@ -409,6 +409,7 @@ func (c *boltConn) Close() error {
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
+		c.closed = true // The network connection may have its next user by now
 		if err != nil {
 			log.Errorf("An error occurred reclaiming connection for pool: %s", err)
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
-- 
2.43.0


From 3b00f5bbd56dcf83d961fab52050c2f03114294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:00 +0000
Subject: [PATCH 24/29] fix: close broken connections of a pool and hand on
 nothing but the socket

---
 conn.go   |  8 ++++++++
 driver.go | 23 +++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 5bcffdf..8fbab2d 100644
--- a/conn.go
+++ b/conn.go
@@ -377,6 +377,14 @@ func (c *boltConn) broken(msg string, args ...interface{}) error {
 	return errors.Wrap(driver.ErrBadConn, msg, args...)
 }
 
+// closeSocket closes the underlying connection, if there is one
+func (c *boltConn) closeSocket() error {
+	if c.conn == nil {
+		return nil
+	}
+	return c.conn.Close()
+}
+
 // Close closes the connection
 // Driver may allow for pooling in the future, keeping connections alive
 func (c *boltConn) Close() error {
diff --git a/driver.go b/driver.go
index 1bbf0c6..d2b7415 100644
--- a/driver.go
+++ b/driver.go
@@ -130,6 +130,7 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 	if !d.closed {
 		conn := <-d.pool
 		if connectionNilOrClosed(conn) {
+			conn.closeSocket()
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
@@ -174,18 +175,24 @@ func (d *boltDriverPool) Close() error {
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
-	var newConn *boltConn
-	var err error
+	newConn, err := newPooledBoltConn(d.connStr, d)
+	if err != nil {
+		return err
+	}
+
 	if conn.connErr != nil || conn.closed {
-		newConn, err = newPooledBoltConn(d.connStr, d)
+		// Nothing can be done with this connection any more
+		conn.closeSocket()
+	} else {
+		// sneakily swap out connection so a reference to
+		// it isn't held on to. Nothing else is handed on to
+		// the next user.
+		newConn.url, err = newConn.parseURL()
 		if err != nil {
 			return err
 		}
-	} else {
-		// sneakily swap out connection so a reference to
-		// it isn't held on to
-		newConn = &boltConn{}
-		*newConn = *conn
+		newConn.conn = conn.conn
+		newConn.serverVersion = conn.serverVersion
 	}
 
 	d.pool <- newConn
-- 
2.43.0


From b8f13190b7f0926d841539fa62b48dd1a3f7b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:17 +0000
Subject: [PATCH 25/29] fix: closing a pool releases waiting borrowers and
 every connection

---
 driver.go | 88 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/driver.go b/driver.go
index d2b7415..7de27c8 100644
--- a/driver.go
+++ b/driver.go
@@ -90,6 +90,7 @@ type boltDriverPool struct {
 	connRefs []*boltConn
 	refLock  sync.Mutex
 	closed   bool
+	done     chan struct{}
 }
 
 // NewDriverPool creates a new Driver object with connection pooling
@@ -107,6 +108,7 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		done:     make(chan struct{}),
 	}
 
 	for i := 0; i < max; i++ {
@@ -123,22 +125,33 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 
 // OpenPool opens a returns a Bolt connection from the pool to the Neo4J database.
 func (d *boltDriverPool) OpenPool() (Conn, error) {
-	// For each connection request we need to block in case the Close function is called. This gives us a guarantee
-	// when closing the pool no new connections are made.
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
-	if !d.closed {
-		conn := <-d.pool
-		if connectionNilOrClosed(conn) {
-			conn.closeSocket()
-			if err := conn.initialize(); err != nil {
-				return nil, err
-			}
-			d.connRefs = append(d.connRefs, conn)
+	// Wait for a free connection without holding the lock, as returning a connection and closing the pool need it
+	var conn *boltConn
+	select {
+	case conn = <-d.pool:
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	if connectionNilOrClosed(conn) {
+		conn.closeSocket()
+		if err := conn.initialize(); err != nil {
+			return nil, err
 		}
-		return conn, nil
 	}
-	return nil, errors.New("Driver pool has been closed")
+
+	// From here on closing the pool closes the connection, unless the pool has been closed in the meantime
+	d.refLock.Lock()
+	closed := d.closed
+	if !closed {
+		d.connRefs = append(d.connRefs, conn)
+	}
+	d.refLock.Unlock()
+	if closed {
+		conn.Close()
+		return nil, errors.New("Driver pool has been closed")
+	}
+	return conn, nil
 }
 
 func connectionNilOrClosed(conn *boltConn) (bool) {
@@ -160,21 +173,50 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	for _, conn := range d.connRefs {
-		// Remove the reference to the pool, to allow a clean up of the connection
-		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
-		}
+	if d.closed {
+		return nil
 	}
 	// Mark the pool as closed to stop any new connections
 	d.closed = true
-	return nil
+	close(d.done)
+
+	// Borrowed connections may be in use right now, so only their sockets can be closed
+	var closeErr error
+	for _, conn := range d.connRefs {
+		err := conn.closeSocket()
+		if err != nil && closeErr == nil {
+			closeErr = err
+		}
+	}
+	d.connRefs = nil
+
+	for {
+		select {
+		case conn := <-d.pool:
+			err := conn.closeSocket()
+			if err != nil && closeErr == nil {
+				closeErr = err
+			}
+		default:
+			return closeErr
+		}
+	}
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
+	d.refLock.Lock()
+	defer d.refLock.Unlock()
+	for i, ref := range d.connRefs {
+		if ref == conn {
+			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)
+			break
+		}
+	}
+	if d.closed {
+		conn.closeSocket() // Closing the pool may have done so already
+		return nil
+	}
+
 	newConn, err := newPooledBoltConn(d.connStr, d)
 	if err != nil {
 		return err
-- 
2.43.0


From 5103062bf51c68617c9ba55f5927c714960747d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:18 +0000
Subject: [PATCH 26/29] fix: let database/sql drop connections that broke

---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index 8fbab2d..63f77ac 100644
--- a/conn.go
+++ b/conn.go
@@ -377,6 +377,12 @@ func (c *boltConn) broken(msg string, args ...interface{}) error {
 	return errors.Wrap(driver.ErrBadConn, msg, args...)
 }
 
+// IsValid tells whether the connection can still be used. See
+// sql/driver.Validator.
+func (c *boltConn) IsValid() bool {
+	return c.connErr == nil && !c.closed
+}
+
 // closeSocket closes the underlying connection, if there is one
 func (c *boltConn) closeSocket() error {
 	if c.conn == nil {
-- 
2.43.0


From ba80e8cb23ef5fa04e59babfc31ab8e232946728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:39 +0000
Subject: [PATCH 27/29] fix: check the length of a record before handing it to
 database/sql

---
 rows.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rows.go b/rows.go
index 1bf6566..ebb50b2 100644
--- a/rows.go
+++ b/rows.go
@@ -193,6 +193,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) != len(dest) {
+		return r.fail(r.statement.conn.broken("Expected %d values in the row, got %d", len(dest), len(data)))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
-- 
2.43.0


From f58396a303063202d796018bdc197144043e2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:40 +0000
Subject: [PATCH 28/29] fix: let database/sql keep prepared statements open

---
 conn.go |  7 ++++++-
 rows.go |  3 +++
 stmt.go | 17 ++++++++++++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 63f77ac..09f5e90 100644
--- a/conn.go
+++ b/conn.go
@@ -512,7 +512,12 @@ func (c *boltConn) reset() error {
 
 // Prepare prepares a new statement for a query
 func (c *boltConn) Prepare(query string) (driver.Stmt, error) {
-	return c.prepare(query)
+	if c.closed {
+		return nil, errors.New("Connection already closed")
+	}
+	stmt := newStmt(query, c)
+	stmt.shared = true
+	return stmt, nil
 }
 
 // Prepare prepares a new statement for a query. Implements a Neo-friendly alternative to sql/driver.
diff --git a/rows.go b/rows.go
index ebb50b2..cc4efd2 100644
--- a/rows.go
+++ b/rows.go
@@ -135,6 +135,9 @@ func (r *boltRows) Close() error {
 
 	r.closed = true
 	r.statement.rows = nil
+	if r.statement.shared {
+		r.statement.conn.statement = nil
+	}
 
 	if r.closeStatement {
 		if e := r.statement.Close(); err == nil {
diff --git a/stmt.go b/stmt.go
index 8ee4ba8..6ead15a 100644
--- a/stmt.go
+++ b/stmt.go
@@ -43,6 +43,10 @@ type boltStmt struct {
 	conn    *boltConn
 	closed  bool
 	rows    *boltRows
+	// shared is set for statements prepared by database/sql, which uses the
+	// connection for other statements while they are open. They occupy the
+	// connection only while they have open rows.
+	shared bool
 }
 
 func newStmt(query string, conn *boltConn) *boltStmt {
@@ -66,7 +70,9 @@ func (s *boltStmt) Close() error {
 		err = s.rows.Close()
 	}
 
-	s.conn.statement = nil
+	if s.conn.statement == s {
+		s.conn.statement = nil
+	}
 	s.conn = nil
 	return err
 }
@@ -95,6 +101,9 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 	if s.rows != nil {
 		return nil, errors.New("Another query is already open")
 	}
+	if s.shared && s.conn.statement != nil {
+		return nil, errors.New("An open statement already exists")
+	}
 
 	runResp, pullResp, _, err := s.conn.sendRunPullAllConsumeAll(s.query, params)
 	if err != nil {
@@ -188,6 +197,9 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 	if s.rows != nil {
 		return nil, errors.New("Another query is already open")
 	}
+	if s.shared && s.conn.statement != nil {
+		return nil, errors.New("An open statement already exists")
+	}
 
 	respInt, err := s.conn.sendRunConsume(s.query, params)
 	if err != nil {
@@ -201,6 +213,9 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	log.Infof("Got success message on run query: %#v", resp)
 	s.rows = newRows(s, resp.Metadata)
+	if s.shared {
+		s.conn.statement = s
+	}
 	return s.rows, nil
 }
 
-- 
2.43.0


From 1f45bd00ee89eaf152fd6f4b38c0b1e101831e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 29/29] fix: keep the slot of a connection whose URL is invalid

---
 driver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index 7de27c8..cbe4757 100644
--- a/driver.go
+++ b/driver.go
@@ -222,7 +222,7 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		return err
 	}
 
-	if conn.connErr != nil || conn.closed {
+	if conn.connErr != nil || conn.closed || conn.conn == nil {
 		// Nothing can be done with this connection any more
 		conn.closeSocket()
 	} else {
-- 
2.43.0

