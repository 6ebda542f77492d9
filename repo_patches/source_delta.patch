From b11f5bf5a20ad61ae2930dcff96a24d1c883da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 01/31] fix: do not emit zero length chunks when the chunk size
 is 0

A chunk size of 0 made every write emit a zero chunk header, which
terminates the message on the wire.
---
 encoding/encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..a80921d 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -89,6 +89,10 @@ type Encoder struct {
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		// A zero length chunk would mean the end of the message
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
-- 
2.43.0


From 7dd2537a51b678e772675f6d27fc542b96a70471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:29 +0000
Subject: [PATCH 02/31] fix: split what is left in the encoder buffer into
 chunks of at most 65535 bytes

Write emits at most one chunk per call, so more than 65535 bytes can be
left when flushing; the chunk header was then the length modulo 65536.
---
 encoding/encoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index a80921d..25a63cc 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -135,13 +135,16 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > math.MaxUint16 {
+			length = math.MaxUint16
+		}
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From 96350df5b7c46b1800a64f9dd2414de0c23908c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 03/31] fix: send nothing for a value that cannot be encoded

Chunks completed before the unsupported part were already on the stream,
and the rest stayed in the buffer to be sent with the next message.
---
 encoding/encoder.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 25a63cc..a1040c2 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -161,13 +161,28 @@ func (e Encoder) flush() error {
 // Encode encodes an object to the stream
 func (e Encoder) Encode(iVal interface{}) error {
 
-	err := e.encode(iVal)
+	// Build the whole message before sending any of it, so that nothing is
+	// sent for a value that turns out not to be encodable
+	msg := &bytes.Buffer{}
+	staged := Encoder{w: msg, buf: e.buf, chunkSize: e.chunkSize}
+
+	err := staged.encode(iVal)
 	if err != nil {
+		e.buf.Reset()
 		return err
 	}
 
 	// Whatever is left in the buffer for the chunk at the end, write it out
-	return e.flush()
+	if err = staged.flush(); err != nil {
+		e.buf.Reset()
+		return err
+	}
+
+	if _, err = e.w.Write(msg.Bytes()); err != nil {
+		return errors.Wrap(err, "An error occurred writing an encoded message")
+	}
+
+	return nil
 }
 
 // Encode encodes an object to the stream
-- 
2.43.0


From d6b1d404dfd573701f31068b7ad35c158fe83fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 04/31] fix: read string, list, map and struct sizes as
 unsigned

---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From f84b332a2437117c45062f8508746b247daa319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 05/31] fix: report a truncated string instead of returning
 what is left of it

---
 encoding/decoder.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..8358eef 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -154,28 +154,25 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 	// STRING
 	case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:
 		size := int(marker) - int(TinyStringMarker)
-		if size == 0 {
-			return "", nil
-		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,6 +243,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String is truncated. Size: %d Available: %d", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
-- 
2.43.0


From 4173e59a67d4bc178fd1591b64401d924dff2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:47 +0000
Subject: [PATCH 06/31] fix: return an error for a structure field that is not
 an integer

---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 8358eef..ba6333d 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -324,12 +324,16 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 
 func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -359,26 +363,35 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -444,14 +457,17 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..bc60ad9 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int64 value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From d83eb43367cb14caae5b9320265e0e26d99c6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 07/31] fix: do not allocate lists and maps larger than the
 data present

---
 encoding/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ba6333d..1b6e1da 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -251,6 +251,9 @@ func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (string, error) {
 }
 
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("Slice is truncated. Size: %d Available bytes: %d", size, buffer.Len())
+	}
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -264,6 +267,9 @@ func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, err
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("Map is truncated. Size: %d Available bytes: %d", size, buffer.Len())
+	}
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
-- 
2.43.0


From 9a5a181e964ef4262df8f32bce21b09d8edc100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:14 +0000
Subject: [PATCH 08/31] fix: keep chunk data that is delivered together with
 the end of the stream

---
 encoding/decoder.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 1b6e1da..151b53e 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -68,21 +68,9 @@ func (d Decoder) read() (*bytes.Buffer, error) {
 
 func (d Decoder) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	numRead, err := io.ReadFull(d.r, output)
+	if err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From 67d2d90bbc75cd5cc6e7dac27175982d37ccc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/31] fix: report the end of the stream as a bad connection

---
 conn.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..433aef3 100644
--- a/conn.go
+++ b/conn.go
@@ -10,7 +10,6 @@ import (
 	"net/url"
 	"strings"
 
-	"io"
 	"math"
 
 	"crypto/tls"
@@ -329,7 +328,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
-- 
2.43.0


From 47612e4e52ebf2eecb85a0940ff9781de9c43fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 10/31] fix: do not use a connection after a transport fault

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 433aef3..cf745b8 100644
--- a/conn.go
+++ b/conn.go
@@ -317,6 +317,11 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		// What comes next on a broken stream may answer an earlier request
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -337,6 +342,10 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
-- 
2.43.0


From 787a23b335f2637bee1d822b9a566a6f0119ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:48 +0000
Subject: [PATCH 11/31] fix: read the whole handshake reply

---
 conn.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index cf745b8..2b03293 100644
--- a/conn.go
+++ b/conn.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strings"
 
+	"io"
 	"math"
 
 	"crypto/tls"
@@ -237,21 +238,15 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 func (c *boltConn) handShake() error {
 
 	numWritten, err := c.Write(handShake)
-	if numWritten != 20 {
-		log.Errorf("Couldn't write expected bytes for magic preamble + supported versions. Written: %d. Expected: 4", numWritten)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
-		}
-		return err
+	if err != nil {
+		log.Errorf("Couldn't write expected bytes for magic preamble + supported versions. Written: %d. Expected: %d", numWritten, len(handShake))
+		return errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
 	}
 
-	numRead, err := c.Read(c.serverVersion)
-	if numRead != 4 {
+	numRead, err := io.ReadFull(c, c.serverVersion)
+	if err != nil {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
 	}
-- 
2.43.0


From c8e49884baea1191c430d1f8ff7d50b08cdbe425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 12/31] fix: do not wait for responses after the end of a
 result

---
 rows.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rows.go b/rows.go
index 4eb6782..17b0e2c 100644
--- a/rows.go
+++ b/rows.go
@@ -211,8 +211,14 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 		}
 	}
 
+	if r.finishedConsume {
+		return nil, nil, io.EOF
+	}
+
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		// No more responses follow a failure
+		r.finishedConsume = true
 		return nil, nil, err
 	}
 
@@ -251,9 +257,13 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	if r.closed {
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, nil, io.EOF
+	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		r.finishedConsume = true
 		return nil, nil, nil, err
 	}
 
@@ -268,6 +278,7 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		successResp, err := r.statement.conn.consume()
 		if err != nil && err != io.EOF {
+			r.finishedConsume = true
 			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
 		}
 
-- 
2.43.0


From 2704f033978d3c2dfa3681196a772d4531b2cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 13/31] fix: close pipeline rows when the next set of rows is
 returned

---
 rows.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rows.go b/rows.go
index 17b0e2c..290c7b4 100644
--- a/rows.go
+++ b/rows.go
@@ -287,6 +287,8 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
 		}
 
+		// From here on the responses belong to the next set of rows
+		r.closed = true
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
 		r.statement.rows.closeStatement = r.closeStatement
 		return nil, success.Metadata, r.statement.rows, nil
-- 
2.43.0


From eec6b50b50a3023a38b6f2dcdaa40c37407c6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 14/31] fix: close rows with their statement and release it
 even if closing fails

---
 rows.go | 22 ++++++++++++++++------
 stmt.go | 11 +++++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/rows.go b/rows.go
index 290c7b4..309c2ec 100644
--- a/rows.go
+++ b/rows.go
@@ -123,6 +123,22 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	// Whatever happens below, the rows are closed
+	r.closed = true
+	statement := r.statement
+	err := r.discard()
+	statement.rows = nil
+
+	if r.closeStatement {
+		if e := statement.Close(); err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// discard gets rid of the responses that were not consumed
+func (r *boltRows) discard() error {
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -160,12 +176,6 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
-	}
 	return nil
 }
 
diff --git a/stmt.go b/stmt.go
index 42a6f32..9406000 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,16 +59,15 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
-			return err
-		}
+	s.closed = true
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
 	}
 
-	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From b2bef468988c967173b38355f47368f2195e5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 15/31] fix: do not use a statement that was closed with its
 connection

---
 conn.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 2b03293..baa3458 100644
--- a/conn.go
+++ b/conn.go
@@ -782,20 +782,22 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 
 	c.statement = newStmt(query, c)
 
+	stmt := c.statement
+
 	// Pipeline the run + pull all for this
-	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)
+	successResp, err := c.sendRunPullAllConsumeRun(stmt.query, params)
 	if err != nil {
-		c.statement.Close()
+		stmt.Close() // may be closed already, together with the connection
 		return nil, err
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
-		c.statement.Close()
+		stmt.Close()
 		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
 	}
 
-	c.statement.rows = newQueryRows(c.statement, success.Metadata)
-	return c.statement.rows, nil
+	stmt.rows = newQueryRows(stmt, success.Metadata)
+	return stmt.rows, nil
 }
 
 func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interface{}) (PipelineRows, error) {
-- 
2.43.0


From ac8919f80e7958b91d1d534a9dbd7252656bcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 16/31] fix: close the connection even if closing its statement
 or transaction fails

---
 conn.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index baa3458..d5b08c7 100644
--- a/conn.go
+++ b/conn.go
@@ -367,18 +367,29 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// Carry on after an error, but do not use the connection again
+	var closeErr error
 	if c.statement != nil {
 		if err := c.statement.Close(); err != nil {
-			return err
+			closeErr = err
+			c.connErr = err
 		}
 	}
 
 	if c.transaction != nil {
 		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+			if closeErr == nil {
+				closeErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
+			}
+			c.connErr = err
 		}
 	}
 
+	if c.closed {
+		// A failure above has closed the connection
+		return closeErr
+	}
+
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
@@ -387,7 +398,7 @@ func (c *boltConn) Close() error {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
 	if c.conn != nil {
@@ -399,7 +410,7 @@ func (c *boltConn) Close() error {
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
@@ -460,6 +471,7 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.connErr = errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
-- 
2.43.0


From c49958bf1e01cc4f4c85185722186ee08a129b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:13 +0000
Subject: [PATCH 17/31] fix: remember the open transaction of a connection

---
 conn.go | 3 ++-
 tx.go   | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d5b08c7..e3b2b6f 100644
--- a/conn.go
+++ b/conn.go
@@ -550,7 +550,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index e70bbef..c4a08a8 100644
--- a/tx.go
+++ b/tx.go
@@ -30,6 +30,9 @@ func (t *boltTx) Commit() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
+	if t.conn.closed {
+		return errors.New("Connection already closed")
+	}
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
 			return errors.Wrap(err, "An error occurred closing open rows in transaction Commit")
@@ -65,6 +68,9 @@ func (t *boltTx) Rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
+	if t.conn.closed {
+		return errors.New("Connection already closed")
+	}
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
 			return errors.Wrap(err, "An error occurred closing open rows in transaction Rollback")
-- 
2.43.0


From 83ab87f22b831b4b1d3a5bc34503b158582c707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 18/31] fix: close the statement of a pipeline query that fails

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index e3b2b6f..ac8d723 100644
--- a/conn.go
+++ b/conn.go
@@ -822,8 +822,10 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 	}
 
 	c.statement = newPipelineStmt(queries, c)
-	rows, err := c.statement.QueryPipeline(params...)
+	stmt := c.statement
+	rows, err := stmt.QueryPipeline(params...)
 	if err != nil {
+		stmt.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From a48e54ad97c54bbea188676bcaadfb3b55146b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 19/31] fix: refuse to query an empty pipeline

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 9406000..21abc4a 100644
--- a/stmt.go
+++ b/stmt.go
@@ -218,6 +218,10 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
 
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
+
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
-- 
2.43.0


From 198177d555a2fd71114dbcb08c268494c606d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:18 +0000
Subject: [PATCH 20/31] fix: consume the responses to the queries sent before a
 refused one

---
 stmt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stmt.go b/stmt.go
index 21abc4a..c56f9b8 100644
--- a/stmt.go
+++ b/stmt.go
@@ -133,6 +133,10 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			// The queries already sent are still answered
+			if _, _, e := s.conn.consumeAllMultiple(2 * i); e != nil {
+				err = e
+			}
 			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
@@ -225,6 +229,10 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			// The queries already sent are still answered
+			if _, _, e := s.conn.consumeAllMultiple(2 * i); e != nil {
+				err = e
+			}
 			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
-- 
2.43.0


From 5aacb69c291588690825e8da551499ec440bb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:21 +0000
Subject: [PATCH 21/31] fix: do not put a connection that failed to initialize
 back into the pool

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index ac8d723..2072b8e 100644
--- a/conn.go
+++ b/conn.go
@@ -284,6 +284,7 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -292,6 +293,7 @@ func (c *boltConn) initialize() error {
 
 	respInt, err := c.sendInit()
 	if err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
-- 
2.43.0


From a2be58f95ce35870c1a0e4bbb79d4bb8f805e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 22/31] fix: close the socket of a broken pooled connection

---
 driver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/driver.go b/driver.go
index 1bbf0c6..5de2bf6 100644
--- a/driver.go
+++ b/driver.go
@@ -130,6 +130,9 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 	if !d.closed {
 		conn := <-d.pool
 		if connectionNilOrClosed(conn) {
+			if conn.conn != nil {
+				conn.conn.Close()
+			}
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
@@ -177,6 +180,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil || conn.closed {
+		if conn.conn != nil {
+			conn.conn.Close()
+		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
-- 
2.43.0


From f2748f654e06a1a90e4009aff6d7356ca8206875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 23/31] fix: make the handle of a closed pooled connection
 useless, close idle connections with the pool

---
 conn.go   |  2 ++
 driver.go | 29 +++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 2072b8e..5f63779 100644
--- a/conn.go
+++ b/conn.go
@@ -82,6 +82,7 @@ type boltConn struct {
 	statement     *boltStmt
 	driver        *boltDriver
 	poolDriver    DriverPool
+	poolSlot      int
 }
 
 func createBoltConn(connStr string) *boltConn {
@@ -395,6 +396,7 @@ func (c *boltConn) Close() error {
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
+		c.closed = true // someone else may be using the connection now
 		if err != nil {
 			log.Errorf("An error occurred reclaiming connection for pool: %s", err)
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
diff --git a/driver.go b/driver.go
index 5de2bf6..7a37a84 100644
--- a/driver.go
+++ b/driver.go
@@ -107,6 +107,7 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		connRefs: make([]*boltConn, max),
 	}
 
 	for i := 0; i < max; i++ {
@@ -115,6 +116,7 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 			return nil, err
 		}
 
+		conn.poolSlot = i
 		d.pool <- conn
 	}
 
@@ -136,8 +138,8 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
-			d.connRefs = append(d.connRefs, conn)
 		}
+		d.connRefs[conn.poolSlot] = conn
 		return conn, nil
 	}
 	return nil, errors.New("Driver pool has been closed")
@@ -162,18 +164,28 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
+	// Mark the pool as closed to stop any new connections
+	d.closed = true
+	var closeErr error
 	for _, conn := range d.connRefs {
+		if conn == nil {
+			continue
+		}
 		// Remove the reference to the pool, to allow a clean up of the connection
 		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
+		if err := conn.Close(); err != nil {
+			closeErr = err
 		}
 	}
-	// Mark the pool as closed to stop any new connections
-	d.closed = true
-	return nil
+	for len(d.pool) > 0 {
+		// Not in use
+		conn := <-d.pool
+		conn.poolDriver = nil
+		if err := conn.Close(); err != nil {
+			closeErr = err
+		}
+	}
+	return closeErr
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
@@ -187,6 +199,7 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		if err != nil {
 			return err
 		}
+		newConn.poolSlot = conn.poolSlot
 	} else {
 		// sneakily swap out connection so a reference to
 		// it isn't held on to
-- 
2.43.0


From 7dcee43716bdc3a2b3977baa422814f80a85f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 24/31] fix: refuse a query argument that is not a map

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e16ab7..e47f2bb 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, errors.New("You must pass only a gob encoded map to the Exec/Query args")
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From 2fa64768a4196c0abe0dc0e6ea524cf934e09442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 25/31] fix: report a row that does not fit the columns

---
 rows.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rows.go b/rows.go
index 309c2ec..9c0257c 100644
--- a/rows.go
+++ b/rows.go
@@ -186,6 +186,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) != len(dest) {
+		return errors.New("Got %d values for %d columns", len(data), len(dest))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
-- 
2.43.0


From c5010e575cd0a108fd36281583b97d9ac2f90c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 26/31] fix: report statistics that are not integers

---
 result.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..300eb3d 100644
--- a/result.go
+++ b/result.go
@@ -50,24 +50,17 @@ func (r boltResult) RowsAffected() (int64, error) {
 	}
 
 	var rowsAffected int64
-	nodesCreated, ok := stats["nodes-created"]
-	if ok {
-		rowsAffected += nodesCreated.(int64)
-	}
-
-	relsCreated, ok := stats["relationships-created"]
-	if ok {
-		rowsAffected += relsCreated.(int64)
-	}
-
-	nodesDeleted, ok := stats["nodes-deleted"]
-	if ok {
-		rowsAffected += nodesDeleted.(int64)
-	}
+	for _, name := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		stat, ok := stats[name]
+		if !ok {
+			continue
+		}
 
-	relsDeleted, ok := stats["relationships-deleted"]
-	if ok {
-		rowsAffected += relsDeleted.(int64)
+		num, ok := stat.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", name, r.metadata)
+		}
+		rowsAffected += num
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 69274f6274eebc66bfdd88eef04a9153f5256a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 27/31] fix: do not panic when recording a single byte

---
 recorder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index 41ba2ca..f16dd55 100644
--- a/recorder.go
+++ b/recorder.go
@@ -160,7 +160,7 @@ func (r *recorder) record(data []byte, isWrite bool) {
 	}
 
 	event.Event = append(event.Event, data...)
-	if data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
+	if len(data) >= 2 && data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
 		event.Completed = true
 	}
 }
-- 
2.43.0


From 2eb4b139118d1c0d0249e2c4cc71eec1545bac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 28/31] fix: apply the timeout to TLS dials

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 5f63779..1ce01fa 100644
--- a/conn.go
+++ b/conn.go
@@ -184,7 +184,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 41506d6041b58bd8e7dba6d4af5c3084972390aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 29/31] fix: do not report a malformed response as the end of
 the rows

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 1ce01fa..8e2ec62 100644
--- a/conn.go
+++ b/conn.go
@@ -573,7 +573,8 @@ func (c *boltConn) consume() (interface{}, error) {
 
 	respInt, err := encoding.NewDecoder(c).Decode()
 	if err != nil {
-		return respInt, err
+		// A malformed message must not look like the end of the rows (io.EOF)
+		return respInt, errors.Wrap(err, "An error occurred decoding a response")
 	}
 
 	if log.GetLevel() >= log.TraceLevel {
-- 
2.43.0


From 1fcd1e983c50ebe0785ecb4aebecd6953ed7adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 30/31] fix: refuse a protocol version that was not proposed

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index 8e2ec62..43a756c 100644
--- a/conn.go
+++ b/conn.go
@@ -250,6 +250,8 @@ func (c *boltConn) handShake() error {
 		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that was not proposed: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From fdc1b7720c593332d4301ab65e26ed518cbe7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 31/31] fix: refuse a timeout that does not fit a duration

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 43a756c..cad53c7 100644
--- a/conn.go
+++ b/conn.go
@@ -142,6 +142,9 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 		if err != nil {
 			return url, errors.New("Invalid format for timeout: %s.  Must be integer", timeout)
 		}
+		if max := int64(math.MaxInt64 / time.Second); int64(timeoutInt) > max || int64(timeoutInt) < -max {
+			return url, errors.New("Invalid timeout: %s.  Out of range", timeout)
+		}
 
 		c.timeout = time.Duration(timeoutInt) * time.Second
 	}
-- 
2.43.0

