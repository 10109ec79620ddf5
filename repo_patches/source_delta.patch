From e53ea39462d751a65ceaa06f6e9404ea0a57fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 01/39] fix: engine payload decoding of short reads, base64
 tails, truncated and hostile packets

A single Read was taken for the whole packet, base64 data was not limited
to its packet (nor its real length used), truncation inside a packet was
reported as a clean end, and zero, negative, overflowing or huge lengths
panicked or reserved memory before any data arrived.
---
 engine/payload.go | 85 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 20 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..5ce3801 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -143,24 +144,57 @@ func (p *Packet) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
+	data, err := readData(pr, l)
+	n += len(data)
+	if err != nil {
+		return n, err
+	}
 	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+		dst := make([]byte, base64.StdEncoding.DecodedLen(len(data)))
+		l, err = base64.StdEncoding.Decode(dst, data)
+		if err != nil {
+			return n, err
+		}
+		data = dst[:l]
+	}
+	p.data = data
+	return n, nil
+}
+
+// readData reads exactly length bytes from r; memory grows with the bytes received rather than the length announced.
+func readData(r io.Reader, length int) ([]byte, error) {
+	if length == 0 {
+		return []byte{}, nil
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(length))
+	return buf.Bytes(), unexpectedEOF(err)
+}
+
+// unexpectedEOF turns an io.EOF met inside a packet into io.ErrUnexpectedEOF
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
-	_, err = rd.Read(p.data)
-	return n, err
+	return err
+}
+
+// appendDigit appends a decimal digit to length, guarding against overflow
+func appendDigit(length int, digit byte) (int, error) {
+	const maxInt = int(^uint(0) >> 1)
+	if length > (maxInt-9)/10 {
+		return 0, ErrInvalidPayload
+	}
+	return length*10 + int(digit), nil
 }
 
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
+			if n > 0 {
+				err = unexpectedEOF(err)
+			}
 			return n, 0, err
 		}
 		n++
@@ -170,18 +204,20 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
-		length = length*10 + int(b-'0')
+		if length, err = appendDigit(length, b-'0'); err != nil {
+			return n, 0, err
+		}
 	}
 	b, err := r.ReadByte()
 	if err != nil {
-		return
+		return n, 0, unexpectedEOF(err)
 	}
 	n++
 	if b == 'b' {
 		length--
 		b, err = r.ReadByte()
 		if err != nil {
-			return
+			return n, 0, unexpectedEOF(err)
 		}
 		n++
 		p.msgType = MessageTypeBinary
@@ -189,6 +225,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		p.msgType = MessageTypeString
 	}
 	length--
+	if length < 0 {
+		return n, 0, ErrInvalidPayload
+	}
 	p.pktType = PacketType(b - '0')
 	return
 }
@@ -243,7 +282,7 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err = r.ReadByte()
 		if err != nil {
-			return
+			return n, 0, unexpectedEOF(err)
 		}
 		n++
 		if b == 0xFF {
@@ -253,11 +292,13 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
-		length = length*10 + int(b)
+		if length, err = appendDigit(length, b); err != nil {
+			return
+		}
 	}
 	b, err = r.ReadByte()
 	if err != nil {
-		return
+		return n, 0, unexpectedEOF(err)
 	}
 	n++
 	if p.msgType == MessageTypeString {
@@ -265,6 +306,9 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	}
 	p.pktType = PacketType(b)
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+	}
 	return
 }
 
@@ -273,10 +317,11 @@ func (p *packet2) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	data, err := readData(pr, l)
+	n += len(data)
+	if err != nil {
+		return n, err
 	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data = data
+	return n, nil
 }
-- 
2.43.0


From 17334d498b917776fe0464a3540ec712fdefbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 02/39] fix: decode JSON escapes in event names

---
 parser_default.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..cb8dc7c 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -298,7 +298,9 @@ func newid(id uint64) *uint64 {
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
 	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
+		if err := json.Unmarshal(sub[1], &event); err != nil {
+			return
+		}
 		left = eventExp.ReplaceAll(b, []byte{'['})
 		match = true
 	}
@@ -314,7 +316,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 1c77f585a3faf1cc212e86b561f8283786892144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 03/39] fix: keep namespaces as sent when decoding

---
 parser_default.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index cb8dc7c..1ca04d1 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,10 +6,10 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"net/url"
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type defaultParser struct{}
@@ -240,12 +240,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			}
 		}
 		p.Namespace = string(s[i:j])
-		u, err := url.Parse(p.Namespace)
-		if err != nil {
-			return nil, fmt.Errorf("failed to parse namespace from %q", p.Namespace)
+		if k := strings.IndexByte(p.Namespace, '?'); k >= 0 { // strip query
+			p.Namespace = p.Namespace[:k]
 		}
-		p.Namespace = u.Path
-
 		i = j + 1
 		if i >= len(s) {
 			return p, nil
-- 
2.43.0


From ca9386e20e9484fd5a84c696d82dce903f30baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 04/39] fix: accept binary acks whose first argument is binary

---
 parser_default.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 1ca04d1..64b6a84 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -305,14 +305,20 @@ func extractEvent(b []byte) (event string, left []byte, match bool) {
 }
 
 func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
-	if m := placeholderExp.FindAllSubmatch(b, -1); m != nil {
-		buffer = make([][]byte, len(m))
-	}
+	n := len(placeholderExp.FindAllIndex(b, -1))
 	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	if leadingPlaceholderExp.Match(left) {
+		n++
+		left = leadingPlaceholderExp.ReplaceAllLiteral(left, []byte{'['})
+	}
+	if n > 0 {
+		buffer = make([][]byte, n)
+	}
 	return
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+var leadingPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
 var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 09b782e992299c092cf642728b29e81844023d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 05/39] fix: do not resend received attachments when encoding a
 packet without data

---
 parser_default.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 64b6a84..49a314a 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -36,7 +36,7 @@ func (defaultEncoder) preprocess(p *Packet) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
-	p.attachments = 0
+	p.attachments, p.buffer = 0, nil
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
-- 
2.43.0


From 56d6e1fa09ca8f56dae7198ec1927e9b9a497e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 06/39] fix: drop a pending binary packet that is cut short by
 another packet

---
 parser_default.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_default.go b/parser_default.go
index 49a314a..e6581ef 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -176,6 +176,7 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		d.lastp.buffer[i] = data
 		d.lastp.attachments--
 	} else {
+		d.lastp = nil // whatever is pending has been cut short
 		p, err := d.decode(data)
 		if err != nil {
 			return err
-- 
2.43.0


From 15da66f687fb173671db82691255e9d4dcd33a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 07/39] fix: reject attachment counts and ids that overflow

---
 parser_default.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index e6581ef..658cbce 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -226,6 +226,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 				return nil, ErrUnknownPacket
 			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
+			if p.attachments > len(s) { // more than there could be placeholders
+				return nil, ErrUnknownPacket
+			}
 		}
 		i = j + 1
 		if i >= len(s) {
@@ -252,13 +255,12 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 
 	if s[i] >= '0' && s[i] <= '9' { // decode id
 		j := i + 1
-		var id = uint64(s[i] - '0')
-		for ; j < len(s); j++ {
-			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
-			} else {
-				break
-			}
+		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
+			j++
+		}
+		id, err := strconv.ParseUint(string(s[i:j]), 10, 64)
+		if err != nil {
+			return nil, ErrUnknownPacket
 		}
 		p.ID = newid(id)
 		i = j
-- 
2.43.0


From eaadf0d16ae20ce76f51bd82d0a9bb04703f4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 08/39] fix: refuse msgpack data nested deep enough to exhaust
 the stack

---
 parser_msgp.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..3accc52 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -292,6 +292,9 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
+		if msgpTooDeep(data) {
+			return ErrUnknownPacket
+		}
 		_, err = p.UnmarshalMsg(data)
 	}
 	if err != nil {
@@ -304,4 +307,48 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	return nil
 }
 
+// msgpMaxDepth limits the nesting of received data, as encoding/json does; msgp decodes recursively.
+const msgpMaxDepth = 10000
+
+// msgpTooDeep checks whether the object in b is nested deeper than msgpMaxDepth
+func msgpTooDeep(b []byte) bool {
+	var left []uint64 // number of objects missing on each level
+	for len(b) > 0 {
+		var sz uint32
+		var n uint64
+		var err error
+		switch msgp.NextType(b) {
+		case msgp.ArrayType:
+			sz, b, err = msgp.ReadArrayHeaderBytes(b)
+			n = uint64(sz)
+		case msgp.MapType:
+			sz, b, err = msgp.ReadMapHeaderBytes(b)
+			n = uint64(sz) * 2
+		default:
+			b, err = msgp.Skip(b)
+		}
+		if err != nil {
+			return false
+		}
+		if n > 0 {
+			if len(left) == msgpMaxDepth {
+				return true
+			}
+			left = append(left, n)
+			continue
+		}
+		for len(left) > 0 {
+			left[len(left)-1]--
+			if left[len(left)-1] > 0 {
+				break
+			}
+			left = left[:len(left)-1]
+		}
+		if len(left) == 0 {
+			return false
+		}
+	}
+	return false
+}
+
 func (m *msgpackDecoder) Decoded() <-chan *Packet { return m.packets }
-- 
2.43.0


From 12e253a937f51c4588bfb65960b182103618377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 09/39] fix: keep messages and order when a session upgrades
 while it is being written and read

A packet being written when the old connection was paused or closed was dropped; the reader could take the closing
of the replaced connection for the end of the session, or handle a later packet before the ones posted earlier. The
session is paused only once the candidate has answered the probe, and resumed before the upgrade is reported.
---
 engine/emitter.go | 27 +++++++++++++++++----------
 engine/server.go  | 27 ++++++++++-----------------
 engine/socket.go  | 31 ++++++++++++++++++++++++-------
 3 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..3512a8e 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -59,11 +59,7 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		}
 	}
 }
@@ -72,13 +68,24 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
 	}
 }
+
+// write hands p to the current connection of the socket; when that connection is paused for an upgrade,
+// it waits for the outcome and tries again.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		e.so.RLock()
+		e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		err := e.so.WritePacket(p)
+		e.so.RUnlock()
+		if err != ErrPollingConnPaused {
+			return
+		}
+	}
+}
diff --git a/engine/server.go b/engine/server.go
index 63485de..dc4ea60 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -168,9 +168,6 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
-	ß.barrier.Pause()
-	defer ß.barrier.Resume()
-
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
 	if err != nil {
@@ -188,43 +185,39 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	ß.barrier.Pause()
 	ß.RLock()
 	conn := ß.Conn
 	ß.RUnlock()
 
 	if err := conn.Pause(); err != nil {
+		ß.barrier.Resume()
 		newConn.Close()
 		return
 	}
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err = newConn.ReadPacket()
-	if err != nil {
-		newConn.Close()
-		conn.Resume()
-		return
-	}
-	if p.pktType != PacketTypeUpgrade {
+	if err != nil || p.pktType != PacketTypeUpgrade {
 		newConn.Close()
 		conn.Resume()
+		ß.barrier.Resume()
 		return
 	}
 
-	conn.Close()
-
+	// no packet is being written while the lock is held: what conn still holds goes out first, in order.
+	ß.Lock()
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
-
-	ß.Lock()
+	newConn.copyHeaderFrom(conn)
 	ß.Conn = newConn
 	ß.transportName = transportName
-	ß.Conn.copyHeaderFrom(conn)
+	ß.received = append(ß.received, conn.FlushIn()...)
 	ß.Unlock()
+	conn.Close()
 
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
-	}
+	ß.barrier.Resume()
 	s.fire(ß, EventUpgrade, p.msgType, p.data)
 }
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..45c893f 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -16,6 +16,7 @@ type Socket struct {
 	id            string
 	barrier       Barrier
 	emitter       *emitter
+	received      []*Packet // received before an upgrade, not yet read
 	once          sync.Once
 	sync.RWMutex
 }
@@ -33,14 +34,30 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
-	s.RLock()
-	conn := s.Conn
-	s.RUnlock()
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
-		return
+	for {
+		s.RLock()
+		conn, received := s.Conn, len(s.received) > 0
+		s.RUnlock()
+		if received {
+			s.Lock()
+			p, s.received = s.received[0], s.received[1:]
+			s.Unlock()
+			return p, nil
+		}
+		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+			p, err = conn.ReadPacket()
+		}
+		if err == nil || !s.replaced(conn) {
+			return
+		}
 	}
-	p, err = conn.ReadPacket()
-	return
+}
+
+// replaced tells whether conn has been given up for another connection
+func (s *Socket) replaced(conn Conn) bool {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn != conn
 }
 
 // Close closes underlying connection and background emitter
-- 
2.43.0


From 6668d5f995232644c8c8401bfac16a76753c6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 10/39] fix: do not read a session's connection while an
 upgrade replaces it

Connection and transport name were read without the lock an upgrade writes them under, and the lock was held for as
long as a packet took to write, so that setting a header waited for the peer to poll.
---
 engine/emitter.go | 10 ++++++----
 engine/server.go  | 11 +++++------
 engine/socket.go  | 34 ++++++++++++++++++++++++----------
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 3512a8e..1f92bc6 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -15,6 +15,7 @@ type emitter struct {
 	packets chan *Packet
 	done    chan struct{}
 	wg      sync.WaitGroup
+	writing sync.Mutex // held while a packet is written
 }
 
 func newEmitter(so *Socket, bufSize int) *emitter {
@@ -80,10 +81,11 @@ func (e *emitter) flush() {
 func (e *emitter) write(p *Packet) {
 	for {
 		e.so.barrier.Wait()
-		e.so.RLock()
-		e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-		err := e.so.WritePacket(p)
-		e.so.RUnlock()
+		e.writing.Lock()
+		conn := e.so.current()
+		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		err := conn.WritePacket(p)
+		e.writing.Unlock()
 		if err != ErrPollingConnPaused {
 			return
 		}
diff --git a/engine/server.go b/engine/server.go
index dc4ea60..67bf583 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -156,7 +156,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		if transportName := transport.Name(); ß.transport() != transportName {
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
@@ -186,10 +186,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	}
 
 	ß.barrier.Pause()
-	ß.RLock()
-	conn := ß.Conn
-	ß.RUnlock()
-
+	conn := ß.current()
 	if err := conn.Pause(); err != nil {
 		ß.barrier.Resume()
 		newConn.Close()
@@ -206,16 +203,18 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	}
 
 	// no packet is being written while the lock is held: what conn still holds goes out first, in order.
-	ß.Lock()
+	ß.emitter.writing.Lock()
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
+	ß.Lock()
 	newConn.copyHeaderFrom(conn)
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.received = append(ß.received, conn.FlushIn()...)
 	ß.Unlock()
+	ß.emitter.writing.Unlock()
 	conn.Close()
 
 	ß.barrier.Resume()
diff --git a/engine/socket.go b/engine/socket.go
index 45c893f..bc2834c 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -32,6 +33,26 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 	return so
 }
 
+// current returns the connection in use; an upgrade replaces it
+func (s *Socket) current() Conn {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn
+}
+
+// transport returns the name of the transport in use
+func (s *Socket) transport() string {
+	s.RLock()
+	defer s.RUnlock()
+	return s.transportName
+}
+
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr { return s.current().LocalAddr() }
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr { return s.current().RemoteAddr() }
+
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
 	for {
@@ -47,24 +68,17 @@ func (s *Socket) Read() (p *Packet, err error) {
 		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
 			p, err = conn.ReadPacket()
 		}
-		if err == nil || !s.replaced(conn) {
+		if err == nil || s.current() == conn {
 			return
 		}
 	}
 }
 
-// replaced tells whether conn has been given up for another connection
-func (s *Socket) replaced(conn Conn) bool {
-	s.RLock()
-	defer s.RUnlock()
-	return s.Conn != conn
-}
-
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		err = s.current().Close()
 	})
 	return
 }
@@ -110,7 +124,7 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.current().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
-- 
2.43.0


From a38c636c3b65af6759ea4b95ea41dbd146ecc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 11/39] fix: leave a session as it was after a failed upgrade
 or a polling request on a websocket session

The request of a failed upgrade went on to be served as a poll and took a packet with it; a polling request on a
websocket session started an upgrade that held up the session until it timed out.
---
 engine/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 67bf583..03104b3 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -157,11 +157,16 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		if transportName := transport.Name(); ß.transport() != transportName {
+			if transportName != transportWebsocket {
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
-- 
2.43.0


From 9565ab8697c1280a1c7bff1bc721b89efa9ffd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 12/39] fix: report a session open before anything it receives

What the peer sent before the open callback had run was dropped by its users, and a session could be reported closed
before it was reported open. A callback that blocks no longer keeps other sessions from opening.
---
 engine/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 03104b3..6c546b4 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -59,6 +59,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
+					onOpen(ß)
 					var p *Packet
 					var err error
 					for {
@@ -76,8 +77,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From a63dcc7666dee9c7af8f573d4242d584ba17e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 13/39] fix: report a session closed once when the peer sends a
 close packet

---
 engine/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 6c546b4..f972110 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -75,6 +75,9 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						if err = s.handle(ß, p); err != nil {
 							log.Println("handle:", err.Error())
 						}
+						if p.pktType == PacketTypeClose {
+							return
+						}
 					}
 				}()
 			}
-- 
2.43.0


From 075363eb78e1a81531d1cfa26fee24567dd0e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 14/39] fix: write what was accepted while the session was
 being closed

---
 engine/emitter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/emitter.go b/engine/emitter.go
index 1f92bc6..dca52a5 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -14,6 +14,7 @@ type emitter struct {
 	so      *Socket
 	packets chan *Packet
 	done    chan struct{}
+	submits sync.RWMutex // held for reading while a packet is submitted
 	wg      sync.WaitGroup
 	writing sync.Mutex // held while a packet is written
 }
@@ -34,6 +35,8 @@ func (e *emitter) close() {
 	e.wg.Wait()
 }
 func (e *emitter) submit(p *Packet) error {
+	e.submits.RLock()
+	defer e.submits.RUnlock()
 	select {
 	case <-e.done:
 		return errEmitterClosed
@@ -66,6 +69,9 @@ func (e *emitter) loop() {
 }
 
 func (e *emitter) flush() {
+	// submits under way end now that done is closed; what they put in is still to be written
+	e.submits.Lock()
+	e.submits.Unlock()
 	for {
 		select {
 		case p := <-e.packets:
-- 
2.43.0


From e02a37b7a3dc7b2befbd55f820cc3c993f03c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 15/39] fix: do not upgrade a session that has been closed

The upgraded connection was left open with nobody to read or close it.
---
 engine/server.go | 14 +++++++-------
 engine/socket.go | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index f972110..43c29f1 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -211,18 +211,18 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 
 	// no packet is being written while the lock is held: what conn still holds goes out first, in order.
 	ß.emitter.writing.Lock()
+	if !ß.replace(conn, newConn, transportName) {
+		ß.emitter.writing.Unlock()
+		newConn.Close()
+		conn.Resume()
+		ß.barrier.Resume()
+		return
+	}
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
-	ß.Lock()
-	newConn.copyHeaderFrom(conn)
-	ß.Conn = newConn
-	ß.transportName = transportName
-	ß.received = append(ß.received, conn.FlushIn()...)
-	ß.Unlock()
 	ß.emitter.writing.Unlock()
-	conn.Close()
 
 	ß.barrier.Resume()
 	s.fire(ß, EventUpgrade, p.msgType, p.data)
diff --git a/engine/socket.go b/engine/socket.go
index bc2834c..6ad39ae 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -18,6 +18,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	received      []*Packet // received before an upgrade, not yet read
+	closed        bool
 	once          sync.Once
 	sync.RWMutex
 }
@@ -47,6 +48,21 @@ func (s *Socket) transport() string {
 	return s.transportName
 }
 
+// replace makes newConn the connection in use and closes conn, unless the socket has been closed
+func (s *Socket) replace(conn, newConn Conn, transportName string) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.closed {
+		return false
+	}
+	newConn.copyHeaderFrom(conn)
+	s.Conn = newConn
+	s.transportName = transportName
+	conn.Close()
+	s.received = append(s.received, conn.FlushIn()...)
+	return true
+}
+
 // LocalAddr returns the local network address.
 func (s *Socket) LocalAddr() net.Addr { return s.current().LocalAddr() }
 
@@ -78,7 +94,11 @@ func (s *Socket) Read() (p *Packet, err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.current().Close()
+		s.Lock()
+		s.closed = true
+		conn := s.Conn
+		s.Unlock()
+		err = conn.Close()
 	})
 	return
 }
-- 
2.43.0


From edd42deb816cfe76ed0ccc3a21dcc9ecd294b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 16/39] fix: refuse a post that arrives after its connection
 has been replaced

It was answered OK while its packets could stay in the closed connection.
---
 engine/polling.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..8d39189 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -38,6 +38,7 @@ type pollingConn struct {
 	readDeadline  atomic.Value
 	writeDeadline atomic.Value
 	paused        atomic.Value
+	posts         sync.RWMutex // held for reading while a request hands over its packets
 	localAddr     netAddr
 	remoteAddr    netAddr
 	header        http.Header
@@ -116,7 +117,10 @@ func (p *pollingConn) FlushOut() (packets []*Packet) {
 	}
 }
 
+// FlushIn returns the packets handed over and not yet read; the connection has to be closed before.
 func (p *pollingConn) FlushIn() (packets []*Packet) {
+	p.posts.Lock()
+	defer p.posts.Unlock()
 	for {
 		select {
 		case pkt := <-p.in:
@@ -248,6 +252,12 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
 		}
+		p.posts.RLock()
+		defer p.posts.RUnlock()
+		if p.isClosed() {
+			http.Error(w, "closed", http.StatusNotFound)
+			return
+		}
 		for i := range payload.packets {
 			select {
 			case <-p.closed:
-- 
2.43.0


From dfe4f168c847c05d210790d5866237fa8fa2a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 17/39] fix: send the content type of poll responses

---
 engine/polling.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/engine/polling.go b/engine/polling.go
index 8d39189..5deba75 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -215,7 +215,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
-- 
2.43.0


From 065fea6ca7a96574a4f3bae6c8accb4634124286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 18/39] fix: write JSONP responses as one safe call

---
 engine/polling.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index 5deba75..0f4313c 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -313,16 +313,24 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if _, err := wt.WriteTo(&buf); err != nil {
 		return err
 	}
-	s := buf.String()
-	buf.Reset()
-	err := json.NewEncoder(&buf).Encode(s)
+	s, err := json.Marshal(buf.String())
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonpIndex(jsonp), s)
 	return err
 }
 
+// jsonpIndex returns the digits of the index requested
+func jsonpIndex(jsonp string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= '0' && r <= '9' {
+			return r
+		}
+		return -1
+	}, jsonp)
+}
+
 func writeXHR(w http.ResponseWriter, wt io.WriterTo) error {
 	w.Header().Set("Content-Type", "text/plain; charset=UTF-8")
 	if _, err := wt.WriteTo(w); err != nil {
-- 
2.43.0


From 5e33d99708f327809c418eff1ec12b62118b06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 19/39] fix: acknowledge with an empty list when the handler
 returns nothing

---
 client.go | 11 ++++-------
 server.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index 440f251..365ee73 100644
--- a/client.go
+++ b/client.go
@@ -123,14 +123,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
diff --git a/server.go b/server.go
index 2d4fa96..ec01135 100644
--- a/server.go
+++ b/server.go
@@ -153,14 +153,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
-- 
2.43.0


From 777ad928522cb01ceb89092fcf3c5d26e4b18341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 20/39] fix: guard the namespaces of a server or client

---
 client.go | 11 ++++++++++-
 server.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 365ee73..a4f53c2 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package socketio
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/zyxar/socketio/engine"
 )
@@ -11,6 +12,7 @@ type Client struct {
 	engine *engine.Client
 	*socket
 	nsps    map[string]*namespace
+	nspLock sync.RWMutex
 	onError func(err interface{})
 }
 
@@ -76,6 +78,8 @@ func (c *Client) OnError(fn func(interface{})) {
 func (c *Client) Namespace(nsp string) Namespace { return c.creatensp(nsp) }
 
 func (c *Client) creatensp(nsp string) *namespace {
+	c.nspLock.Lock()
+	defer c.nspLock.Unlock()
 	n, ok := c.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -84,7 +88,12 @@ func (c *Client) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (c *Client) getnsp(nsp string) (n *namespace, ok bool) { n, ok = c.nsps[nsp]; return }
+func (c *Client) getnsp(nsp string) (n *namespace, ok bool) {
+	c.nspLock.RLock()
+	n, ok = c.nsps[nsp]
+	c.nspLock.RUnlock()
+	return
+}
 
 // process is the Packet process handle on client side
 func (c *Client) process(sock *socket, p *Packet) {
diff --git a/server.go b/server.go
index ec01135..cabb926 100644
--- a/server.go
+++ b/server.go
@@ -15,6 +15,7 @@ type Server struct {
 	sockLock sync.RWMutex
 	onError  func(err error)
 	nsps     map[string]*namespace
+	nspLock  sync.RWMutex
 }
 
 // NewServer creates a socket.io server instance upon underlying engine.io transport
@@ -87,6 +88,8 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 func (s *Server) Namespace(nsp string) Namespace { return s.creatensp(nsp) }
 
 func (s *Server) creatensp(nsp string) *namespace {
+	s.nspLock.Lock()
+	defer s.nspLock.Unlock()
 	n, ok := s.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -95,7 +98,12 @@ func (s *Server) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (s *Server) getnsp(nsp string) (n *namespace, ok bool) { n, ok = s.nsps[nsp]; return }
+func (s *Server) getnsp(nsp string) (n *namespace, ok bool) {
+	s.nspLock.RLock()
+	n, ok = s.nsps[nsp]
+	s.nspLock.RUnlock()
+	return
+}
 
 // ServeHTTP implements http.Handler interface
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) { s.engine.ServeHTTP(w, r) }
-- 
2.43.0


From 0d1e0dd7478d941508695a96607f606479f09e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 21/39] fix: report a namespace connected or disconnected only
 when it changes

---
 client.go |  6 ++----
 server.go |  7 +++----
 socket.go | 13 ++++++++++---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index a4f53c2..23b1792 100644
--- a/client.go
+++ b/client.go
@@ -104,13 +104,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
-		if nsp.onConnect != nil {
+		if sock.attachnsp(p.Namespace) && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/server.go b/server.go
index cabb926..b1a3788 100644
--- a/server.go
+++ b/server.go
@@ -125,7 +125,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		attached := sock.attachnsp(p.Namespace)
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -134,12 +134,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 			}
 		}
-		if nsp.onConnect != nil {
+		if attached && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/socket.go b/socket.go
index 0cdf2e5..888b10f 100644
--- a/socket.go
+++ b/socket.go
@@ -63,19 +63,26 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp reports whether nsp has been attached; if it already was, what it has outstanding is kept
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
-	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	_, attached := s.acks[nsp]
+	if !attached {
+		s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	}
 	s.mutex.Unlock()
+	return !attached
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp reports whether nsp was attached
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if ok {
 		delete(s.acks, nsp)
 	}
 	s.mutex.Unlock()
+	return ok
 }
 
 type nspStore interface {
-- 
2.43.0


From 866c91f3a688f851a555a5bcf5027a80f912e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 22/39] fix: let disconnect callbacks use the socket when its
 session ends

---
 socket.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 888b10f..aa95749 100644
--- a/socket.go
+++ b/socket.go
@@ -91,15 +91,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	acks := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock()
+	for k := range acks {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From ad0dcf0aaea74ef2e0b61ab561e66d7210d4522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 23/39] fix: emit nil arguments

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index aa95749..80e006a 100644
--- a/socket.go
+++ b/socket.go
@@ -134,7 +134,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From 8a475b651bee140ad02b19ea366010473f94b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 24/39] fix: keep the frames of a packet together under
 concurrent emits

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index 80e006a..47a33f5 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	emits   sync.Mutex // held while the frames of a packet are sent
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -163,6 +164,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.emits.Lock()
+	defer s.emits.Unlock()
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
-- 
2.43.0


From e7ce67591e13d2052b338bfff8a187148219c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 25/39] fix: send no text frame for a packet that has none

---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 47a33f5..f5147d3 100644
--- a/socket.go
+++ b/socket.go
@@ -166,8 +166,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	}
 	s.emits.Lock()
 	defer s.emits.Unlock()
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil {
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From c93f8a7cd8c70d96813b2a76a13d74252506efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 26/39] fix: take an ack callback out at most once, and leave
 no lock held

---
 handle.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/handle.go b/handle.go
index 491bd76..73a2f26 100644
--- a/handle.go
+++ b/handle.go
@@ -55,26 +55,25 @@ func (e *namespace) fireEvent(so Socket, event string, args []byte, buffer [][]b
 type ackHandle struct {
 	id     uint64
 	ackmap map[uint64]*callback
-	mutex  sync.RWMutex
+	mutex  sync.Mutex
 }
 
 func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-	a.mutex.RLock()
+	a.mutex.Lock()
 	fn, ok := a.ackmap[id]
-	a.mutex.RUnlock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
 	if ok {
-		a.mutex.Lock()
-		delete(a.ackmap, id)
-		a.mutex.Unlock()
 		_, err = fn.Call(so, au, data, buffer)
 	}
 	return
 }
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
+	fn := newCallback(callback)
 	id := atomic.AddUint64(&a.id, 1)
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = fn
 	a.mutex.Unlock()
 	return id
 }
-- 
2.43.0


From f2f9f6efd6af83a5bde00f39223eac5c39eaad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 27/39] fix: report a binary argument that cannot be marshalled

---
 parser_default.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 658cbce..0ca56d6 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -32,7 +32,7 @@ func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	return buf.Bytes(), p.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) (err error) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
@@ -41,9 +41,12 @@ func (defaultEncoder) preprocess(p *Packet) {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
 				p.buffer = append(p.buffer, bb)
 			}
 		}
@@ -56,11 +59,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
-
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
 	}
-- 
2.43.0


From 7446de28a895ca507e6f4b5383fac860c7380b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 28/39] fix: report the end of a client's connection, once

---
 engine/client.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..af9df20 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -60,22 +60,21 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
-		defer ß.Close()
+		defer c.Close()
 		var p *Packet
 		var err error
 		for {
-			select {
-			case <-closeChan:
-				return
-			default:
-			}
 			if p, err = ß.Read(); err != nil {
 				log.Println("read:", err.Error())
+				c.fire(ß, EventClose, MessageTypeString, nil)
 				return
 			}
 			if err = c.handle(ß, p); err != nil {
 				log.Println("handle:", err.Error())
 			}
+			if p.pktType == PacketTypeClose {
+				return
+			}
 		}
 	}()
 
-- 
2.43.0


From 0fe74b44936bb060962684c94bb3d5592e77af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 29/39] fix: send what a client has emitted before it is closed

---
 engine/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index af9df20..e0c408f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -99,11 +99,11 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	return
 }
 
-// Close closes underlying connection and signals stop for background workers
+// Close closes underlying connection, once what has been emitted is sent, and signals stop for background workers
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From 95b56df68908e3eb48f3cd2ef0839a55b336043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 30/39] fix: close the connection when the handshake fails

---
 engine/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index e0c408f..f2d6b66 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -22,6 +22,11 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
-- 
2.43.0


From ce5fcc709b3fcce51afad6d7728eb590e2441e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 31/39] fix: handle what the server sends right after the
 handshake

---
 client.go        | 11 ++++++-----
 engine/client.go |  6 +++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 23b1792..98b33d7 100644
--- a/client.go
+++ b/client.go
@@ -23,10 +23,12 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.setup(e, parser) })
+	return
+}
+
+// setup registers handlers of packets from the server
+func (c *Client) setup(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -51,7 +53,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index f2d6b66..451fe38 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -17,7 +17,8 @@ type Client struct {
 }
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// setup, if given, is called before the client handles any packet from the server, to register handlers.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, setup ...func(c *Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
@@ -49,6 +50,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	for _, f := range setup {
+		f(c)
+	}
 
 	go func() {
 		var err error
-- 
2.43.0


From 2c2c765da818fe532b8f29b282f86fa97b8213ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 32/39] fix: a packet written while its connection is being
 paused waits for the upgrade

A paused connection refuses a new write deadline; with the one of an earlier write already
over, the write was reported as timed out and the packet was lost instead of being written again.
---
 engine/emitter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index dca52a5..0122fa7 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -89,8 +89,10 @@ func (e *emitter) write(p *Packet) {
 		e.so.barrier.Wait()
 		e.writing.Lock()
 		conn := e.so.current()
-		conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-		err := conn.WritePacket(p)
+		err := conn.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		if err == nil {
+			err = conn.WritePacket(p)
+		}
 		e.writing.Unlock()
 		if err != ErrPollingConnPaused {
 			return
-- 
2.43.0


From 7ab358a59033c57be3091fe38db12151fb7c82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 33/39] fix: a session whose packet cannot be written ends

A write that timed out or failed was ignored: the session went on without the packet.
---
 engine/emitter.go |  3 +++
 engine/server.go  |  8 +++++++-
 engine/socket.go  | 15 ++++++++++-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 0122fa7..9ffb243 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -93,6 +93,9 @@ func (e *emitter) write(p *Packet) {
 		if err == nil {
 			err = conn.WritePacket(p)
 		}
+		if err != nil && err != ErrPollingConnPaused {
+			e.so.abort() // the packets after p must not arrive without it
+		}
 		e.writing.Unlock()
 		if err != ErrPollingConnPaused {
 			return
diff --git a/engine/server.go b/engine/server.go
index 43c29f1..8e26a1e 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -220,10 +220,16 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	}
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-		newConn.WritePacket(packet)
+		if err = newConn.WritePacket(packet); err != nil {
+			ß.abort()
+			break
+		}
 	}
 	ß.emitter.writing.Unlock()
 
 	ß.barrier.Resume()
+	if err != nil {
+		return
+	}
 	s.fire(ß, EventUpgrade, p.msgType, p.data)
 }
diff --git a/engine/socket.go b/engine/socket.go
index 6ad39ae..c4b647c 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -94,15 +94,20 @@ func (s *Socket) Read() (p *Packet, err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		s.Lock()
-		s.closed = true
-		conn := s.Conn
-		s.Unlock()
-		err = conn.Close()
+		err = s.abort()
 	})
 	return
 }
 
+// abort closes underlying connection, and no other is to take its place
+func (s *Socket) abort() error {
+	s.Lock()
+	s.closed = true
+	conn := s.Conn
+	s.Unlock()
+	return conn.Close()
+}
+
 // Emit sends event data to remote peer
 func (s *Socket) Emit(event event, msgType MessageType, args interface{}) (err error) {
 	var pktType PacketType
-- 
2.43.0


From 5dd785cb93acc0a0074f8b30f431219cf6b35e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 34/39] fix: a closed server refuses requests that would open a
 session

They left a session nobody handles, and were answered with an empty success or not at all.
---
 engine/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 8e26a1e..afc8ed7 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -140,6 +140,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		select {
+		case <-s.done:
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		default:
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
@@ -148,7 +154,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.transportName = transport.Name()
 		select {
 		case <-s.done:
-			return
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
 		case s.ßchan <- ß:
 		}
 		ß.ServeHTTP(w, r)
-- 
2.43.0


From 35a94de343c42d7ecfb71e32949581ec7252423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 35/39] fix: Dial refuses an open packet without a session id
 or usable ping interval and timeout

---
 engine/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index 451fe38..43340c7 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"encoding/json"
 	"log"
+	"math"
 	"net/http"
 	"sync"
 	"time"
@@ -40,6 +41,10 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer, setup ...func
 	if err = json.Unmarshal(p.data, &param); err != nil {
 		return
 	}
+	if param.SID == "" || !validPing(param.PingInterval) || !validPing(param.PingTimeout) {
+		err = ErrInvalidPayload
+		return
+	}
 	pingInterval := time.Duration(param.PingInterval) * time.Millisecond
 	pingTimeout := time.Duration(param.PingTimeout) * time.Millisecond
 
@@ -116,3 +121,8 @@ func (c *Client) Close() (err error) {
 	})
 	return
 }
+
+// validPing tells whether a client can live with ms, a ping interval or timeout of a server
+func validPing(ms int) bool {
+	return ms > 0 && int64(ms) <= math.MaxInt64/2/int64(time.Millisecond)
+}
-- 
2.43.0


From cd9f36df670528ab31fc7b6830c3a33709f5362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:32 +0000
Subject: [PATCH 36/39] fix: a request that arrives as its session is upgraded
 is refused, not dropped with an empty success

---
 engine/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index afc8ed7..d82af11 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -177,7 +177,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			s.upgrade(ß, transportName, conn)
 			return
 		}
-		ß.ServeHTTP(w, r)
+		handler, ok := ß.current().(http.Handler)
+		if !ok { // upgraded, maybe since the transport has been looked at
+			http.Error(w, "invalid transport", http.StatusBadRequest)
+			return
+		}
+		handler.ServeHTTP(w, r)
 	}
 }
 
-- 
2.43.0


From 328f5fb3d6a043d4af8ad5cbd3c2c40918fc3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:38 +0000
Subject: [PATCH 37/39] fix: a session whose poll response could not be
 delivered ends

The packet taken for the response was lost and the session went on without it.
---
 engine/polling.go | 6 ++++++
 engine/socket.go  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/polling.go b/engine/polling.go
index 0f4313c..70309f6 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -224,8 +224,14 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		} else {
 			err = writeXHR2(w, pkt.packet2())
 		}
+		if err == nil {
+			err = r.Context().Err() // the client left before it had the response
+		}
 		if err != nil {
 			log.Println("polling:", err.Error())
+			if pkt.pktType != PacketTypeNoop {
+				p.Close() // the packets after pkt must not arrive without it
+			}
 		}
 	case "POST":
 		var payload Payload
diff --git a/engine/socket.go b/engine/socket.go
index c4b647c..6682173 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -52,7 +52,7 @@ func (s *Socket) transport() string {
 func (s *Socket) replace(conn, newConn Conn, transportName string) bool {
 	s.Lock()
 	defer s.Unlock()
-	if s.closed {
+	if p, ok := conn.(*pollingConn); s.closed || ok && p.isClosed() {
 		return false
 	}
 	newConn.copyHeaderFrom(conn)
-- 
2.43.0


From 996d0cb20482cd747eb0c2c2ea5bd47de8357fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 38/39] fix: what is posted while an upgrade waits for its
 client is taken, so that the client can go on

---
 engine/polling.go | 23 ++++++++++++-----------
 engine/server.go  |  4 ----
 engine/socket.go  |  6 +++++-
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index 70309f6..b9c66fd 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -75,20 +75,21 @@ func (p *pollingConn) httpHeader() http.Header  { return p.header }
 func (p *pollingConn) copyHeaderFrom(conn Conn) { copyHeaderFrom(p.header, conn) }
 
 func (p *pollingConn) ReadPacket() (*Packet, error) {
+	deadline, _ := p.readDeadline.Load().(time.Time)
+	return p.read(deadline, p.pauseChan())
+}
+
+func (p *pollingConn) read(deadline time.Time, paused <-chan struct{}) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
 	}
 	var timer <-chan time.Time
-	t := p.readDeadline.Load()
-	if t != nil {
-		deadline := t.(time.Time)
-		if !deadline.IsZero() {
-			timeout := time.Until(deadline)
-			if timeout > 0 {
-				timer = time.After(timeout)
-			} else {
-				return nil, ErrPollingConnReadTimeout
-			}
+	if !deadline.IsZero() {
+		timeout := time.Until(deadline)
+		if timeout > 0 {
+			timer = time.After(timeout)
+		} else {
+			return nil, ErrPollingConnReadTimeout
 		}
 	}
 	select {
@@ -99,7 +100,7 @@ func (p *pollingConn) ReadPacket() (*Packet, error) {
 			return nil, ErrPollingConnClosed
 		}
 		return pkt, nil
-	case <-p.pauseChan():
+	case <-paused:
 		return nil, ErrPollingConnPaused
 	case <-timer:
 		return nil, ErrPollingConnReadTimeout
diff --git a/engine/server.go b/engine/server.go
index d82af11..f5a320c 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -64,10 +64,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					var err error
 					for {
 						if p, err = ß.Read(); err != nil {
-							if err == ErrPollingConnPaused {
-								ß.barrier.Wait()
-								continue
-							}
 							log.Println("handle:", err.Error())
 							s.fire(ß, EventClose, MessageTypeString, nil)
 							return
diff --git a/engine/socket.go b/engine/socket.go
index 6682173..d74950d 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -81,7 +81,11 @@ func (s *Socket) Read() (p *Packet, err error) {
 			s.Unlock()
 			return p, nil
 		}
-		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+		deadline := time.Now().Add(s.readTimeout)
+		if pc, ok := conn.(*pollingConn); ok {
+			// read on when paused: the client has its posts answered before it goes on with an upgrade
+			p, err = pc.read(deadline, nil)
+		} else if err = conn.SetReadDeadline(deadline); err == nil {
 			p, err = conn.ReadPacket()
 		}
 		if err == nil || s.current() == conn {
-- 
2.43.0


From fce272baf94f1fd9c008f7128ff65e8c7a5c6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:57 +0000
Subject: [PATCH 39/39] fix: an acknowledgement id is not used again when a
 namespace is connected again

---
 handle.go |  7 +++++++
 socket.go | 12 ++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/handle.go b/handle.go
index 73a2f26..add8eb3 100644
--- a/handle.go
+++ b/handle.go
@@ -69,6 +69,13 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 	return
 }
 
+// reset drops the callbacks still waiting
+func (a *ackHandle) reset() {
+	a.mutex.Lock()
+	a.ackmap = make(map[uint64]*callback)
+	a.mutex.Unlock()
+}
+
 func (a *ackHandle) onAck(callback interface{}) uint64 {
 	fn := newCallback(callback)
 	id := atomic.AddUint64(&a.id, 1)
diff --git a/socket.go b/socket.go
index f5147d3..4f92554 100644
--- a/socket.go
+++ b/socket.go
@@ -51,6 +51,7 @@ type socket struct {
 	encoder Encoder
 	decoder Decoder
 	acks    map[string]*ackHandle
+	left    map[string]*ackHandle // of namespaces that have been detached; ids go on from there when one is attached again
 	mutex   sync.RWMutex
 	emits   sync.Mutex // held while the frames of a packet are sent
 }
@@ -61,6 +62,7 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 		encoder: parser.Encoder(),
 		decoder: parser.Decoder(),
 		acks:    make(map[string]*ackHandle),
+		left:    make(map[string]*ackHandle),
 	}
 }
 
@@ -69,7 +71,11 @@ func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, attached := s.acks[nsp]
 	if !attached {
-		s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+		ack, ok := s.left[nsp]
+		if !ok {
+			ack = &ackHandle{ackmap: make(map[uint64]*callback)}
+		}
+		s.acks[nsp] = ack
 	}
 	s.mutex.Unlock()
 	return !attached
@@ -78,9 +84,11 @@ func (s *socket) attachnsp(nsp string) bool {
 // detachnsp reports whether nsp was attached
 func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
-	_, ok := s.acks[nsp]
+	ack, ok := s.acks[nsp]
 	if ok {
 		delete(s.acks, nsp)
+		ack.reset()
+		s.left[nsp] = ack
 	}
 	s.mutex.Unlock()
 	return ok
-- 
2.43.0

