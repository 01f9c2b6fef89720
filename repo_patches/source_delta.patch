From 097f4f832b09b980a022f39c702ef71733744b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 01/30] fix: REP splits a request at its first empty frame

A body with an empty frame was cut at its last one and the rest was sent
back as part of the return envelope.
---
 rep.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rep.go b/rep.go
index d9a1a78..ed46922 100644
--- a/rep.go
+++ b/rep.go
@@ -196,8 +196,9 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		return preamble, msg
 	}
-	return
+	return nil, Msg{}
 }
 
 type repSendPayload struct {
-- 
2.43.0


From b4243f2ec994746b4c75a58798740195e065d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 02/30] fix: REQ keeps its connection index in range

Operator precedence let the index run past the list, so a send after a
connection had left or failed panicked.
---
 req.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req.go b/req.go
index 2b99aed..b918438 100644
--- a/req.go
+++ b/req.go
@@ -110,11 +110,11 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	defer r.mu.Unlock()
 	var err error
 	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
+		cur := (i + r.nextConn) % len(r.conns)
 		conn := r.conns[cur]
 		err = conn.SendMsg(msg)
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
 			return nil
 		}
-- 
2.43.0


From 5b998fab21a9d98da1d98da3e8b3353480c4952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 03/30] fix: do not allocate a frame body before its data
 arrives

A frame header announcing a huge length made the receiver panic or run
out of memory.
---
 conn.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 0524ae6..38b8395 100644
--- a/conn.go
+++ b/conn.go
@@ -479,8 +479,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
@@ -505,6 +505,22 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readBody reads a frame body of the given size from r.
+// The size comes from the peer: memory is allocated as the data arrives.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const chunk = 1 << 20
+
+	body := make([]byte, min(size, chunk))
+	n, err := io.ReadFull(r, body)
+	for err == nil && uint64(n) < size {
+		more := make([]byte, min(size-uint64(n), uint64(n)))
+		_, err = io.ReadFull(r, more)
+		body = append(body, more...)
+		n = len(body)
+	}
+	return body, err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
-- 
2.43.0


From 4566b8847a737b0cfb06f451509942ab15c0293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 04/30] fix: reject metadata that ends inside a property

A truncated name or value length sent by a peer panicked the process.
---
 protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol.go b/protocol.go
index 82262af..46e4a5f 100644
--- a/protocol.go
+++ b/protocol.go
@@ -240,9 +240,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if n+klen+4 > len(data) {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 7d7cd599002f15d88becee351e5510aa3afce7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 05/30] fix: an unknown peer socket type is incompatible

The type comes from the peer; a name not in the table panicked the process.
---
 socket_types.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/socket_types.go b/socket_types.go
index d149de2..f755a02 100644
--- a/socket_types.go
+++ b/socket_types.go
@@ -86,8 +86,6 @@ func (sck SocketType) IsCompatible(peer SocketType) bool {
 		if peer == Stream {
 			return true
 		}
-	default:
-		panic("unknown socket-type: \"" + string(sck) + "\"")
 	}
 
 	return false
-- 
2.43.0


From 0d2c8731be34383189997f55422467adcdf7e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 06/30] fix: a stream that ends inside a frame closes the
 connection

Only an end of file between frames marked the connection as closed, so a
peer that went away in the middle of a frame was never removed.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 38b8395..8a97a09 100644
--- a/conn.go
+++ b/conn.go
@@ -564,7 +564,7 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From a10d9b24f7e4dc4ba7ccc37d89d7da415139cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 07/30] fix: encode metadata properties of any size

A property larger than the copy buffer panicked, and a name longer than
255 bytes was written with a wrong length.
---
 protocol.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/protocol.go b/protocol.go
index 46e4a5f..86f8fe7 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"golang.org/x/text/cases"
@@ -184,16 +185,20 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		}
 
 		keys[key] = struct{}{}
+		prop := Property{K: k, V: v}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
-				return nil, err
-			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
-				return nil, err
-			}
+			prop.K = "X-" + key
 		}
+		if len(prop.K) > 255 || uint64(len(prop.V)) > math.MaxUint32 {
+			return nil, errOverflow
+		}
+		raw := make([]byte, 1+len(prop.K)+4+len(prop.V))
+		if _, err := prop.Read(raw); err != nil && err != io.EOF {
+			return nil, err
+		}
+		buf.Write(raw)
 	}
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From a269984b98cbe1d007157da4979fbfc0ff7961c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 08/30] fix: PLAIN server accepts only INITIATE after WELCOME

---
 security/plain/plain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..3a0e484 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -65,6 +65,11 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
 
+		if cmd.Name != zmq4.CmdInitiate {
+			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid command")) // FIXME(sbinet) correct ERROR reason
+			return fmt.Errorf("security/plain: expected an INITIATE command from client")
+		}
+
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
-- 
2.43.0


From b0cee7fac1ecf9d0d579cd13c284048c4b42036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 09/30] fix: PLAIN keeps its credentials for further handshakes

They were wiped after the first one, so a second connection or a
reconnection of the same socket sent empty credentials.
---
 security/plain/plain.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 3a0e484..1751551 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -131,9 +131,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
-- 
2.43.0


From 9fbeedab98f1466b04f85467611eb0e937186e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 10/30] fix: PLAIN refuses credentials that do not fit their
 length octet

---
 security/plain/plain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 1751551..5d0d346 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -87,6 +87,10 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		}
 
 	case !server:
+		if len(sec.user) > 255 || len(sec.pass) > 255 {
+			return fmt.Errorf("security/plain: user name or password too long")
+		}
+
 		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
 		hello = append(hello, byte(len(sec.user)))
 		hello = append(hello, sec.user...)
-- 
2.43.0


From b8ce5b16256315132cd896a6229d75df470edfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 11/30] fix: SUB does not hold the socket lock while it
 announces a topic

Send takes the same read lock again, which deadlocks when a connection is
added or removed in between.
---
 sub.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sub.go b/sub.go
index 008d6b1..1153246 100644
--- a/sub.go
+++ b/sub.go
@@ -109,10 +109,11 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 	}
 
 	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
+	n := len(sub.sck.conns)
+	sub.sck.mu.RUnlock()
+	if n > 0 {
 		err = sub.Send(NewMsg(topic))
 	}
-	sub.sck.mu.RUnlock()
 	return err
 }
 
-- 
2.43.0


From 3237644ce6880f4c99cec5932430b6ce412ef429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 12/30] fix: sending and receiving on a closed socket is an
 error for every type

PUB, REP, REQ and ROUTER did not look at the closed flag, so a send after
Close could report success.
---
 pub.go    |  9 ++-------
 rep.go    | 15 +++------------
 req.go    | 15 +++------------
 router.go |  7 ++-----
 4 files changed, 10 insertions(+), 36 deletions(-)

diff --git a/pub.go b/pub.go
index 7dffb59..9615353 100644
--- a/pub.go
+++ b/pub.go
@@ -44,19 +44,14 @@ func (pub *pubSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (pub *pubSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (pub *pubSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
diff --git a/rep.go b/rep.go
index ed46922..dd313d8 100644
--- a/rep.go
+++ b/rep.go
@@ -34,28 +34,19 @@ func (rep *repSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (rep *repSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (rep *repSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (rep *repSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(rep.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := rep.sck.r.read(ctx, &msg)
-	return msg, err
+	return rep.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/req.go b/req.go
index b918438..fc68502 100644
--- a/req.go
+++ b/req.go
@@ -35,28 +35,19 @@ func (req *reqSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (req *reqSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (req *reqSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (req *reqSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(req.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := req.sck.r.read(ctx, &msg)
-	return msg, err
+	return req.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/router.go b/router.go
index aebb14a..5ab19e4 100644
--- a/router.go
+++ b/router.go
@@ -35,17 +35,14 @@ func (router *routerSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (router *routerSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(router.sck.ctx, router.sck.Timeout())
-	defer cancel()
-	return router.sck.w.write(ctx, msg)
+	return router.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (router *routerSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	return router.Send(msg)
+	return router.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
-- 
2.43.0


From b005aac4c25a508a7ce36a9b6834697f6069ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 13/30] fix: a receive on XPUB that is cancelled returns an
 error

---
 pub.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pub.go b/pub.go
index 9615353..80ec3a7 100644
--- a/pub.go
+++ b/pub.go
@@ -174,6 +174,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
-- 
2.43.0


From ad65c56fcad3336d9eec7b72a667cd4da610633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 14/30] fix: publishing a message without frames does not panic

---
 pub.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pub.go b/pub.go
index 80ec3a7..1363763 100644
--- a/pub.go
+++ b/pub.go
@@ -256,6 +256,9 @@ func (mw *pubMWriter) addConn(w *Conn) {
 			if !ok {
 				break
 			}
+			if len(msg.Frames) == 0 {
+				continue
+			}
 			topic := string(msg.Frames[0])
 			if w.subscribed(topic) {
 				_ = w.SendMsg(msg)
-- 
2.43.0


From ad78ab0e4067977f6bf3b7226277f9f191c99642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 15/30] fix: ROUTER refuses a message without an identity frame

It panicked with the writer lock held.
---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 5ab19e4..9aac6c9 100644
--- a/router.go
+++ b/router.go
@@ -7,6 +7,7 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
 
@@ -221,6 +222,9 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: ROUTER message without an identity frame")
+	}
 	w.sem.lock(ctx)
 	grp, _ := errgroup.WithContext(ctx)
 	w.mu.Lock()
-- 
2.43.0


From 824480ee72e58ea1966fca124f4f3a9c5484fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 16/30] fix: reconnect to the endpoint of the lost connection

Losing an accepted connection made a listening socket dial its own
endpoint, and losing one of several dialled connections dialled the
endpoint that was dialled last. Dialling from the failing call also
deadlocked when that call held the lock of the connection pool.
---
 socket.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/socket.go b/socket.go
index 338062c..eb20583 100644
--- a/socket.go
+++ b/socket.go
@@ -323,7 +323,13 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, func(c *Conn) {
+		sck.scheduleRmConn(c)
+		if sck.autoReconnect {
+			// the failing call may hold locks that adding a connection needs
+			go sck.Dial(endpoint)
+		}
+	})
 	if err != nil {
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
@@ -400,10 +406,6 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.closedConns = append(sck.closedConns, c)
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
-
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
-	}
 }
 
 // Type returns the type of this Socket (PUB, SUB, ...)
-- 
2.43.0


From f720d65f1fbaf470c7757a3e404a2aab60fc3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 17/30] fix: frames of different messages are not interleaved
 on a connection

A send that timed out goes on writing in the background while the next
one starts, and a PONG could be written between two frames of a message.
---
 conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conn.go b/conn.go
index 8a97a09..939e2b9 100644
--- a/conn.go
+++ b/conn.go
@@ -32,6 +32,8 @@ type Conn struct {
 		Meta   Metadata
 	}
 
+	wmu sync.Mutex // serialises outgoing messages and commands
+
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
@@ -176,6 +178,8 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
 	return c.send(true, buf, 0)
 }
 
@@ -185,6 +189,9 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
-- 
2.43.0


From 34edc8d0fcd9ee45684c9c47f817a0d586553fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 18/30] fix: disconnecting a peer when there is none does not
 panic

---
 networking/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..4f18e14 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -206,7 +206,7 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
-- 
2.43.0


From 17056aab425232e04372c3bf4410f19ae094a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 19/30] fix: closing an inproc listener wakes the dials waiting
 for it

---
 internal/inproc/inproc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..5b3dc06 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -132,6 +132,7 @@ func (l *Listener) Close() error {
 	}
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast()
 	return err
 }
 
-- 
2.43.0


From b5975d44226336365eee9bf23f5220f30baf4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 20/30] fix: an inproc write does not retain the buffer of its
 caller

---
 internal/inproc/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..8068fcd 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -47,8 +47,9 @@ func (c *conn) write(data []byte) (int, error) {
 	}
 
 	var n int
+	buf := append([]byte(nil), data...) // the caller may reuse data
 	select {
-	case c.w <- data:
+	case c.w <- buf:
 		n = len(data)
 		return n, nil
 	case <-c.localDone:
-- 
2.43.0


From 74c3d630631006453061860e399fd517f27e7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 21/30] fix: inproc reads keep the byte stream

A read shorter than the write lost the rest, data written before a close
was not delivered, and a blocked read was not woken by a close. Frames
longer than 255 bytes could not be received over inproc.
---
 internal/inproc/conn.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 8068fcd..b75dc26 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -20,6 +20,9 @@ type conn struct {
 	r    <-chan []byte
 	w    chan<- []byte
 
+	rmu  sync.Mutex // Protects rbuf
+	rbuf []byte     // what a read left of the last write
+
 	once       sync.Once // Protects closing localDone
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
@@ -73,22 +76,33 @@ func (c *conn) read(data []byte) (int, error) {
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
+	case len(data) == 0:
+		return 0, nil
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+	for len(c.rbuf) == 0 {
+		select {
+		case c.rbuf = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.remoteDone:
+			// what was written before the close comes first
+			select {
+			case c.rbuf = <-c.r:
+			default:
+				return 0, io.EOF
+			}
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+	n := copy(data, c.rbuf)
+	c.rbuf = c.rbuf[n:]
+	return n, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
-- 
2.43.0


From 81ed4798f3ce4e5be0d7625056c28a492d603d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 22/30] fix: closing a socket that lost a connection is not an
 error

The reader of a lost connection closes it before the reaper removes it
from the socket; closing it again failed the Close of the socket.
---
 socket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index eb20583..de99ad7 100644
--- a/socket.go
+++ b/socket.go
@@ -150,7 +150,8 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
-		if e != nil && err == nil {
+		// a connection that was lost has been closed by its reader
+		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
 			err = e
 		}
 	}
-- 
2.43.0


From 15173ea6a83577d4accb34d197f986d449479a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 23/30] fix: ROUTER gives every message its own identity frame

---
 router.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index 9aac6c9..414a2e5 100644
--- a/router.go
+++ b/router.go
@@ -154,7 +154,7 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
 
-	id := []byte(r.Peer.Meta[sysSockID])
+	id := r.Peer.Meta[sysSockID]
 	for {
 		msg := r.read()
 		select {
@@ -164,7 +164,7 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 			if msg.err != nil {
 				return
 			}
-			msg.Frames = append([][]byte{id}, msg.Frames...)
+			msg.Frames = append([][]byte{[]byte(id)}, msg.Frames...)
 			q.c <- msg
 		}
 	}
-- 
2.43.0


From d4b3185e5048f4b0fb908a2b3f3dfe85f5079325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 24/30] fix: PUB refuses a negative high-water mark

---
 pub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index 1363763..ad7574d 100644
--- a/pub.go
+++ b/pub.go
@@ -98,7 +98,7 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
-- 
2.43.0


From fa0c8aaeb5b41deb51d77cb8fe9f480fe887ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 25/30] fix: SUB refuses a topic that is not a string

---
 sub.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sub.go b/sub.go
index 1153246..a599886 100644
--- a/sub.go
+++ b/sub.go
@@ -93,14 +93,17 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
 		sub.subscribe(k, 1)
 		topic = append([]byte{1}, k...)
 
 	case OptionUnsubscribe:
-		k := value.(string)
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
 
-- 
2.43.0


From 78db2bb4c1dd64bf5d691cf409054e1ecb7672df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 26/30] fix: socket options are guarded by the socket's lock

---
 socket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socket.go b/socket.go
index de99ad7..7241544 100644
--- a/socket.go
+++ b/socket.go
@@ -425,6 +425,8 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	v, ok := sck.props[name]
 	if !ok {
 		return nil, ErrBadProperty
@@ -435,6 +437,8 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
+	defer sck.mu.Unlock()
 	sck.props[name] = value
 	return nil
 }
-- 
2.43.0


From 11028e04f831dab371f1bba69b02127edde2b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 27/30] fix: PUB discards what subscribers send besides
 subscriptions

---
 pub.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index ad7574d..a43b246 100644
--- a/pub.go
+++ b/pub.go
@@ -27,7 +27,9 @@ type Topics interface {
 func NewPub(ctx context.Context, opts ...Option) Socket {
 	pub := &pubSocket{sck: newSocket(ctx, Pub, opts...)}
 	pub.sck.w = newPubMWriter(pub.sck.ctx)
-	pub.sck.r = newPubQReader(pub.sck.ctx)
+	r := newPubQReader(pub.sck.ctx)
+	r.discard = true
+	pub.sck.r = r
 	return pub
 }
 
@@ -120,6 +122,8 @@ type pubQReader struct {
 	rs []*Conn
 	c  chan Msg
 
+	discard bool // nothing receives what is not a subscription
+
 	sem *semaphore // ready when a connection is live.
 }
 
@@ -196,6 +200,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case q.discard:
 			default:
 				q.c <- msg
 			}
-- 
2.43.0


From 161bd91efd5aaa7806bb70ea7cab9bac8e19e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 28/30] fix: a socket that is closed or made to listen
 meanwhile does not keep a second listener

---
 socket.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 7241544..3707e5b 100644
--- a/socket.go
+++ b/socket.go
@@ -133,6 +133,7 @@ func (sck *socket) Close() error {
 		return fmt.Errorf("zmq4: socket already closed")
 	}
 	sck.isClosed = true
+	listener := sck.listener
 	sck.mu.Unlock()
 
 	// The Lock around Signal ensures the connReaper is running
@@ -142,8 +143,8 @@ func (sck *socket) Close() error {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.listener != nil {
-		defer sck.listener.Close()
+	if listener != nil {
+		defer listener.Close()
 	}
 
 	sck.mu.RLock()
@@ -160,7 +161,7 @@ func (sck *socket) Close() error {
 	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
+	if listener != nil && strings.HasPrefix(ep, "ipc://") {
 		os.Remove(ep[len("ipc://"):])
 	}
 
@@ -244,6 +245,12 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
+	if sck.isClosed || sck.listener != nil {
+		// closed or made to listen by another call meanwhile
+		sck.mu.Unlock()
+		l.Close()
+		return fmt.Errorf("zmq4: could not listen to %q: socket closed or already listening", endpoint)
+	}
 	sck.listener = l
 	sck.mu.Unlock()
 
@@ -417,6 +424,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
-- 
2.43.0


From 811757115f3bfa4647d62b5893b93ac89b773584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 29/30] fix: concurrent Dial and Listen start one connection
 reaper

---
 socket.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/socket.go b/socket.go
index 3707e5b..c5020af 100644
--- a/socket.go
+++ b/socket.go
@@ -255,11 +255,7 @@ func (sck *socket) Listen(endpoint string) error {
 	sck.mu.Unlock()
 
 	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 
 	return nil
 }
@@ -345,11 +341,7 @@ connect:
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 	sck.addConn(zconn)
 	return nil
 }
@@ -456,6 +448,17 @@ func (sck *socket) Timeout() time.Duration {
 	return sck.timeout
 }
 
+// startReaper starts the connection reaper, once.
+func (sck *socket) startReaper() {
+	sck.reaperCond.L.Lock()
+	if sck.reaperStarted {
+		sck.reaperCond.L.Unlock()
+		return
+	}
+	sck.reaperStarted = true
+	go sck.connReaper() // releases the lock
+}
+
 func (sck *socket) connReaper() {
 	// We are not locking here sck.reaperCond.L.Lock()
 	// as it should be locked prior starting connReaper as goroutine
-- 
2.43.0


From f3143d79ed9dc745c5047a555bfb96364d30c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 30/30] fix: a refused option value is not stored on PUB and
 SUB sockets

---
 pub.go | 10 +++++-----
 sub.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pub.go b/pub.go
index a43b246..ef01e8e 100644
--- a/pub.go
+++ b/pub.go
@@ -90,11 +90,6 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
@@ -104,6 +99,11 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
diff --git a/sub.go b/sub.go
index a599886..aa7c87e 100644
--- a/sub.go
+++ b/sub.go
@@ -84,6 +84,11 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
+	k, ok := value.(string)
+	if !ok || (name != OptionSubscribe && name != OptionUnsubscribe) {
+		return ErrBadProperty
+	}
+
 	err := sub.sck.SetOption(name, value)
 	if err != nil {
 		return err
@@ -93,11 +98,6 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
-	k, ok := value.(string)
-	if !ok {
-		return ErrBadProperty
-	}
-
 	switch name {
 	case OptionSubscribe:
 		sub.subscribe(k, 1)
-- 
2.43.0

