From e14ae0d89514d50a3db667ee092efa91532f3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:42 +0000
Subject: [PATCH 01/54] fix: make Conn.Increment and Conn.Decrement atomic

---
 conn.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..15c726f 100644
--- a/conn.go
+++ b/conn.go
@@ -217,22 +217,28 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
+
+	if c.store == nil {
+		c.store = make(map[string]interface{})
+	}
+	value := c.store[key]
 
 	if value == nil {
-		c.Set(key, 1)
+		c.store[key] = 1
 		return 1
 	}
 
 	intValue, ok := value.(int)
 	if !ok {
 		// override.
-		c.Set(key, 1)
+		c.store[key] = 1
 		return 1
 	}
 
 	intValue++
-	c.Set(key, intValue)
+	c.store[key] = intValue
 	return intValue
 }
 
@@ -250,21 +256,27 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
+
+	if c.store == nil {
+		c.store = make(map[string]interface{})
+	}
+	value := c.store[key]
 
 	if value == nil {
-		c.Set(key, -1)
+		c.store[key] = -1
 		return -1
 	}
 
 	intValue, ok := value.(int)
 	if !ok {
 		// override.
-		c.Set(key, -1)
+		c.store[key] = -1
 		return -1
 	}
 	intValue--
-	c.Set(key, intValue)
+	c.store[key] = intValue
 	return intValue
 }
 
-- 
2.43.0


From 418a2abd44606340b025430d4d5e4ee983a802bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:32 +0000
Subject: [PATCH 02/54] fix: readiness waiter could lose its wake-up or its
 error

wait() and unwait() used check-then-act: an unwait between the ready check and the lock in wait() left the
waiter (Dial, or the server's ack handling) blocked forever, a second waiter returned without waiting, and two
concurrent unwait calls raced on the error. The first unwait now wins and every wait waits for it.
---
 waiter_once.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..7ac9bc6 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -44,28 +44,17 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch
 	return w.err
 }
 
 func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
+	if w == nil || !atomic.CompareAndSwapUint32(w.locked, 0, 1) { // unlock once.
 		return
 	}
 
 	w.err = err
 	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
-		close(w.ch)
-	}
+	close(w.ch)
 }
-- 
2.43.0


From 5332395d50c67ff60c489f06a1f92d35879d25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:57 +0000
Subject: [PATCH 03/54] fix: finish the handshake before anything else is
 written or handled

The server marked a connection as acknowledged, and handled the queued messages, before it wrote the client's
ID. A concurrent server-side Connect could then write first; the client queues (and never handles) whatever
arrives before its ID, so both sides hanged. Queued payloads were also grouped by text/binary type and handled
in map order instead of arrival order.
---
 conn.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/conn.go b/conn.go
index 15c726f..6b8e27a 100644
--- a/conn.go
+++ b/conn.go
@@ -93,7 +93,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []queuedPayload
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -102,6 +102,12 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+// queuedPayload is a payload which received before the acknowledgement.
+type queuedPayload struct {
+	msgTyp  MessageType
+	payload []byte
+}
+
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -367,12 +373,16 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else is allowed to be written:
+		// the client does not handle any message that it receives before its ID.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
+
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
@@ -397,10 +407,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, queuedPayload{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -412,13 +419,11 @@ func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
 	defer c.queueMutex.Unlock()
 
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
-
-		delete(c.queue, msgTyp)
+	for _, q := range c.queue {
+		c.HandlePayload(q.msgTyp, q.payload)
 	}
+
+	c.queue = nil
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From 32b9a489614cbd52acea2d6bd412f5eda5bbc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:22 +0000
Subject: [PATCH 04/54] fix: accept handshake frames only from the side that
 may send them

A client could send the server's ack frame: the server then took the connection ID from the client and
treated the connection as acknowledged although OnConnect was still running or had refused it. A server (or
anything else) sending the client's frame blocked the client's reader forever. Such a connection is closed
now, and closing a connection releases a Dial that waits for the handshake.
---
 conn.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 6b8e27a..32ef98c 100644
--- a/conn.go
+++ b/conn.go
@@ -367,6 +367,10 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	switch typ := b[0]; typ {
 	case ackBinary:
 		// from client startup to server.
+		if c.IsClient() {
+			return false
+		}
+
 		err := c.readiness.wait()
 		if err != nil {
 			// it's not Ok, send error which client's Dial should return.
@@ -390,7 +394,12 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	// 	c.handleQueue()
 
 	case ackIDBinary:
-		// from server to client.
+		// from server to client, otherwise
+		// a client could select its own ID and skip the server's `OnConnect`.
+		if !c.IsClient() {
+			return false
+		}
+
 		id := string(b[1:])
 		c.id = id
 
@@ -401,6 +410,10 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		// c.handleQueue()
 	case ackNotOKBinary:
 		// from server to client.
+		if !c.IsClient() {
+			return false
+		}
+
 		errText := string(b[1:])
 		err := errors.New(errText)
 		c.readiness.unwait(err)
@@ -1023,6 +1036,9 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 // After this method call the `Conn` is not usable anymore, a new `Dial` call is required.
 func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
+		// unblock the `Dial` or the ack handler, if still waiting.
+		c.readiness.unwait(ErrWrite)
+
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
 			c.connectedNamespacesMutex.Lock()
-- 
2.43.0


From 5b7b00b90943349324ec2b585aabf15d0cf2592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 05/54] fix: a refused connection must end even when it was
 ready already

When OnConnect returned an error after it connected the client to a namespace, or when the server handles only
native messages (no handshake), the error was ignored and the refused connection kept being served.
---
 server.go      | 12 +++++++++---
 waiter_once.go |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 19363e3..5b2ef08 100644
--- a/server.go
+++ b/server.go
@@ -350,7 +350,9 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			if !c.readiness.unwait(err) {
+				c.Close()
+			}
 			return nil, err
 		}
 	}
@@ -383,8 +385,12 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
+			if !c.readiness.unwait(err) {
+				// it was ready already: it handles only native messages or
+				// the `OnConnect` connected it to a namespace before its failure.
+				c.Close()
+			}
+			// No need to disconnect on the rest of the cases, connection's .Close will be called on readiness ch errored.
 
 			// c.Close()
 			return nil, err
diff --git a/waiter_once.go b/waiter_once.go
index 7ac9bc6..f9ff1dd 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -48,13 +48,15 @@ func (w *waiterOnce) wait() error {
 	return w.err
 }
 
-func (w *waiterOnce) unwait(err error) {
+// unwait reports whether this call was the one which made it ready.
+func (w *waiterOnce) unwait(err error) bool {
 	if w == nil || !atomic.CompareAndSwapUint32(w.locked, 0, 1) { // unlock once.
-		return
+		return false
 	}
 
 	w.err = err
 	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
 	close(w.ch)
+	return true
 }
-- 
2.43.0


From efe129095d618e4f9556774a7f1dc38ac9cf09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:55 +0000
Subject: [PATCH 06/54] fix: register a connection before its disconnect can be
 handled

The buffered connect channel let the server loop receive the disconnect of a connection before its connect:
the closed connection stayed registered forever and its OnDisconnect never fired.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 5b2ef08..1e8258c 100644
--- a/server.go
+++ b/server.go
@@ -120,7 +120,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan []Message),
-- 
2.43.0


From ab99299f2eefd915e3ced617716547a5859779e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:02 +0000
Subject: [PATCH 07/54] fix: Server.Close must not miss a connection that is
 being upgraded

An upgrade that passed the closed check just before Close registered its connection afterwards and stayed
open. The server loop also reset the closed flag when it started, undoing a Close right after New.
---
 server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 1e8258c..e6ca06d 100644
--- a/server.go
+++ b/server.go
@@ -165,8 +165,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
@@ -344,6 +342,12 @@ func (s *Server) Upgrade(
 
 	s.connect <- c
 
+	if atomic.LoadUint32(&s.closed) > 0 {
+		// closed while upgrading, `Close` may not be aware of this connection.
+		c.Close()
+		return nil, errServerClosed
+	}
+
 	go c.startReader()
 
 	// Before `OnConnect` in order to be able
-- 
2.43.0


From 789e422619b71c0138f0c7bac74e3e519565b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:08 +0000
Subject: [PATCH 08/54] fix: withdraw refused connections from the stack
 exchange too

With a registered OnDisconnect, a connection that OnConnect refused was skipped before the
StackExchange.OnDisconnect call, so its subscriber leaked.
---
 server.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index e6ca06d..94a3ac8 100644
--- a/server.go
+++ b/server.go
@@ -176,11 +176,8 @@ func (s *Server) start() {
 				delete(s.connections, c)
 				atomic.AddUint64(&s.count, ^uint64(0))
 				// println("disconnect...")
-				if s.OnDisconnect != nil {
-					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
-					}
+				// don't fire disconnect if was immediately closed on the `OnConnect` server event.
+				if s.OnDisconnect != nil && (s.FireDisconnectAlways || c.readiness.isReady() && c.readiness.err == nil) {
 					s.OnDisconnect(c)
 				}
 
-- 
2.43.0


From c6917e8cfcecc306b9ea67f60eb972402e1db4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 09/54] fix: announce a connection to the stack exchange before
 it can be withdrawn

StackExchange.OnConnect ran after the connection was registered and its reader was started, so a client that
went away at once was withdrawn first and announced afterwards, and its subscriber leaked.
---
 server.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index 94a3ac8..f8b4795 100644
--- a/server.go
+++ b/server.go
@@ -337,6 +337,14 @@ func (s *Server) Upgrade(
 		}(c)
 	}
 
+	// Before the connection is registered and its reader is started, so the
+	// StackExchange.OnDisconnect, Subscribe and Unsubscribe can't be called before it, and
+	// before `OnConnect` in order to be able to Broadcast inside the `OnConnect` custom func.
+	var excErr error
+	if s.usesStackExchange() {
+		excErr = s.StackExchange.OnConnect(c)
+	}
+
 	s.connect <- c
 
 	if atomic.LoadUint32(&s.closed) > 0 {
@@ -347,15 +355,11 @@ func (s *Server) Upgrade(
 
 	go c.startReader()
 
-	// Before `OnConnect` in order to be able
-	// to Broadcast inside the `OnConnect` custom func.
-	if s.usesStackExchange() {
-		if err := s.StackExchange.OnConnect(c); err != nil {
-			if !c.readiness.unwait(err) {
-				c.Close()
-			}
-			return nil, err
+	if excErr != nil {
+		if !c.readiness.unwait(excErr) {
+			c.Close()
 		}
+		return nil, excErr
 	}
 
 	// Start the reader before `OnConnect`, remember clients may remotely connect to namespace before `Server#OnConnect`
-- 
2.43.0


From 75333ae2b961e51cd49fa08685e935dc91b29b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 10/54] fix: wait tokens of concurrent Ask calls must differ

The token was just the current time in nanoseconds; two Ask calls inside one clock tick shared it, so one of
them received the reply of the other and the other never returned.
---
 message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 7967b85..e5a4982 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,9 +220,12 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// used to differ the wait tokens generated at the same time.
+var waitCounter uint64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
-	wait := strconv.FormatInt(now, 10)
+	wait := strconv.FormatInt(now, 10) + strconv.FormatUint(atomic.AddUint64(&waitCounter, 1), 10)
 
 	if isClientConn {
 		wait = string(waitComesFromClientPrefix) + wait
-- 
2.43.0


From 8077545feaa625befd92e40ed77a88341cd48636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:01 +0000
Subject: [PATCH 11/54] fix: Ask must receive its own reply while messages are
 being handled

Ask guessed from a connection-wide flag whether it is called inside an event callback, and then took the next
incoming message, whatever it was, as its reply. An Ask from any other goroutine during a callback, a message
that arrives before the reply, or two nested asks delivered a wrong reply, lost a message or hanged; an Ask
inside a callback of a message that was queued before the handshake hanged too. All the replies are matched by
their wait token now and an Ask made by the reader's own goroutine starts the reader that continues.
---
 conn.go | 92 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/conn.go b/conn.go
index 32ef98c..1b83e4f 100644
--- a/conn.go
+++ b/conn.go
@@ -1,10 +1,13 @@
 package neffos
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"net"
 	"net/http"
+	"runtime"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -84,7 +87,9 @@ type Conn struct {
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
 
-	isInsideHandler *uint32
+	// the goroutine of the reader which is inside a message handler
+	// at the moment, 0 if none, see `startReader` and `Ask`.
+	handlingReader *uint64
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -116,7 +121,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
-		isInsideHandler:                new(uint32),
+		handlingReader:                 new(uint64),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
@@ -331,11 +336,15 @@ func (c *Conn) sendClientACK() error {
 	return err
 }
 
+// startReader reads and handles the incoming messages, one by one.
+// If a message handler calls `Ask` then a new reader continues
+// from there, in order to be able to receive the reply.
 func (c *Conn) startReader() {
 	if c.IsClosed() {
 		return
 	}
-	defer c.Close()
+
+	reader := goroutineID()
 
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
@@ -343,6 +352,7 @@ func (c *Conn) startReader() {
 		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
 		if err != nil {
 			c.readiness.unwait(err)
+			c.Close()
 			return
 		}
 
@@ -350,19 +360,37 @@ func (c *Conn) startReader() {
 			continue
 		}
 
-		if !c.isAcknowledged() {
+		acknowledged := c.isAcknowledged()
+		if !acknowledged {
 			if !c.handleACK(msgTyp, b) {
+				c.Close()
 				return
 			}
-			continue
+
+			if !c.isAcknowledged() {
+				continue
+			}
 		}
 
-		atomic.StoreUint32(c.isInsideHandler, 1)
-		c.HandlePayload(msgTyp, b)
-		atomic.StoreUint32(c.isInsideHandler, 0)
+		atomic.StoreUint64(c.handlingReader, reader)
+		if acknowledged {
+			c.HandlePayload(msgTyp, b)
+		} else {
+			c.handleQueue()
+		}
+		if !atomic.CompareAndSwapUint64(c.handlingReader, reader, 0) {
+			return // a new reader took over.
+		}
 	}
 }
 
+// goroutineID returns the unique identifier of the current goroutine, it's the second field of its stack trace.
+func goroutineID() uint64 {
+	var b [64]byte
+	id, _ := strconv.ParseUint(string(bytes.Fields(b[:runtime.Stack(b[:], false)])[1]), 10, 64)
+	return id
+}
+
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	switch typ := b[0]; typ {
 	case ackBinary:
@@ -385,7 +413,6 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		}
 
 		atomic.StoreUint32(c.acknowledged, 1)
-		c.handleQueue()
 
 	// case ackOKBinary:
 	// 	// from client to server.
@@ -430,13 +457,13 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 
 func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
-	defer c.queueMutex.Unlock()
+	queue := c.queue
+	c.queue = nil
+	c.queueMutex.Unlock()
 
-	for _, q := range c.queue {
+	for _, q := range queue {
 		c.HandlePayload(q.msgTyp, q.payload)
 	}
-
-	c.queue = nil
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
@@ -963,12 +990,8 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 // }
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
+// When it's called by an event callback then the next incoming messages do not wait for that callback to finish.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
-}
-
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -992,28 +1015,19 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	ch := make(chan Message, 1)
 	msg.wait = genWait(c.IsClient())
 
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
-
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
-		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
-		c.waitingMessagesMutex.Unlock()
-	}
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[msg.wait] = ch
+	c.waitingMessagesMutex.Unlock()
 
 	if !c.Write(msg) {
 		return Message{}, ErrWrite
 	}
 
+	// if called by a message handler then its reader can't read the reply.
+	if atomic.CompareAndSwapUint64(c.handlingReader, goroutineID(), 0) {
+		go c.startReader()
+	}
+
 	select {
 	case <-ctx.Done():
 		if c.IsClosed() {
@@ -1021,11 +1035,9 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 		}
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
-		}
+		c.waitingMessagesMutex.Lock()
+		delete(c.waitingMessages, msg.wait)
+		c.waitingMessagesMutex.Unlock()
 
 		return receive, receive.Err
 	}
-- 
2.43.0


From 72db2c43342ace4019f4d9b9bb0f0a3db92ebd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 12/54] fix: an Ask that is not going to be answered must leave
 nothing behind

The waiting entry of an Ask that failed to write or that its context ended stayed forever, and the late reply
was then handled as a new incoming event or blocked the reader. An Ask without a deadline also never returned
when the connection was closed.
---
 conn.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 1b83e4f..305ef4a 100644
--- a/conn.go
+++ b/conn.go
@@ -496,11 +496,14 @@ func (c *Conn) handleMessage(msg Message) error {
 			}
 		}
 
-		c.waitingMessagesMutex.RLock()
+		c.waitingMessagesMutex.Lock()
 		ch, ok := c.waitingMessages[msg.wait]
-		c.waitingMessagesMutex.RUnlock()
+		delete(c.waitingMessages, msg.wait)
+		c.waitingMessagesMutex.Unlock()
 		if ok {
-			ch <- msg
+			if ch != nil { // nil if the `Ask` didn't wait for it.
+				ch <- msg
+			}
 			return nil
 		}
 
@@ -1020,6 +1023,9 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 	c.waitingMessagesMutex.Unlock()
 
 	if !c.Write(msg) {
+		c.waitingMessagesMutex.Lock()
+		delete(c.waitingMessages, msg.wait)
+		c.waitingMessagesMutex.Unlock()
 		return Message{}, ErrWrite
 	}
 
@@ -1030,15 +1036,21 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 
 	select {
 	case <-ctx.Done():
-		if c.IsClosed() {
-			return Message{}, ErrWrite
-		}
-		return Message{}, ctx.Err()
-	case receive := <-ch:
 		c.waitingMessagesMutex.Lock()
-		delete(c.waitingMessages, msg.wait)
+		_, waiting := c.waitingMessages[msg.wait]
+		if waiting {
+			// a late reply should not be handled as an incoming event.
+			c.waitingMessages[msg.wait] = nil
+		}
 		c.waitingMessagesMutex.Unlock()
 
+		if !waiting { // just replied or closed.
+			receive := <-ch
+			return receive, receive.Err
+		}
+
+		return Message{}, ctx.Err()
+	case receive := <-ch:
 		return receive, receive.Err
 	}
 }
@@ -1065,7 +1077,10 @@ func (c *Conn) Close() {
 			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
-			for wait := range c.waitingMessages {
+			for wait, ch := range c.waitingMessages {
+				if ch != nil {
+					ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}
+				}
 				delete(c.waitingMessages, wait)
 			}
 			c.waitingMessagesMutex.Unlock()
-- 
2.43.0


From 897797c1bda2d970f72686c368a39d92d5debdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:28 +0000
Subject: [PATCH 13/54] fix: apply the reply of connect, disconnect, join and
 leave in message order

The asking side changed its state in the caller's goroutine, some time after the reply was read, while the
reader went on with the next messages: a connect or join request that followed the reply of a disconnect or
leave was answered as already done and then undone, so that the two sides disagreed for good. To hold back the
events of a namespace that is being connected, the reader blocked until the connect finished; when such an
event was ahead of the connect's reply (a broadcast at that moment, WaitServerConnect followed by Emit, or
Connect from both sides), or when OnNamespaceConnected asked the other side, neither of them ever finished.
Concurrent Connect calls also connected, and notified, twice. The reader completes the operation itself now,
before the next message, and a side writes nothing to a namespace before its reply to the connect.
---
 conn.go           | 163 +++++++++++++++++++++++++++-------------------
 conn_namespace.go |  75 +++++++++++----------
 2 files changed, 137 insertions(+), 101 deletions(-)

diff --git a/conn.go b/conn.go
index 305ef4a..797b8dc 100644
--- a/conn.go
+++ b/conn.go
@@ -83,16 +83,13 @@ type Conn struct {
 	// the connection's current connected namespace.
 	connectedNamespaces      map[string]*NSConn
 	connectedNamespacesMutex sync.RWMutex
-	// used to block certain actions until other action is finished,
-	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
-	processes *processes
 
 	// the goroutine of the reader which is inside a message handler
 	// at the moment, 0 if none, see `startReader` and `Ask`.
 	handlingReader *uint64
 
 	// messages that this connection waits for a reply.
-	waitingMessages      map[string]chan Message
+	waitingMessages      map[string]*waitingMessage
 	waitingMessagesMutex sync.RWMutex
 
 	allowNativeMessages            bool
@@ -107,6 +104,22 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+// waitingMessage is a sent message which waits for its reply.
+type waitingMessage struct {
+	ch chan Message
+	// optional, it's called when the reply is not an error and
+	// before any next incoming message is handled.
+	onReply func() error
+}
+
+func (w *waitingMessage) reply(msg Message) {
+	if msg.Err == nil && w.onReply != nil {
+		msg.Err = w.onReply()
+	}
+
+	w.ch <- msg
+}
+
 // queuedPayload is a payload which received before the acknowledgement.
 type queuedPayload struct {
 	msgTyp  MessageType
@@ -120,9 +133,8 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		readiness:                      newWaiterOnce(),
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
-		processes:                      newProcesses(),
 		handlingReader:                 new(uint64),
-		waitingMessages:                make(map[string]chan Message),
+		waitingMessages:                make(map[string]*waitingMessage),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
 		closed:                         new(uint32),
@@ -138,7 +150,9 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		// client-side can use raw websocket without the neffos.js library
 		// so no access to connect to a namespace.
 		if len(c.namespaces) == 1 && len(emptyNamespace) == 1 {
-			c.connectedNamespaces[""] = newNSConn(c, "", emptyNamespace)
+			ns := newNSConn(c, "", emptyNamespace)
+			close(ns.established)
+			c.connectedNamespaces[""] = ns
 			c.shouldHandleOnlyNativeMessages = true
 			atomic.StoreUint32(c.acknowledged, 1)
 			c.readiness.unwait(nil)
@@ -497,12 +511,12 @@ func (c *Conn) handleMessage(msg Message) error {
 		}
 
 		c.waitingMessagesMutex.Lock()
-		ch, ok := c.waitingMessages[msg.wait]
+		waiting, ok := c.waitingMessages[msg.wait]
 		delete(c.waitingMessages, msg.wait)
 		c.waitingMessagesMutex.Unlock()
 		if ok {
-			if ch != nil { // nil if the `Ask` didn't wait for it.
-				ch <- msg
+			if waiting != nil { // nil if the `Ask` didn't wait for it.
+				waiting.reply(msg)
 			}
 			return nil
 		}
@@ -641,8 +655,6 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
-
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
@@ -661,15 +673,6 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 // or
 // client#Connect
 func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error) {
-	p := c.processes.get(namespace)
-	p.Start() // block any `tryNamespace` with that "namespace".
-
-	defer p.Done() // unblock.
-
-	//	defer c.processes.get(namespace).run()()
-	// for !atomic.CompareAndSwapUint32(c.isConnectingProcess, 0, 1) {
-	// }
-	// defer atomic.StoreUint32(c.isConnectingProcess, 0)
 	ns := c.Namespace(namespace)
 	if ns != nil {
 		return ns, nil
@@ -692,33 +695,45 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 		return nil, err
 	}
 
-	// println("ask connect")
-	_, err = c.Ask(ctx, connectMessage) // waits for answer no matter if already connected on the other side.
+	// waits for answer no matter if already connected on the other side.
+	_, err = c.ask(ctx, connectMessage, func() error {
+		// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls).
+		existing, err := c.addNamespace(ns)
+		if err != nil {
+			return err
+		}
+		close(ns.established)
+
+		if existing != nil {
+			ns = existing
+			return nil
+		}
+
+		c.notifyNamespaceConnected(ns, connectMessage)
+		return nil
+	})
 	if err != nil {
 		return nil, err
 	}
-	// println("got connect")
-	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	// c.connectedNamespacesMutex.RLock()
-	// ns, ok = c.connectedNamespaces[namespace]
-	// c.connectedNamespacesMutex.RUnlock()
-	// if ok {
-	// 	return ns, nil
-	// }
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	return ns, nil
+}
 
-	// println("we're connected")
+// addNamespace registers the "ns" unless it's closed or
+// it's already connected to that namespace, which is returned.
+func (c *Conn) addNamespace(ns *NSConn) (existing *NSConn, err error) {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
 
-	// c.writeEmptyReply(genWaitConfirmation(reply.wait))
-	// println("wrote: " + genWaitConfirmation(reply.wait))
+	if c.IsClosed() {
+		return nil, ErrWrite
+	}
 
-	// c.sendConfirmation(reply.wait)
+	if existing = c.connectedNamespaces[ns.namespace]; existing == nil {
+		c.connectedNamespaces[ns.namespace] = ns
+	}
 
-	c.notifyNamespaceConnected(ns, connectMessage)
-	return ns, nil
+	return
 }
 
 func (c *Conn) replyConnect(msg Message) {
@@ -748,13 +763,17 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	existing, err := c.addNamespace(ns)
+	if err != nil {
+		return
+	}
 
 	c.writeEmptyReply(msg.wait)
+	close(ns.established)
 
-	c.notifyNamespaceConnected(ns, msg)
+	if existing == nil {
+		c.notifyNamespaceConnected(ns, msg)
+	}
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
@@ -809,30 +828,29 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 		return ErrBadNamespace
 	}
 
-	_, err := c.Ask(ctx, msg)
-	if err != nil {
-		return err
-	}
+	_, err := c.ask(ctx, msg, func() error {
+		// if disconnect is allowed then leave rooms first with force property
+		// before namespace's deletion.
+		ns.forceLeaveAll(true)
 
-	// if disconnect is allowed then leave rooms first with force property
-	// before namespace's deletion.
-	ns.forceLeaveAll(true)
+		if lock {
+			c.connectedNamespacesMutex.Lock()
+		}
 
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
+		delete(c.connectedNamespaces, msg.Namespace)
 
-	delete(c.connectedNamespaces, msg.Namespace)
+		if lock {
+			c.connectedNamespacesMutex.Unlock()
+		}
 
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
-	}
+		msg.IsLocal = true
+		ns.events.fireEvent(ns, msg)
 
-	msg.IsLocal = true
-	ns.events.fireEvent(ns, msg)
+		c.notifyNamespaceDisconnect(ns, msg)
+		return nil
+	})
 
-	c.notifyNamespaceDisconnect(ns, msg)
-	return nil
+	return err
 }
 
 func (c *Conn) replyDisconnect(msg Message) {
@@ -924,6 +942,12 @@ func (c *Conn) canWrite(msg Message) bool {
 			return false
 		}
 
+		select {
+		case <-ns.established:
+		case <-c.closeCh:
+			return false
+		}
+
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
 			if !msg.locked {
 				ns.roomsMutex.RLock()
@@ -995,8 +1019,15 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 // When it's called by an event callback then the next incoming messages do not wait for that callback to finish.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
+	return c.ask(ctx, msg, nil)
+}
+
+func (c *Conn) ask(ctx context.Context, msg Message, onReply func() error) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
+		if onReply != nil {
+			return Message{}, onReply()
+		}
 		return Message{}, nil
 	}
 
@@ -1019,7 +1050,7 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(c.IsClient())
 
 	c.waitingMessagesMutex.Lock()
-	c.waitingMessages[msg.wait] = ch
+	c.waitingMessages[msg.wait] = &waitingMessage{ch, onReply}
 	c.waitingMessagesMutex.Unlock()
 
 	if !c.Write(msg) {
@@ -1077,9 +1108,9 @@ func (c *Conn) Close() {
 			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
-			for wait, ch := range c.waitingMessages {
-				if ch != nil {
-					ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}
+			for wait, waiting := range c.waitingMessages {
+				if waiting != nil {
+					waiting.ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}
 				}
 				delete(c.waitingMessages, wait)
 			}
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..c3523f4 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -18,6 +18,9 @@ type NSConn struct {
 	namespace string
 	// Static from server, client can select which to use or not.
 	events Events
+	// closed when the other side knows, or at least was told, that
+	// this namespace is connected. Nothing is written before that.
+	established chan struct{}
 
 	// Dynamically channels/rooms for each connected namespace.
 	// Client can ask to join, server can forcely join a connection to a room.
@@ -32,10 +35,11 @@ type NSConn struct {
 
 func newNSConn(c *Conn, namespace string, events Events) *NSConn {
 	return &NSConn{
-		Conn:      c,
-		namespace: namespace,
-		events:    events,
-		rooms:     make(map[string]*Room),
+		Conn:        c,
+		namespace:   namespace,
+		events:      events,
+		established: make(chan struct{}),
+		rooms:       make(map[string]*Room),
 	}
 }
 
@@ -188,23 +192,25 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		IsLocal:   true,
 	}
 
-	_, err := ns.Conn.Ask(ctx, joinMsg)
-	if err != nil {
-		return nil, err
-	}
+	_, err := ns.Conn.ask(ctx, joinMsg, func() error {
+		err := ns.events.fireEvent(ns, joinMsg)
+		if err != nil {
+			return err
+		}
 
-	err = ns.events.fireEvent(ns, joinMsg)
+		room = newRoom(ns, roomName)
+		ns.roomsMutex.Lock()
+		ns.rooms[roomName] = room
+		ns.roomsMutex.Unlock()
+
+		joinMsg.Event = OnRoomJoined
+		ns.events.fireEvent(ns, joinMsg)
+		return nil
+	})
 	if err != nil {
 		return nil, err
 	}
 
-	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
-
-	joinMsg.Event = OnRoomJoined
-	ns.events.fireEvent(ns, joinMsg)
 	return room, nil
 }
 
@@ -251,31 +257,30 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 		return ErrBadRoom
 	}
 
-	_, err := ns.Conn.Ask(ctx, msg)
-	if err != nil {
-		return err
-	}
+	_, err := ns.Conn.ask(ctx, msg, func() error {
+		// msg.IsLocal = true
+		err := ns.events.fireEvent(ns, msg)
+		if err != nil {
+			return err
+		}
 
-	// msg.IsLocal = true
-	err = ns.events.fireEvent(ns, msg)
-	if err != nil {
-		return err
-	}
+		if lock {
+			ns.roomsMutex.Lock()
+		}
 
-	if lock {
-		ns.roomsMutex.Lock()
-	}
+		delete(ns.rooms, msg.Room)
 
-	delete(ns.rooms, msg.Room)
+		if lock {
+			ns.roomsMutex.Unlock()
+		}
 
-	if lock {
-		ns.roomsMutex.Unlock()
-	}
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
 
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
+		return nil
+	})
 
-	return nil
+	return err
 }
 
 func (ns *NSConn) replyRoomLeave(msg Message) {
-- 
2.43.0


From 996217251a184aab5819b23b4b068708271190c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 14/54] fix: leave and disconnect exactly once, without holding
 locks

DisconnectAll and LeaveAll held the namespaces or rooms lock while they waited for the remote side, and Close
and the forced leave held them while they fired event callbacks: an incoming message in between, or a callback
that used the connection, deadlocked. When both sides left or disconnected at the same time, or the connection
was closed meanwhile, the events fired twice, and a room joined during that moment stayed joined after it.
---
 conn.go           | 113 +++++++++++++++------------------
 conn_namespace.go | 158 +++++++++++++++++++++++++++++-----------------
 conn_room.go      |  19 +++++-
 message.go        |   5 --
 4 files changed, 168 insertions(+), 127 deletions(-)

diff --git a/conn.go b/conn.go
index 797b8dc..a61dc89 100644
--- a/conn.go
+++ b/conn.go
@@ -799,13 +799,11 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	// do not hold the lock while waiting for the remote side's replies.
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.namespacesCopy() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && err != ErrBadNamespace { // may be disconnected so far.
 			return err
 		}
 	}
@@ -813,35 +811,52 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
+func (c *Conn) namespacesCopy() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	defer c.connectedNamespacesMutex.RUnlock()
+
+	namespaces := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		namespaces = append(namespaces, ns)
 	}
 
-	ns := c.connectedNamespaces[msg.Namespace]
+	return namespaces
+}
+
+func (c *Conn) removeNamespace(ns *NSConn) {
+	c.connectedNamespacesMutex.Lock()
+	delete(c.connectedNamespaces, ns.namespace)
+	c.connectedNamespacesMutex.Unlock()
+}
 
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
+// forceDisconnect leaves from the rooms and disconnects without the remote side's permission,
+// unless the "ns" is disconnecting already.
+func (c *Conn) forceDisconnect(ns *NSConn) {
+	if !ns.leaving.start() {
+		return
 	}
 
+	// leave rooms first with force and local property before remove the namespace completely.
+	ns.forceLeaveAll(true)
+	ns.events.fireEvent(ns, Message{Namespace: ns.namespace, Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true})
+	c.removeNamespace(ns)
+}
+
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		return ErrBadNamespace
 	}
 
 	_, err := c.ask(ctx, msg, func() error {
+		if !ns.leaving.start() {
+			return nil // disconnected by the other side or closed, in the meantime.
+		}
+
 		// if disconnect is allowed then leave rooms first with force property
 		// before namespace's deletion.
 		ns.forceLeaveAll(true)
-
-		if lock {
-			c.connectedNamespacesMutex.Lock()
-		}
-
-		delete(c.connectedNamespaces, msg.Namespace)
-
-		if lock {
-			c.connectedNamespacesMutex.Unlock()
-		}
+		c.removeNamespace(ns)
 
 		msg.IsLocal = true
 		ns.events.fireEvent(ns, msg)
@@ -859,7 +874,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 	}
 
 	ns := c.Namespace(msg.Namespace)
-	if ns == nil {
+	if ns == nil || !ns.leaving.start() {
 		c.writeEmptyReply(msg.wait)
 		return
 	}
@@ -869,10 +884,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 		// if disconnect is allowed then leave rooms first with force property
 		// before namespace's deletion.
 		ns.forceLeaveAll(false)
-
-		c.connectedNamespacesMutex.Lock()
-		delete(c.connectedNamespaces, msg.Namespace)
-		c.connectedNamespacesMutex.Unlock()
+		c.removeNamespace(ns)
 
 		c.writeEmptyReply(msg.wait)
 
@@ -885,14 +897,16 @@ func (c *Conn) replyDisconnect(msg Message) {
 	if err != nil {
 		msg.Err = err
 		c.Write(msg)
+
+		ns.leaving.cancel()
+		if c.IsClosed() { // closed in the meantime, there is no other choice.
+			c.forceDisconnect(ns)
+		}
 		return
 	}
 
 	ns.forceLeaveAll(false)
-
-	c.connectedNamespacesMutex.Lock()
-	delete(c.connectedNamespaces, msg.Namespace)
-	c.connectedNamespacesMutex.Unlock()
+	c.removeNamespace(ns)
 
 	c.notifyNamespaceDisconnect(ns, msg)
 
@@ -928,16 +942,7 @@ func (c *Conn) canWrite(msg Message) bool {
 	}
 
 	if !msg.isConnect() && !msg.isDisconnect() {
-		if !msg.locked {
-			c.connectedNamespacesMutex.RLock()
-		}
-
-		ns := c.connectedNamespaces[msg.Namespace]
-
-		if !msg.locked {
-			c.connectedNamespacesMutex.RUnlock()
-		}
-
+		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
 			return false
 		}
@@ -949,17 +954,7 @@ func (c *Conn) canWrite(msg Message) bool {
 		}
 
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
-			if !msg.locked {
-				ns.roomsMutex.RLock()
-			}
-
-			_, ok := ns.rooms[msg.Room]
-
-			if !msg.locked {
-				ns.roomsMutex.RUnlock()
-			}
-
-			if !ok {
+			if ns.Room(msg.Room) == nil {
 				// tried to send to a not joined room.
 				return false
 			}
@@ -1095,17 +1090,9 @@ func (c *Conn) Close() {
 		c.readiness.unwait(ErrWrite)
 
 		if !c.shouldHandleOnlyNativeMessages {
-			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
-				// leave rooms first with force and local property before remove the namespace completely.
-				ns.forceLeaveAll(true)
-
-				disconnectMsg.Namespace = ns.namespace
-				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+			for _, ns := range c.namespacesCopy() {
+				c.forceDisconnect(ns)
 			}
-			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
 			for wait, waiting := range c.waitingMessages {
diff --git a/conn_namespace.go b/conn_namespace.go
index c3523f4..e6dbd45 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -27,6 +27,11 @@ type NSConn struct {
 	// Namespace(room(fire event)).
 	rooms      map[string]*Room
 	roomsMutex sync.RWMutex
+	// true when all rooms were forced to leave, no room can be joined after that.
+	// Protected by the roomsMutex.
+	left bool
+
+	leaving leaving
 
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
@@ -133,13 +138,11 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	// do not hold the lock while waiting for the remote side's replies.
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && err != ErrBadRoom { // may be left so far.
 			return err
 		}
 	}
@@ -148,20 +151,60 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 }
 
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
+	ns.roomsMutex.Lock()
+	ns.left = true
+	ns.roomsMutex.Unlock()
+
+	for _, room := range ns.Rooms() {
+		ns.forceLeave(room, isLocal)
+	}
+}
+
+func (ns *NSConn) forceLeave(room *Room, isLocal bool) {
+	if !room.leaving.start() {
+		return
+	}
+
+	leaveMsg := Message{Namespace: ns.namespace, Room: room.Name, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
+	ns.events.fireEvent(ns, leaveMsg)
+
+	ns.removeRoom(room)
+
+	leaveMsg.Event = OnRoomLeft
+	ns.events.fireEvent(ns, leaveMsg)
+}
+
+// addRoom registers the "room" unless it's disconnected or it's already joined, which is returned.
+func (ns *NSConn) addRoom(room *Room) (existing *Room, err error) {
 	ns.roomsMutex.Lock()
 	defer ns.roomsMutex.Unlock()
 
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		ns.events.fireEvent(ns, leaveMsg)
+	if ns.left {
+		return nil, ErrBadNamespace
+	}
+
+	if existing = ns.rooms[room.Name]; existing == nil {
+		ns.rooms[room.Name] = room
+	}
 
-		delete(ns.rooms, room)
+	return
+}
 
-		leaveMsg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, leaveMsg)
+func (ns *NSConn) removeRoom(room *Room) {
+	ns.roomsMutex.Lock()
+	delete(ns.rooms, room.Name)
+	ns.roomsMutex.Unlock()
+}
 
-		leaveMsg.Event = OnRoomLeave
+// stayInRoom is called when an event callback didn't allow to leave from the "room".
+func (ns *NSConn) stayInRoom(room *Room) {
+	room.leaving.cancel()
+
+	ns.roomsMutex.RLock()
+	left := ns.left
+	ns.roomsMutex.RUnlock()
+	if left { // disconnected in the meantime, there is no other choice.
+		ns.forceLeave(room, true)
 	}
 }
 
@@ -174,14 +217,12 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
-	ns.roomsMutex.RLock()
-	room, ok := ns.rooms[roomName]
-	ns.roomsMutex.RUnlock()
-	if ok {
+	room := ns.Room(roomName)
+	if room != nil {
 		return room, nil
 	}
 
@@ -193,15 +234,25 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 	}
 
 	_, err := ns.Conn.ask(ctx, joinMsg, func() error {
+		if room = ns.Room(roomName); room != nil {
+			return nil // joined by the other side in the meantime.
+		}
+
 		err := ns.events.fireEvent(ns, joinMsg)
 		if err != nil {
 			return err
 		}
 
 		room = newRoom(ns, roomName)
-		ns.roomsMutex.Lock()
-		ns.rooms[roomName] = room
-		ns.roomsMutex.Unlock()
+		existing, err := ns.addRoom(room)
+		if err != nil {
+			return err
+		}
+
+		if existing != nil {
+			room = existing
+			return nil
+		}
 
 		joinMsg.Event = OnRoomJoined
 		ns.events.fireEvent(ns, joinMsg)
@@ -219,60 +270,53 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		return
 	}
 
-	ns.roomsMutex.RLock()
-	_, ok := ns.rooms[msg.Room]
-	ns.roomsMutex.RUnlock()
-	if !ok {
+	if ns.Room(msg.Room) == nil {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
 			ns.Conn.Write(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
+		existing, err := ns.addRoom(newRoom(ns, msg.Room))
+		if err != nil {
+			msg.Err = err
+			ns.Conn.Write(msg)
+			return
+		}
+
+		if existing == nil {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
 	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
-	}
-	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
-	}
-
-	if !ok {
+	room := ns.Room(msg.Room)
+	if room == nil {
 		return ErrBadRoom
 	}
 
 	_, err := ns.Conn.ask(ctx, msg, func() error {
+		if !room.leaving.start() {
+			return nil // left by the other side or forced, in the meantime.
+		}
+
 		// msg.IsLocal = true
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
+			ns.stayInRoom(room)
 			return err
 		}
 
-		if lock {
-			ns.roomsMutex.Lock()
-		}
-
-		delete(ns.rooms, msg.Room)
-
-		if lock {
-			ns.roomsMutex.Unlock()
-		}
+		ns.removeRoom(room)
 
 		msg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, msg)
@@ -289,7 +333,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	}
 
 	room := ns.Room(msg.Room)
-	if room == nil {
+	if room == nil || !room.leaving.start() {
 		ns.Conn.writeEmptyReply(msg.wait)
 		return
 	}
@@ -298,9 +342,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns.Conn.IsClient() {
 		ns.events.fireEvent(ns, msg)
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, msg.Room)
-		ns.roomsMutex.Unlock()
+		ns.removeRoom(room)
 
 		ns.Conn.writeEmptyReply(msg.wait)
 
@@ -314,12 +356,12 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if err != nil {
 		msg.Err = err
 		ns.Conn.Write(msg)
+
+		ns.stayInRoom(room)
 		return
 	}
 
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
+	ns.removeRoom(room)
 
 	msg.Event = OnRoomLeft
 	ns.events.fireEvent(ns, msg)
diff --git a/conn_room.go b/conn_room.go
index ee40486..bca605c 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -2,6 +2,7 @@ package neffos
 
 import (
 	"context"
+	"sync/atomic"
 )
 
 // Room describes a connected connection to a room,
@@ -11,6 +12,8 @@ type Room struct {
 	NSConn *NSConn
 
 	Name string
+
+	leaving leaving
 }
 
 func newRoom(ns *NSConn, roomName string) *Room {
@@ -46,5 +49,19 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
+}
+
+// leaving makes sure that a room is left, or a namespace is disconnected, once:
+// the local and the remote side, or a connection's close, may try that at the same time.
+type leaving uint32
+
+// start reports whether the caller is the one which should leave.
+func (l *leaving) start() bool {
+	return atomic.CompareAndSwapUint32((*uint32)(l), 0, 1)
+}
+
+// cancel is called when it's not allowed to leave after all.
+func (l *leaving) cancel() {
+	atomic.StoreUint32((*uint32)(l), 0)
 }
diff --git a/message.go b/message.go
index e5a4982..2000178 100644
--- a/message.go
+++ b/message.go
@@ -93,10 +93,6 @@ type Message struct {
 	// This field is not filled on sending/receiving.
 	IsNative bool
 
-	// Useful rarely internally on `Conn#Write` namespace and rooms checks, i.e `Conn#DisconnectAll` and `NSConn#RemoveAll`.
-	// If true then the writer's checks will not lock connectedNamespacesMutex or roomsMutex again. May be useful in the future, keep that solution.
-	locked bool
-
 	// if server or client should write using Binary message or if the incoming message was readen as binary.
 	SetBinary bool
 }
@@ -374,7 +370,6 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		IsForced:          false,
 		IsLocal:           false,
 		IsNative:          allowNativeMessages && event == OnNativeMessage,
-		locked:            false,
 		SetBinary:         msgTyp == BinaryMessage,
 	}
 }
-- 
2.43.0


From 311bebc5d3267627a4c151c96b20b17f49f5c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 15/54] fix: a waiting remote side must always get its reply

---
 conn.go           | 29 +++++++++++++++++++++++------
 conn_namespace.go |  6 +++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index a61dc89..5987a98 100644
--- a/conn.go
+++ b/conn.go
@@ -547,7 +547,7 @@ func (c *Conn) handleMessage(msg Message) error {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			c.Write(msg)
+			c.reply(msg)
 			return err
 		}
 	}
@@ -660,8 +660,10 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" {
+			in.Err = ErrBadNamespace
+			c.reply(in)
+		}
 		return nil, false
 	}
 
@@ -751,7 +753,7 @@ func (c *Conn) replyConnect(msg Message) {
 	events, ok := c.namespaces[msg.Namespace]
 	if !ok {
 		msg.Err = ErrBadNamespace
-		c.Write(msg)
+		c.reply(msg)
 		return
 	}
 
@@ -759,7 +761,7 @@ func (c *Conn) replyConnect(msg Message) {
 	err := events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		c.Write(msg)
+		c.reply(msg)
 		return
 	}
 
@@ -896,7 +898,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 	err := ns.events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		c.Write(msg)
+		c.reply(msg)
 
 		ns.leaving.cancel()
 		if c.IsClosed() { // closed in the meantime, there is no other choice.
@@ -991,6 +993,21 @@ func (c *Conn) Write(msg Message) bool {
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
+// reply sends a message back. If the remote side waits for it then it is sent even if
+// this side is not connected to the namespace, or not joined to the room, (anymore).
+func (c *Conn) reply(msg Message) bool {
+	if msg.wait == "" {
+		return c.Write(msg)
+	}
+
+	if c.IsClosed() {
+		return false
+	}
+
+	msg.FromExplicit = ""
+	return c.write(serializeMessage(msg), msg.SetBinary)
+}
+
 // used when `Ask` caller cares only for successful call and not the message, for performance reasons we just use raw bytes.
 func (c *Conn) writeEmptyReply(wait string) bool {
 	return c.write(genEmptyReplyToWait(wait), false)
diff --git a/conn_namespace.go b/conn_namespace.go
index e6dbd45..b3c5e0e 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -274,14 +274,14 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			ns.Conn.Write(msg)
+			ns.Conn.reply(msg)
 			return
 		}
 
 		existing, err := ns.addRoom(newRoom(ns, msg.Room))
 		if err != nil {
 			msg.Err = err
-			ns.Conn.Write(msg)
+			ns.Conn.reply(msg)
 			return
 		}
 
@@ -355,7 +355,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	err := ns.events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		ns.Conn.Write(msg)
+		ns.Conn.reply(msg)
 
 		ns.stayInRoom(room)
 		return
-- 
2.43.0


From 0c6cb2e241beb9e10802ccc4c088a1d5f3bec0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:42 +0000
Subject: [PATCH 16/54] fix: Server.Ask replies must not block connections,
 leak or fire events

---
 conn.go   | 8 ++++++--
 server.go | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 5987a98..126416c 100644
--- a/conn.go
+++ b/conn.go
@@ -501,9 +501,10 @@ func (c *Conn) handleMessage(msg Message) error {
 				// just accept it on the stackexchange.
 				return c.server.StackExchange.NotifyAsk(msg, msg.wait)
 			}
-			c.server.waitingMessagesMutex.RLock()
+			c.server.waitingMessagesMutex.Lock()
 			ch, ok := c.server.waitingMessages[msg.wait]
-			c.server.waitingMessagesMutex.RUnlock()
+			delete(c.server.waitingMessages, msg.wait) // the first reply wins.
+			c.server.waitingMessagesMutex.Unlock()
 			if ok {
 				ch <- msg
 				return nil
@@ -521,6 +522,9 @@ func (c *Conn) handleMessage(msg Message) error {
 			return nil
 		}
 
+		if !isClient {
+			return nil // a reply that nobody waits for anymore, it's not an incoming event.
+		}
 	}
 
 	switch msg.Event {
diff --git a/server.go b/server.go
index f8b4795..db39652 100644
--- a/server.go
+++ b/server.go
@@ -568,7 +568,8 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	// it has a buffer of one because only the first reply is sent to it, the connection's reader should never block on it.
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
@@ -577,12 +578,12 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 
 	select {
 	case <-ctx.Done():
-		return Message{}, ctx.Err()
-	case receive := <-ch:
 		s.waitingMessagesMutex.Lock()
 		delete(s.waitingMessages, msg.wait)
 		s.waitingMessagesMutex.Unlock()
 
+		return Message{}, ctx.Err()
+	case receive := <-ch:
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From c5685a8c2d76799dd769c37492a9e2985af7070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 17/54] fix: judge each message of a broadcast on its own

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index db39652..9cad4db 100644
--- a/server.go
+++ b/server.go
@@ -448,12 +448,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From ebbfd3144d314f98331c6e47409530ecbd61d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:35 +0000
Subject: [PATCH 18/54] fix: Broadcast must not mark the caller's messages with
 the sender

---
 server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server.go b/server.go
index 9cad4db..2114cf7 100644
--- a/server.go
+++ b/server.go
@@ -522,11 +522,19 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 			fromExplicit = c.serverConnID
 		case *NSConn:
 			fromExplicit = c.Conn.serverConnID
+		case *Room:
+			fromExplicit = c.NSConn.Conn.serverConnID
 		default:
 			from = exceptSender.String()
 		}
 
+		// do not modify the caller's messages, they may be sent again without or with a different sender.
+		msgs = append([]Message(nil), msgs...)
+
 		for i := range msgs {
+			// a received message can be broadcasted to the others, nobody of them is waiting for it.
+			msgs[i].wait = ""
+
 			if from != "" {
 				msgs[i].from = from
 			} else {
-- 
2.43.0


From 73e55811cd8c425c26ba02ef89c13ec6f137ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:00 +0000
Subject: [PATCH 19/54] fix: broadcasts must not be lost, repeated or held back
 by another connection

---
 broadcaster.go | 53 ++++++++++++++++++++++++++++----------------------
 server.go      | 26 +++++++++++--------------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..1ba4993 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,59 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
 // next broadcast call.
 type broadcaster struct {
-	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	mu   *sync.Mutex
+	next *broadcast
+}
+
+// broadcast is a position in the list of the broadcasted messages.
+// Each connection keeps its own, so none of them misses or repeats a message.
+type broadcast struct {
+	published chan struct{} // closed when the below fields are set.
+	messages  []Message
+	next      *broadcast
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
 	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
+		mu:   new(sync.Mutex),
+		next: newBroadcast(),
 	}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+func newBroadcast() *broadcast {
+	return &broadcast{published: make(chan struct{})}
+}
+
+// position returns the next to be published.
+func (b *broadcaster) position() *broadcast {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.next
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	b.messages = msgs
-	b.mu.Unlock()
+	current := b.next
+	b.next = newBroadcast()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	current.messages = msgs
+	current.next = b.next
+	close(current.published)
+	b.mu.Unlock()
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+func (b *broadcast) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
+	case <-b.published:
+		msgs = b.messages
 		ok = true
 	case <-closeCh:
 	}
 
-	b.mu.Lock()
 	return
 }
diff --git a/server.go b/server.go
index 2114cf7..70521e8 100644
--- a/server.go
+++ b/server.go
@@ -331,10 +331,8 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
-			}
-		}(c)
+		// from here and not when the goroutine starts, otherwise it may miss messages.
+		go s.waitMessages(c, s.broadcaster.position())
 	}
 
 	// Before the connection is registered and its reader is started, so the
@@ -466,16 +464,15 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
+func (s *Server) waitMessages(c *Conn, b *broadcast) {
+	for {
+		msgs, ok := b.waitUntilClosed(c.closeCh)
+		if !ok || !publishMessages(c, msgs) {
+			return
+		}
 
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
-		return false
+		b = b.next
 	}
-
-	return publishMessages(c, msgs)
 }
 
 type stringerValue struct{ v string }
@@ -513,6 +510,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// do not modify or keep the caller's messages, they may be sent again without or with a different sender.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
@@ -528,9 +527,6 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 			from = exceptSender.String()
 		}
 
-		// do not modify the caller's messages, they may be sent again without or with a different sender.
-		msgs = append([]Message(nil), msgs...)
-
 		for i := range msgs {
 			// a received message can be broadcasted to the others, nobody of them is waiting for it.
 			msgs[i].wait = ""
-- 
2.43.0


From 48a91c98b9d282d4519483d0613ec75ee3bd6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:18 +0000
Subject: [PATCH 20/54] fix: the reply of a stack exchange Ask must find its
 way back

---
 message.go | 7 +++++--
 server.go  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/message.go b/message.go
index 2000178..6d756f3 100644
--- a/message.go
+++ b/message.go
@@ -241,8 +241,9 @@ func genWaitStackExchange(wait string) string {
 
 	// This is the second special character.
 	// If found, it is removed on the deserialization
-	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	// and Message.FromStackExchange is set to true,
+	// it's added again on the serialization of that message.
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -285,6 +286,8 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = msg.FromExplicit
+		} else if msg.FromStackExchange {
+			msg.wait = genWaitStackExchange(msg.wait)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
diff --git a/server.go b/server.go
index 70521e8..b72a8ab 100644
--- a/server.go
+++ b/server.go
@@ -568,7 +568,7 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(false)
 
 	if s.usesStackExchange() {
-		msg.wait = genWaitStackExchange(msg.wait)
+		msg.FromStackExchange = true
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-- 
2.43.0


From 5742388e0aca2ce6345896c828bcf8aa0192bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:42 +0000
Subject: [PATCH 21/54] fix: namespace and room changes must reach the remote
 side in the order they happened

---
 conn.go           | 53 +++++++++++++++++++++++++++++++++++--------
 conn_namespace.go | 57 ++++++++++++++++++++++++++++-------------------
 2 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/conn.go b/conn.go
index 126416c..c67e982 100644
--- a/conn.go
+++ b/conn.go
@@ -84,6 +84,11 @@ type Conn struct {
 	connectedNamespaces      map[string]*NSConn
 	connectedNamespacesMutex sync.RWMutex
 
+	// held while a namespace or a room changes and the reply about that is written and while
+	// such a change is requested: the remote side should receive those in the order they happened.
+	// Should not be held when an event callback is fired.
+	agreementMutex sync.Mutex
+
 	// the goroutine of the reader which is inside a message handler
 	// at the moment, 0 if none, see `startReader` and `Ask`.
 	handlingReader *uint64
@@ -702,7 +707,13 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	}
 
 	// waits for answer no matter if already connected on the other side.
-	_, err = c.ask(ctx, connectMessage, func() error {
+	_, err = c.ask(ctx, connectMessage, func() bool {
+		existing := c.Namespace(namespace)
+		if existing != nil {
+			ns = existing
+		}
+		return existing == nil
+	}, func() error {
 		// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls).
 		existing, err := c.addNamespace(ns)
 		if err != nil {
@@ -769,13 +780,16 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
+	c.agreementMutex.Lock()
 	existing, err := c.addNamespace(ns)
 	if err != nil {
+		c.agreementMutex.Unlock()
 		return
 	}
 
 	c.writeEmptyReply(msg.wait)
 	close(ns.established)
+	c.agreementMutex.Unlock()
 
 	if existing == nil {
 		c.notifyNamespaceConnected(ns, msg)
@@ -854,7 +868,9 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 		return ErrBadNamespace
 	}
 
-	_, err := c.ask(ctx, msg, func() error {
+	_, err := c.ask(ctx, msg, func() bool {
+		return c.Namespace(msg.Namespace) == ns
+	}, func() error {
 		if !ns.leaving.start() {
 			return nil // disconnected by the other side or closed, in the meantime.
 		}
@@ -890,9 +906,11 @@ func (c *Conn) replyDisconnect(msg Message) {
 		// if disconnect is allowed then leave rooms first with force property
 		// before namespace's deletion.
 		ns.forceLeaveAll(false)
-		c.removeNamespace(ns)
 
+		c.agreementMutex.Lock()
+		c.removeNamespace(ns)
 		c.writeEmptyReply(msg.wait)
+		c.agreementMutex.Unlock()
 
 		ns.events.fireEvent(ns, msg)
 		return
@@ -912,11 +930,12 @@ func (c *Conn) replyDisconnect(msg Message) {
 	}
 
 	ns.forceLeaveAll(false)
-	c.removeNamespace(ns)
-
 	c.notifyNamespaceDisconnect(ns, msg)
 
+	c.agreementMutex.Lock()
+	c.removeNamespace(ns)
 	c.writeEmptyReply(msg.wait)
+	c.agreementMutex.Unlock()
 }
 
 func (c *Conn) write(b []byte, binary bool) bool {
@@ -1035,10 +1054,12 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 // When it's called by an event callback then the next incoming messages do not wait for that callback to finish.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	return c.ask(ctx, msg, nil)
+	return c.ask(ctx, msg, nil, nil)
 }
 
-func (c *Conn) ask(ctx context.Context, msg Message, onReply func() error) (Message, error) {
+// ask sends the "msg" and waits for its reply. The optional "needed" reports whether
+// that is still necessary and the optional "onReply" is called when the reply is not an error.
+func (c *Conn) ask(ctx context.Context, msg Message, needed func() bool, onReply func() error) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		if onReply != nil {
@@ -1069,11 +1090,25 @@ func (c *Conn) ask(ctx context.Context, msg Message, onReply func() error) (Mess
 	c.waitingMessages[msg.wait] = &waitingMessage{ch, onReply}
 	c.waitingMessagesMutex.Unlock()
 
-	if !c.Write(msg) {
+	var err error
+	sent := false
+	if needed != nil {
+		c.agreementMutex.Lock()
+	}
+	if needed == nil || needed() {
+		if sent = c.Write(msg); !sent {
+			err = ErrWrite
+		}
+	}
+	if needed != nil {
+		c.agreementMutex.Unlock()
+	}
+
+	if !sent {
 		c.waitingMessagesMutex.Lock()
 		delete(c.waitingMessages, msg.wait)
 		c.waitingMessagesMutex.Unlock()
-		return Message{}, ErrWrite
+		return Message{}, err
 	}
 
 	// if called by a message handler then its reader can't read the reply.
diff --git a/conn_namespace.go b/conn_namespace.go
index b3c5e0e..612a87d 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -233,7 +233,10 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		IsLocal:   true,
 	}
 
-	_, err := ns.Conn.ask(ctx, joinMsg, func() error {
+	_, err := ns.Conn.ask(ctx, joinMsg, func() bool {
+		room = ns.Room(roomName)
+		return room == nil
+	}, func() error {
 		if room = ns.Room(roomName); room != nil {
 			return nil // joined by the other side in the meantime.
 		}
@@ -270,28 +273,32 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		return
 	}
 
-	if ns.Room(msg.Room) == nil {
-		err := ns.events.fireEvent(ns, msg)
-		if err != nil {
-			msg.Err = err
-			ns.Conn.reply(msg)
-			return
-		}
+	if ns.Room(msg.Room) != nil {
+		ns.Conn.writeEmptyReply(msg.wait)
+		return
+	}
 
-		existing, err := ns.addRoom(newRoom(ns, msg.Room))
-		if err != nil {
-			msg.Err = err
-			ns.Conn.reply(msg)
-			return
-		}
+	err := ns.events.fireEvent(ns, msg)
+	if err != nil {
+		msg.Err = err
+		ns.Conn.reply(msg)
+		return
+	}
 
-		if existing == nil {
-			msg.Event = OnRoomJoined
-			ns.events.fireEvent(ns, msg)
-		}
+	ns.Conn.agreementMutex.Lock()
+	existing, err := ns.addRoom(newRoom(ns, msg.Room))
+	if err != nil {
+		msg.Err = err
+		ns.Conn.reply(msg)
+	} else {
+		ns.Conn.writeEmptyReply(msg.wait)
 	}
+	ns.Conn.agreementMutex.Unlock()
 
-	ns.Conn.writeEmptyReply(msg.wait)
+	if err == nil && existing == nil {
+		msg.Event = OnRoomJoined
+		ns.events.fireEvent(ns, msg)
+	}
 }
 
 func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
@@ -304,7 +311,9 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return ErrBadRoom
 	}
 
-	_, err := ns.Conn.ask(ctx, msg, func() error {
+	_, err := ns.Conn.ask(ctx, msg, func() bool {
+		return ns.Room(msg.Room) == room
+	}, func() error {
 		if !room.leaving.start() {
 			return nil // left by the other side or forced, in the meantime.
 		}
@@ -342,9 +351,10 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns.Conn.IsClient() {
 		ns.events.fireEvent(ns, msg)
 
+		ns.Conn.agreementMutex.Lock()
 		ns.removeRoom(room)
-
 		ns.Conn.writeEmptyReply(msg.wait)
+		ns.Conn.agreementMutex.Unlock()
 
 		msg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, msg)
@@ -361,10 +371,11 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		return
 	}
 
+	ns.Conn.agreementMutex.Lock()
 	ns.removeRoom(room)
+	ns.Conn.writeEmptyReply(msg.wait)
+	ns.Conn.agreementMutex.Unlock()
 
 	msg.Event = OnRoomLeft
 	ns.events.fireEvent(ns, msg)
-
-	ns.Conn.writeEmptyReply(msg.wait)
 }
-- 
2.43.0


From bb550f5af2abe55bda504914e905ff3bdec22e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:03 +0000
Subject: [PATCH 22/54] fix: fire the event callbacks of a close outside of the
 server's loop

Server.Close and a failed write of a synchronous broadcast closed connections inside the server's loop; with
SyncBroadcaster an event callback that broadcasts (i.e OnRoomLeave, OnNamespaceDisconnect) then waited for that
loop and the whole server hanged.
---
 conn.go   | 4 +++-
 server.go | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index c67e982..3e4d210 100644
--- a/conn.go
+++ b/conn.go
@@ -948,7 +948,9 @@ func (c *Conn) write(b []byte, binary bool) bool {
 
 	if err != nil {
 		if IsCloseError(err) {
-			c.Close()
+			// not here, it fires event callbacks and the writer may be the
+			// server's loop (i.e a broadcast) which those callbacks need too.
+			go c.Close()
 		}
 		return false
 	}
diff --git a/server.go b/server.go
index b72a8ab..18cefce 100644
--- a/server.go
+++ b/server.go
@@ -204,9 +204,15 @@ func (s *Server) start() {
 // Close terminates the server and all of its connections, client connections are getting notified.
 func (s *Server) Close() {
 	if atomic.CompareAndSwapUint32(&s.closed, 0, 1) {
+		// close them outside of the server's loop, their event callbacks may use it (i.e to broadcast).
+		var conns []*Conn
 		s.Do(func(c *Conn) {
-			c.Close()
+			conns = append(conns, c)
 		}, false)
+
+		for _, c := range conns {
+			c.Close()
+		}
 	}
 }
 
-- 
2.43.0


From af463b5315b23c4d33bfebc02112862286c2d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:25 +0000
Subject: [PATCH 23/54] fix: the server's connections must not be written while
 GetConnections reads them

---
 server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 18cefce..07ba264 100644
--- a/server.go
+++ b/server.go
@@ -168,12 +168,16 @@ func (s *Server) start() {
 	for {
 		select {
 		case c := <-s.connect:
+			s.mu.Lock()
 			s.connections[c] = struct{}{}
+			s.mu.Unlock()
 			atomic.AddUint64(&s.count, 1)
 		case c := <-s.disconnect:
 			if _, ok := s.connections[c]; ok {
 				// close(c.out)
+				s.mu.Lock()
 				delete(s.connections, c)
+				s.mu.Unlock()
 				atomic.AddUint64(&s.count, ^uint64(0))
 				// println("disconnect...")
 				// don't fire disconnect if was immediately closed on the `OnConnect` server event.
@@ -602,8 +606,6 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 // all connected connections to a specific "namespace" on a specific time point.
 // Do not use this function frequently, it is not designed to be fast or cheap, use it for debugging or logging every 'x' time.
 // Users should work with the event's callbacks alone, the usability is enough for all type of operations. See `Do` too.
-//
-// Not thread safe.
 func (s *Server) GetConnectionsByNamespace(namespace string) map[string]*NSConn {
 	conns := make(map[string]*NSConn)
 
@@ -621,8 +623,6 @@ func (s *Server) GetConnectionsByNamespace(namespace string) map[string]*NSConn
 // GetConnections can be used as an alternative way to retrieve
 // all connected connections to the server on a specific time point.
 // Do not use this function frequently, it is not designed to be fast or cheap, use it for debugging or logging every 'x' time.
-//
-// Not thread safe.
 func (s *Server) GetConnections() map[string]*Conn {
 	conns := make(map[string]*Conn)
 
-- 
2.43.0


From 4b955837684b144219b082e3da2402d33ee36878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:39 +0000
Subject: [PATCH 24/54] fix: a broadcast must not accept a connection before
 its OnConnect does

---
 conn.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 3e4d210..c7c500d 100644
--- a/conn.go
+++ b/conn.go
@@ -963,11 +963,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
@@ -1003,6 +998,12 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue,
+		// not on messages that are for others (i.e a broadcast while its `OnConnect` is running).
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
-- 
2.43.0


From f6bef7382cf12da17300a45f14b2661276f515b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:43 +0000
Subject: [PATCH 25/54] fix: a struct handler with unexported fields must not
 panic on connect

---
 reflect.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/reflect.go b/reflect.go
index 153a5dc..0b7afe1 100644
--- a/reflect.go
+++ b/reflect.go
@@ -21,13 +21,14 @@ func isZero(v reflect.Value) bool {
 			zero = zero && isZero(v.Field(i))
 		}
 
-		if typ := v.Type(); typ != nil && v.IsValid() {
+		// an unexported field's methods can not be called.
+		if typ := v.Type(); typ != nil && v.IsValid() && v.CanInterface() {
 			f, ok := typ.MethodByName("IsZero")
 			// if not found
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool {
 				return zero
 			}
 
@@ -35,7 +36,7 @@ func isZero(v reflect.Value) bool {
 			// no needed check but:
 			if method.IsValid() && !method.IsNil() {
 				// it shouldn't panic here.
-				zero = method.Call(nil)[0].Interface().(bool)
+				zero = method.Call(nil)[0].Bool()
 			}
 		}
 
@@ -256,14 +257,14 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 	if nsConnFieldIndex != -1 {
 		typ = indirectType(typ)
 
-		var staticFields map[int]reflect.Value
-
 		if injector == nil {
 			// maybe this should be added no matter what, I have to check
 			// some things in our company's production server first.
-			staticFields = getNonZeroFields(v)
+			DebugEach(getNonZeroFields(v), func(idx int, f reflect.Value) {
+				if !f.CanInterface() {
+					return // unexported.
+				}
 
-			DebugEach(staticFields, func(idx int, f reflect.Value) {
 				fval := f.Interface()
 				fname := typ.Field(idx).Name
 				if fname == "Namespace" {
@@ -276,7 +277,10 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			})
 
 			injector = func(typ reflect.Type, nsConn *NSConn) reflect.Value {
-				return reflect.New(typ)
+				newPtr := reflect.New(typ)
+				// a whole copy, the unexported fields can not be set one by one.
+				newPtr.Elem().Set(reflect.Indirect(v))
+				return newPtr
 			}
 		}
 
@@ -289,11 +293,6 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			// set the NSConn dynamic field.
 			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
 
-			// set any static fields if default injector (see above).
-			for findex, fvalue := range staticFields {
-				cacheElem.Field(findex).Set(fvalue)
-			}
-
 			// Store it for the rest of the events inside
 			// this namespace of that specific connection.
 			c.value = cachePtr
-- 
2.43.0


From 129fbd38a59a7879b9995cf122ab7f5dacb759c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:41 +0000
Subject: [PATCH 26/54] fix: the next stack exchange must be asked with the
 original message

---
 stackexchange.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange.go b/stackexchange.go
index c355e91..c46ee86 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	response, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		return s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return response, nil
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-- 
2.43.0


From e65a45e9349ab92b6942901f10798b56b868e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 27/54] fix: a namespace's unsubscribe must not overtake its
 subscribe

---
 conn.go           | 27 +++++++++++++++++++--------
 conn_namespace.go |  4 ++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index c7c500d..129ac25 100644
--- a/conn.go
+++ b/conn.go
@@ -797,17 +797,28 @@ func (c *Conn) replyConnect(msg Message) {
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
-	connectMsg.Event = OnNamespaceConnected
-	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-
 	if !c.IsClient() && c.server.usesStackExchange() {
-		c.server.StackExchange.Subscribe(c, ns.namespace)
+		// before its event, the callback may broadcast or wait for the remote side.
+		ns.subscriptionMutex.Lock()
+		if !ns.unsubscribed { // may be disconnected so far.
+			c.server.StackExchange.Subscribe(c, ns.namespace)
+			ns.subscribed = true
+		}
+		ns.subscriptionMutex.Unlock()
 	}
+
+	connectMsg.Event = OnNamespaceConnected
+	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
 }
 
-func (c *Conn) notifyNamespaceDisconnect(_ *NSConn, disconnectMsg Message) {
+func (c *Conn) notifyNamespaceDisconnect(ns *NSConn, disconnectMsg Message) {
 	if !c.IsClient() && c.server.usesStackExchange() {
-		c.server.StackExchange.Unsubscribe(c, disconnectMsg.Namespace)
+		ns.subscriptionMutex.Lock()
+		ns.unsubscribed = true
+		if ns.subscribed {
+			c.server.StackExchange.Unsubscribe(c, disconnectMsg.Namespace)
+		}
+		ns.subscriptionMutex.Unlock()
 	}
 }
 
@@ -878,12 +889,12 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 		// if disconnect is allowed then leave rooms first with force property
 		// before namespace's deletion.
 		ns.forceLeaveAll(true)
+		// before the removal, otherwise it may unsubscribe the next connect to this namespace.
+		c.notifyNamespaceDisconnect(ns, msg)
 		c.removeNamespace(ns)
 
 		msg.IsLocal = true
 		ns.events.fireEvent(ns, msg)
-
-		c.notifyNamespaceDisconnect(ns, msg)
 		return nil
 	})
 
diff --git a/conn_namespace.go b/conn_namespace.go
index 612a87d..380e4f6 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -33,6 +33,10 @@ type NSConn struct {
 
 	leaving leaving
 
+	// used by the server-side connections when a StackExchange is used.
+	subscriptionMutex        sync.Mutex
+	subscribed, unsubscribed bool
+
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
 	value reflect.Value
-- 
2.43.0


From dabf64a690589fa489c2a1b19696624779aad073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 28/54] fix: a connection ID with a semicolon must not break
 the messages it is excluded from

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 07ba264..e30a244 100644
--- a/server.go
+++ b/server.go
@@ -275,7 +275,7 @@ func isServerConnID(s string) bool {
 }
 
 func genServerConnID(s *Server, c *Conn) string {
-	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, c.id, c)
+	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, escape(c.id), c)
 }
 
 // Upgrade handles the connection, same as `ServeHTTP` but it can accept
-- 
2.43.0


From 266c4f320a1eda1ef7993daac4778e378152cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 29/54] fix: Exclude must be honoured through a stack exchange

---
 conn.go   | 2 +-
 server.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 129ac25..d2e60b7 100644
--- a/conn.go
+++ b/conn.go
@@ -1005,7 +1005,7 @@ func (c *Conn) canWrite(msg Message) bool {
 	// don't write if explicit "from" field is set
 	// to this server's instance client connection ~~~but give a chance to Publish
 	// it to other instances with the same conn ID, if any~~~.
-	if c.Is(msg.FromExplicit) {
+	if msg.FromExplicit != "" && (c.Is(msg.FromExplicit) || msg.FromExplicit == genExcludedConnID(c.id)) {
 		return false
 	}
 
diff --git a/server.go b/server.go
index e30a244..7761f2f 100644
--- a/server.go
+++ b/server.go
@@ -278,6 +278,11 @@ func genServerConnID(s *Server, c *Conn) string {
 	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, escape(c.id), c)
 }
 
+// genExcludedConnID returns a server conn ID for all connections, of any server, with that "connID".
+func genExcludedConnID(connID string) string {
+	return fmt.Sprintf("neffos(0x(%s))", escape(connID))
+}
+
 // Upgrade handles the connection, same as `ServeHTTP` but it can accept
 // a socket wrapper and a "customIDGen" that overrides the server's IDGenerator
 // and it does return the connection or any errors.
@@ -543,6 +548,10 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 
 			if from != "" {
 				msgs[i].from = from
+				if s.usesStackExchange() {
+					// the "from" is not part of the serialized message.
+					msgs[i].FromExplicit = genExcludedConnID(from)
+				}
 			} else {
 				msgs[i].FromExplicit = fromExplicit
 			}
-- 
2.43.0


From 3c24cb05e4086baa72ab465eb6e4a5475bf96679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 30/54] fix: gobwas dialer lost the frames received together
 with the handshake response

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..b9b8613 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		socket := newSocket(underline, nil, true)
+		if br != nil {
+			// the server's first frames may be received together with the handshake response.
+			socket.reader.Source = br
+		}
+
+		return socket, nil
 	}
 }
-- 
2.43.0


From 347be39c5e777ea76a681abd9e53f9acc63340db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 31/54] fix: gobwas socket failed to answer a ping after the
 deadline of its last write

---
 gobwas/socket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..409d7cd 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -145,6 +145,10 @@ func (s *Socket) write(body []byte, op gobwas.OpCode, timeout time.Duration) err
 
 	// println("write: " + string(body))
 	err := wsutil.WriteMessage(s.UnderlyingConn, s.state, op, body)
+	if timeout > 0 {
+		// otherwise it would fail a control frame reply that is sent after its expiration.
+		s.UnderlyingConn.SetWriteDeadline(time.Time{})
+	}
 	s.mu.Unlock()
 
 	return err
-- 
2.43.0


From 0da6d83738eeff90a68a8b3beaa9061d625da2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 32/54] fix: gobwas socket sent pongs in the middle of a
 message frame

---
 gobwas/socket.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index 409d7cd..5be9d9f 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -1,6 +1,7 @@
 package gobwas
 
 import (
+	"bytes"
 	"io"
 	"io/ioutil"
 	"net"
@@ -33,9 +34,14 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	s.controlHandler = s.handleControl
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +50,27 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
+	return s
+}
+
+// handleControl replies to the control frames, the reply should not
+// be sent between the parts of a message that is being written.
+func (s *Socket) handleControl(hdr gobwas.Header, r io.Reader) error {
+	reply := new(bytes.Buffer)
+	err := wsutil.ControlFrameHandler(reply, s.state)(hdr, r)
+	if reply.Len() > 0 {
+		s.mu.Lock()
+		_, wErr := s.UnderlyingConn.Write(reply.Bytes())
+		s.mu.Unlock()
+		if err == nil {
+			err = wErr
+		}
 	}
+
+	return err
 }
 
 // NetConn returns the underline net connection.
-- 
2.43.0


From ac06a5b79d78dd1c73cefa2ecbbd8f25e127bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:30 +0000
Subject: [PATCH 33/54] fix: gorilla socket set a write's deadline while
 another write was in progress

---
 gorilla/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From 3a43381e65744ac3f3431a3a4bc081aef925ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:21 +0000
Subject: [PATCH 34/54] fix: redis exchange delivered binary messages as text
 ones

---
 stackexchange/redis/stackexchange_redis.go | 30 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..0194147 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -203,7 +203,8 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	go func() {
 		for redisMsg := range redisMsgCh {
 			// neffos.Debugf("[%s] send to client: [%s]", c.ID(), string(redisMsg.Message))
-			msg := c.DeserializeMessage(neffos.TextMessage, redisMsg.Message)
+			typ, b := decode(redisMsg.Message)
+			msg := c.DeserializeMessage(typ, b)
 			msg.FromStackExchange = true
 
 			c.Write(msg)
@@ -241,10 +242,30 @@ func (exc *StackExchange) publish(msg neffos.Message) bool {
 	channel := exc.getChannel(msg.Namespace, msg.Room, msg.To)
 	// neffos.Debugf("[%s] publish to channel [%s] the data [%s]\n", msg.FromExplicit, channel, string(msg.Serialize()))
 
-	err := exc.publishCommand(channel, msg.Serialize())
+	err := exc.publishCommand(channel, encode(msg))
 	return err == nil
 }
 
+// encode returns the data to publish for a message. The message type is part of the data only
+// when it's required: a zero byte, which never starts a serialized text message, followed by the type.
+func encode(msg neffos.Message) []byte {
+	b := msg.Serialize()
+	if msg.SetBinary {
+		return append([]byte{0, byte(neffos.BinaryMessage)}, b...)
+	}
+	if len(b) > 0 && b[0] == 0 { // native message.
+		return append([]byte{0, byte(neffos.TextMessage)}, b...)
+	}
+	return b
+}
+
+func decode(b []byte) (neffos.MessageType, []byte) {
+	if len(b) > 1 && b[0] == 0 {
+		return neffos.MessageType(b[1]), b[2:]
+	}
+	return neffos.TextMessage, b
+}
+
 func (exc *StackExchange) publishCommand(channel string, b []byte) error {
 	cmd := radix.FlatCmd(nil, "PUBLISH", channel, b)
 	return exc.pool.Do(cmd)
@@ -268,7 +289,8 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	case <-ctx.Done():
 		err = ctx.Err()
 	case redisMsg := <-msgCh:
-		response = neffos.DeserializeMessage(neffos.TextMessage, redisMsg.Message, false, false)
+		typ, b := decode(redisMsg.Message)
+		response = neffos.DeserializeMessage(typ, b, false, false)
 		err = response.Err
 	}
 
@@ -278,7 +300,7 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 // NotifyAsk notifies and unblocks a "msg" subscriber, called on a server connection's read when expects a result.
 func (exc *StackExchange) NotifyAsk(msg neffos.Message, token string) error {
 	msg.ClearWait()
-	return exc.publishCommand(token, msg.Serialize())
+	return exc.publishCommand(token, encode(msg))
 }
 
 // Subscribe subscribes to a specific namespace,
-- 
2.43.0


From 364669e3e8fd4506de18598ff1cf07bbc2c7437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:21 +0000
Subject: [PATCH 35/54] fix: redis exchange used namespaces and connection IDs
 as patterns

---
 stackexchange/redis/stackexchange_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 0194147..9c51f6e 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -157,7 +157,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.subscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
-				sub.pubSub.PSubscribe(sub.msgCh, channel)
+				sub.pubSub.Subscribe(sub.msgCh, channel)
 				// neffos.Debugf("[%s] subscribed to [%s] for namespace [%s]", m.conn.ID(), channel, m.namespace)
 				//	} else {
 				// neffos.Debugf("[%s] tried to subscribe to [%s] namespace before 'OnConnect.addSubscriber'!", m.conn.ID(), m.namespace)
@@ -166,7 +166,7 @@ func (exc *StackExchange) run() {
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", channel)
-				sub.pubSub.PUnsubscribe(sub.msgCh, channel)
+				sub.pubSub.Unsubscribe(sub.msgCh, channel)
 			}
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
@@ -218,7 +218,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 		msgCh:  redisMsgCh,
 	}
 	selfChannel := exc.getChannel("", "", c.ID())
-	pubSub.PSubscribe(redisMsgCh, selfChannel)
+	pubSub.Subscribe(redisMsgCh, selfChannel)
 
 	exc.addSubscriber <- s
 
-- 
2.43.0


From 7389421e597a0663a342af798bee2b572f9409de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 36/54] fix: redis exchange mixed up a connection's messages
 with those of a namespace named as its ID

---
 stackexchange/redis/stackexchange_redis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 9c51f6e..40f6972 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -183,7 +183,8 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.channel + "." + connID + "."
+		// It differs from the channel of a namespace with the same name.
+		return exc.channel + "@" + connID + "."
 	}
 
 	if namespace == "" && room != "" {
-- 
2.43.0


From a50fc8c9ca0636f141157ec52e6118c9f509e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:01 +0000
Subject: [PATCH 37/54] fix: redis exchange's Ask never returned when a second
 reply arrived

---
 stackexchange/redis/stackexchange_redis.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 40f6972..92c1f5d 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -276,11 +276,20 @@ func (exc *StackExchange) publishCommand(channel string, b []byte) error {
 func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token string) (response neffos.Message, err error) {
 	sub := radix.PersistentPubSub("", "", exc.connFunc)
 	msgCh := make(chan radix.PubSubMessage)
+	defer func() {
+		// Nobody waits for more replies, let the subscriber deliver the rest of them, otherwise it can't close.
+		go func() {
+			for range msgCh {
+			}
+		}()
+		sub.Close()
+		close(msgCh)
+	}()
+
 	err = sub.Subscribe(msgCh, token)
 	if err != nil {
 		return
 	}
-	defer sub.Close()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 9d29583085f117dbc2c7e84f9cbd298daf5b3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:56 +0000
Subject: [PATCH 38/54] fix: nats exchange delivered binary messages as text
 ones

---
 stackexchange/nats/stackexchange_nats.go | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..fb8e008 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -239,7 +239,7 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 
 func makeMsgHandler(c *neffos.Conn) nats.MsgHandler {
 	return func(m *nats.Msg) {
-		msg := c.DeserializeMessage(neffos.TextMessage, m.Data)
+		msg := c.DeserializeMessage(decode(m.Data))
 		msg.FromStackExchange = true
 
 		c.Write(msg)
@@ -297,7 +297,7 @@ func (exc *StackExchange) Publish(msgs []neffos.Message) bool {
 
 func (exc *StackExchange) publish(msg neffos.Message) bool {
 	subject := exc.getSubject(msg.Namespace, msg.Room, msg.To)
-	b := msg.Serialize()
+	b := encode(msg)
 
 	err := exc.publisher.Publish(subject, b)
 	// Let's not add logging options, let
@@ -305,6 +305,26 @@ func (exc *StackExchange) publish(msg neffos.Message) bool {
 	return err == nil
 }
 
+// encode returns the data to publish for a message. The message type is part of the data only
+// when it's required: a zero byte, which never starts a serialized text message, followed by the type.
+func encode(msg neffos.Message) []byte {
+	b := msg.Serialize()
+	if msg.SetBinary {
+		return append([]byte{0, byte(neffos.BinaryMessage)}, b...)
+	}
+	if len(b) > 0 && b[0] == 0 { // native message.
+		return append([]byte{0, byte(neffos.TextMessage)}, b...)
+	}
+	return b
+}
+
+func decode(b []byte) (neffos.MessageType, []byte) {
+	if len(b) > 1 && b[0] == 0 {
+		return neffos.MessageType(b[1]), b[2:]
+	}
+	return neffos.TextMessage, b
+}
+
 // Ask implements server Ask for nats. It blocks.
 func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token string) (response neffos.Message, err error) {
 	// for some reason we can't use the exc.publisher.Subscribe,
@@ -317,7 +337,8 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 
 	ch := make(chan neffos.Message)
 	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+		typ, b := decode(m.Data)
+		ch <- neffos.DeserializeMessage(typ, b, false, false)
 	})
 
 	if err != nil {
@@ -342,7 +363,7 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 // NotifyAsk notifies and unblocks a "msg" subscriber, called on a server connection's read when expects a result.
 func (exc *StackExchange) NotifyAsk(msg neffos.Message, token string) error {
 	msg.ClearWait()
-	err := exc.publisher.Publish(token, msg.Serialize())
+	err := exc.publisher.Publish(token, encode(msg))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b3a3eda23fbeced9c3de68f7eec26ba9f877ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:23 +0000
Subject: [PATCH 39/54] fix: nats exchange used namespaces and connection IDs
 as subjects as they are

---
 stackexchange/nats/stackexchange_nats.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index fb8e008..1532b1d 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -2,6 +2,7 @@ package nats
 
 import (
 	"context"
+	"net/url"
 	"strings"
 	"sync"
 
@@ -226,7 +227,7 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.SubjectPrefix + "." + connID
+		return exc.SubjectPrefix + "." + subjectToken(connID)
 	}
 
 	if namespace == "" && room != "" {
@@ -234,7 +235,17 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		panic("namespace cannot be empty when sending to a namespace's room")
 	}
 
-	return exc.SubjectPrefix + "." + namespace
+	return exc.SubjectPrefix + "." + subjectToken(namespace)
+}
+
+// subjectToken returns a valid nats subject token for any namespace or connection ID,
+// which may be empty or contain spaces, dots and wildcards.
+func subjectToken(s string) string {
+	if s == "" {
+		return "%" // never the result of an escape.
+	}
+
+	return strings.ReplaceAll(url.PathEscape(s), ".", "%2E")
 }
 
 func makeMsgHandler(c *neffos.Conn) nats.MsgHandler {
-- 
2.43.0


From 64592489a33b902862743ada612ab3b2412b4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:53 +0000
Subject: [PATCH 40/54] fix: nats exchange mixed up a connection's messages
 with those of a namespace named as its ID

---
 stackexchange/nats/stackexchange_nats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 1532b1d..54a656c 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -227,7 +227,8 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.SubjectPrefix + "." + subjectToken(connID)
+		// It differs from the subject of a namespace with the same name.
+		return exc.SubjectPrefix + ".conn." + subjectToken(connID)
 	}
 
 	if namespace == "" && room != "" {
-- 
2.43.0


From 67ed571a1feaded5a975c998aa64f829880f8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 41/54] fix: redis exchange panicked on a broadcast to a room
 of the empty namespace

---
 stackexchange/redis/stackexchange_redis.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 92c1f5d..04de594 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -187,11 +187,6 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 		return exc.channel + "@" + connID + "."
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
-	}
-
 	return exc.channel + "." + namespace + "."
 }
 
-- 
2.43.0


From b272dc5011c80b561e4fbedc33282d4b12bf7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 42/54] fix: nats exchange panicked on a broadcast to a room of
 the empty namespace

---
 stackexchange/nats/stackexchange_nats.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 54a656c..134ee74 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -231,11 +231,6 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		return exc.SubjectPrefix + ".conn." + subjectToken(connID)
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
-	}
-
 	return exc.SubjectPrefix + "." + subjectToken(namespace)
 }
 
-- 
2.43.0


From bab8dd9b990daa20b9f10902e5332f95d915a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:07 +0000
Subject: [PATCH 43/54] fix: nats exchange's Ask left a goroutine behind when a
 second reply arrived, and a connection on errors

---
 stackexchange/nats/stackexchange_nats.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 134ee74..6a943ae 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -342,19 +342,22 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return
 	}
 
-	ch := make(chan neffos.Message)
-	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
+	defer subConn.Close()
+
+	// only the first reply is expected, any other one should not block the subscription.
+	ch := make(chan neffos.Message, 1)
+	_, err = subConn.Subscribe(token, func(m *nats.Msg) {
 		typ, b := decode(m.Data)
-		ch <- neffos.DeserializeMessage(typ, b, false, false)
+		select {
+		case ch <- neffos.DeserializeMessage(typ, b, false, false):
+		default:
+		}
 	})
 
 	if err != nil {
 		return response, err
 	}
 
-	defer sub.Unsubscribe()
-	defer subConn.Close()
-
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
 	}
-- 
2.43.0


From dccdb6e667d22115ebf649575514e429cb341c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:18 +0000
Subject: [PATCH 44/54] fix: nats exchange's Ask could miss the reply of a
 message published before its subscription

---
 stackexchange/nats/stackexchange_nats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 6a943ae..13c28d4 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -358,6 +358,11 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return response, err
 	}
 
+	// the server must know about the subscription before any reply.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
+
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
 	}
-- 
2.43.0


From cb3f9e936f785b95bf3a1bd3361eb228df7d1f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:30 +0000
Subject: [PATCH 45/54] fix: nats exchange leaked a connection's subscriber
 that ended while it was reconnecting

---
 stackexchange/nats/stackexchange_nats.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 13c28d4..7898eb7 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -212,9 +212,8 @@ func (exc *StackExchange) run() {
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
-				if sub.subConn.IsConnected() {
-					sub.subConn.Close()
-				}
+				// close it even if it's reconnecting, otherwise it subscribes again later on.
+				sub.subConn.Close()
 
 				delete(exc.subscribers, m.conn)
 			}
-- 
2.43.0


From c3236c3b129220356558bcc7eae37e58c7a213c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:29 +0000
Subject: [PATCH 46/54] fix: nats exchange leaked the broker connection of a
 refused connection

---
 stackexchange/nats/stackexchange_nats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 7898eb7..5e62cc4 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -268,6 +268,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -276,6 +277,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
-- 
2.43.0


From c303bcd6ec7d703ea5bf3eb50af0556afe12c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 47/54] fix: broadcasts through an exchange didn't reach
 connections of native messages only

---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 7761f2f..1a3482c 100644
--- a/server.go
+++ b/server.go
@@ -356,6 +356,10 @@ func (s *Server) Upgrade(
 	var excErr error
 	if s.usesStackExchange() {
 		excErr = s.StackExchange.OnConnect(c)
+		if excErr == nil && c.shouldHandleOnlyNativeMessages {
+			// its namespace is already connected.
+			s.StackExchange.Subscribe(c, "")
+		}
 	}
 
 	s.connect <- c
-- 
2.43.0


From 370faed52fc67ed12f4933b3dadee3b6123b801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 48/54] fix: redis exchange sent native messages to the
 excluded connection too

---
 stackexchange/redis/stackexchange_redis.go | 42 +++++++++++++++-------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 04de594..680a88f 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"context"
+	"encoding/binary"
 	"math/rand"
 	"time"
 
@@ -199,8 +200,11 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	go func() {
 		for redisMsg := range redisMsgCh {
 			// neffos.Debugf("[%s] send to client: [%s]", c.ID(), string(redisMsg.Message))
-			typ, b := decode(redisMsg.Message)
+			typ, except, b := decode(redisMsg.Message)
 			msg := c.DeserializeMessage(typ, b)
+			if except != "" {
+				msg.FromExplicit = except
+			}
 			msg.FromStackExchange = true
 
 			c.Write(msg)
@@ -242,24 +246,38 @@ func (exc *StackExchange) publish(msg neffos.Message) bool {
 	return err == nil
 }
 
-// encode returns the data to publish for a message. The message type is part of the data only
-// when it's required: a zero byte, which never starts a serialized text message, followed by the type.
+// encode returns the data to publish for a message. Those of binary and native messages, which don't contain everything,
+// start with a zero byte, which never starts a serialized text message,
+// followed by the message type and the excluded connection.
 func encode(msg neffos.Message) []byte {
 	b := msg.Serialize()
+	if !msg.SetBinary && !msg.IsNative {
+		return b
+	}
+
+	header := []byte{0, byte(neffos.TextMessage)}
 	if msg.SetBinary {
-		return append([]byte{0, byte(neffos.BinaryMessage)}, b...)
+		header[1] = byte(neffos.BinaryMessage)
 	}
-	if len(b) > 0 && b[0] == 0 { // native message.
-		return append([]byte{0, byte(neffos.TextMessage)}, b...)
+
+	except := ""
+	if msg.IsNative {
+		except = msg.FromExplicit
 	}
-	return b
+	header = binary.AppendUvarint(header, uint64(len(except)))
+	header = append(header, except...)
+	return append(header, b...)
 }
 
-func decode(b []byte) (neffos.MessageType, []byte) {
-	if len(b) > 1 && b[0] == 0 {
-		return neffos.MessageType(b[1]), b[2:]
+func decode(b []byte) (typ neffos.MessageType, except string, payload []byte) {
+	if len(b) > 2 && b[0] == 0 {
+		if size, n := binary.Uvarint(b[2:]); n > 0 && size <= uint64(len(b)-2-n) {
+			rest := b[2+n:]
+			return neffos.MessageType(b[1]), string(rest[:size]), rest[size:]
+		}
 	}
-	return neffos.TextMessage, b
+
+	return neffos.TextMessage, "", b
 }
 
 func (exc *StackExchange) publishCommand(channel string, b []byte) error {
@@ -294,7 +312,7 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	case <-ctx.Done():
 		err = ctx.Err()
 	case redisMsg := <-msgCh:
-		typ, b := decode(redisMsg.Message)
+		typ, _, b := decode(redisMsg.Message)
 		response = neffos.DeserializeMessage(typ, b, false, false)
 		err = response.Err
 	}
-- 
2.43.0


From de559d22ebeeaeb0a9784befd5ce8e03380e04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 49/54] fix: nats exchange sent native messages to the excluded
 connection too

---
 stackexchange/nats/stackexchange_nats.go | 43 +++++++++++++++++-------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 5e62cc4..682c951 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -2,6 +2,7 @@ package nats
 
 import (
 	"context"
+	"encoding/binary"
 	"net/url"
 	"strings"
 	"sync"
@@ -245,7 +246,11 @@ func subjectToken(s string) string {
 
 func makeMsgHandler(c *neffos.Conn) nats.MsgHandler {
 	return func(m *nats.Msg) {
-		msg := c.DeserializeMessage(decode(m.Data))
+		typ, except, b := decode(m.Data)
+		msg := c.DeserializeMessage(typ, b)
+		if except != "" {
+			msg.FromExplicit = except
+		}
 		msg.FromStackExchange = true
 
 		c.Write(msg)
@@ -313,24 +318,38 @@ func (exc *StackExchange) publish(msg neffos.Message) bool {
 	return err == nil
 }
 
-// encode returns the data to publish for a message. The message type is part of the data only
-// when it's required: a zero byte, which never starts a serialized text message, followed by the type.
+// encode returns the data to publish for a message. Those of binary and native messages, which don't contain everything,
+// start with a zero byte, which never starts a serialized text message,
+// followed by the message type and the excluded connection.
 func encode(msg neffos.Message) []byte {
 	b := msg.Serialize()
+	if !msg.SetBinary && !msg.IsNative {
+		return b
+	}
+
+	header := []byte{0, byte(neffos.TextMessage)}
 	if msg.SetBinary {
-		return append([]byte{0, byte(neffos.BinaryMessage)}, b...)
+		header[1] = byte(neffos.BinaryMessage)
 	}
-	if len(b) > 0 && b[0] == 0 { // native message.
-		return append([]byte{0, byte(neffos.TextMessage)}, b...)
+
+	except := ""
+	if msg.IsNative {
+		except = msg.FromExplicit
 	}
-	return b
+	header = binary.AppendUvarint(header, uint64(len(except)))
+	header = append(header, except...)
+	return append(header, b...)
 }
 
-func decode(b []byte) (neffos.MessageType, []byte) {
-	if len(b) > 1 && b[0] == 0 {
-		return neffos.MessageType(b[1]), b[2:]
+func decode(b []byte) (typ neffos.MessageType, except string, payload []byte) {
+	if len(b) > 2 && b[0] == 0 {
+		if size, n := binary.Uvarint(b[2:]); n > 0 && size <= uint64(len(b)-2-n) {
+			rest := b[2+n:]
+			return neffos.MessageType(b[1]), string(rest[:size]), rest[size:]
+		}
 	}
-	return neffos.TextMessage, b
+
+	return neffos.TextMessage, "", b
 }
 
 // Ask implements server Ask for nats. It blocks.
@@ -348,7 +367,7 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	// only the first reply is expected, any other one should not block the subscription.
 	ch := make(chan neffos.Message, 1)
 	_, err = subConn.Subscribe(token, func(m *nats.Msg) {
-		typ, b := decode(m.Data)
+		typ, _, b := decode(m.Data)
 		select {
 		case ch <- neffos.DeserializeMessage(typ, b, false, false):
 		default:
-- 
2.43.0


From fb38fce7893702d8e8797c4d83d5ea3b9a19de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:16 +0000
Subject: [PATCH 50/54] fix: WaitConnect inside an event callback blocked the
 reader it waits for

---
 conn.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index d2e60b7..0de57fc 100644
--- a/conn.go
+++ b/conn.go
@@ -403,6 +403,14 @@ func (c *Conn) startReader() {
 	}
 }
 
+// releaseReader should be called before waiting for something that the remote side is going to send:
+// if called by a message handler then its reader can't read it.
+func (c *Conn) releaseReader() {
+	if atomic.CompareAndSwapUint64(c.handlingReader, goroutineID(), 0) {
+		go c.startReader()
+	}
+}
+
 // goroutineID returns the unique identifier of the current goroutine, it's the second field of its stack trace.
 func goroutineID() uint64 {
 	var b [64]byte
@@ -649,6 +657,7 @@ func (c *Conn) WaitConnect(ctx context.Context, namespace string) (ns *NSConn, e
 				return
 			}
 
+			c.releaseReader()
 			time.Sleep(syncWaitDur)
 		}
 	}
@@ -1125,10 +1134,7 @@ func (c *Conn) ask(ctx context.Context, msg Message, needed func() bool, onReply
 		return Message{}, err
 	}
 
-	// if called by a message handler then its reader can't read the reply.
-	if atomic.CompareAndSwapUint64(c.handlingReader, goroutineID(), 0) {
-		go c.startReader()
-	}
+	c.releaseReader()
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 789b4004e1fc5f9d842a7c7ba6cbe54b60c13f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 51/54] fix: WaitConnect never returned when its connection was
 closed

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 0de57fc..99b4db4 100644
--- a/conn.go
+++ b/conn.go
@@ -657,6 +657,10 @@ func (c *Conn) WaitConnect(ctx context.Context, namespace string) (ns *NSConn, e
 				return
 			}
 
+			if c.IsClosed() {
+				return nil, ErrWrite
+			}
+
 			c.releaseReader()
 			time.Sleep(syncWaitDur)
 		}
-- 
2.43.0


From b081eda89e9945690822713cc1aac46ce60e4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:36 +0000
Subject: [PATCH 52/54] fix: LeaveAll gave up with a write error when another
 call left one of its rooms

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 99b4db4..93a359c 100644
--- a/conn.go
+++ b/conn.go
@@ -1123,7 +1123,9 @@ func (c *Conn) ask(ctx context.Context, msg Message, needed func() bool, onReply
 		c.agreementMutex.Lock()
 	}
 	if needed == nil || needed() {
-		if sent = c.Write(msg); !sent {
+		sent = c.Write(msg)
+		// not an error if it's not needed anymore (i.e left by another call in the meantime).
+		if !sent && (needed == nil || needed() || c.IsClosed()) {
 			err = ErrWrite
 		}
 	}
-- 
2.43.0


From 84d9c6ecceec104a63d0f2cb0b3d9d42c4619e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 53/54] fix: messages sent before the handshake keep their
 order when one of their callbacks waits for a reply

---
 conn.go | 53 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/conn.go b/conn.go
index 93a359c..74df8fa 100644
--- a/conn.go
+++ b/conn.go
@@ -100,8 +100,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      []queuedPayload
-	queueMutex sync.Mutex
+	queue []queuedPayload
 
 	// used to fire `conn#Close` once.
 	closed *uint32
@@ -368,6 +367,12 @@ func (c *Conn) startReader() {
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
+		// The messages that came before the ACK are first,
+		// a reader that takes over continues with the rest of them.
+		if !c.handleQueue(reader) {
+			return
+		}
+
 		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
 		if err != nil {
 			c.readiness.unwait(err)
@@ -379,30 +384,29 @@ func (c *Conn) startReader() {
 			continue
 		}
 
-		acknowledged := c.isAcknowledged()
-		if !acknowledged {
+		if !c.isAcknowledged() {
 			if !c.handleACK(msgTyp, b) {
 				c.Close()
 				return
 			}
 
-			if !c.isAcknowledged() {
-				continue
-			}
+			continue
 		}
 
-		atomic.StoreUint64(c.handlingReader, reader)
-		if acknowledged {
-			c.HandlePayload(msgTyp, b)
-		} else {
-			c.handleQueue()
-		}
-		if !atomic.CompareAndSwapUint64(c.handlingReader, reader, 0) {
-			return // a new reader took over.
+		if !c.handleRead(reader, msgTyp, b) {
+			return
 		}
 	}
 }
 
+// handleRead handles a payload on the reader's goroutine,
+// it reports whether it is still the reader.
+func (c *Conn) handleRead(reader uint64, msgTyp MessageType, b []byte) bool {
+	atomic.StoreUint64(c.handlingReader, reader)
+	c.HandlePayload(msgTyp, b)
+	return atomic.CompareAndSwapUint64(c.handlingReader, reader, 0) // otherwise a new reader took over.
+}
+
 // releaseReader should be called before waiting for something that the remote side is going to send:
 // if called by a message handler then its reader can't read it.
 func (c *Conn) releaseReader() {
@@ -473,24 +477,23 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		c.readiness.unwait(err)
 		return false
 	default:
-		c.queueMutex.Lock()
 		c.queue = append(c.queue, queuedPayload{msgTyp, b})
-		c.queueMutex.Unlock()
 	}
 
 	return true
 
 }
 
-func (c *Conn) handleQueue() {
-	c.queueMutex.Lock()
-	queue := c.queue
-	c.queue = nil
-	c.queueMutex.Unlock()
-
-	for _, q := range queue {
-		c.HandlePayload(q.msgTyp, q.payload)
+func (c *Conn) handleQueue(reader uint64) bool {
+	for len(c.queue) > 0 && c.isAcknowledged() {
+		q := c.queue[0]
+		c.queue = c.queue[1:]
+		if !c.handleRead(reader, q.msgTyp, q.payload) {
+			return false
+		}
 	}
+
+	return true
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From 434466973f7730fb2ddf75badaec79c386badecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 54/54] fix: LeaveAll and DisconnectAll report a refusal
 whatever its error is

---
 conn.go           | 2 +-
 conn_namespace.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 74df8fa..5e0cb91 100644
--- a/conn.go
+++ b/conn.go
@@ -850,7 +850,7 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
 	for _, ns := range c.namespacesCopy() {
 		disconnectMsg.Namespace = ns.namespace
-		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && err != ErrBadNamespace { // may be disconnected so far.
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && (err != ErrBadNamespace || c.Namespace(ns.namespace) != nil) { // may be disconnected so far.
 			return err
 		}
 	}
diff --git a/conn_namespace.go b/conn_namespace.go
index 380e4f6..fa3172a 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -146,7 +146,7 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
 	for _, room := range ns.Rooms() {
 		leaveMsg.Room = room.Name
-		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && err != ErrBadRoom { // may be left so far.
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && (err != ErrBadRoom || ns.Room(room.Name) != nil) { // may be left so far.
 			return err
 		}
 	}
-- 
2.43.0

