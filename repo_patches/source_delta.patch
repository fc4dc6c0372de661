From 8abf77d4235c3bd93e54b012f282cbe4f95aa4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 01/36] fix: ltrim changes the list, so classify it as a
 modifying command

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 0da1489e7ebbe46904a38c19d5d480f073f88e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 02/36] fix: write the log record before executing, in command
 order

---
 pkg/db/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..1638ec8 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -122,7 +122,7 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From bf1c39c67846a0456f5442fda2c4cb677fdeda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 03/36] fix: hset, sadd and srem on the empty key dereferenced
 a nil container

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..66f4ee1 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.result = protocol.NewRedisInteger(0)
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From 8162209850a6a224666cf91a72936e26c4c38f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 04/36] fix: spop and srandmember without a count indexed an
 empty result

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 66f4ee1..e02de8c 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -601,7 +601,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -723,7 +723,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From d7fb905170caa13ca21288a65281a52faa128530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 05/36] fix: a negative bulk string length crashed the RESP
 reader

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..7529c35 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
-- 
2.43.0


From 4b120a45158d57c37cd02b273b649929330f0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 06/36] fix: LREM and LINSERT compared user data with the
 list's sentinel nodes

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From 2f7d7c57e6f3163b226f648b0216b72d0cae3731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 07/36] fix: reading or writing a closed conn blocked forever

---
 pkg/network/conn.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..667d10f 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -73,8 +73,20 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 	return c
 }
 
+// touch restarts the expire timer. The worker receiving it is gone once the conn is closed.
+func (c *conn) touch() error {
+	select {
+	case c.resetChan <- 0:
+		return nil
+	case <-c.closeChan:
+		return ErrConnIsClosed
+	}
+}
+
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if err := c.touch(); err != nil {
+		return nil, err
+	}
 
 	obj, err := c.reader.ReadObject()
 
@@ -97,7 +109,9 @@ func (c *conn) Write(s string) error {
 		return ErrConnIsClosed
 	}
 
-	c.resetChan <- 0
+	if err := c.touch(); err != nil {
+		return err
+	}
 
 	n, err := c.tcpConn.Write([]byte(s))
 
-- 
2.43.0


From fde3c97312a24569c99c124dc0b589f628d1f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 08/36] fix: stopping the engine without replication or a
 database file panicked

---
 pkg/db/engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 1638ec8..b2e7b2e 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -197,8 +197,14 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
+
 	close(e.shutChan)
 }
 
-- 
2.43.0


From 9527a92347d61a7f802c0c0659c869dff0a27878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 09/36] fix: Serve could return before a concurrent stop
 flushed the log

---
 pkg/network/server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..066022c 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -10,7 +10,6 @@ import (
 	"reflect"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -52,7 +51,7 @@ type server struct {
 	eventBus         concurrency.EventBus
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
-	shutdown         int32
+	stopOnce         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -65,7 +64,6 @@ func NewServer() Server {
 		tcpListener:      nil,
 		eventBus:         concurrency.GetEventBus(),
 		shutChan:         nil,
-		shutdown:         0,
 		responseReceiver: nil,
 		cleanUpHandles:   nil,
 		clients:          sync.Map{},
@@ -281,7 +279,8 @@ Outer:
 }
 
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	// Every caller waits until the shutdown is finished, so Serve never returns before the log is flushed
+	s.stopOnce.Do(func() {
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -299,7 +298,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 08df4c2013a31f8552385c06e20093e9ac7c1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 10/36] fix: shutdown never closed the client connections

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 066022c..027aa6a 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -290,7 +290,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From fb59474652d475fa4068c313cab141a59aac7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 11/36] fix: close and forget a connection when its read loop
 ends

---
 pkg/network/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 027aa6a..34c867b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -186,6 +186,11 @@ func (s *server) newConn(conn net.Conn) {
 	s.clients.Store(c.ID(), c)
 
 	go func() {
+		defer func() {
+			s.clients.Delete(c.ID())
+			_ = c.Close()
+		}()
+
 		for {
 			request, err := c.Read()
 			if errors.Is(err, ErrConnIsClosed) {
-- 
2.43.0


From 4729666520ec71b6198e144d9ab49c77d3c3d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 12/36] fix: stopping the master closes its listener and holds
 the lock over its conns

---
 pkg/replication/master.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..2cbec77 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From ad2778a0d77b7dfcf8e1ba37cac5e2a931f2b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 13/36] fix: release the conn, its registration and the log
 file on every exit of a transfer

---
 pkg/replication/master.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 2cbec77..73db8d4 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -94,18 +94,25 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
 	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
 
 	m.mutex.Lock()
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -130,6 +137,8 @@ func (m *master) handleConn(conn net.Conn) {
 		return
 	}
 
+	defer func() { _ = rawFile.Close() }()
+
 	n, err := io.Copy(tmpFile, rawFile)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
@@ -172,10 +181,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From ee72b4a0faf91b5cd45273b12756efa9914e6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 14/36] fix: a transient accept error ended the replication
 listener

---
 pkg/replication/master.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 73db8d4..0211b7f 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -70,7 +70,7 @@ func (m *master) start() {
 					break Outer
 				} else {
 					common.Warnf("tcp listen error. err=%s", err)
-					break
+					continue
 				}
 			}
 
-- 
2.43.0


From 59ecd568fddbfc02cd9c36d9f23e96b5acf203c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 15/36] fix: close the connection to the master after the sync

---
 pkg/network/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 34c867b..ae5362d 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -325,6 +325,8 @@ func (s *server) fromMaster(addr string) {
 		return
 	}
 
+	defer func() { _ = conn.Close() }()
+
 	r := replication.NewReplica(conn)
 	logs, err := r.Receive()
 
-- 
2.43.0


From 9122bba439d4229b98c28c1c81f3f8aa6d2aca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 16/36] fix: a truncated length header was taken for a clean
 end of the log

---
 pkg/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..d8c5080 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -99,14 +99,14 @@ func QuoteJoin(s []string, sep string) string {
 }
 
 // ReadExactBytes will takes an ByteReader then read exact count bytes to a byte slice.
-// Any error raised by the ByteReader will be directly returned.
+// Any error raised by the ByteReader will be directly returned, with the bytes read before it.
 func ReadExactBytes(reader io.ByteReader, count int) ([]byte, error) {
 	var ret []byte
 
 	for idx := 0; idx < count; idx++ {
 		b, err := reader.ReadByte()
 		if err != nil {
-			return nil, err
+			return ret, err
 		}
 
 		ret = append(ret, b)
-- 
2.43.0


From 2edef7eac9776b718bcb35fad85810442f0e3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 17/36] fix: error replies echoed client bytes, a CRLF in them
 desynchronised the client

---
 pkg/db/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index b2e7b2e..2787c40 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -287,8 +287,8 @@ func handleError(err error) protocol.RedisError {
 		return protocol.NewRedisError("ERR index out of range")
 	}
 
-	// TODO: do not send raw error
-	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%+v", err))
+	// The raw error holds client data, which may break the reply line. It is only logged.
+	return protocol.NewRedisError("ERR vertex server internal error")
 }
 
 func (e *engine) SetFile(file *os.File, filePath string) {
-- 
2.43.0


From f826fa7ed73527a97cfc0924e1f64a590b94234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 18/36] fix: a future could be cancelled twice, or both
 cancelled and fulfilled

---
 pkg/concurrency/future.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..905f61a 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync/atomic"
 	"time"
 )
 
@@ -44,6 +45,7 @@ type future struct {
 	task       Task
 	result     interface{}
 	err        error
+	settled    int32
 	doneChan   chan struct{}
 	cancelChan chan struct{}
 }
@@ -67,25 +69,25 @@ func NewFuture(task Task) Future {
 func (f *future) start() {
 	go func() {
 		f.result, f.err = f.task.Run()
-		select {
-		// Already cancelled, leaves the doneChan open
-		case <-f.cancelChan:
-			return
-		default:
+		// If already cancelled, leaves the doneChan open
+		if atomic.CompareAndSwapInt32(&f.settled, 0, 1) {
 			close(f.doneChan)
 		}
 	}()
 }
 
 func (f *future) Cancel() error {
+	if atomic.CompareAndSwapInt32(&f.settled, 0, 1) {
+		close(f.cancelChan)
+		return nil
+	}
+
+	// Someone else settled it, one of the channels is closed or just about to be
 	select {
 	case <-f.doneChan:
 		return ErrFulfilled
 	case <-f.cancelChan:
 		return ErrCancelled
-	default:
-		close(f.cancelChan)
-		return nil
 	}
 }
 
-- 
2.43.0


From 0a6136c7b527ef4bb68eda69071457b2e6dc277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 19/36] fix: setting a broadcaster twice panicked

---
 pkg/concurrency/broadcast.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/broadcast.go b/pkg/concurrency/broadcast.go
index 98e0bec..eba1d57 100644
--- a/pkg/concurrency/broadcast.go
+++ b/pkg/concurrency/broadcast.go
@@ -1,5 +1,7 @@
 package concurrency
 
+import "sync"
+
 // BroadCaster is a simple message wrapper.
 //
 // It provides the semantic for 1 to M message consumers, no error will be produced.
@@ -14,6 +16,7 @@ type BroadCaster interface {
 
 type broadCaster struct {
 	message      interface{}
+	setOnce      sync.Once
 	readyChannel chan bool
 }
 
@@ -26,8 +29,10 @@ func NewBroadCaster() BroadCaster {
 }
 
 func (bc *broadCaster) Set(message interface{}) {
-	bc.message = message
-	close(bc.readyChannel)
+	bc.setOnce.Do(func() {
+		bc.message = message
+		close(bc.readyChannel)
+	})
 }
 
 func (bc *broadCaster) Get() interface{} {
-- 
2.43.0


From cd97b5533b5b445fd8f6b69230680ce4a9d4011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 20/36] fix: the closed subscribers were read while still being
 collected

---
 pkg/concurrency/topic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..f1dfb72 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -80,11 +80,14 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	var successCount int32
 
 	ch := make(chan string)
+	collected := make(chan struct{})
 
 	go func() {
 		for key := range ch {
 			closedKeys = append(closedKeys, key)
 		}
+
+		close(collected)
 	}()
 
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
@@ -113,6 +116,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	successChan <- successCount
 	close(ch)
 
+	<-collected
 	go t.batchRemove(closedKeys)
 }
 
-- 
2.43.0


From fd2c70a712aea26291abbd645fa7b503ab2d70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 21/36] fix: a closed data channel accepted events and left a
 blocked Receive waiting

---
 pkg/concurrency/data_channel.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..b82a548 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -56,7 +56,7 @@ type Sender interface {
 
 type receiver struct {
 	dataChannel  <-chan Event
-	closeChannel chan<- struct{}
+	closeChannel chan struct{}
 	closed       int32
 }
 
@@ -117,7 +117,12 @@ func (r *receiver) Receive() (Event, error) {
 		return nil, ErrChannelClosed
 	}
 
-	return <-r.dataChannel, nil
+	select {
+	case event := <-r.dataChannel:
+		return event, nil
+	case <-r.closeChannel:
+		return nil, ErrChannelClosed
+	}
 }
 
 func (r *receiver) Close() {
@@ -127,6 +132,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// A closed channel wins over free buffer space
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 5efb2d7640a7a0591bcbd4d660210cddc66cf95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 22/36] fix: concurrent Set or Remove of one key made the size
 of a syncDataMap drift

---
 pkg/types/data_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..92b434b 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -108,6 +108,7 @@ func (ldm *lockedDataMap) Len() int {
 type syncDataMap struct {
 	container sync.Map
 	size      int32
+	mutex     sync.Mutex
 }
 
 // NewSyncDataMap returns a new syncDataMap instance
@@ -118,6 +119,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,6 +143,9 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
-- 
2.43.0


From 7f210b3d9e8ab78b838e65fc1b05d24fbdf7f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 23/36] fix: formatted log calls passed their arguments as one
 slice

---
 pkg/common/logging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index 838894c..c66312d 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -98,7 +98,7 @@ func Debug(log string) {
 // Debugf works like Printf and works same as Debug
 func Debugf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Debugf(template, a)
+		logger.Debugf(template, a...)
 	}
 }
 
@@ -112,7 +112,7 @@ func Info(log string) {
 // Infof works like Printf and works same as Info
 func Infof(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Infof(template, a)
+		logger.Infof(template, a...)
 	}
 }
 
@@ -126,7 +126,7 @@ func Warn(log string) {
 // Warnf works like Printf and works same as Warn
 func Warnf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Warnf(template, a)
+		logger.Warnf(template, a...)
 	}
 }
 
@@ -159,7 +159,7 @@ func Panic(log string) {
 // Panicf works like Printf and works same as Panic
 func Panicf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Panicf(template, a)
+		logger.Panicf(template, a...)
 	}
 }
 
@@ -174,7 +174,7 @@ func Fatal(log string) {
 // Fatalf works like Printf and works same as Fatal
 func Fatalf(template string, a ...interface{}) {
 	if logger != nil {
-		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a)
-		logger.Fatalf(template, a)
+		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a...)
+		logger.Fatalf(template, a...)
 	}
 }
-- 
2.43.0


From 0d003e4b5132efa5f9402a13b1c4affa40860779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 24/36] fix: a right index before the head wrapped around to
 the tail; releasing a long list recursed once per node

---
 pkg/container/list.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..360c4a8 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -161,6 +161,11 @@ func (l *linkedList) extract(index int) *listNode {
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
 	right = util.NewIndex(right).ResolveRaw(l.size)
 
+	// Still before the first element, it must not be resolved again
+	if right < 0 {
+		return nil, nil
+	}
+
 	if right >= l.size {
 		right = l.size - 1
 	}
@@ -193,15 +198,18 @@ func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
 // mark all pointer to nil, so the GC can properly release them.
 // move from head to tail
 func releaseList(n *listNode) int {
-	if n == nil {
-		return 0
-	}
+	length := 0
 
-	length := releaseList(n.next)
-	n.prev = nil
-	n.next = nil
+	for n != nil {
+		next := n.next
+		n.prev = nil
+		n.next = nil
+
+		n = next
+		length++
+	}
 
-	return length + 1
+	return length
 }
 
 // NewLinkedListContainer will return a new linked list instance which is assigned of the give key
-- 
2.43.0


From 4525cf9c5cdc2e72c9cab44d1c460c87bfd6c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 25/36] fix: the empty string compared equal to every string

---
 pkg/util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index d8c5080..ad0f739 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,6 +69,10 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
+	} else if lhsLen == 0 {
+		return -1
+	} else if rhsLen == 0 {
+		return 1
 	} else if lhsLen < rhsLen {
 		return -lhsLen
 	}
-- 
2.43.0


From 1c7b0eb4e398bfe9bcd97a20146d75459db7629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 26/36] fix: deeply nested arrays overflowed the stack of the
 server

---
 pkg/protocol/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 7529c35..1598918 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,9 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxDepth limits how deep arrays can be nested, each level takes stack
+	maxDepth = 128
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -21,6 +24,7 @@ type RESPReader interface {
 type respReader struct {
 	reader *bufio.Reader
 	token  string
+	depth  int
 }
 
 func (r *respReader) readToken() error {
@@ -135,6 +139,13 @@ func (r *respReader) readArray() (RedisArray, error) {
 		return NewNullRedisArray(), nil
 	}
 
+	if r.depth >= maxDepth {
+		return nil, fmt.Errorf("array is nested too deep. depth=%d", r.depth)
+	}
+
+	r.depth++
+	defer func() { r.depth-- }()
+
 	var objects []RedisObject
 	for i := 0; i < int(aLen); i++ {
 		obj, err := r.readObject()
-- 
2.43.0


From fe05d11cb01b69bb464bc74f46f3a0610bbbb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 27/36] fix: the workers dereferenced a missing event or
 payload when reporting it

---
 pkg/db/engine.go      |  5 ++---
 pkg/network/server.go | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 2787c40..6c671bc 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"net"
 	"os"
-	"reflect"
 	"strings"
 	"sync"
 
@@ -153,7 +152,7 @@ Outer:
 				if errors.Is(err, concurrency.ErrChannelClosed) {
 					break Outer
 				} else {
-					common.Warnf("unexpected error. event_id=%s, err=%+v", event.ID(), err)
+					common.Warnf("unexpected error. err=%+v", err)
 					break
 				}
 			}
@@ -169,7 +168,7 @@ Outer:
 
 			data, ok := event.Data().(types.DataMap)
 			if !ok {
-				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%s", event.ID(), reflect.TypeOf(data).String())
+				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())
 				break
 			}
 
diff --git a/pkg/network/server.go b/pkg/network/server.go
index ae5362d..e9fb9af 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -7,7 +7,6 @@ import (
 	"net"
 	"os"
 	"os/signal"
-	"reflect"
 	"strings"
 	"sync"
 	"syscall"
@@ -240,25 +239,26 @@ Outer:
 		default:
 			event, err := s.responseReceiver.Receive()
 
-			eventErr := event.Error()
-			if eventErr != nil {
-				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
-					break Outer
-				}
-			}
-
+			// No event comes with an error
 			if err != nil {
 				if errors.Is(err, concurrency.ErrChannelClosed) {
 					break Outer
 				} else {
-					common.Warnf("unexpected error. event_id=%s, err=%+v", event.ID(), err)
+					common.Warnf("unexpected error. err=%+v", err)
 					break
 				}
 			}
 
+			eventErr := event.Error()
+			if eventErr != nil {
+				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
+					break Outer
+				}
+			}
+
 			data, ok := event.Data().(types.DataMap)
 			if !ok {
-				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%s", event.ID(), reflect.TypeOf(data).String())
+				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())
 				break
 			}
 
-- 
2.43.0


From 972fb54417686bc88ea4969953f10436d41bff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 28/36] fix: the close message was not a RESP object

---
 pkg/network/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 667d10f..3ff7f57 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -17,7 +17,7 @@ import (
 
 var (
 	defaultExpireTime = 10 * time.Minute
-	closeMessage      = []byte("TTL expired")
+	closeMessage      = protocol.NewRedisError("TTL expired").Byte()
 
 	// ErrConnIsClosed will be raised if do any operation on a closed conn
 	ErrConnIsClosed = errors.New("conn: conn is already closed")
-- 
2.43.0


From 270bd0ce6b1198891115f040bcf87ac18acba905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 29/36] fix: a signal could be missed by the unbuffered channel

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index e9fb9af..8971ecf 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -117,7 +117,7 @@ func (s *server) Init(c common.Config) bool {
 	s.syncExternal(c.DatabaseFile, c.MasterAddress)
 
 	s.shutChan = make(chan struct{})
-	s.sigChan = make(chan os.Signal)
+	s.sigChan = make(chan os.Signal, 1)
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-- 
2.43.0


From b873eadb80dd8a1a676d8af2a95d03a2bc1b13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 30/36] fix: INCR and DECR wrapped around at the int64 bounds

---
 pkg/container/string.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..a27284c 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -3,6 +3,7 @@ package container
 import (
 	"errors"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -129,6 +130,11 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 // The string will be updated too.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		cur := s.intVar.Get()
+		if (increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -141,6 +147,11 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 // The string will be updated too.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		cur := s.intVar.Get()
+		if (decrement > 0 && cur < math.MinInt64+decrement) || (decrement < 0 && cur > math.MaxInt64+decrement) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From 57f707cf0ff0265d26dbcc253669ca83c0f4223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 31/36] fix: commands with arguments that are not UTF-8 were
 missing from the log

---
 pkg/db/engine.go | 6 ++++++
 pkg/log/log.go   | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 6c671bc..4f014e6 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -262,6 +263,11 @@ func convertArguments(s []string) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
+		// Logs written by earlier versions are not quoted
+		if raw, err := strconv.Unquote(item); err == nil {
+			item = raw
+		}
+
 		obj, err := protocol.Parse(strings.NewReader(item))
 		if err != nil {
 			continue
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..4d9062e 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -37,11 +37,12 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 
 	var arguments []string
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		// Quoted, since a proto string cannot hold bytes that are not UTF-8
+		arguments = append(arguments, strconv.Quote(item.String()))
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = strconv.Quote(protocol.NewRedisArray(objects).String())
 
 	return vl
 }
-- 
2.43.0


From 0db3d7a6b9f9ee0ad4f5afce186e6585d5ca39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 32/36] fix: a request that is not an array was never answered

---
 pkg/db/engine.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 4f014e6..166af17 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -94,12 +94,11 @@ func parseRequest(data types.DataMap) (id string, objects []protocol.RedisObject
 		return
 	}
 
-	obj, ok := response.(protocol.RedisArray)
-	if !ok {
-		return
+	// Anything but an array holds no command, the client is answered with an error then
+	if obj, isArray := response.(protocol.RedisArray); isArray {
+		objects = obj.Data()
 	}
 
-	objects = obj.Data()
 	return
 }
 
-- 
2.43.0


From abac488b38ff6294a1b479100841320cd8bfcba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 33/36] fix: HSET and MSET without any pair were logged, HSET
 created the key too

---
 pkg/command/global.go | 2 +-
 pkg/command/hash.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/global.go b/pkg/command/global.go
index f40295e..828b12e 100644
--- a/pkg/command/global.go
+++ b/pkg/command/global.go
@@ -288,7 +288,7 @@ func (s *msetCommand) Name() string {
 func (s *msetCommand) ParseArguments(objects []protocol.RedisObject) error {
 	length := len(objects)
 
-	if length%2 != 0 {
+	if length == 0 || length%2 != 0 {
 		return ErrArgumentInvalid
 	}
 
diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index 50ebed8..a4de328 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -90,7 +90,7 @@ func (h *hsetCommand) Name() string {
 func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 	length := len(objects)
 
-	if length%2 != 1 {
+	if length < 3 || length%2 != 1 {
 		return ErrArgumentInvalid
 	}
 
-- 
2.43.0


From c631ae1f6bef17e34317b6e26649cd8db9be9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 34/36] fix: a log record with an unreadable argument was
 replayed with the remaining ones

---
 pkg/db/engine.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 166af17..ff5bda1 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -235,7 +235,12 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Info("rebuild database by log start")
 
 	for _, vl := range logs {
-		arguments := convertArguments(vl.Arguments)
+		arguments, err := convertArguments(vl.Arguments)
+		if err != nil {
+			common.Warnf("rebuild: invalid argument, log=%s, error={%s}", log.FormatLog(vl), err)
+			continue
+		}
+
 		c, err := command.NewCommand(vl.Name, int(vl.Index), arguments)
 
 		if err != nil || c == nil {
@@ -258,7 +263,7 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s []string) ([]protocol.RedisObject, error) {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
@@ -269,12 +274,12 @@ func convertArguments(s []string) []protocol.RedisObject {
 
 		obj, err := protocol.Parse(strings.NewReader(item))
 		if err != nil {
-			continue
+			return nil, err
 		}
 		ret = append(ret, obj)
 	}
 
-	return ret
+	return ret, nil
 }
 
 func handleError(err error) protocol.RedisError {
-- 
2.43.0


From 5398f626726e6a9170c265c1b98cec2401832f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 35/36] fix: records appended after an incomplete one could
 never be read again

---
 pkg/log/log.go        | 32 +++++++++++++++++++++++++++++++-
 pkg/network/server.go | 21 +++++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index 4d9062e..84cca5f 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
 	"time"
 
@@ -18,6 +19,9 @@ import (
 var (
 	// ErrEmptyLog will be raised if in PackLog the proto.Marshal returns a zero length byte slice
 	ErrEmptyLog = errors.New("empty vertex log message")
+
+	// ErrIncompleteLog will be raised by ParseLog if the last record is cut off
+	ErrIncompleteLog = errors.New("unexpected eof when parsing log")
 )
 
 var (
@@ -95,7 +99,7 @@ func ParseLog(reader io.Reader) ([]*VertexLog, error) {
 			if errors.Is(err, io.EOF) {
 				break
 			} else if errors.Is(err, errUnexpectedEOF) {
-				return ret, fmt.Errorf("unexpected eof when parsing log")
+				return ret, ErrIncompleteLog
 			} else if errors.Is(err, errInvalidMessage) {
 				// Try parse more
 				continue
@@ -110,6 +114,32 @@ func ParseLog(reader io.Reader) ([]*VertexLog, error) {
 	return ret, nil
 }
 
+// CompleteSize will return how many bytes at the front of the reader are complete records
+func CompleteSize(reader io.Reader) (int64, error) {
+	var size int64
+
+	r := bufio.NewReader(reader)
+	header := make([]byte, 4)
+
+	for {
+		if _, err := io.ReadFull(r, header); err == io.EOF || err == io.ErrUnexpectedEOF {
+			return size, nil
+		} else if err != nil {
+			return size, err
+		}
+
+		length := int64(binary.LittleEndian.Uint32(header))
+
+		if _, err := io.CopyN(ioutil.Discard, r, length); err == io.EOF {
+			return size, nil
+		} else if err != nil {
+			return size, err
+		}
+
+		size += 4 + length
+	}
+}
+
 func (lr *logReader) readBytes(count int) ([]byte, error) {
 	return util.ReadExactBytes(lr.reader, count)
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 8971ecf..750f949 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"os"
 	"os/signal"
@@ -356,7 +357,27 @@ func (s *server) fromFile(file string) {
 		// May contains incomplete log here, so we not return
 	}
 
+	if errors.Is(err, log.ErrIncompleteLog) {
+		// New records appended after the incomplete one could never be read again
+		if err := dropIncompleteTail(f); err != nil {
+			common.Warnf("drop the incomplete log failed. file=%s, err=%s", file, err.Error())
+		}
+	}
+
 	if len(logs) > 0 {
 		s.engine.BuildFromLog(logs)
 	}
 }
+
+func dropIncompleteTail(f *os.File) error {
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+
+	size, err := log.CompleteSize(f)
+	if err != nil {
+		return err
+	}
+
+	return f.Truncate(size)
+}
-- 
2.43.0


From db8e09702a91959d11b54b7bf1797454dbe4265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 36/36] fix: a replica of a busy master got a torn record and
 dropped the whole transfer

---
 pkg/log/persistent.go     | 18 ++++++++++++++++++
 pkg/replication/master.go |  5 +++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index cbb7353..768d518 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,24 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// FlushedSize will flush like Flush, then return the size of the file. Since no write can
+// happen in between, exactly that many bytes of the file are complete writes.
+func (p *PersistentFile) FlushedSize() (int64, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	if err := p.writer.Flush(); err != nil {
+		return 0, err
+	}
+
+	info, err := p.file.Stat()
+	if err != nil {
+		return 0, err
+	}
+
+	return info.Size(), nil
+}
+
 // ReadFrom do what?
 // Not to proxy it here.
 
diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 0211b7f..53628c8 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -125,7 +125,8 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = os.Remove(filePath)
 	}()
 
-	err = m.file.Flush()
+	// Only this much is copied, the engine may write the beginning of another record meanwhile
+	size, err := m.file.FlushedSize()
 	if err != nil {
 		_ = common.Errorf("save to file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
@@ -139,7 +140,7 @@ func (m *master) handleConn(conn net.Conn) {
 
 	defer func() { _ = rawFile.Close() }()
 
-	n, err := io.Copy(tmpFile, rawFile)
+	n, err := io.CopyN(tmpFile, rawFile, size)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
-- 
2.43.0

