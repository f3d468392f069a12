From 970a051731e5896ed0da2890a0e735e0e88923ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 01/28] fix: readUntil drops bytes a reader returns together
 with io.EOF

---
 packx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..c1d379b 100644
--- a/packx.go
+++ b/packx.go
@@ -495,16 +495,17 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		// a reader may return its last bytes together with the error
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 76c6c68574ca2e67e7e8ae3d23ecee555d393c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 02/28] fix: bounds-check declared lengths in the block decoder
 instead of panicking

---
 packx.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packx.go b/packx.go
index c1d379b..9443b81 100644
--- a/packx.go
+++ b/packx.go
@@ -219,7 +219,7 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
-	if len(stream) < 16+int(headerLen) {
+	if headerLen < 0 || len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
 	header := stream[16 : 16+headerLen]
@@ -260,7 +260,7 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
-	if len(stream) < 16+int(headerLen)+int(bodyLen) {
+	if headerLen < 0 || bodyLen < 0 || len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
 	body := stream[16+headerLen : 16+headerLen+bodyLen]
@@ -360,8 +360,14 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("require stream length more than 16 but got %d", len(stream)))
+	}
 	// 包长
 	length := binary.BigEndian.Uint32(stream[0:4])
+	if uint64(len(stream)) < 4+uint64(length) || length < 12 {
+		return Message{}, errors.New(fmt.Sprintf("bad block length %d, stream length is %d", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
@@ -369,6 +375,9 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if uint64(len(stream)) < 16+uint64(headerLength)+uint64(bodyLength) {
+		return Message{}, errors.New(fmt.Sprintf("bad header length %d or body length %d, stream length is %d", headerLength, bodyLength, len(stream)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
@@ -445,6 +454,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad block length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -472,6 +484,9 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad block length %d", length)
+	}
 
 	if length > int32(maxByTe) {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
-- 
2.43.0


From 1ad62e9cd0d3814030c36012e3f9db73527871e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 03/28] fix: HeaderOf rejects a block with an empty header,
 closing its connection

---
 packx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packx.go b/packx.go
index 9443b81..818ba05 100644
--- a/packx.go
+++ b/packx.go
@@ -238,6 +238,10 @@ func HeaderOf(stream []byte) (map[string]interface{}, error) {
 	if e != nil {
 		return nil, errorx.Wrap(e)
 	}
+	// a block without header
+	if len(headerBytes) == 0 {
+		return header, nil
+	}
 	e = json.Unmarshal(headerBytes, &header)
 	if e != nil {
 		return nil, errorx.Wrap(e)
-- 
2.43.0


From 02c5ac80b4e2916120d62364f881d8e21184a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 04/28] fix: request scope is shared by all requests of a
 connection, misrouting later messages

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 3c656df..6c3d9b3 100644
--- a/context.go
+++ b/context.go
@@ -74,7 +74,7 @@ type Context struct {
 	handlers []func(*Context)
 }
 
-// share some pointer properties With former context, but has independent Stream and handlers
+// share some pointer properties With former context, but has independent Stream, handlers and request scope
 // Not locked. Caller should lock it.
 func copyContext(ctx Context) *Context {
 	var copyHandlers = make([]func(*Context), len(ctx.handlers))
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From e0f7e917156aa1549687d78544dc501ea58eee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:22 +0000
Subject: [PATCH 05/28] fix: Any registers its handlers twice when it gets more
 than one

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..dbe2ad3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From fdb3466e15f69f8a34fe52575af540201a43747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:27 +0000
Subject: [PATCH 06/28] fix: a middleware used again after UnUse has no effect
 on later handlers

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index dbe2ad3..b1848fa 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From ebd1437cba6f573894003f9bd335bd9a3dcec690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:33 +0000
Subject: [PATCH 07/28] fix: messageID 0 skips all middlewares when heartbeat
 or auth is off

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b1848fa..f37ff86 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -896,12 +896,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 40c5cfce5c40a91e1324cd8291aab06cc7533e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 08/28] fix: RecvHeartBeat, RecvAuthPass and RecvAuthDeny block
 forever when nobody consumes

---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 6c3d9b3..da1dba6 100644
--- a/context.go
+++ b/context.go
@@ -637,7 +637,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	// a beat nobody consumed yet is as good as two of them
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+	}
 }
 
 // Send to another conn index via username.
@@ -671,11 +675,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	ctx.sendAuth(PASS)
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	ctx.sendAuth(DENY)
+}
+
+// Only the first decision counts, later ones must not block the handler.
+func (ctx *Context) sendAuth(v int) {
+	select {
+	case ctx.recvAuth <- v:
+	default:
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From edf0cba5214baad913e774c06548d0a3ed2455a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 09/28] fix: closing a replaced connection evicts its
 successor, and closed connections stay in the pool

---
 client-pool.go | 35 +++++++++++++++++++++++++++++++++++
 context.go     | 19 ++++++++++---------
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..c493e79 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,41 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Put ctx into pool under username. A connection holds at most one name, the one it had before is released.
+// CloseConn marks offline before it leaves the pool, so a connection closed meanwhile never stays in pool.
+func (cp *ClientPool) onlineConn(username string, ctx *Context) bool {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if ctx.IsOffline() {
+		return false
+	}
+	if old, ok := ctx.Username(); ok && old != username {
+		cp.deleteOwned(old, ctx)
+	}
+	ctx.SetUsername(username)
+	cp.Clients[username] = ctx
+	return true
+}
+
+// Remove ctx's connection from pool. Username might have been taken over by another connection, which must stay.
+func (cp *ClientPool) offlineConn(ctx *Context) bool {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	username, ok := ctx.Username()
+	if ok {
+		cp.deleteOwned(username, ctx)
+	}
+	return ok
+}
+
+// Not locked. Caller should lock it.
+func (cp *ClientPool) deleteOwned(username string, ctx *Context) {
+	// userState is shared by all contexts of a connection
+	if c, ok := cp.Clients[username]; ok && c != nil && c.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index da1dba6..0dbdd57 100644
--- a/context.go
+++ b/context.go
@@ -132,11 +132,13 @@ func (ctx *Context) Online(username string) error {
 	if username == "" {
 		return errors.New("can't use empty username to online")
 	}
-	ctx.SetUsername(username)
 	if ctx.poolRef == nil {
+		ctx.SetUsername(username)
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	ctx.poolRef.Online(username, ctx)
+	if ok := ctx.poolRef.onlineConn(username, ctx); !ok {
+		return errors.New("connection is closed, can't online")
+	}
 	return nil
 }
 
@@ -164,11 +166,9 @@ func (ctx *Context) Offline() error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	username, ok := ctx.Username()
-	if !ok {
+	if ok := ctx.poolRef.offlineConn(ctx); !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
 	return nil
 }
 
@@ -281,13 +281,14 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
-		if ctx.poolRef != nil {
-			ctx.Offline()
-		}
 
 		ctx.L.Lock()
-		defer ctx.L.Unlock()
 		*(ctx.userState) = CONTEXT_OFFLINE
+		ctx.L.Unlock()
+
+		if ctx.poolRef != nil {
+			ctx.Offline()
+		}
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From 26bbbe213ae6e2d57530fec75834990c8449e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 10/28] fix: Stop(true) deadlocks on the pool and closes only
 one of its connections

---
 client-pool.go | 12 ++++++++++++
 tcpx.go        | 16 ++++------------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index c493e79..3ebdf5f 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -83,6 +83,18 @@ func (cp *ClientPool) deleteOwned(username string, ctx *Context) {
 	}
 }
 
+// Empty the pool and return its contexts.
+func (cp *ClientPool) drain() []*Context {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	var rs = make([]*Context, 0, len(cp.Clients))
+	for k, v := range cp.Clients {
+		rs = append(rs, v)
+		delete(cp.Clients, k)
+	}
+	return rs
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/tcpx.go b/tcpx.go
index f37ff86..7bdff2b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1168,18 +1168,10 @@ func (tcpx *TcpX) closeAllConnection() {
 		close(tcpx.closeAllSignal)
 	} else {
 		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
-
-			tcpx.pool = NewClientPool()
+			// CloseConn takes the pool's lock itself
+			for _, ctx := range tcpx.pool.drain() {
+				ctx.CloseConn()
+			}
 		}
 	}
 }
-- 
2.43.0


From f13dab3e1748ac5de1919dccd89c180cf154d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:47 +0000
Subject: [PATCH 11/28] fix: Stop leaves listeners of networks other than 'tcp'
 and 'udp' open

---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 7bdff2b..2f3a9e1 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1146,12 +1146,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			switch l := v.Listener.(type) {
+			case net.Listener:
+				l.Close()
+			case net.PacketConn:
+				l.Close()
 			}
 		}
 	}()
-- 
2.43.0


From d8f8a60f8fad8ab70f3affc38f115da2646c9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 12/28] fix: Start restarts only the last one of several
 listeners

---
 tcpx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 2f3a9e1..e87fd6c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1182,8 +1182,12 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
-	for _, v := range tcpx.properties {
-		go func() {
+	tcpx.pLock.RLock()
+	properties := append([]*PropertyCache{}, tcpx.properties...)
+	tcpx.pLock.RUnlock()
+
+	for _, v := range properties {
+		go func(v *PropertyCache) {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
@@ -1194,7 +1198,7 @@ func (tcpx *TcpX) Start() error {
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-		}()
+		}(v)
 	}
 	return nil
 }
-- 
2.43.0


From 204bc6504169f4ce71e19407a3effc9c3bd691ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:57 +0000
Subject: [PATCH 13/28] fix: Start serves a raw listener as a packed one and
 forgets the udp buffer size

---
 tcpx.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index e87fd6c..1668142 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -102,6 +102,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// serves the same way again, used by tcpx.Start()
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -390,7 +393,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -403,6 +406,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -410,6 +414,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -427,7 +432,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -505,7 +510,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeTCP(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -638,7 +643,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
 
@@ -1194,7 +1199,7 @@ func (tcpx *TcpX) Start() error {
 				}
 			}()
 			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			e := v.serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-- 
2.43.0


From 60208412864907e0d43c3b01d9fac352c90b2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:03 +0000
Subject: [PATCH 14/28] fix: Stop(false) closes the connections that have
 heartbeat on

---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 1668142..663d0ec 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1039,10 +1039,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
-- 
2.43.0


From c54beb9c564856a13bc8181021bf0fb8dfa32e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:43 +0000
Subject: [PATCH 15/28] fix: after Stop(true) a restarted server kills every
 new connection and the next Stop(true) panics

---
 tcpx.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 663d0ec..6ff6b2f 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -432,6 +432,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
+	closeAll := tcpx.closeAllChan()
 	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
@@ -462,8 +463,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
-		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
+		go broadcastSignalWatch(ctx, tcpx, closeAll)
+		go heartBeatWatch(ctx, tcpx, closeAll)
 
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
@@ -510,6 +511,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
+	closeAll := tcpx.closeAllChan()
 	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeTCP(network, addr) })
 
 	defer listener.Close()
@@ -541,14 +543,14 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		if tcpx.withSignals {
-			go broadcastSignalWatch(ctx, tcpx)
+			go broadcastSignalWatch(ctx, tcpx, closeAll)
 		}
 
 		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAll)
 		}
 		if tcpx.auth {
-			go authWatch(ctx, tcpx)
+			go authWatch(ctx, tcpx, closeAll)
 		}
 
 		go func(ctx *Context, tcpx *TcpX) {
@@ -643,6 +645,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
+	closeAll := tcpx.closeAllChan()
 	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
@@ -683,9 +686,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
+			go broadcastSignalWatch(ctx, tcpx, closeAll)
 
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAll)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
@@ -1026,7 +1029,7 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 // - tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // - ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
 // - time out receiving interval heartbeat pack.
-func heartBeatWatch(ctx *Context, tcpx *TcpX) {
+func heartBeatWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.HeartBeatOn == true {
 		go func() {
 			defer func() {
@@ -1056,7 +1059,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-closeAll:
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1070,11 +1073,11 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 // Each connection will have this goroutine, it bind relation with tcpx server.
 // tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
-func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
+func broadcastSignalWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.withSignals == true {
 		for {
 			select {
-			case <-tcpx.closeAllSignal:
+			case <-closeAll:
 				ctx.CloseConn()
 				return
 			case <-ctx.recvEnd:
@@ -1086,7 +1089,7 @@ func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
 
 // Each connection will start this as goroutine when tcpx.auth is true.
 // It will start a handler to wait for an auth signal.
-func authWatch(ctx *Context, tcpx *TcpX) {
+func authWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.auth {
 		select {
 		case <-time.After(tcpx.authDeadline):
@@ -1103,7 +1106,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-closeAll:
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1166,7 +1169,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 
 func (tcpx *TcpX) closeAllConnection() {
 	if tcpx.withSignals == true {
-		close(tcpx.closeAllSignal)
+		// connections accepted after a later Start() listen to a new signal
+		tcpx.pLock.Lock()
+		old := tcpx.closeAllSignal
+		tcpx.closeAllSignal = make(chan int, 1)
+		tcpx.pLock.Unlock()
+		close(old)
 	} else {
 		if tcpx.pool != nil {
 			// CloseConn takes the pool's lock itself
@@ -1177,6 +1185,13 @@ func (tcpx *TcpX) closeAllConnection() {
 	}
 }
 
+// The signal that will close the connections of a listener being started now
+func (tcpx *TcpX) closeAllChan() <-chan int {
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
+	return tcpx.closeAllSignal
+}
+
 // Graceful start an existed tcpx srv, former server is stopped by tcpX.Stop()
 func (tcpx *TcpX) Start() error {
 	if tcpx.State() == STATE_RUNNING {
-- 
2.43.0


From 87d5ff23950b857eeedeb0dcc2acb745d8aa4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:49 +0000
Subject: [PATCH 16/28] fix: an incomplete pipe or a bad pipe length crashes
 the server

---
 tcpx.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 6ff6b2f..7f52bd2 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -586,22 +586,25 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
-							if e == io.EOF {
-								break
-							}
-							Logger.Println(e)
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+
+					// the stream can't be read on from an incomplete pipe
+					if e != nil {
+						if e != io.EOF {
+							Logger.Println(e)
+						}
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
@@ -1267,6 +1270,9 @@ func isPipe(block []byte) (bool, int, error) {
 		return false, 0, errorx.NewFromStringf("bad pipe args length, should format as 'enable:<length>' but got %s,\n %v", arr[1], err)
 	}
 	if arr[0] == "enable" {
+		if length < 1 {
+			return false, 0, errorx.NewFromStringf("bad pipe args length, should be positive but got %d", length)
+		}
 		return true, length - 1, nil
 	}
 	return false, 0, nil
-- 
2.43.0


From 2f788acbdfb03c7eb69acda4337c402b9958f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:54 +0000
Subject: [PATCH 17/28] fix: a panicking handler takes the whole process down

---
 tcpx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index 7f52bd2..37e5b81 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -859,6 +859,12 @@ func (tcpx *TcpX) ListenAndServeGRPC(network, addr string) error {
 //
 // However, this method is not open export for outer uset. When rebuild new protocol server, this will be considerately used.
 func handleMiddleware(ctx *Context, tcpx *TcpX) {
+	// a panic of a handler should only cost its own message
+	defer func() {
+		if e := recover(); e != nil {
+			Logger.Println(fmt.Sprintf("recover from panic %v \n %s", e, debug.Stack()))
+		}
+	}()
 	if tcpx.OnMessage != nil {
 		handleOnMessage(ctx, tcpx)
 		return
-- 
2.43.0


From 64a45233a97de7bc6b46699a049fecb0bc9c2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 18/28] fix: SetDeadline of the server has no effect

---
 tcpx.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 37e5b81..efac380 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -449,9 +449,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -528,9 +526,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -615,6 +611,21 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	return nil
 }
 
+// Apply well-set deadlines. A zero read/write deadline must not clear the common one.
+func (tcpx *TcpX) applyDeadlines(conn interface {
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}) {
+	conn.SetDeadline(tcpx.deadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
+}
+
 // set srv state running
 func (tcpx *TcpX) openState() {
 	tcpx.pLock.Lock()
@@ -653,9 +664,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.openState()
 
-	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	tcpx.applyDeadlines(conn)
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From d06c2019e4674990856f92ce32a13b8a06c7fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 19/28] fix: udp with heartbeat on closes the server socket
 after three intervals, and leaks goroutines per datagram

---
 tcpx.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index efac380..812c0ed 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -659,7 +659,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	closeAll := tcpx.closeAllChan()
 	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
@@ -696,11 +695,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 				//	panic(err)
 				//}
 			}
+			// a datagram has no connection to watch: closing its context would close the server's only socket
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx, closeAll)
-
-			go heartBeatWatch(ctx, tcpx, closeAll)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From 3521135109f1e4ded8dc94939df510b0e5e999d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:33 +0000
Subject: [PATCH 20/28] fix: ListenAndServeUDP never returns after Stop and
 spins on a closed or expired socket

---
 tcpx.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 812c0ed..4737796 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -666,7 +666,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.applyDeadlines(conn)
 
 	// listen to incoming udp packets
-	go func(conn net.PacketConn, tcpx *TcpX) {
+	func(conn net.PacketConn, tcpx *TcpX) {
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -684,7 +684,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 			// global
 			if e != nil {
-				if e == io.EOF {
+				if e == io.EOF || errors.Is(e, net.ErrClosed) || errors.Is(e, os.ErrDeadlineExceeded) {
 					break
 				}
 				Logger.Println(e.Error())
@@ -720,9 +720,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
-
-	//return nil
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From 535518c27473b97e20a0fb514f57fbe5fe5d8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:39 +0000
Subject: [PATCH 21/28] fix: BeforeExit misses a signal that arrives right
 after it returned

---
 tcpx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 4737796..9eeb8f2 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1131,14 +1131,15 @@ func authWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	// signal.Notify drops signals nobody is ready to receive
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 	go func() {
 		defer func() {
 			if e := recover(); e != nil {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
-		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-- 
2.43.0


From e3d19edd58628e1a58e752324c04d2cc956b55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 22/28] fix: WriteConn repeats the start of the buffer after a
 partial write

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a44053..0d52080 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
-- 
2.43.0


From bd7bb5a33859da4bf7c5cab7ecf9a6f41ad16afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:50 +0000
Subject: [PATCH 23/28] fix: Message.Set panics on a message without header

---
 message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message.go b/message.go
index 47bcdf3..3ddda5e 100644
--- a/message.go
+++ b/message.go
@@ -50,5 +50,8 @@ func (msg Message) Get(key string) interface{} {
 // if you should never operate the header in multiple goroutines, it's better to design a context yourself per request
 // rather than straightly use message.Header.
 func (msg *Message) Set(k string, v interface{}) {
+	if msg.Header == nil {
+		msg.Header = make(map[string]interface{})
+	}
 	msg.Header[k] = v
 }
-- 
2.43.0


From f1ac5a076524bcfb475021345784846841c78031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:56 +0000
Subject: [PATCH 24/28] fix: ClientIP reports 127.0.0.1 for every ipv6 client

---
 context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 0dbdd57..5832a40 100644
--- a/context.go
+++ b/context.go
@@ -542,9 +542,13 @@ func (ctx Context) ClientIP() string {
 		return arr[0]
 	}
 	// [::1] localhost
-	if strings.Contains(clientAddr, "[") && strings.Contains(clientAddr, "]") {
+	if strings.HasPrefix(clientAddr, "[::1]") {
 		return "127.0.0.1"
 	}
+	// [ipv6]:port
+	if host, _, e := net.SplitHostPort(clientAddr); e == nil {
+		return host
+	}
 	// ivp6
 	return strings.Join(arr[:len(arr)-1], ":")
 }
-- 
2.43.0


From ea5175bfbbb056719ac2d31225d2e3813ff0f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:35 +0000
Subject: [PATCH 25/28] fix: heartbeat watcher and first beat could use
 different channels

HeartBeatChan created its channel in two steps (load, store), so a beat
received right after connecting could land in a channel the watcher did
not wait on, and a silent connection was dropped one interval late.
---
 context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 5832a40..b413744 100644
--- a/context.go
+++ b/context.go
@@ -626,8 +626,12 @@ func (ctx *Context) RawStream() ([]byte, error) {
 func (ctx *Context) HeartBeatChan() chan int {
 	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
+		// the watching goroutine and the first beat might both get here, they must share one channel
+		scope := ctx.PerConnectionContext
+		if ctx.ConnectionProtocolType() == "udp" {
+			scope = ctx.PerRequestContext
+		}
+		channel, _ = scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
 		return channel.(chan int)
 	} else {
 		tmp, ok := channel.(chan int)
-- 
2.43.0


From 4a6e07f411e95cd2bd16eb1c05393357b91cfd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:54 +0000
Subject: [PATCH 26/28] fix: the heartbeat-loss callback copies a context that
 the serving goroutine is writing

The watcher copied *ctx while the reader stored the next message in ctx.Stream
(or the raw reader and writer in it): a data race on a slice header.
---
 tcpx.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 9eeb8f2..0666a9b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -461,6 +461,9 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
+		// before the watchers share ctx
+		ctx.InitReaderAndWriter()
+
 		go broadcastSignalWatch(ctx, tcpx, closeAll)
 		go heartBeatWatch(ctx, tcpx, closeAll)
 
@@ -477,8 +480,6 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 				defer tcpx.OnClose(ctx)
 			}
 
-			ctx.InitReaderAndWriter()
-
 			tmpContext := copyContext(*ctx)
 			handleRaw(tmpContext, tcpx)
 		}(ctx, tcpx)
@@ -561,9 +562,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
 			}
-			var e error
 			for {
-				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+				// ctx is shared with the watchers of the connection, a message belongs to its request's context only
+				stream, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 				if e != nil {
 					if e == io.EOF {
 						break
@@ -572,6 +573,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					break
 				}
 				tmpContext := copyContext(*ctx)
+				tmpContext.Stream = stream
 
 				isPipe, restN, e := isPipe(tmpContext.Stream)
 				if e != nil {
@@ -584,11 +586,12 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					// fmt.Println("recv pipe", isPipe, restN)
 					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
-						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+						stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
 							break
 						}
 						tmpContext := copyContext(*ctx)
+						tmpContext.Stream = stream
 						ctxs = append(ctxs, tmpContext)
 					}
 
-- 
2.43.0


From 026d4c46b00e2f00edac234e07a99aa7a09e0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:32 +0000
Subject: [PATCH 27/28] fix: close the connection when a reply was written only
 in part, later replies were garbled but reported as sent

---
 context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index b413744..9f9dad7 100644
--- a/context.go
+++ b/context.go
@@ -506,7 +506,12 @@ func (ctx *Context) commonReplyWithMarshaller(marshaller Marshaller, messageID i
 func (ctx *Context) replyBuf(buf []byte) (e error) {
 	switch ctx.ConnectionProtocolType() {
 	case "tcp":
-		if _, e = ctx.Conn.Write(buf); e != nil {
+		var n int
+		if n, e = ctx.Conn.Write(buf); e != nil {
+			if n > 0 {
+				// Part of the message is out, client can't understand anything that would follow.
+				ctx.CloseConn()
+			}
 			return errorx.Wrap(e)
 		}
 	case "udp":
-- 
2.43.0


From 2c72e407566cdbe917270991617ae4a0205b25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 28/28] fix: reading a context's network, ip or router type
 doesn't copy the whole context

ClientIP(), Network() and RouterType() had value receivers. Called on another client's
context, found in the user pool, they raced with the handlers of that client, which
move the offset and replace the handlers and PerRequestContext.
---
 context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 9f9dad7..bad42e9 100644
--- a/context.go
+++ b/context.go
@@ -526,12 +526,12 @@ func (ctx *Context) replyBuf(buf []byte) (e error) {
 	return nil
 }
 
-func (ctx Context) Network() string {
+func (ctx *Context) Network() string {
 	return ctx.ConnectionProtocolType()
 }
 
 // client ip
-func (ctx Context) ClientIP() string {
+func (ctx *Context) ClientIP() string {
 	var clientAddr string
 	switch ctx.ConnectionProtocolType() {
 	case "tcp":
@@ -705,7 +705,7 @@ func (ctx *Context) sendAuth(v int) {
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-func (ctx Context) RouterType() string {
+func (ctx *Context) RouterType() string {
 	rt, cached := ctx.routerType()
 	if !cached {
 		ctx.setRouterType(rt)
-- 
2.43.0

