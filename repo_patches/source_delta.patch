From 0388a5989bddf1d214bbc149d69b5d8441b21efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:28 +0000
Subject: [PATCH 01/30] fix: DynamicBind hands an extra worker to one
 connection only

useWorker never took the extra worker ID out of the free set, so two
connections beyond the pool size shared one ID and the second allocation
replaced the first one's task queue.
---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..4e0d049 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -193,6 +193,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		mh.extraFreeWorkerMu.Lock()
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
+			delete(mh.extraFreeWorkers, workerID)
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
-- 
2.43.0


From 3824dd3763c53b53b1eec288c91d8fd8e076f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:35 +0000
Subject: [PATCH 02/30] fix: contain panics of user code in websocket
 connections

The websocket reader and Start had no recover, unlike the TCP and KCP ones:
a panicking interceptor, decoder or hook took the process down.
---
 znet/ws_connection.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..d335a3b 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -211,6 +211,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
@@ -274,6 +279,11 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("Connection Start() error: %v", err)
+		}
+	}()
 	ctx := c.ctx
 	if ctx == nil {
 		ctx = context.Background()
-- 
2.43.0


From 828edca16a2506438781029da5c40cacf8125ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:41 +0000
Subject: [PATCH 03/30] fix: drop HTLV frames whose CRC does not match

Intercept dereferenced the nil result of decode and panicked.
---
 zdecoder/htlvcrcdecoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..edb238e 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -135,6 +135,10 @@ func (hcd *HtlvCrcDecoder) Intercept(chain ziface.IChain) ziface.IcResp {
 
 	//4. HTLV+CRC Decode
 	htlvData := hcd.decode(data)
+	if htlvData == nil {
+		// CRC check failed, drop the frame (CRC校验失败，丢弃该帧)
+		return nil
+	}
 
 	//5. Set the decoded data back to the IMessage, the Zinx Router needs MsgID for addressing
 	// (将解码后的数据重新设置到IMessage中, Zinx的Router需要MsgID来寻址)
-- 
2.43.0


From c052e965c728fc441f8fd226a51088dcc3497b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:36 +0000
Subject: [PATCH 04/30] fix: HTLV decoder accepts a frame with a 255 byte body

---
 zdecoder/htlvcrcdecoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index edb238e..25459a7 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -79,9 +79,9 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 	//   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+	//   maxFrameLength      = 255 + 5(起始码、功能码、数据长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + 5,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 61635a3d787cab95b5892c69c8df31a55de575b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:44 +0000
Subject: [PATCH 05/30] fix: FrameDecoder resynchronises after an oversized
 frame and rejects frames shorter than their header

---
 zinterceptor/framedecoder.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..ad75b60 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -429,6 +429,11 @@ func (d *FrameDecoder) failOnNegativeLengthField(in *bytes.Buffer, frameLength i
 	panic(fmt.Sprintf("negative pre-adjustment length field: %d", frameLength))
 }
 
+func (d *FrameDecoder) failOnFrameLengthLessThanLengthFieldEndOffset(in *bytes.Buffer, frameLength int64, lengthFieldEndOffset int) {
+	in.Next(lengthFieldEndOffset)
+	panic(fmt.Sprintf("Adjusted frame length (%d) is less than LengthFieldEndOffset: %d", frameLength, lengthFieldEndOffset))
+}
+
 func (d *FrameDecoder) failIfNecessary(firstDetectionOfTooLongFrame bool) {
 	if d.bytesToDiscard == 0 {
 		// Indicates that the data to be discarded has been discarded (说明需要丢弃的数据已经丢弃完成)
@@ -491,9 +496,7 @@ func (d *FrameDecoder) failOnFrameLengthLessThanInitialBytesToStrip(in *bytes.Bu
 	panic(fmt.Sprintf("Adjusted frame length (%d) is less  than InitialBytesToStrip: %d", frameLength, initialBytesToStrip))
 }
 
-func (d *FrameDecoder) decode(buf []byte) []byte {
-	in := bytes.NewBuffer(buf)
-
+func (d *FrameDecoder) decode(in *bytes.Buffer) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
@@ -532,6 +535,12 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame always contains its own length field, anything shorter (or overflowed) is an error data packet
+	// (数据包至少包含长度字段本身，否则说明是个错误的数据包)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		d.failOnFrameLengthLessThanLengthFieldEndOffset(in, frameLength, d.LengthFieldEndOffset)
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
@@ -581,17 +590,19 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
-		arr := d.decode(d.in)
+		in := bytes.NewBuffer(d.in)
+		arr := d.decode(in)
+
+		// Everything decode consumed (a packet or discarded bytes) leaves the accumulated data
+		// (decode消费掉的数据(完整包或被丢弃的字节)需要从累积数据中移除)
+		consumed := len(d.in) - in.Len()
+		d.in = d.in[consumed:]
 
 		if arr != nil {
 			// Indicates that a complete packet has been parsed
 			// (证明已经解析出一个完整包)
 			resp = append(resp, arr)
-			_size := len(arr) + d.InitialBytesToStrip
-			if _size > 0 {
-				d.in = d.in[_size:]
-			}
-		} else {
+		} else if consumed == 0 {
 			return resp
 		}
 	}
-- 
2.43.0


From dfc403c4b440b635a32ff477d5d6f4551c86b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:47 +0000
Subject: [PATCH 06/30] fix: messages read without a decoder no longer share
 the read buffer

---
 znet/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..6dd1400 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -277,7 +277,10 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// buffer is reused by the next read while the message may still be queued, hand over a copy
+				// (buffer会被下一次读取复用，而消息可能还在任务队列中，所以需要拷贝一份)
+				data := append([]byte(nil), buffer[0:n]...)
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From d8c0358040ba5582350703b503977ef8d618dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:54 +0000
Subject: [PATCH 07/30] fix: a connection can be stopped before it has been
 started

---
 znet/connection.go     |  8 ++++++--
 znet/kcp_connection.go |  8 ++++++--
 znet/ws_connection.go  | 13 +++++++------
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 6dd1400..20c70c5 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -136,6 +136,10 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	// Created here and not in Start, so that the connection can be stopped as soon as it is registered
+	// (在创建时初始化，保证连接注册之后任何时刻都可以被Stop)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -174,6 +178,8 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -298,8 +304,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
-
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..9d15686 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -134,6 +134,10 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	// Created here and not in Start, so that the connection can be stopped as soon as it is registered
+	// (在创建时初始化，保证连接注册之后任何时刻都可以被Stop)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -170,6 +174,8 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -280,8 +286,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
-
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index d335a3b..f9d470d 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -119,7 +119,6 @@ type WsConnection struct {
 func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64, r *http.Request) ziface.IConnection {
 	// Initialize Conn properties (初始化Conn属性)
 	c := &WsConnection{
-		ctx:         context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()), // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
@@ -131,6 +130,11 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	// Created here and not in Start, so that the connection can be stopped as soon as it is registered
+	// (在创建时初始化，保证连接注册之后任何时刻都可以被Stop)
+	// websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
+	c.ctx, c.cancel = context.WithCancel(context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()))
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -166,6 +170,8 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -284,11 +290,6 @@ func (c *WsConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 6b9e0d074e5f5a3fc338c98c2c2517379a5ab1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:01 +0000
Subject: [PATCH 08/30] fix: TCP send queue is created once and never closed by
 a sender

---
 znet/connection.go | 55 +++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 20c70c5..db68864 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -59,9 +58,9 @@ type Connection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
-	// Go StartWriter Flag
-	// (开始初始化写协程标志)
-	startWriterFlag int32
+	// Guards the creation of msgBuffChan and the start of the writer goroutine
+	// (保证msgBuffChan和写协程只初始化一次)
+	startWriterOnce sync.Once
 
 	// Connection properties
 	// (连接属性)
@@ -124,16 +123,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 
 	// Initialize Conn properties
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          connID,
-		connIdStr:       strconv.FormatUint(connID, 10),
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            server.ServerName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      connID,
+		connIdStr:   strconv.FormatUint(connID, 10),
+		msgBuffChan: nil,
+		property:    nil,
+		name:        server.ServerName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	// Created here and not in Start, so that the connection can be stopped as soon as it is registered
@@ -166,16 +164,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 // (创建一个Client服务端特性的连接的方法)
 func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          0,  // client ignore
-		connIdStr:       "", // client ignore
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            client.GetName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      0,  // client ignore
+		connIdStr:   "", // client ignore
+		msgBuffChan: nil,
+		property:    nil,
+		name:        client.GetName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	c.ctx, c.cancel = context.WithCancel(context.Background())
@@ -403,14 +400,14 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
-	if c.msgBuffChan == nil && c.setStartWriterFlag() {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -427,8 +424,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
@@ -585,10 +580,6 @@ func (c *Connection) isClosed() bool {
 	return c.ctx == nil || c.ctx.Err() != nil
 }
 
-func (c *Connection) setStartWriterFlag() bool {
-	return atomic.CompareAndSwapInt32(&c.startWriterFlag, 0, 1)
-}
-
 func (s *Connection) AddCloseCallback(handler, key interface{}, f func()) {
 	if s.isClosed() {
 		return
-- 
2.43.0


From 69fdac9c001ff97b51315edc333a4bba51836dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 09/30] fix: KCP send queue is created once and not used after
 it is closed

---
 znet/kcp_connection.go | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 9d15686..b0ad693 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -56,6 +56,10 @@ type KcpConnection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
+	// Guards the creation of msgBuffChan and the start of the writer goroutine
+	// (保证msgBuffChan和写协程只初始化一次)
+	startWriterOnce sync.Once
+
 	// Lock for user message reception and transmission
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
@@ -372,14 +376,14 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	c.msgLock.RLock()
 	defer c.msgLock.RUnlock()
 
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -428,17 +432,6 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
 
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
@@ -446,13 +439,7 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
-- 
2.43.0


From a19eb54214357f6ac286c2c9fdd0b5ea8cca5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 10/30] fix: last activity time is shared safely between the
 reader and the heartbeat

---
 znet/connection.go     | 8 +++++---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 8 +++++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index db68864..61c0ce6 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -8,6 +8,7 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -88,7 +89,7 @@ type Connection struct {
 
 	// Last activity time
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value
 
 	// Framedecoder for solving fragmentation and packet sticking problems
 	// (断粘包解码器)
@@ -549,11 +550,12 @@ func (c *Connection) IsAlive() bool {
 	// Check the last activity time of the connection. If it's beyond the heartbeat interval,
 	// then the connection is considered dead.
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *Connection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *Connection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index b0ad693..3f7c584 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -94,7 +94,7 @@ type KcpConnection struct {
 
 	// Last activity time
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value
 
 	// Framedecoder for solving fragmentation and packet sticking problems
 	// (断粘包解码器)
@@ -544,11 +544,12 @@ func (c *KcpConnection) IsAlive() bool {
 	// Check the last activity time of the connection. If it's beyond the heartbeat interval,
 	// then the connection is considered dead.
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *KcpConnection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *KcpConnection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index f9d470d..1e60f7d 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -86,7 +87,7 @@ type WsConnection struct {
 
 	// lastActivityTime is the last time the connection was active.
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value
 
 	// frameDecoder is the decoder for splitting or splicing data packets.
 	// (断粘包解码器)
@@ -578,11 +579,12 @@ func (c *WsConnection) IsAlive() bool {
 	// Check the time duration since the last activity of the connection, if it exceeds the maximum heartbeat interval,
 	// then the connection is considered dead
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *WsConnection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *WsConnection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
-- 
2.43.0


From f00298f381c2e4bbadfaf09defde1ea9ec5b23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:22 +0000
Subject: [PATCH 11/30] fix: TCP frames sent directly do not split frames sent
 through the write buffer

---
 znet/connection.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 61c0ce6..8e689bf 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -30,6 +30,10 @@ type Connection struct {
 	// The buffer writer of the current connection(当前连接的写缓冲)
 	bufWriter *bufio.Writer
 
+	// Lock that keeps frames contiguous, whether they are sent directly or through bufWriter
+	// (保证直接发送和通过bufWriter发送的数据不会相互穿插)
+	sendLock sync.Mutex
+
 	// The ID of the current connection, also known as SessionID, globally unique, used by server Connection
 	// uint64 range: 0~18,446,744,073,709,551,615
 	// This is the maximum number of connID theoretically supported by the process
@@ -369,6 +373,8 @@ func (c *Connection) LocalAddr() net.Addr {
 }
 
 func (c *Connection) Flush() error {
+	c.sendLock.Lock()
+	defer c.sendLock.Unlock()
 	if c.isClosed() == true {
 		return errors.New("connection closed when flush data")
 	}
@@ -376,10 +382,17 @@ func (c *Connection) Flush() error {
 }
 
 func (c *Connection) Send(data []byte) error {
+	c.sendLock.Lock()
+	defer c.sendLock.Unlock()
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
-	_, err := c.conn.Write(data)
+	// A frame may be partly in bufWriter and partly on the wire
+	// (bufWriter中可能存在只发送了一部分的数据)
+	err := c.bufWriter.Flush()
+	if err == nil {
+		_, err = c.conn.Write(data)
+	}
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
 		return err
@@ -388,6 +401,8 @@ func (c *Connection) Send(data []byte) error {
 }
 
 func (c *Connection) SendBuf(data []byte) error {
+	c.sendLock.Lock()
+	defer c.sendLock.Unlock()
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
-- 
2.43.0


From 6e9fcb51c586528d1737a813afddd8b3bcbe8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 12/30] fix: stopping a heartbeat checker does not wait for the
 check in progress

---
 znet/heartbeat.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..0c3040c 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -55,7 +55,7 @@ func notAliveDefaultFunc(conn ziface.IConnection) {
 func NewHeartbeatChecker(interval time.Duration) ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval: interval,
-		quitChan: make(chan bool),
+		quitChan: make(chan bool, 1),
 
 		// Use default heartbeat message generation function and remote connection not alive handling method
 		// (均使用默认的心跳消息生成函数和远程连接不存活时的处理方法)
@@ -121,7 +121,12 @@ func (h *HeartbeatChecker) Start() {
 
 func (h *HeartbeatChecker) Stop() {
 	zlog.Ins().InfoF("heartbeat checker stop, connID=%+v", h.conn.GetConnID())
-	h.quitChan <- true
+	// The checker may be busy sending, which can need a lock held by the caller, so never wait for it here
+	// (检测协程可能正在发送数据并等待调用者持有的锁，所以这里不能阻塞)
+	select {
+	case h.quitChan <- true:
+	default:
+	}
 }
 
 func (h *HeartbeatChecker) SendHeartBeatMsg() error {
@@ -167,7 +172,7 @@ func (h *HeartbeatChecker) Clone() ziface.IHeartbeatChecker {
 
 	heartbeat := &HeartbeatChecker{
 		interval:         h.interval,
-		quitChan:         make(chan bool),
+		quitChan:         make(chan bool, 1),
 		beatFunc:         h.beatFunc,
 		makeMsg:          h.makeMsg,
 		onRemoteNotAlive: h.onRemoteNotAlive,
-- 
2.43.0


From 75732175fdeb94f41ebaf71819ccb3ad0f6fc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 13/30] fix: a pooled request does not keep the response and
 routes of its previous use

---
 znet/request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..3d5c5c9 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,9 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.router = nil
+	r.icResp = nil
+	r.handlers = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From 86119be0b42237e626819eeb41db04f9420d4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:49 +0000
Subject: [PATCH 14/30] fix: a request is not read after it has been handed to
 its worker

---
 znet/msghandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 4e0d049..86368a6 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -301,8 +301,8 @@ func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
 	workerID := request.GetConnection().GetWorkerID()
 	// zlog.Ins().DebugF("Add ConnID=%d request msgID=%d to workerID=%d", request.GetConnection().GetConnID(), request.GetMsgID(), workerID)
 	// Send the request message to the task queue
-	mh.TaskQueue[workerID] <- request
 	zlog.Ins().DebugF("SendMsgToTaskQueue-->%s", hex.EncodeToString(request.GetData()))
+	mh.TaskQueue[workerID] <- request
 }
 
 // doFuncHandler handles functional requests (执行函数式请求)
-- 
2.43.0


From 2c7f91dd0beaf84ebd403b4beddc0d0cd26ec98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:56 +0000
Subject: [PATCH 15/30] fix: Request.Copy keeps the response and copies the
 keys under the lock

---
 znet/request.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 3d5c5c9..b6a3770 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -117,17 +117,14 @@ func (r *Request) Copy() ziface.IRequest {
 
 	// 复制原本的上下文信息
 	newRequest.keys = make(map[string]interface{})
+	r.stepLock.RLock()
 	for k, v := range r.keys {
 		newRequest.keys[k] = v
 	}
+	r.stepLock.RUnlock()
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
+	newRequest.icResp = r.icResp
 	// 复制一份原本的 msg 信息
 	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
 
-- 
2.43.0


From 37b63f50fb25c4a136ca4922167f94e3d14d0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 16/30] fix: requests with more than 127 handlers run all of
 them

---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index b6a3770..7cf1c81 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -212,7 +212,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -227,7 +227,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From d86d9993402010f222b395e0228114da32c02a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 17/30] fix: Server.Stop returns and releases the listener in
 every mode

---
 znet/server.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 6152000..7258217 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -357,8 +357,14 @@ func (s *Server) ListenWebsocketConn() {
 
 	})
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
+	server := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	go func() {
+		<-s.exitChan
+		_ = server.Close()
+	}()
+
+	err := server.ListenAndServe()
+	if err != nil && err != http.ErrServerClosed {
 		panic(err)
 	}
 }
@@ -387,6 +393,12 @@ func (s *Server) ListenKcpConn() {
 			// (阻塞等待客户端建立连接请求)
 			conn, err := listener.Accept()
 			if err != nil {
+				select {
+				case <-s.exitChan:
+					zlog.Ins().ErrorF("KCP listener closed")
+					return
+				default:
+				}
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
 				AcceptDelay.Delay()
 				continue
@@ -455,7 +467,6 @@ func (s *Server) Stop() {
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
 	close(s.exitChan)
 }
 
-- 
2.43.0


From abd7c470ef3b37a7d181f922bb32d0cffb27b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:18 +0000
Subject: [PATCH 18/30] fix: websocket handshakes do not share their
 subprotocols

---
 znet/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 7258217..6b3d505 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -336,12 +336,14 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		// 3. Check if there is a subprotocol specified in the header
 		// (判断 header 里面是有子协议)
+		// The upgrader is shared by all handshakes, work on a copy (upgrader由所有握手共享，使用副本)
+		upgrader := *s.upgrader
 		if len(r.Header.Get("Sec-Websocket-Protocol")) > 0 {
-			s.upgrader.Subprotocols = websocket.Subprotocols(r)
+			upgrader.Subprotocols = websocket.Subprotocols(r)
 		}
 		// 4. Upgrade the connection to a websocket connection
 		// (升级成 websocket 连接)
-		conn, err := s.upgrader.Upgrade(w, r, nil)
+		conn, err := upgrader.Upgrade(w, r, nil)
 		if err != nil {
 			zlog.Ins().ErrorF("new websocket err:%v", err)
 			w.WriteHeader(500)
-- 
2.43.0


From 9acd8b6f7c5b4eb0f3842a6f9a0289588cf5cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 19/30] fix: RouterSlices registration takes the lock that
 lookups take

---
 znet/router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/znet/router.go b/znet/router.go
index 9047bb8..136fc5d 100644
--- a/znet/router.go
+++ b/znet/router.go
@@ -53,10 +53,14 @@ func NewRouterSlices() *RouterSlices {
 }
 
 func (r *RouterSlices) Use(handles ...ziface.RouterHandler) {
+	r.Lock()
+	defer r.Unlock()
 	r.Handlers = append(r.Handlers, handles...)
 }
 
 func (r *RouterSlices) AddHandler(msgId uint32, Handlers ...ziface.RouterHandler) {
+	r.Lock()
+	defer r.Unlock()
 	// 1. Check if the API handler method bound to the current msg already exists
 	if _, ok := r.Apis[msgId]; ok {
 		panic("repeated api , msgId = " + strconv.Itoa(int(msgId)))
-- 
2.43.0


From b572349d65b6d320c6238c3f80a2218ba2e8ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:17 +0000
Subject: [PATCH 20/30] fix: an async completion callback always sees the
 returned object

---
 zasync_op/async_op_result.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..38f86de 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -13,6 +13,12 @@ import (
 	"github.com/aceld/zinx/znet"
 )
 
+const (
+	stateUnset   int32 = iota // Not set (未设置)
+	stateSetting              // Being set (正在设置)
+	stateSet                  // Set and visible (已设置完成)
+)
+
 type AsyncOpResult struct {
 	// Player connection (玩家连接)
 	conn ziface.IConnection
@@ -30,13 +36,17 @@ type AsyncOpResult struct {
 
 // GetReturnedObj returns the return value (获取返回值)
 func (aor *AsyncOpResult) GetReturnedObj() interface{} {
+	if atomic.LoadInt32(&aor.hasReturnedObj) != stateSet {
+		return nil
+	}
 	return aor.returnedObj
 }
 
 // SetReturnedObj sets the return value(设置返回值)
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
-	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
+	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, stateUnset, stateSetting) {
 		aor.returnedObj = val
+		atomic.StoreInt32(&aor.hasReturnedObj, stateSet)
 		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// Call the callback function directly when setting the processing result:
@@ -48,14 +58,15 @@ func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
 
 // OnComplete sets the completion callback function(完成回调函数)
 func (aor *AsyncOpResult) OnComplete(val func()) {
-	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
+	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, stateUnset, stateSetting) {
 		aor.completeFunc = val
+		atomic.StoreInt32(&aor.hasCompleteFunc, stateSet)
 
 		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
 		// **** Prevent the problem of not calling the completion callback function:
 		// If a processing result already exists when setting the callback function,
 		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
+		if atomic.LoadInt32(&aor.hasReturnedObj) == stateSet {
 			aor.doComplete()
 		}
 	}
@@ -64,7 +75,7 @@ func (aor *AsyncOpResult) OnComplete(val func()) {
 // doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
 // (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
 func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
+	if atomic.LoadInt32(&aor.hasCompleteFunc) != stateSet || aor.completeFunc == nil {
 		return
 	}
 
-- 
2.43.0


From 63cda2ee7809eb7607dba34964168effbc209eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 21/30] fix: async operations accept the smallest int as
 operation id

---
 zasync_op/async_op.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zasync_op/async_op.go b/zasync_op/async_op.go
index e3a3ab7..4796e21 100644
--- a/zasync_op/async_op.go
+++ b/zasync_op/async_op.go
@@ -59,16 +59,16 @@ func Process(opId int, asyncOp func()) {
 }
 
 func getCurWorker(opId int) *AsyncWorker {
-	// If opId is less than 0, convert it to its absolute value to ensure opId is positive
-	// (如果 opId 小于 0，则取其绝对值，确保 opId 为正数)
-	if opId < 0 {
-		opId = -opId
-	}
-
 	// 使用 opId 对工作者数组长度取模，确保根据 opId 获取到一个有效的工作者索引
 	// (Use opId % len(asyncWorkerArray) to calculate a valid worker index)
 	workerIndex := opId % len(asyncWorkerArray)
 
+	// If the index is less than 0, convert it to its absolute value (the smallest int has none, so not before the modulo)
+	// (如果索引小于 0，则取其绝对值；最小的 int 没有对应的正数，所以在取模之后处理)
+	if workerIndex < 0 {
+		workerIndex = -workerIndex
+	}
+
 	// Use sync.Once to ensure initialization happens only once for each worker
 	// (使用 sync.Once 确保对每个工作者的初始化操作只会执行一次)
 	onceArray[workerIndex].Do(func() {
-- 
2.43.0


From 5e2e8a80ccbd5a2b8157fba241fd8a1e0365b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 22/30] fix: user configuration of log retention, size and
 console output takes effect

---
 zconf/userconf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..6fbdf22 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -65,6 +65,21 @@ func UserConfToGlobal(config *Config) {
 		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
 	}
 
+	// The options of the log file, after the log file itself has been set
+	// (日志文件的参数，需要在设置日志文件之后设置)
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+		zlog.SetCons(GlobalObject.LogCons)
+	}
+	if config.LogSaveDays != 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+		zlog.SetMaxAge(GlobalObject.LogSaveDays)
+	}
+	if config.LogFileSize != 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+		zlog.SetMaxSize(GlobalObject.LogFileSize)
+	}
+
 	// Keepalive
 	if config.HeartbeatMax != 0 {
 		GlobalObject.HeartbeatMax = config.HeartbeatMax
-- 
2.43.0


From 0e493a4d4e3d42da992cb303ca444304c6c9fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 23/30] fix: log writer reopens its file after a failed
 rotation

---
 zutils/witer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..e46aa58 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -134,6 +134,7 @@ func (w *Writer) rotate() error {
 		w.bw.Flush()
 		w.file.Sync()
 		w.file.Close()
+		w.file = nil // 重新打开失败时，下一次写入会再次尝试
 		// 保存
 		fbak := w.fname + w.time2name(w.created)
 		fbakname := fbak + w.fsuffix
-- 
2.43.0


From 60653590d623a7105906ddd7aa1d227aadab631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 24/30] fix: a rotated log file is kept when its archive could
 not be completed

---
 zutils/witer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index e46aa58..5f4dea8 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -237,10 +237,14 @@ func ZipToFile(dst, src string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
 
 	// 执行压缩
-	return Zip(fw, src)
+	err = Zip(fw, src)
+	// 关闭失败说明压缩文件不完整
+	if cerr := fw.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // Zip 压缩文件或目录
@@ -259,11 +263,9 @@ func Zip(dst io.Writer, src string) error {
 
 	// 通文件流句柄创建一个ZIP压缩包
 	zw := zip.NewWriter(dst)
-	// 延迟关闭这个压缩包
-	defer zw.Close()
 
 	// 通过filepath封装的Walk来递归处理源路径到压缩文件中
-	return filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
+	err = filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
 		// 是否存在异常
 		if err != nil {
 			return err
@@ -318,4 +320,9 @@ func Zip(dst io.Writer, src string) error {
 		// 搞定
 		return nil
 	})
+	// 关闭这个压缩包，关闭失败说明压缩包不完整
+	if cerr := zw.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
-- 
2.43.0


From f1646c8d5125db17b2d492e532b68a234241204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:49 +0000
Subject: [PATCH 25/30] fix: log writer flushes and closes in one step and
 reads its settings under the lock

---
 zutils/witer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 5f4dea8..0769b53 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -168,11 +168,14 @@ func (w *Writer) rotate() error {
 
 // 删除旧日志
 func (w *Writer) delete() {
-	if w.maxAge <= 0 {
+	w.mu.Lock()
+	maxAge := w.maxAge
+	w.mu.Unlock()
+	if maxAge <= 0 {
 		return
 	}
 	dir := filepath.Dir(w.fpath)
-	fakeNow := time.Now().AddDate(0, 0, -w.maxAge)
+	fakeNow := time.Now().AddDate(0, 0, -maxAge)
 	dirs, err := os.ReadDir(dir)
 	if err != nil {
 		return
@@ -201,7 +204,6 @@ func (w *Writer) time2name(t time.Time) string {
 }
 
 func (w *Writer) Close() error {
-	w.flush()
 	return w.close()
 }
 
@@ -212,6 +214,7 @@ func (w *Writer) close() error {
 	if w.file == nil {
 		return nil
 	}
+	w.bw.Flush()
 	w.file.Sync()
 	err := w.file.Close()
 	w.file = nil
-- 
2.43.0


From b3f4b7c17d0867cdd939f5e8fb6ec350660b45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:58 +0000
Subject: [PATCH 26/30] fix: the log file and hook can be changed while other
 goroutines log

---
 zlog/logger_core.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..34fe422 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -117,6 +117,8 @@ func CleanZinxLog(log *ZinxLoggerCore) {
 }
 
 func (log *ZinxLoggerCore) SetLogHook(f func([]byte)) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	log.onLogHook = f
 }
 
@@ -378,6 +380,8 @@ func (log *ZinxLoggerCore) SetPrefix(prefix string) {
 // SetLogFile sets the log file output
 // (设置日志文件输出)
 func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
@@ -386,37 +390,39 @@ func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
 
 // SetMaxAge 最大保留天数
 func (log *ZinxLoggerCore) SetMaxAge(ma int) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxAge(ma)
 }
 
 // SetMaxSize 单个日志最大容量 单位：字节
 func (log *ZinxLoggerCore) SetMaxSize(ms int64) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxSize(ms)
 }
 
 // SetCons 同时输出控制台
 func (log *ZinxLoggerCore) SetCons(b bool) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetCons(b)
 }
 
 // Close the file associated with the log
 // (关闭日志绑定的文件)
 func (log *ZinxLoggerCore) closeFile() {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
-- 
2.43.0


From 4d796bb5b7c9513a90577b9d6f600ad7cea6913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:06 +0000
Subject: [PATCH 27/30] fix: fatal log lines reach the log file before the
 process exits

---
 zlog/logger_core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 34fe422..2bf3f8e 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -306,6 +306,7 @@ func (log *ZinxLoggerCore) Fatalf(format string, v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintf(format, v...))
+	log.closeFile()
 	os.Exit(1)
 }
 
@@ -314,6 +315,7 @@ func (log *ZinxLoggerCore) Fatal(v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintln(v...))
+	log.closeFile()
 	os.Exit(1)
 }
 
-- 
2.43.0


From 52f837cf66c9eb468cb4a751f7ccaf8c5f3501c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:14 +0000
Subject: [PATCH 28/30] fix: a panicking callback does not leave a shard locked

---
 zutils/shard_lock_map.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zutils/shard_lock_map.go b/zutils/shard_lock_map.go
index 2da6c40..4e6fc68 100644
--- a/zutils/shard_lock_map.go
+++ b/zutils/shard_lock_map.go
@@ -125,12 +125,12 @@ func (slm ShardLockMaps) RemoveCb(key string, cb RemoveCb) bool {
 
 	shard := slm.GetShard(key)
 	shard.Lock()
+	defer shard.Unlock()
 	v, ok := shard.items[key]
 	remove := cb(key, v, ok)
 	if remove && ok {
 		delete(shard.items, key)
 	}
-	shard.Unlock()
 	return remove
 }
 
@@ -263,12 +263,15 @@ type IterCb func(key string, v interface{})
 // all elements in a map.
 func (slm ShardLockMaps) IterCb(fn IterCb) {
 	for idx := range slm.shards {
-		shard := (slm.shards)[idx]
-		shard.RLock()
-		for key, value := range shard.items {
-			fn(key, value)
-		}
-		shard.RUnlock()
+		(slm.shards)[idx].iterCb(fn)
+	}
+}
+
+func (shard *SingleShardMap) iterCb(fn IterCb) {
+	shard.RLock()
+	defer shard.RUnlock()
+	for key, value := range shard.items {
+		fn(key, value)
 	}
 }
 
-- 
2.43.0


From 84b34cb3ad51969cd26b618ced1ff8167424af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:06 +0000
Subject: [PATCH 29/30] fix: an empty log message ends its line too

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 2bf3f8e..b1cedac 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -222,7 +222,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From c33b3252b378447752d67cf268606d9cc0df76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 30/30] fix: a KcpStreamMode given as true takes effect

---
 zconf/userconf.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 6fbdf22..860f4f6 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -119,9 +119,7 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0

