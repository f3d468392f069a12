#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only to keep the lines readable). usage: mkprops.py > ../properties.jsonl"""
import json,sys
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(obs),hook_needed=None)))

p("C01","Packing and unpacking round-trip every message in the documented wire layout",
 "For every 32-bit message id, every JSON-representable header, every body and every built-in marshaller, packing succeeds with exactly one block laid out as length, id, header length, body length (each 4 bytes, big endian, length not counting itself), JSON header, marshalled body, whatever the sizes. Unpacking that block, and each accessor over it (id, lengths, header, header bytes, body bytes, route, typed binders), returns exactly what was packed, also when more bytes follow the block. Header values are set and read back by key. Neither packing nor unpacking changes the message, the caller's headers or the bytes it was given.",
 ["inputs","configurations"],"all message ids, headers, bodies, sizes and marshallers, through every pack/unpack entry point",
 "the tests pack a handful of tiny messages; ids beyond a few small positive ones, sizes around the internal buffer sizes and header aliasing are never compared field by field",
 ["packx.go","message.go","marshaller.go","pack-type.go"],
 [("block encoder/decoder","packx.go PackWithMarshaller, PackWithMarshallerAndBody, UnpackWithMarshaller"),("accessors","packx.go *Of functions; pack-type.go"),("marshallers","marshaller.go")],
 obs=["bytes returned by the pack functions","values returned by the unpack functions and accessors"])

p("C02","Messages are reassembled identically whatever way the byte stream is cut",
 "However the network cuts or coalesces a client's byte stream (any segmentation, several messages in one read, a last read that carries data together with end-of-stream, plain TCP, unix sockets or TLS), the server sees exactly the complete messages the client sent: each one bit-exact and once, in the order sent where order is observable. A trailing incomplete message is never delivered.",
 ["inputs","schedules"],"all streams of messages x all segmentations x both transports",
 "loopback tests deliver every small message in a single read; partial reads, coalesced reads and data-with-EOF never occur",
 ["packx.go","tcpx.go","tls.go"],
 [("read until the block is full","packx.go readUntil"),("first block of a reader","packx.go UnpackToBlockFromReader*"),("per-connection read loop","tcpx.go ListenAndServeTCP")],
 obs=["bytes each handler sees for its message"])

p("C03","Hostile bytes are rejected without harming anything but their own connection",
 "For any bytes whatever, the decoding functions and accessors return an error or a value the bytes really hold and never panic, and a server fed those bytes over TCP or UDP neither crashes nor stops serving. A malformed message is never delivered to a handler as part of another message; at most its own connection is closed, messages that preceded it are still handled, and all other connections and datagrams are served as usual.",
 ["inputs","histories"],"all byte strings (in particular every combination of declared lengths against actual length), alone and mixed with honest traffic",
 "no test feeds a malformed block; the space of inconsistent length fields is not sampled at all",
 ["packx.go","tcpx.go","pack-type.go"],
 [("bounds checks of the decoder","packx.go HeaderBytesOf, BodyBytesOf, UnpackWithMarshaller, UnpackToBlockFromReader*"),("closing a connection whose stream is invalid","tcpx.go ListenAndServeTCP"),("dropping an invalid datagram","tcpx.go ListenAndServeUDP")],
 obs=["process survival","handler invocations","connection close"])

p("C04","The configured message size limit is enforced exactly",
 "With a positive limit configured, on a TCP or unix connection a message whose length field exceeds the limit is never delivered and its connection is closed without waiting for its content; a message whose length field is at or below the limit is delivered normally. This holds for every message of a connection, including messages inside a pipe, and without a limit (zero or negative) no message is refused for its size.",
 ["inputs","configurations"],"all limits and message lengths, in particular around equality; first, later and piped messages",
 "the limit is not tested at all",
 ["tcpx.go","packx.go"],
 [("limit check before reading the content","packx.go UnpackToBlockFromReaderLimitMaxLengthOfByte"),("limit passed for first and piped blocks","tcpx.go ListenAndServeTCP")],
 obs=["handler invocations","connection close"])

p("C05","Every message is routed exactly once, by its own header and id",
 "Each complete message is dispatched exactly once: to the single OnMessage callback if one is set, otherwise by the message's own header - to the handler registered for its URL pattern when the header names URL routing with a string pattern, to the handler registered for its message id when the header names no routing type (or a non-string one) or names message-id routing. The choice never depends on other messages of the same or of another connection, and a message with an unknown routing type or without a registered handler invokes nothing and disturbs nothing.",
 ["inputs","schedules","histories"],"all mixes of id-routed and URL-routed messages, known and unknown, on any number of connections, under all schedules",
 "tests use one routing style per server and one message per connection",
 ["tcpx.go","context.go","mux.go","url-mux.go"],
 [("router type decision","context.go RouterType"),("dispatch","tcpx.go handleMiddleware, handleMessageIDHandlers, handleURLPatternHandlers"),("handler tables","mux.go Handlers; url-mux.go urlPatternMux")],
 obs=["handler invocations with their message"])

p("C06","Each handler runs with exactly the middlewares its registration implies",
 "For every sequence of UseGlobal, Use, UnUse, AddHandler and Any calls, a message runs: all global middlewares in registration order, then the keyed middlewares that were in use when its handler was registered (ordered by first Use), then the handler's own middlewares, then the handler, each once; re-using a key after UnUse takes effect for handlers registered from then on. With OnMessage or raw mode all global and all keyed middlewares run before the callback, in use or not. Heartbeat and auth messages skip middlewares exactly when so configured, and inconsistent registration (duplicate id, double Use, UnUse of an unknown or unused key) is refused by panicking.",
 ["programs"],"all registration programs and all messages",
 "tests check a few fixed programs with at most one Use/UnUse pair per key and print instead of asserting the order",
 ["tcpx.go","mux.go","anchor.go","url-mux.go"],
 [("anchor index intervals","anchor.go Contains, callUse, callUnUse"),("chain assembly","tcpx.go handleMessageIDHandlers, handleURLPatternHandlers, handleOnMessage, handleRaw"),("registration","tcpx.go Use, UnUse, UseGlobal, AddHandler, Any; mux.go")],
 obs=["sequence of middleware and handler invocations per message"])

p("C07","Abort stops the rest of one request's chain, Next runs it in place",
 "Within one request, calling Next runs the remaining chain before returning to the caller, and no link ever runs twice whether or not links call Next. After Abort no further link of that request starts, while links already entered complete. Neither has any effect on another request, concurrent or later, of the same or another connection.",
 ["programs","schedules"],"all assignments of Next/Abort to the links of a chain, under concurrent requests",
 "one test with one aborting middleware on one request",
 ["context.go","tcpx.go"],
 [("chain cursor","context.go Next, Abort, isAbort, Reset"),("per-request copy of the context","context.go copyContext")],
 obs=["enter/return order of links per message"])

p("C08","Request values stay in their request, connection values in their connection",
 "A value stored in the per-request scope is visible to later links of the same request and to no other request, even a concurrent or later one on the same connection. A value stored in the per-connection scope is visible to every later request of that connection and to no other connection; over UDP both scopes are the single datagram's. Keys reserved for the framework cannot be set through the connection scope API.",
 ["histories","schedules"],"all histories of sets and gets by concurrent requests on several connections",
 "the only test sets and gets on one context object without a server",
 ["context.go","tcpx.go"],
 [("scope maps","context.go PerConnectionContext, PerRequestContext"),("fresh request scope","context.go copyContext, Reset")],
 obs=["results of the getters inside handlers"])

p("C09","Piped messages are handled strictly one after the other in order",
 "The messages a client sends as one pipe are handled in the order sent, each one's whole chain finishing before the next one's starts, each exactly once and with its own middlewares; an aborted or failing message of the pipe does not prevent the following ones. Messages after the pipe are unaffected by it. If the stream ends or becomes invalid inside a pipe, the messages that arrived completely are handled and nothing else happens.",
 ["inputs","schedules","fault_sequences"],"all pipe lengths, contents and handler durations, cut at any byte",
 "the pipe test sends one complete pipe of fixed length with instantaneous handlers",
 ["tcpx.go","utils.go"],
 [("pipe header","tcpx.go isPipe; utils.go PipeJSON"),("collecting and running the pipe","tcpx.go ListenAndServeTCP, handlePipe")],
 obs=["enter/return events of the piped messages' chains"])

p("C10","Connect and close callbacks bracket every connection exactly once",
 "For every accepted connection OnConnect runs exactly once, before any of its messages is handled, and OnClose runs exactly once, only after the connection can deliver no further message, whatever ended it: the client closing or resetting, invalid data, a handler or callback closing it, heartbeat or auth expiry, a deadline, or Stop. Once it has ended the server's end is closed, the context reports offline (before that, online), and no further message of it is dispatched.",
 ["histories","schedules","fault_sequences"],"all causes of connection end, alone and racing, at any point of the stream",
 "tests never count callbacks and never end connections other than by process exit",
 ["tcpx.go","context.go"],
 [("deferred OnClose and CloseConn","tcpx.go ListenAndServeTCP, ListenAndServeRaw"),("idempotent close","context.go CloseConn")],
 obs=["callback invocations","close of the server's end","IsOnline/IsOffline"])

p("C11","Heartbeat monitoring drops exactly the connections that stop beating",
 "With heartbeat on, a connection is closed if and when three consecutive heartbeat intervals pass without a beat (counted from the last beat or from connecting), and never while beats keep arriving more often than that; a beat at any time restarts the count from zero. The loss callback runs exactly once, before the close, and only for such a drop. Each connection is judged by its own beats only, and with heartbeat off no connection is ever dropped for silence.",
 ["histories","schedules","configurations"],"all patterns of beats over time on several connections, built-in, renumbered and rewritten heartbeat handlers",
 "the heartbeat test waits real seconds for one pattern and asserts nothing about drops",
 ["tcpx.go","context.go"],
 [("watcher","tcpx.go heartBeatWatch"),("beat channel","context.go HeartBeatChan, RecvHeartBeat")],
 obs=["time of close, loss callback"])

p("C12","Unauthenticated connections are dropped in time, authenticated ones never",
 "With auth on, a connection for which no pass has been recorded within the auth period after connecting is closed at the end of the period; one for which deny is recorded first is closed at once; one for which pass is recorded first within the period is never closed by auth, whatever is recorded later. Each connection is judged by its own decision only, and with auth off none is ever closed for lack of it.",
 ["histories","schedules"],"all timings and orders of pass/deny calls on several connections",
 "auth has no test",
 ["tcpx.go","context.go"],
 [("watcher","tcpx.go authWatch"),("decision channel","context.go RecvAuthPass, RecvAuthDeny")],
 obs=["time of close"])

p("C13","The pool maps each username to its latest online connection and to no dead one",
 "After any history of online, offline, re-online under the same or another name, and connection ends, a lookup of a name yields exactly the connection that most recently went online under it and has since neither gone offline, nor re-onlined under another name, nor ended; otherwise it yields nothing. In particular a replaced connection going offline or ending never removes its successor, and an ended connection never remains or reappears in the pool. A pool the application keeps itself (NewClientPool) yields, for every name, the context last put there and not since removed, however many goroutines use it.",
 ["histories","schedules"],"all histories over several connections and names, with online/offline/close racing, built-in pool and the application's own",
 "the pool has no test; examples use one user",
 ["client-pool.go","context.go"],
 [("pool map","client-pool.go"),("online/offline/close","context.go Online, Offline, CloseConn")],
 obs=["pool lookups at quiescence"])

p("C14","Replies reach the requesting client whole, once, and correctly encoded",
 "Every reply a handler makes successfully arrives at the client whose message it is handling, exactly once and as one contiguous well-formed block, even when many handlers reply concurrently on one connection, the client reads slowly or the reply is large; the block carries the given id or the request's URL pattern, headers, and body in the selected marshaller. No reply is ever delivered to another client, and replying on an ended connection returns an error; a reply that a write deadline cuts short fails and ends the connection, so nothing ever follows half a block.",
 ["schedules","inputs"],"all interleavings of concurrent replies of any size through every reply method",
 "tests read one reply of one request",
 ["context.go","packx.go"],
 [("reply path","context.go Reply, commonReply, replyBuf, JSONURLPattern, ProtobufURLPattern")],
 obs=["byte stream each client receives"])

p("C15","Sending to a username reaches exactly the connection holding that name",
 "SendToUsername delivers its message, whole and exactly once, to the connection currently online under that name and to no other, including to oneself; if nobody is online under it (never, gone offline, or ended) it returns an error and delivers nothing. It reports success exactly when the message was handed to that connection.",
 ["histories","schedules"],"all histories of online/offline/close and sends between several connections",
 "no test",
 ["context.go","client-pool.go"],
 [("lookup and forward","context.go SendToUsername, SendToConn")],
 obs=["bytes received by each client","returned error"])

p("C16","Stop ends listening at once and ends existing connections exactly as asked",
 "Once Stop has returned, no listener started by the server, of any supported network, accepts another connection or datagram. Stop(false) leaves every established connection open and fully served; Stop(true) ends every connection when broadcast signals are enabled, and every connection in the pool when only the pool is enabled, in both cases leaving the pool without ended connections. Stop of a stopped server returns an error and changes nothing.",
 ["histories","schedules","configurations"],"all sets of listeners and connections, options and sequences of Stop/Start/Restart, racing with traffic",
 "no test calls Stop",
 ["tcpx.go","client-pool.go"],
 [("closing listeners","tcpx.go Stop"),("closing connections","tcpx.go closeAllConnection, broadcastSignalWatch")],
 obs=["listening state per address","close of connections","traffic after Stop"])

p("C17","Start and Restart bring back every listener, again and again",
 "After Start on a stopped server, or Restart, every address the server had been listening on is served again, in the same mode (packed protocol, raw, TLS or UDP) with all registered handlers, and new connections stay alive; connections that survived the stop keep working. This holds for any number of stop/start cycles with any number of listeners; the functions given to Restart run once, in order, between the stop and the start, and Start of a running server returns an error and changes nothing.",
 ["histories","configurations"],"all sequences of Stop(false), Stop(true), Start, Restart with 1..n listeners",
 "no test calls Start or Restart",
 ["tcpx.go"],
 [("restarting listeners","tcpx.go Start, Restart, fillProperty")],
 obs=["listening state per address","traffic after restart"])

p("C18","An ended connection or served request leaves no goroutine behind",
 "When a connection has ended and its handlers have returned, every goroutine the server created for it terminates, whatever options are on and whatever ended it; serving messages or datagrams leaves none behind either, and after Stop with all connections ended the serving calls themselves return. Signalling a heartbeat or an auth decision from a handler never blocks the handler, however often it is done.",
 ["histories","schedules","configurations"],"all option combinations x causes of end x numbers of signals",
 "tests never look at goroutines",
 ["tcpx.go","context.go"],
 [("end broadcast","context.go CloseConn recvEnd"),("watchers select on it","tcpx.go heartBeatWatch, broadcastSignalWatch, authWatch")],
 obs=["goroutines left when all connections have ended"])

p("C19","Configured deadlines apply to every connection",
 "A deadline set on the server before it starts takes effect on each plain (not TLS) stream connection it accepts: after the read (or common) deadline a connection that is waiting for input is closed and nothing later is handled, after the write (or common) deadline replies fail with an error. A deadline set for one direction does not affect the other, no deadline means no expiry, and a deadline set on a context replaces the server's for that connection.",
 ["configurations","histories"],"all combinations of common, read and write deadlines, set on the server or per connection, and all traffic timings around them",
 "deadlines have no test",
 ["tcpx.go","context.go"],
 [("applying deadlines on accept","tcpx.go ListenAndServeTCP, ListenAndServeRaw, ListenAndServeUDP"),("per-context setters","context.go SetDeadline, SetReadDeadline, SetWriteDeadline")],
 obs=["time of close","reply errors"])

p("C20","Each valid datagram is handled exactly once and answered to its own sender",
 "Every datagram holding one well-formed block (within the buffer size) is dispatched exactly once with its own bytes and its sender's address, through the same middleware and routing rules as a stream message, and replies go to that sender. Datagrams that do not hold a complete block are dropped without affecting any other datagram. The server keeps serving indefinitely, whatever options other than deadlines are on, until it is stopped.",
 ["inputs","schedules","histories"],"all sequences of datagrams, honest and hostile, from several senders",
 "the UDP test sends one datagram",
 ["tcpx.go","context.go"],
 [("receive loop","tcpx.go ListenAndServeUDP, ReadAllUDP"),("reply address","context.go replyBuf")],
 obs=["handler invocations","datagrams sent by the server"])

p("C21","A raw server hands the untouched byte stream to its handler, once per connection",
 "On a raw listener each connection gets OnConnect, then all global and keyed middlewares and the raw handler exactly once, with a reader yielding exactly the client's bytes in order and a writer whose bytes reach exactly that client; when the handler returns (or panics) OnClose runs once and the connection is closed. Connections are independent, and ending the server or the connection by any other means unblocks the handler's reads.",
 ["inputs","schedules","histories"],"all byte streams and segmentations on several connections",
 "no raw test",
 ["tcpx.go","context.go"],
 [("raw serve loop","tcpx.go ListenAndServeRaw, handleRaw"),("reader/writer","context.go InitReaderAndWriter")],
 obs=["bytes the raw handler reads","bytes clients receive","callbacks"])

p("C22","A panicking handler costs only its own message",
 "A panic in a handler, middleware or OnMessage callback, over TCP (piped or not) or UDP, never takes the process down and never ends the server, its connection or any other request: other messages, later ones of the same connection included, are handled as usual.",
 ["fault_sequences","schedules"],"a panic in any link of any message's chain at any time",
 "no test panics in a handler",
 ["tcpx.go"],
 [("recovery around dispatch","tcpx.go handleMiddleware")],
 obs=["process survival","later messages handled"])

p("C23","Exit hooks run in order on a termination signal, then the process exits",
 "After BeforeExit has returned, the first interrupt, terminate or quit signal makes the registered functions run, each exactly once and in the order given, while the process stays alive until the last has returned; it then exits with status 0. Without a signal none of them runs.",
 ["schedules","fault_sequences"],"all signals, arriving at any time, with any number and duration of functions",
 "it needs a process of its own",
 ["tcpx.go"],
 [("signal watcher","tcpx.go BeforeExit")],
 obs=["output and exit status of the process"])

p("C24","The client helpers speak exactly the protocol the server reads",
 "What WriteJSON, PipeJSON, TCPCallOnceJSON, WriteConn, PackHeartbeat and PackStuff put on a connection is exactly the byte sequence of the corresponding messages (for a pipe: all of them, marked so that the server handles them as one pipe), complete, for WriteConn, also when the connection accepts only part of a write at a time, and Recv with the typed binders returns one at a time exactly the messages a server sent. Invalid arguments return an error and write nothing.",
 ["inputs","schedules"],"all arguments, message counts and sizes, and all partial-write and segmentation patterns",
 "helpers are exercised on one happy path without looking at the bytes",
 ["utils.go","packx.go","pack-type.go"],
 [("helpers","utils.go WriteJSON, PipeJSON, TCPCallOnceJSON, WriteConn, Recv"),("fixed messages","packx.go PackHeartbeat, PackStuff")],
 obs=["bytes on the connection","messages the server handles"])

p("C25","A slow or stuck handler delays nothing but its own pipe",
 "While any handlers are blocked, every other complete message on the same and on other connections is still handled, new connections are still accepted, heartbeats are still recognised and connection ends are still noticed. Only the later messages of the same pipe wait for it.",
 ["schedules","histories"],"any set of handlers blocked for any time while other traffic goes on",
 "tests have no blocking handlers",
 ["tcpx.go"],
 [("one goroutine per message","tcpx.go ListenAndServeTCP, ListenAndServeUDP")],
 obs=["handler invocations while others are blocked"])

p("C26","A serving call that cannot listen reports it and changes nothing else",
 "Calling a serving function (stream, unix, raw or udp) for an address that is already in use returns an error to its caller (the udp one may panic instead) without blocking. It changes nothing else: listeners that are running go on serving old and new clients, and a later Stop, Start or Restart still closes and reopens every one of them and makes every serving call return.",
 ["histories","configurations"],"any mix of failing serving calls with Stop, Start, Restart and traffic, on every kind of listener",
 "no test serves an address twice",
 ["tcpx.go"],
 [("listening before the server's state changes","tcpx.go ListenAndServeTCP, ListenAndServeRaw, ListenAndServeUDP, fillProperty")],
 obs=["result of the serving call","traffic on the running listeners","listeners open after Stop and Start"])

for x in P:
    assert len(x["title"])<=80,x["title"]
    sys.stdout.write(json.dumps(x)+"\n")
