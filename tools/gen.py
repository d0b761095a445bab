#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []
def p(id, title, statement, over, text, why, files, mech, technique):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique))

S, I, H, CF, F, PR = "schedules", "inputs", "histories", "configurations", "fault_sequences", "programs"

p("C01", "Connection and request key/value state is race-free and keeps what was set",
  "Properties of a connection and keys of a request can be set, read and removed from any number of goroutines at once without a data race: a read returns the value stored last under that key or reports that there is none. Close callbacks can be added and removed concurrently with the connection closing, and a callback added to an open connection is in the list that closing walks.",
  [S, H], "every interleaving of property, key and callback operations on the TCP, websocket and KCP connection types",
  "tests set and read one property from one goroutine at most; a missing lock shows only under a particular interleaving",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/request.go", "znet/callbacks.go"],
  [("property, key and callback locks", "znet/connection.go SetProperty/AddCloseCallback, znet/request.go Set/Get")],
  "guarded-by (lockset) dataflow over the inlined control-flow graph, plus path rules on map effects")
p("C02", "The sharded map is atomic per key and a key has one home",
  "Every operation of the sharded map on a key is atomic with respect to every other operation on the same key: set-if-absent stores for exactly one of several competing callers, pop hands a value to exactly one, and a conditional removal removes only what its callback approved. Operations agree on where a key lives, reads report what the last write stored, and an iteration never observes a map being written.",
  [S, I, H], "all keys, hash functions and interleavings of map operations",
  "the tests run the map from one goroutine, or with timing that rarely interleaves inside an operation",
  ["zutils/shard_lock_map.go"], [("per-shard lock and hash selection", "zutils/shard_lock_map.go GetShard, SetNX, Pop, RemoveCb")],
  "lockset dataflow, symbolic key/shard agreement and check-then-act typestate on every path")
p("C03", "No lock of the library is leaked, re-entered or taken in a cyclic order",
  "Whatever path a call takes (early return, error, or a panic raised by user code that something above recovers), every lock it took is released exactly once, in the mode it was taken. No goroutine takes a lock it already holds, locks are never acquired in a cyclic order, and none is held while waiting indefinitely for another party, so no call blocks forever on the library's own locks.",
  [S, PR, F], "every path through every exported function, goroutine body and callback of the library packages",
  "a leaked or re-entered lock needs the one error path, callback panic or interleaving no test takes",
  ["znet", "zutils", "ztimer", "zlog", "znotify", "zasync_op", "zinterceptor"], [("mutex discipline", "every Lock/Unlock in the library packages")],
  "lock typestate over interprocedural paths including unwinding, and lock-order graph acyclicity")
p("C04", "A received message keeps its bytes",
  "The bytes of a message handed to a handler are the bytes that were received for it and stay unchanged while the handler (or anything that keeps the request) uses them: later reads from the socket, later frames of the same connection and other connections never write into them.",
  [S, I, H], "all segmentations of the byte stream, transports, and handler durations",
  "tests handle one small message before the next is read, so sharing a buffer goes unnoticed",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zinterceptor/framedecoder.go", "zpack/message.go"],
  [("a fresh buffer per frame", "zinterceptor/framedecoder.go Decode; readers of the three connection types")],
  "buffer ownership / aliasing analysis: provenance of every byte slice that reaches a message")
p("C05", "The length-field decoder accounts for every byte of the stream",
  "For any configuration the decoder accepts, a complete frame is removed from the stream exactly once and in order, its extent is given by its own length field, and an incomplete frame is left untouched until more bytes arrive. A frame that is too long, negative or shorter than its header is rejected without consuming bytes of the frames behind it, the bytes of an oversized frame still to come are discarded, and connections never share decoder state.",
  [I, H, CF], "all byte streams, all segmentations and all length-field configurations",
  "tests feed a handful of frames with one configuration; the error and partial-frame paths are not reached",
  ["zinterceptor/framedecoder.go", "ziface/ilengthfield.go"],
  [("decode/extract/skip accounting", "zinterceptor/framedecoder.go")],
  "symbolic evaluation of buffer positions along every path of the decoder (linear forms), and per-connection provenance of the decoder")
p("C06", "Encoders and decoders agree on the wire format",
  "What each packer writes is what the matching unpacker and frame decoder read: the same fields, widths, order and byte order, with the length field counting exactly the payload, for every message identifier and payload. Each protocol's frame decoder configuration describes that same layout.",
  [I, CF], "every message id, payload length and byte order",
  "tests pack a few small messages; a width or offset that only differs for large values is not seen",
  ["zpack/datapack_tlv_bigendian.go", "zpack/datapack_ltv_littleendian.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "zdecoder/htlvcrcdecoder.go", "zpack/message.go"],
  [("wire layout", "Pack/Unpack/GetHeadLen and the decoders' GetLengthField/decode")],
  "extraction of the symbolic wire layout from both sides and comparison")
p("C07", "A frame that fails its checks never reaches a handler nor crashes decoding",
  "A checksummed frame is delivered only when the checksum computed over all its bytes before the checksum matches the one it carries; otherwise it goes to no handler. A frame too short for the fields of its protocol is not delivered as a decoded message, and decoding never reaches outside the bytes of the frame.",
  [I], "every byte string a peer can send",
  "tests send only well-formed frames",
  ["zdecoder/htlvcrcdecoder.go", "zdecoder/crc.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go"],
  [("CRC check and length guards", "zdecoder/*.go Intercept/decode")],
  "path conditions: every delivery dominated by the checks, every constant-offset slice dominated by a length guard")
p("C08", "A panic in user code never takes the server down",
  "A panic raised in a router handler, interceptor, decoder, connection hook, close callback or asynchronous callback is recovered inside the library; it never ends the process. After a handler panics its worker goes on serving the requests that follow.",
  [F, S], "every user callback and every goroutine the library starts",
  "tests do not raise panics in most callbacks, and an uncontained panic ends the test process itself",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zasync_op/async_worker.go", "ztimer/delayfunc.go"],
  [("recover in the frames that run user code", "znet/msghandler.go doMsgHandler, connection Start/StartReader/finalizer")],
  "reachability of the goroutine root by an unwinding panic over the interprocedural graph with deferred calls")
p("C09", "Requests of a connection run one at a time, in order, on its worker",
  "With a worker pool, every request received on a connection is put on the queue of the worker assigned to that connection, in the order received, and each worker runs the requests of its queue one after another to completion. No request is dropped or run twice on that way, and a connection has its worker before its first request is read.",
  [S, I, CF], "all schedules of readers and workers, all worker modes and routing modes",
  "tests run single requests; reordering or running two requests of a connection at once needs load and timing",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/request.go"],
  [("task queues", "znet/msghandler.go SendMsgToTaskQueue, StartOneWorker, StartWorkerPool")],
  "call-graph and path rules: where requests are queued, from which index, and that workers process synchronously")
p("C10", "A bound worker serves one connection at a time and is returned",
  "In the binding worker modes a worker identifier taken by a connection is removed from the free set in the same critical section in which it was chosen, so no two live connections share a bound worker. When the connection ends its identifier goes back to the set it came from, exactly once, and a worker started for it is stopped first.",
  [S, H, CF], "all interleavings of connections starting and ending, in both binding modes",
  "tests open few connections and check only that they work; sharing a worker shows as rare reordering",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("free worker sets", "znet/msghandler.go useWorker/freeWorker")],
  "lockset dataflow plus take/remove typestate on every path of acquisition and release")
p("C11", "Routing runs exactly the handlers registered for the message",
  "A message runs the router or handler list registered for its identifier and nothing else; a message nobody registered runs no handler and harms nothing. Registering an identifier twice is refused rather than silently replaced, and a group refuses identifiers outside its range.",
  [I, H, CF], "every message id, registration order and routing mode",
  "tests register a few ids and send those; refusal and unknown-id paths are not exercised",
  ["znet/msghandler.go", "znet/router.go", "znet/request.go", "znet/server.go"],
  [("route tables", "znet/msghandler.go AddRouter/doMsgHandler, znet/router.go AddHandler/GetHandlers")],
  "path rules: lookup by the request's own id dominates every handler call; insertion dominated by absence")
p("C12", "Middleware and handlers run once each, in registration order, until aborted",
  "The list run for a route is the global middleware registered so far, then the group's, then the route's own, in that order, and registering one route never changes the list of another. Each element of the list runs at most once and in order, aborting stops every element after the current one, and a classic router runs its before-, main- and after-step in that order unless aborted or sent elsewhere.",
  [I, H, S], "all sequences of registrations, list lengths, and uses of next/abort/goto",
  "tests use short lists registered one way; slice sharing and index limits show only for particular lengths",
  ["znet/router.go", "znet/request.go", "znet/msghandler.go"],
  [("list construction and cursor", "znet/router.go AddHandler/Use/NewGroup, znet/request.go RouterSlicesNext/Call/Abort")],
  "symbolic list-concatenation and freshness analysis, and cursor-state rules on every path")
p("C13", "Interceptors run in order, each request once through the whole chain",
  "Every request passes the head interceptors, then those added by the user in the order added, then the dispatching tail exactly once; an interceptor sees the request its predecessor passed on, and one that does not proceed keeps the request from all later ones. One request's progress through the chain never affects another's.",
  [I, S, H], "all chains and concurrent requests",
  "tests build chains of two; order, sharing between concurrent requests and early stops are not examined",
  ["znet/chainbuilder.go", "zinterceptor/chain.go", "zinterceptor/interceptor.go"],
  [("chain construction and position", "znet/chainbuilder.go Execute, zinterceptor/chain.go Proceed")],
  "symbolic list evaluation of the chain and per-request position freshness")
p("C14", "A pooled request carries nothing of its previous use",
  "A request taken from the pool shows nothing of the request it was used for before: connection, message, response, router, handlers, position and keys all belong to the new one. A request is returned to the pool only after its last use by the library and at most once, and a copy made for later use has a message object and a key map of its own, so that reuse of the original never shows in it.",
  [S, H, CF], "every reuse order of pooled requests, with and without pooling",
  "a stale field or early return needs pool reuse with a particular predecessor",
  ["znet/request.go", "znet/msghandler.go"],
  [("pool", "znet/request.go GetRequest/PutRequest/Reset/Copy, znet/msghandler.go")],
  "struct-field exhaustiveness (every field reset / copied) and use-after-release typestate")
p("C15", "Connection hooks run once, in order, and ending a connection releases everything",
  "The start hook of a connection runs before any of its messages is read. Once the connection ends, provided its hooks return, its stop hook runs exactly once and before the socket is closed, its heartbeat is stopped, its socket closed, it is removed from the server's connections, its close callbacks are invoked and its worker is given back.",
  [S, H, F], "every way a connection can end and every point in its life where that happens",
  "tests end connections one way, at rest; double or missing clean-up needs concurrent ends",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("Start/finalizer", "znet/connection.go, znet/ws_connection.go, znet/kcp_connection.go")],
  "must-pass / at-most-once event rules over all interprocedural paths")
p("C16", "Stopping a connection is idempotent, never blocks, and reader failure stops it",
  "Stop may be called any number of times, from any goroutine, before or after the connection was started, and never blocks or panics. However the reading side ends (error, end of stream, handler panic), the connection is stopped, and its reader and writer end once it is stopped.",
  [S, F, H], "all call orders of start and stop and all ways reading can end",
  "tests stop a connection once from one place",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/heartbeat.go"],
  [("context cancellation", "Stop/StartReader/StartWriter of the three connection types")],
  "must-reach rules on every exit (unwinding included), nil-safety before start, and blocking-operation rules")
p("C17", "Sending through the queue never panics, blocks for good, or uses a dead queue",
  "Queued sends may race with each other and with the connection closing: the outgoing queue is created exactly once with exactly one writer, nothing is ever sent on a closed or uncreated queue, and a send that cannot be queued returns an error within a bound instead of blocking. After the connection is closed sends report an error.",
  [S, H], "all interleavings of senders, the writer and close",
  "a send on a closed channel or a second writer needs a precise interleaving",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("queue creation and close", "SendToQueue/StartWriter/finalizer of the three connection types")],
  "channel typestate (create-once, close vs send under lock) and bounded-wait rules")
p("C18", "Frames reach the wire whole, in order, and failures are reported",
  "Each frame sent on a connection reaches the transport as one contiguous run of bytes: frames sent from different goroutines, directly or through the queue, never interleave, and frames from the queue keep their order. A message is sent as packed for its own identifier and data, and a failure to pack or write is returned to the caller.",
  [S, I, F], "all interleavings of direct and queued sends and all write errors",
  "interleaving needs concurrent writers; error returns need failing sockets",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/client.go"],
  [("write paths", "Send/SendBuf/SendMsg/StartWriter of the three connection types")],
  "lockset on transport writes, error-propagation dataflow, value provenance of packed bytes")
p("C19", "Heartbeat: every connection has its own checker; dead peers are dropped",
  "Each connection gets a heartbeat checker of its own, bound to it, with the interval, message, router and callbacks the user configured. On every tick a live connection is sent a heartbeat and one that has been silent for too long is reported to the not-alive callback, or stopped when there is none; received traffic marks the connection alive, and a checker ends when its connection does.",
  [S, H, CF], "all connections, ticks and peer behaviours",
  "tests would have to wait for real time-outs and check each option on each connection",
  ["znet/heartbeat.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go", "znet/client.go"],
  [("checker", "znet/heartbeat.go Clone/check/start; updateActivity/IsAlive")],
  "field-exhaustive clone analysis, path rules on the check, lockset/atomicity of the activity time")
p("C20", "Admission: unique identifiers, bounded count, authentication first",
  "Every accepted connection of a server gets an identifier no other one of that server has, is registered under it before it starts serving, and is found under that identifier until it ends. A server at its connection limit accepts no further connection, and a websocket request is upgraded only after its authentication callback accepted it.",
  [S, I, CF], "all concurrent accepts over all transports",
  "tests accept a few connections sequentially",
  ["znet/server.go", "znet/connmanager.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("accept loops", "znet/server.go ListenTcpConn/ListenWebsocketConn/ListenKcpConn, znet/connmanager.go")],
  "dominance and value-provenance rules on accept paths, atomicity of the identifier counter")
p("C21", "Stopping a started server ends every accept loop and every connection",
  "Stopping a server that was started, in any mode, returns; it stops every registered connection, and every listener it opened is closed so that its accept loop ends. Accepting is not ended by a transient accept error.",
  [CF, S, F], "all modes (tcp, websocket, kcp and combinations) and all points of time",
  "tests stop a TCP server at rest; other modes and release of the listeners are not looked at",
  ["znet/server.go", "znet/connmanager.go"],
  [("exit channel", "znet/server.go Stop and the three listeners")],
  "channel-protocol rules (every listener waits for the closing of the exit channel) and must-reach rules")
p("C22", "Generated identifiers are unique",
  "Two identifiers produced by one generator are never equal, whatever the call rate: within a millisecond the sequence advances, when it is exhausted or the clock goes backwards no identifier of the past is reused, and the time, machine and sequence parts never overlap. Generators of different machine numbers in range never collide, and numbers out of range are refused.",
  [S, I, F], "all call rates, clock readings and concurrent callers",
  "tests generate a batch at one speed with a monotonic clock",
  ["zutils/snowflake_uuid.go"], [("generator", "zutils/snowflake_uuid.go")],
  "bit-layout evaluation and path rules on clock/sequence state under one lock")
p("C23", "Rotating the log never loses or reorders what was written",
  "Bytes given to the rotating log writer are written, in order and once, to the current file, and rotation closes a file only after its buffered bytes were flushed. After a failed rotation writing resumes, old files are deleted only according to the configured age or number, an original is removed only after its archive was completed, and the writer's state is protected from concurrent use.",
  [S, F, H], "all write/rotate/close sequences, I/O failures and concurrent callers",
  "tests write a few lines without failures or concurrency",
  ["zutils/witer.go"], [("writer", "zutils/witer.go Write/rotate/close/delete")],
  "lockset dataflow, order rules flush<close<rename, error-path rules, dominance of removal by success")
p("C24", "Log lines are whole, filtered by level, and safe to configure",
  "Each call of one of the logger's level methods whose level is enabled writes exactly one complete line (the message, and a line break where it has none), also when goroutines log at once, and a call whose level is filtered out writes no line. Output, prefix, flags, file and hook can be changed while others log without a data race, and a fatal message is on its way to the file before the process ends.",
  [S, CF], "all levels, thresholds, schedules and output settings",
  "tests print lines from one goroutine and do not look at them",
  ["zlog/logger_core.go", "zlog/stdzlog.go", "zlog/default.go"], [("logger", "zlog/logger_core.go OutPut/verifyLogIsolation")],
  "lockset dataflow over logger state, level-constant and dominance rules")
p("C25", "Timers fire exactly once when due, and can be cancelled",
  "A scheduled timer gets an identifier of its own and is in exactly one slot of one wheel until it is due or cancelled; as time passes it is moved on, or to a finer wheel, never dropped or duplicated. When due it is handed out exactly once and its function is called once with its arguments. Cancelling removes it wherever it is and removes no other timer, and all wheel state is protected from concurrent use.",
  [S, H, I], "all delays, cancel times and interleavings",
  "tests use a few timers and cannot enumerate wheel positions or races",
  ["ztimer/timewheel.go", "ztimer/timerscheduler.go", "ztimer/timer.go", "ztimer/delayfunc.go"],
  [("wheels", "ztimer/timewheel.go AddTimer/RemoveTimer/run, ztimer/timerscheduler.go")],
  "lockset dataflow, symbolic slot arithmetic and move/remove typestate")
p("C26", "An asynchronous completion runs exactly once, after its result, on its worker",
  "The completion callback of an asynchronous operation runs exactly once when both the result and the callback have been set, in whichever order and from whichever goroutines that happens, and sees the result that was set first. It runs on the worker of the connection it belongs to, and operations with the same identifier run one after another, in order, whatever the identifier.",
  [S, I, H], "all interleavings of setting the result and the callback, and every operation identifier",
  "the lost or doubled callback needs one particular interleaving",
  ["zasync_op/async_op.go", "zasync_op/async_op_result.go", "zasync_op/async_worker.go"],
  [("publication protocol", "zasync_op/async_op_result.go")],
  "publication-order and compare-and-swap dominance rules on every path; index-range rule for workers")
p("C27", "Every setting given takes effect, where it is named after",
  "Every setting given (non-zero) in a configuration replaces the current one in the field of the same name, whether loaded from the configuration file or passed when a server is created, and a setting left out keeps its value; only the log isolation level and the KCP stream mode, whose zero is a value of its own, are always taken over. A configuration file that cannot be read or parsed is not ignored. A server uses each setting for what it is named after: name, host, ports, path, mode, KCP parameters, queue and buffer sizes; TLS is used exactly if both files for it are set. Logging settings given reach the logger. Options given for a server or client are all applied to it, what is set on it is what is kept and returned, and every connection made for it uses its packer, length field, hooks and message handler.",
  [CF, I], "every combination of given and omitted fields and options",
  "tests set a few fields; a forgotten or crossed field is not looked at",
  ["zconf/userconf.go", "zconf/zconf.go", "znet/options.go", "znet/server.go", "znet/client.go", "zlog/stdzlog.go"],
  [("configuration merge", "zconf/userconf.go UserConfToGlobal, zconf/zconf.go Reload"), ("use of settings", "znet/server.go newServerWithConfig, Listen*Conn")],
  "field-by-field def-use matching over the configuration structures, with path-sensitive given/omitted facts")
p("C28", "Notification reaches exactly the connections it should and reports errors",
  "Notifying one identifier sends the given message once, unchanged, to the connection last registered under exactly that identifier, and returns an error when there is none or when sending fails. Notifying everyone attempts every registered connection with the message, also when sending to one of them fails. A deleted identifier is not notified any more, and deleting or registering one identifier never affects another.",
  [I, H, F], "all registries and failing connections",
  "tests notify a few live connections",
  ["znotify/notify.go"], [("notifier", "znotify/notify.go")],
  "value provenance and path rules on lookup, send and iteration")
p("C29", "The MMO demo world keeps its shared state consistent",
  "Players joining, moving, and leaving concurrently never race on the world's player table, on a grid's player set or on the identifier counter, every player gets a distinct identifier, and a grid or world removal removes exactly the given player.",
  [S, H], "all interleavings of players joining, moving and leaving",
  "tests build a grid and print it",
  ["zinx_app_demo/mmo_game/core"], [("world and grid locks", "zinx_app_demo/mmo_game/core/*.go")],
  "lockset dataflow and effect rules over the demo's core package")

NA = [
 ("C30", "Timing accuracy of timers, heartbeats and accept back-off",
  "A timer, heartbeat tick or accept retry happens within a bounded delay of the time it was scheduled for.",
  [S], "all loads and clocks", "tests sample a few delays on an idle machine",
  ["ztimer/timerscheduler.go", "znet/heartbeat.go", "znet/acceptdelay.go"], [("tickers", "ztimer/timewheel.go run")],
  "A bound on wall-clock delay depends on the scheduler and the load at run time; no property of the source decides it."),
 ("C31", "Area-of-interest geometry of the MMO demo",
  "For every grid the surrounding grids are exactly its neighbours inside the map, and every position maps to the grid that contains it.",
  [I], "all map sizes, grid counts and positions", "tests print the neighbours of one map size",
  ["zinx_app_demo/mmo_game/core/aoi.go"], [("grid arithmetic", "zinx_app_demo/mmo_game/core/aoi.go")],
  "The claim is about values of floating-point and integer arithmetic for all map sizes; deciding it needs evaluation of the arithmetic (testing, model checking or proof), not a dataflow or typestate argument."),
 ("C32", "Even distribution of keys over shards and of connections over workers",
  "Keys and connections spread over shards and workers without systematic imbalance.",
  [I], "all key populations", "tests use sequential keys", ["zutils/hash.go", "znet/msghandler.go"], [("hash", "zutils/hash.go Sum")],
  "A statistical property of a hash over populations of run-time keys; static analysis has nothing to bound it with."),
]

claimed = set()
for f in glob.glob(os.path.join(here, "analyzer", "*.go")):
    claimed |= set(re.findall(r'register\("(C\d+)"', open(f).read()))
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for t in T:
        if t["id"] not in claimed: continue
        assert len(t["title"]) <= 80, t["title"]
        o.write(json.dumps(dict(id=t["id"], title=t["title"], statement=t["statement"],
            quantifier=dict(over=t["over"], text=t["text"]), why_tests_cant=t["why"],
            anchors=dict(files=t["files"], mechanism=[dict(name=a, where=b) for a, b in t["mech"]], hook_needed=None)))+"\n")
    for n in NA:
        o.write(json.dumps(dict(id=n[0], title=n[1], statement=n[2], quantifier=dict(over=n[3], text=n[4]), why_tests_cant=n[5],
            anchors=dict(files=n[6], mechanism=[dict(name=a, where=b) for a, b in n[7]], hook_needed=None)))+"\n")
note = "Sound up to the analysis' modelling: repository code is inlined to a bounded depth, interfaces with one library implementation are resolved to it, memory is named by access path, and the rules named in DESIGN.md decide the property's clauses; code is never executed."
man = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks: the analyser reads the unmodified source", source_commits=[]),
    checks=[dict(property=t["id"], quick_cmd=f"bash check.sh {t['id']} quick", thorough_cmd=f"bash check.sh {t['id']} thorough",
        evidence_file=f"evidence/{t['id']}.json", technique="static analysis: "+t["technique"], level="other", level_note=note) for t in T if t["id"] in claimed],
    not_applicable=[dict(property=n[0], reason=n[8]) for n in NA])
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print("claimed", sorted(claimed))
