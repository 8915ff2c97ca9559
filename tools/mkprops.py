#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOT = "The existing tests only exercise the codecs on a handful of fixed values; nothing concurrent and nothing on a network is run at all. "

p("C01", "Every request sent to a running service gets exactly one answer",
  "A request sent to a running endpoint (worker pool, balancer, network client, function service, custom endpoint) has its responder called exactly once, with the id and type of that request, whatever races between the answer, cancellation, expiry, I/O failure and stopping of the endpoint. The answer is either precisely what the handling party answered (code and body, and only the first answer counts) or one of the failure codes some party really raised for it; later attempts to answer, cancel or expire it have no effect.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of send, answer, duplicate answer, cancel, expire, shutdown and I/O failure of any number of requests over every kind of service",
  NOT + "Exactly-once is about races between at least four parties per request.",
  ["request.go", "service.go", "parallel_service.go", "buffer.go"],
  [("state machine of a request: an answer is accepted once, under its lock", "request.go: Respond, RespondBytes, RespondFail, chainResponse"), ("handing a request over to an endpoint", "service.go: SimplePoint.Send")],
  [("request state", "new, pending, in fly, prepared, performed", "request.go: Request.state")])

p("C02", "An answered request is never handed to a handler; a running handler is told",
  "A request that was cancelled, expired or failed before a handler took it is never passed to a handler, nor sent by a network client in whose queue it died, and no request is passed to a handler twice. When a request is cancelled while its handler runs, the caller is answered at once and the handler's context becomes dead; when it merely expires while running, the handler's context becomes expired, but the answer of the handler is still delivered to the caller, exactly once.",
  ["schedules", "histories"],
  "for every moment at which cancellation or expiry may hit: queued in the channel, queued in the overflow buffer, while being taken, while running, after the answer",
  NOT + "Whether a dead request is skipped depends on the exact moment it dies.",
  ["request.go", "parallel_service.go", "buffer.go", "context.go"],
  [("taking a request is a compare-and-swap from pending to in fly", "request.go: SetInFly, Context"), ("context of a request follows its answer", "request.go: ReqContext.Respond, Done"), ("dead requests are skipped in the overflow buffer", "buffer.go: bufBookmark.Respond, loop")])

p("C03", "Answers a network client delivers are the answers of the server to that request",
  "When calls go through a network client over any number of connections, each call is answered with the code and body that the server gave to exactly that call, unchanged, or with an I/O, timeout, cancel or shutdown failure; the server sees every call at most once, with the type and body the caller sent. Ids chosen by callers are preserved in their answers, even when many callers use equal ids concurrently.",
  ["schedules", "inputs", "histories", "configurations"],
  "for every set of concurrent callers, bodies of every size, answers in any order, any count of connections and each return code width",
  NOT + "Matching of answers can only break with many requests in flight answered out of order.",
  ["net/client/connection/connection.go", "net/client/connection/request_holder.go", "net/client/server.go"],
  [("own wire id for every request in flight", "net/client/connection/request_holder.go: getNext, remove"), ("writing and reading loops", "net/client/connection/connection.go: writeLoop, readLoop")],
  [("requests in flight", "wire id to waiting request", "net/client/connection/request_holder.go: RequestHolder")])

p("C04", "A connection lost at any byte fails only what was lost; the client recovers",
  "When a connection breaks at any point of the stream (refused, closed, reset, half-closed, cut inside a header or a body, silent past the read timeout), every request is still answered exactly once: with the genuine whole answer if it arrived completely, otherwise with a failure, never with partial or foreign data. A connection over which data keeps arriving within the read timeout is kept, a silent one is given up, but not before its time. Nothing but a ping is sent over a connection until the server has answered it, and a server which does not answer it in the time for dialing is not connected. Once the server is reachable again the client reconnects by itself and later requests succeed.",
  ["crash_points", "fault_sequences", "schedules"],
  "for every cut position in both directions, every kind of cut, and every sequence of losses and recoveries",
  NOT + "No test opens a connection, let alone breaks one.",
  ["net/client/connection/connection.go", "net/client/server.go", "net/slice_reader.go"],
  [("requests in flight on a lost connection are failed", "net/client/connection/connection.go: flushInFly, controlLoopExit"), ("reconnection by ticker", "net/client/server.go: Loop, fixConnections, onConnError"), ("short reads are errors", "net/slice_reader.go: Read")])

p("C05", "Stopping or resizing a network client under load loses nothing",
  "When a client is stopped or the count of its connections is changed while requests are queued and in flight, every request is still answered exactly once, those already on the wire get their genuine answers if the server gives them; sending to a stopped client neither panics nor blocks and is answered with a shutdown or I/O failure. After a change the client settles at exactly the requested count of connections, and after a stop it closes all of them; stopping or resizing a stopped client does no harm. As long as some connections remain established, a change of their count fails nothing.",
  ["schedules", "histories"],
  "for every moment of stopping or resizing relative to queued, in-flight and arriving requests, and every sequence of sizes",
  NOT + "Stop and resize are never called in tests.",
  ["net/client/server.go", "net/client/connection/connection.go", "service.go"],
  [("count of connections is kept at the wanted number", "net/client/server.go: fixConnections, onAction, onConnError"), ("draining of the queue after stop", "net/client/server.go: Loop; service.go: ShutDownAll"), ("stopping of a connection", "net/client/connection/connection.go: writeLoop, controlLoop")])

p("C06", "A server answers each request of a connection once, on that connection",
  "For every request frame a peer sends, the server passes one request with that type and body to its endpoint and writes exactly one answer frame, with the id and type of the request and the code and body the endpoint answered, to the same connection (ids of requests of a connection which are not answered yet being different); pings are answered with a ping of the same id and an empty body and never reach the endpoint. This holds for any pipelining, any order and delay of answers, slow readers, a peer that closes only its sending half after its last request, and one silent for longer than the read timeout (what it asked for before is still answered). A peer which does not read for longer than the write timeout finds whole genuine answers, and then the end of the connection.",
  ["schedules", "inputs", "histories"],
  "for every batch of pipelined requests and pings on any number of connections, every order of answers and every chunking of the stream",
  NOT + "The server is never started in tests.",
  ["net/server/connection.go", "net/server/server.go", "net/header.go"],
  [("requests in flight by id", "net/server/connection.go: readLoop, Respond"), ("overflow of the output queue", "net/server/connection.go: push, cleanBuffer, writeLoop"), ("finish after half close", "net/server/connection.go: controlLoop, writeLoop")])

p("C07", "A dead, slow or abusive peer harms only itself",
  "When a peer disconnects, resets, stops reading or floods, the requests of other connections are answered as if it were not there and the endpoint is never blocked by it. Requests the server still had to answer to a vanished peer are cancelled, and everything held for that connection (goroutines, descriptors) is released. A server which ran out of descriptors goes on accepting when there are some again.",
  ["fault_sequences", "schedules", "crash_points"],
  "for every kind and moment of a peer's failure with any number of its requests running, beside any number of healthy peers",
  NOT + "Isolation needs several real peers, some of which misbehave.",
  ["net/server/connection.go", "net/server/server.go"],
  [("answers never block the endpoint", "net/server/connection.go: push"), ("cancelling requests of a lost connection", "net/server/connection.go: cancelInFly, closed, controlLoop")])

p("C08", "Stopping a server is graceful and its end is reported exactly",
  "After a server is stopped it accepts no new connections, every request it had received is still answered to its peer, and answers not yet written are flushed before a connection is closed. The completion channel is closed after all connections have finished and not before, always, also when there were none; stopping it again, at any moment, does no harm. A server which can not be started (its endpoint does not run, its address is taken) returns an error and can be started later.",
  ["schedules", "histories"],
  "for every moment of stopping relative to arriving, running and half-written requests and to connecting and disconnecting peers",
  NOT + "Stop of a server is never called in tests.",
  ["net/server/server.go", "net/server/connection.go"],
  [("counting connections down", "net/server/server.go: Stop, controlLoop, listenLoop"), ("closing of the reading half, answering the rest", "net/server/connection.go: Stop, controlLoop, writeLoop")])

p("C09", "Internal return codes never cross the wire; all other codes cross unchanged",
  "A peer of a server sees the code the endpoint answered unchanged unless it is of the internal kind; an internal code is replaced with the configured replacement, or else with its fatal counterpart (same value with the kind bits replaced). Through a client each code arrives as the same number for 4-byte codes, its lowest byte for 1-byte codes, and success when codes are not transmitted; the kind of failure a client itself raises (timeout, I/O, cancelled, shutdown) is the documented one, and so is the one peers see of a handler which panics or fails its request.",
  ["inputs", "configurations"],
  "for every return code, every mapping and every return code width, for answers of handlers and for failures raised by the library",
  NOT + "No test sends a return code anywhere.",
  ["net/server/connection.go", "net/server/server.go", "net/header.go", "response.go"],
  [("mapping of internal codes", "net/server/connection.go: Respond"), ("width of codes", "net/header.go: WriteResponse, ReadResponse")])

p("C10", "Frames survive the wire for every fragmentation; truncation is always noticed",
  "Any sequence of requests or responses written by the frame writer has the documented layout (type, length, id as little-endian 32-bit words, then the code of the configured width counted in the length except for pings, then the body), and is read back identical by the frame reader for any split of the stream into reads. A stream which ends inside a frame yields every whole frame before and then an error, an end between frames is reported as end of stream, and a response too short for its code is reported as a protocol error without losing synchronisation.",
  ["inputs", "crash_points"],
  "for every sequence of frames with bodies around all buffer sizes, every fragmentation of reads, and every truncation point",
  NOT + "No test reads or writes a frame.",
  ["net/header.go", "net/slice_reader.go", "net/buf_writer.go"],
  [("frame writer and reader", "net/header.go"), ("slicing of the input buffer", "net/slice_reader.go: Read"), ("output buffering", "net/buf_writer.go: Write, Write3Uint32, Flush")])

p("C11", "A delivered body never changes afterwards",
  "The body of a request handed to an endpoint and the body of a response handed to a caller keep their contents for as long as they are referenced, whatever arrives later on that connection; writing into or appending to one delivered body, or to one byte string decoded from it, changes no other.",
  ["histories", "inputs", "schedules"],
  "for every sequence of frames of any sizes and fragmentation, with every delivered body retained until the end, some overwritten and appended to by their owners",
  NOT + "Aliasing shows only when earlier bodies are kept while later ones arrive.",
  ["net/slice_reader.go", "net/header.go", "marshal/reader.go"],
  [("bodies are slices of a shared input buffer, limited in capacity", "net/slice_reader.go: Read")])

p("C12", "Every value is encoded as its type and tags say, and decodes back to itself",
  "For every supported type built of fixed-size numbers, strings, slices, arrays, structs, pointers and interfaces with any combination of size, count, variable-length-number, skip and no-prefix tags, the encoding is exactly the one the layout rules define: little-endian numbers, 32-bit counts unless tags say otherwise, fields in order, sizes equal to the bytes they cover. Decoding it gives an equal value (pointers without a count are decoded into what they already point to) and consumes the whole encoding; types with own encoders are asked for theirs, with their own sizes and counts.",
  ["inputs", "programs"],
  "for every such type and tag combination and every value of it",
  "marshal_test.go checks about twenty fixed values of few types; the rules are for all compositions of types and tags.",
  ["marshal/writer_reflect.go", "marshal/reader_reflect.go", "marshal/writer_any.go", "marshal/reader_any.go", "marshal/writer.go", "marshal/reader.go", "marshal/marshal.go"],
  [("encoders built by type", "marshal/writer_reflect.go: Fill, FillStruct, FillSlice, FillArray"), ("decoders built by type", "marshal/reader_reflect.go: Fill, FillStruct, FillSlice, FillArray"), ("variable length numbers", "marshal/writer.go: Uint64var; marshal/reader.go: Uint64var")])

p("C13", "Decoding arbitrary bytes never panics, never hangs and never over-allocates",
  "Decoding any byte string into any supported type either succeeds or reports an error; it does not panic, loop forever, read beyond its input, or allocate more than proportionally to the input. Every proper prefix of an encoding of a value fails to decode when the missing bytes were part of it, what is decoded is what the consumed bytes are an encoding of, and unconsumed bytes are reported when the whole input is required to be consumed.",
  ["inputs", "programs"],
  "for every byte string (truncations, mutations and hostile sizes of valid encodings, and noise) and every supported type",
  "marshal_test.go decodes only well-formed input.",
  ["marshal/reader_reflect.go", "marshal/reader.go", "marshal/reader_any.go"],
  [("bounds checks", "marshal/reader.go, marshal/reader_any.go"), ("counts and sizes are checked before allocation", "marshal/reader_reflect.go: WithSize, WithCount, Read")])

p("C14", "Encoded buffers belong to their owner",
  "The bytes an encoder returned never change because of later encodings by the same or another encoder, in any goroutine, and changing or appending to them never changes bytes returned to anyone else. This includes bodies of requests made from values and bodies of answers given as values.",
  ["histories", "schedules", "inputs"],
  "for every sequence of encodings through reused and pooled encoders, with every result retained, some overwritten and appended to",
  "Tests compare each encoding right after it was made and drop it.",
  ["marshal/writer.go", "marshal/marshal.go", "generator.go", "marshal/writer_reflect.go"],
  [("results are carved out of one growing buffer", "marshal/writer.go: Written, ensure"), ("pools of encoders", "marshal/marshal.go: Write; generator.go: Request")])

p("C15", "Tuples are encoded field by field and read back field by field",
  "Any supported value written as a tuple is the 32-bit count of its fields followed by each field with its variable-length size, where structs give a field per member, slices and arrays a field per element, everything else (numbers, strings, byte strings) one field, and tail members give one field per element (or per member of each element when split). Reading a tuple into the same type gives back an equal value; extra fields are ignored, missing ones are reported by types of fixed arity or left untouched in structs.",
  ["inputs", "programs"],
  "for every tuple type, including both kinds of tails, and every value of it",
  "tuple_test.go checks seven fixed values and no tails.",
  ["sbox/writer.go", "sbox/reader.go"],
  [("tuple encoders", "sbox/writer.go: WriteTuple, Fill, structWriter"), ("tuple decoders", "sbox/reader.go: Fill, structRead, structAuto")])

p("C16", "Storage requests carry exactly what their fields say",
  "Select, store, delete, update and procedure-call requests are encoded in the documented layout with their request type: the count of keys equals the number of key tuples that follow for every way of giving keys, limits and flags are those asked for, and every update operation carries its field, operation code and sized value.",
  ["inputs"],
  "for every combination of fields and every way to give keys, tuples and operations",
  "sbox_test.go checks six fixed select requests only.",
  ["sbox/select.go", "sbox/modify.go", "sbox/rpc.go"],
  [("keys", "sbox/select.go: CountKeys, WriteKeys"), ("modifications", "sbox/modify.go"), ("procedure call", "sbox/rpc.go")])

p("C17", "Storage results are read completely or an error is reported",
  "Reading the first or all tuples of a result into values gives the tuples of the result in order and their true count; with room for fewer tuples the rest is ignored. A malformed or truncated result yields an error and never a panic or an allocation out of proportion to the input, and a malformed tuple does not change how its neighbours are read.",
  ["inputs"],
  "for every result and destination shape, and for truncations, mutations and hostile counts of it",
  "Tests never read a result.",
  ["sbox/result.go", "sbox/reader.go"],
  [("result reading", "sbox/result.go: ReadFirst, ReadMany, oneTuple")])

p("C18", "Timers fire once, never early, and never after they were stopped",
  "Whatever is armed for a duration expires exactly once, not before the duration has passed, and without anything else having to happen; in particular no timer waits for another one armed for later, and steps of the system's wall clock change nothing. Something stopped before its time does not expire, and stopping or arming one timer never affects another. Timers which fired or were stopped leave nothing behind, however many there were.",
  ["schedules", "histories", "inputs"],
  "for every sequence of arming and stopping from any number of goroutines every multiset of durations and every step of the wall clock",
  NOT + "The heap behind the timers has only been run with no timers at all.",
  ["custom_timer.go", "epoch.go"],
  [("heap of timers", "custom_timer.go: push, remove, putUnder, sort4"), ("expiring loop", "custom_timer.go: loop, wake"), ("arm and stop", "custom_timer.go: Timer.After, Timer.Stop")])

p("C19", "The queue of an endpoint loses, duplicates and reorders nothing",
  "Every live request sent to an endpoint reaches its consumer exactly once, in the order each sender sent its own, also when the queue overflows its channel, while requests die inside of it and while many senders race; sending never blocks the sender.",
  ["schedules", "histories"],
  "for every number of senders, every pattern of consumption speed and every set of requests dying while queued",
  NOT + "The overflow buffer starts after 16384 queued requests, which no test reaches.",
  ["buffer.go", "service.go"],
  [("overflow rows", "buffer.go: push, loop"), ("channel", "service.go: SimplePoint.Send, ReceiveChan")])

p("C20", "Cancelling or expiring a context reaches everything created from it",
  "When a context is cancelled or expires, every unanswered request, multi-request and child context created from it before or after is cancelled (requests are answered as cancelled exactly once, children become dead), no matter how the creation races with it; requests of a context have different ids; whatever was already answered or finished is not affected, and unrelated contexts and siblings are not affected. A context is dead forever after and reports truly whether it was by timeout; cancellation returns also while things are being finished concurrently.",
  ["schedules", "histories"],
  "for every tree of contexts and requests and every interleaving of creation, completion and cancellation in it",
  NOT + "No test creates a context.",
  ["context.go", "request.go"],
  [("registration of what is to be cancelled", "context.go: AddCanceler, RemoveCanceler, cancelAll"), ("bookmarks of requests", "context.go: contextBookmark, NewRequest")])

p("C21", "Goroutines of a context run once, and waiting waits for all of them",
  "A function started through a live context runs exactly once with a context that is a child of it, and with its argument; through a dead context it does not run and a dead child is returned. Waiting for everything returns, to every waiter, after all children have finished and all requests have been answered, and not before, and it does return.",
  ["schedules", "histories"],
  "for every mix of started functions, requests and waiters, and every order of their completion",
  NOT + "No test starts anything through a context.",
  ["context.go"],
  [("starting children", "context.go: Child, Go, GoInt, GoAsync, GoIntAsync, Done"), ("waiting", "context.go: WaitAll, RemoveCanceler")])

p("C22", "A multi-request delivers one answer for each of its requests, always",
  "Collecting or iterating the results of a multi-request yields exactly one answer for each of its requests, numbered by the order of creation (and sorts them by it on demand), and then ends, whatever mixture of answers, failures, cancellation, expiry and completion before or after the collection starts. When it is cancelled or expires, each unanswered request gets the corresponding code and the answered ones keep their answers; requests made of it later are answered so at once and are not passed to handlers; its context is no longer kept waiting by it afterwards.",
  ["schedules", "histories"],
  "for every number of requests, every interleaving of their answers with collection, cancellation and expiry",
  NOT + "No test creates a multi-request.",
  ["wait_group.go"],
  [("collecting", "wait_group.go: Respond, Each, Results"), ("failing", "wait_group.go: Cancel, Expire, performFailAll, Request")])

p("C23", "A worker pool runs at most N handlers, survives panics and stops cleanly",
  "A worker pool never runs more than its configured number of handlers at once and uses all of them when there is work; a handler that panics answers its request with an internal error and the pool goes on at full capacity. After a stop no new handler starts, running handlers finish and their answers are delivered, everything queued or sent later is answered with a shutdown code, and a second stop is harmless.",
  ["schedules", "histories"],
  "for every size of the pool, every mix of panicking, slow, cancelled and expired work and every moment of stopping",
  NOT + "No test creates a worker pool.",
  ["parallel_service.go", "service.go"],
  [("slots of workers", "parallel_service.go: Loop, inc"), ("panic isolation", "parallel_service.go: inc"), ("draining", "service.go: ShutDownAll")])

p("C24", "A balancer hands each request to exactly one of its children",
  "Every request sent to a balancer is taken by exactly one live child (also nested ones and ones added while it runs) and answered by it; a slow or finished child does not keep requests from the others, and a network client without connections does not fail requests another child may take. Stopping the balancer stops all children, and everything not taken is answered with a shutdown code.",
  ["schedules", "histories", "configurations"],
  "for every tree of children, every moment of adding and stopping, and every distribution of their speed",
  NOT + "No test creates a balancer.",
  ["balancer.go", "service.go"],
  [("children share the queue", "balancer.go: AddChild, Loop; service.go: RunChild")])

p("C25", "Encoding and decoding are safe and deterministic from any number of goroutines",
  "Any number of goroutines may encode and decode any types at the same time, also types seen for the first time, and each gets exactly the result it would get alone; there is no data race in doing so.",
  ["schedules", "programs"],
  "for every interleaving of first and later uses of types by concurrent encoders and decoders of messages and of tuples",
  "The tests run each codec from one goroutine, on types already known.",
  ["marshal/reader_reflect.go", "marshal/writer_reflect.go", "sbox/reader.go", "sbox/writer.go", "sbox/result.go", "marshal/marshal.go"],
  [("caches of codecs by type, published whole", "marshal/reader_reflect.go: ReaderFor; marshal/writer_reflect.go: WriterFor; sbox/reader.go: reader; sbox/writer.go: writer"), ("pools", "marshal/marshal.go: readerPool, writerPool; sbox/result.go: readerCache")])

p("C26", "Arbitrary bytes from a peer cannot crash the process nor corrupt other requests",
  "Whatever byte stream a peer sends to a server, or a server sends to a client (responses with unknown, repeated or reserved ids, wrong types, bodies shorter than the code, garbage, cut streams), the process neither panics nor deadlocks nor takes memory out of proportion to what has come (a header may claim any length); other connections keep working, each request is answered at most once and never with bytes which were not sent as an answer to its id.",
  ["inputs", "fault_sequences"],
  "for every byte stream in both directions, on fresh and on busy connections",
  NOT + "No test feeds a connection.",
  ["net/client/connection/request_holder.go", "net/client/connection/connection.go", "net/server/connection.go", "net/header.go"],
  [("unknown and repeated ids", "net/client/connection/request_holder.go: remove"), ("short responses", "net/header.go: ReadResponse"), ("reading loops", "net/server/connection.go: readLoop; net/client/connection/connection.go: readLoop")])

p("C27", "Configured timeouts bound the wait for every answer, and are never early",
  "A request sent to a service with a timeout, given a timeout itself, or belonging to a multi-request with a timeout is answered even when nobody ever takes it or a network peer never answers it, whatever happens to the system's wall clock; a timeout answer never comes before its time nor replaces an answer already given. When several limits are given, the first given one applies, and a request answered in time leaves nothing behind which could affect it or others.",
  ["schedules", "fault_sequences", "configurations"],
  "for every service kind, timeout and place at which the request is stuck",
  NOT + "No test sets a timeout.",
  ["service.go", "request.go", "custom_timer.go", "wait_group.go", "net/client/server.go"],
  [("arming on send", "service.go: Send; request.go: SetTimeout"), ("expiring", "request.go: Expire; wait_group.go: Expire")])

p("C28", "An automatic client keeps exactly one working client per address",
  "However many goroutines ask for the same addresses at once, each address gets one client, the same for all who ask, already running with the common configuration and with its own address; requests through it reach the server at that address. Stopping it stops all of them.",
  ["schedules", "histories"],
  "for every interleaving of lookups and stops of any set of addresses",
  NOT + "The automatic client is not tested.",
  ["net/client/auto.go"],
  [("table of clients", "net/client/auto.go: Get, Stop")])

p("C29", "Response observers run exactly once, innermost first, and may resend",
  "Every observer chained to a request before it is answered (statistics wrappers, buffers, user-made ones) is called exactly once per answer it was chained for, in reverse order of chaining and before the final responder, with the answer itself; none can be chained once the request was taken or answered. An observer may return the request to its initial state and send it again, in which case outer observers and the final responder see only the later answer.",
  ["histories", "schedules", "programs"],
  "for every stack of observers, every way of answering and any number of resends",
  NOT + "Observers are not tested.",
  ["request.go", "response.go", "stat.go"],
  [("chain of bookmarks", "response.go: Bookmark; request.go: chainResponse, ChainBookmark, SetInFly"), ("resending", "request.go: ResetToNew, ResetToPending"), ("statistics", "stat.go")])

p("C30", "No data races in concurrent use of services, contexts, timers and connections",
  "Using endpoints, requests, contexts, multi-requests, timers, clients and servers concurrently in the permitted ways involves no unsynchronised conflicting access to memory inside the library, whatever peers send meanwhile.",
  ["schedules"],
  "for every interleaving of permitted concurrent use, observed under a happens-before race detector",
  "The tests are sequential; a race detector has nothing to see in them.",
  ["request.go", "context.go", "buffer.go", "wait_group.go", "custom_timer.go", "balancer.go", "net/client/connection/connection.go", "net/server/connection.go"],
  [("locks and atomics of the request", "request.go"), ("locks of connections", "net/server/connection.go; net/client/connection/connection.go")])

p("C31", "What is over is forgotten: a process which goes on does not grow",
  "The memory, goroutines and descriptors a process holds do not grow with the number of requests, timeouts, multi-requests, contexts, queue overflows, pings, connections and reconnects which are over, while the context, endpoint, client, server or connection they came through goes on. In particular an answered request is not kept until its timeout would have come, a finished thing is not kept by the context it was made of, and lost connections are not kept by clients and servers.",
  ["histories", "schedules", "fault_sequences"],
  "for every number and mixture of finished operations, and every way in which they finish: answer, cancellation, expiry, failure, panic, loss of connection",
  "The tests look at a few operations each; what is left behind by one shows only after thousands of them.",
  ["custom_timer.go", "request.go", "context.go", "wait_group.go", "buffer.go", "net/client/connection/request_holder.go", "net/client/server.go", "net/server/server.go", "net/server/connection.go"],
  [("timers are stopped by answers", "request.go: chainResponse; wait_group.go: Respond, Results, finish"), ("what is finished leaves its context", "context.go: RemoveCanceler, Done"), ("rows and tables", "buffer.go: loop; net/client/connection/request_holder.go: remove; net/server/server.go: controlLoop; net/client/server.go: onConnError"), ("slots of timers are reused", "custom_timer.go: remove, push")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
