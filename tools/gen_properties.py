#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Variable-length integers encode and decode exactly",
  "Encoding any unsigned 64-bit integer produces exactly the HAProxy SPOE/peers variable-length encoding, and decoding it, from a byte slice or from a byte reader, yields the same integer and consumes exactly the encoded bytes. A destination too small for the encoding is reported as insufficient space and a truncated encoding as an unterminated sequence, never by a panic, a wrong value, or a write outside the destination.",
  ["inputs"], "every uint64, every destination size, every truncation point, every byte suffix after the encoding",
  "Test_encode checks the single value 0x1234; the width changes at 240, 2288, 264432, ... up to 10 bytes and the small-buffer paths are never entered.",
  ["pkg/encoding/varint.go", "pkg/encoding/actionwriter.go"],
  [("PutVarint / Varint / ReadVarint", "pkg/encoding/varint.go"), ("size precomputation before growing an action buffer", "pkg/encoding/actionwriter.go varintLen")],
  observe=["return values of the exported encode/decode functions"])

p("P02", "Typed key/value lists survive encode and decode unchanged",
  "Any sequence of named values (null, bool, 32/64-bit signed and unsigned integers, IPv4/IPv6 addresses, strings, binary) written with the key/value writer is in the SPOE typed-data wire format, and reading it back yields the same names, types and values in the same order followed by a clean end without error. Every accessor of an entry (name comparisons, raw bytes, integer, bool, address, dynamic value) agrees with the value that was written.",
  ["inputs"], "every sequence of entries, with arbitrary name and value bytes and lengths across every length-prefix width, at every start offset",
  "TestKVWriter compares one key/value pair to one golden string; integer width, sign, address family and long strings are not explored.",
  ["pkg/encoding/kvwriter.go", "pkg/encoding/kvscanner.go", "pkg/encoding/encoding.go"],
  [("KVWriter.Set*", "pkg/encoding/kvwriter.go"), ("KVScanner.Next and KVEntry accessors", "pkg/encoding/kvscanner.go")],
  observe=["KVWriter.Bytes/Off", "KVScanner.Next/Error", "KVEntry accessors"])

p("P03", "A key/value writer that runs out of room fails cleanly",
  "When the buffer given to a key/value writer cannot hold the next entry, the call reports an error instead of panicking and touches nothing outside the buffer. The entries written before it stay readable exactly as written, as if the failed call had not been made, and later calls that do fit still succeed.",
  ["inputs", "histories"], "every sequence of writes against every buffer size, so that exhaustion happens at every byte position of an entry",
  "The tests only write into buffers far larger than needed; no test reaches the insufficient-space path.",
  ["pkg/encoding/kvwriter.go", "pkg/encoding/encoding.go"],
  [("space checks in PutBytes/PutVarint/PutAddr and in the writer", "pkg/encoding/kvwriter.go, encoding.go")],
  state=[("off", "end of the valid encoding in the caller's buffer", "KVWriter")],
  observe=["returned error", "KVWriter.Bytes"])

p("P04", "An action list contains exactly the actions that were requested",
  "For any sequence of set-variable and unset-variable calls of any type, scope, name and value, and any initial buffer size and offset, the bytes produced decode under the SPOE action format to exactly those actions in call order, with bytes before the initial offset preserved and growth of the buffer unobservable. A call that returns an error leaves no trace in the list, so the list stays decodable.",
  ["inputs", "histories"], "every sequence of action calls, every scope and value, every initial capacity and offset",
  "TestActionWriter writes one string into a 16 KiB buffer; growth in the middle of an action, other value types and failed calls are not exercised.",
  ["pkg/encoding/actionwriter.go"],
  [("ActionWriter.Set*/Unset, grow, actionHeader", "pkg/encoding/actionwriter.go")],
  state=[("data, off", "the action list under construction", "ActionWriter")],
  observe=["ActionWriter.Bytes/Off", "payload of the ACK frame"])

p("P05", "Each message of a NOTIFY exposes exactly its own arguments",
  "For any list of messages in one NOTIFY payload, the scanner presents every message once, in order, under its own name, and the argument scanner of a message yields exactly the declared arguments of that message and then ends. This holds however many of a message's arguments the consumer reads before the rest are discarded.",
  ["inputs", "histories"], "every list of messages (including ones with no arguments), every argument list, every number of arguments consumed per message",
  "Tests and the e2e engine use one message per event, or never iterate past the first argument, so message boundaries inside a frame are never exercised.",
  ["pkg/encoding/messagescanner.go", "pkg/encoding/kvscanner.go", "spop/protocol.go"],
  [("declared argument count", "messagescanner.go MessageScanner.Next, kvscanner.go KVScanner.Next"), ("resynchronisation on the next message", "messagescanner.go, protocol.go onNotify")],
  state=[("left", "arguments of the current message still to be read", "KVScanner")],
  observe=["Message.NameBytes", "Message.KV", "SPOP handler invocations"])

p("P06", "Scanning arbitrary bytes is safe and reports malformed data",
  "Scanning any byte string as messages or as key/value entries, with any declared count, never panics, always terminates, and yields only bytes that belong to the input. Every entry before the first malformed one is delivered as encoded, and a truncated entry or an entry of unknown type is reported as an error that stays reported however often the scanner is asked again.",
  ["inputs"], "every byte string: random, truncated and mutated valid payloads, lengths beyond the end, unknown types, over-long integers",
  "No test feeds the scanners malformed data.",
  ["pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go", "pkg/encoding/varint.go", "pkg/encoding/kvunmarshal.go"],
  [("bounds checks and sticky error", "kvscanner.go KVScanner.Next/Error/Discard, messagescanner.go MessageScanner.Next/Error")],
  observe=["Next/Error/Discard/Unmarshal results"])

p("P07", "Struct unmarshalling follows the documented field mapping",
  "Unmarshalling an argument list into a struct sets each tagged field from the entry of that name (the last one if repeated) when the types match as documented, ignores unknown entries, leaves untagged and absent non-pointer fields alone, and sets pointer fields to the value, or to nil when the entry is absent or null, even if the struct is reused. A type mismatch, an entry for a field that has an unsupported type or is not exported, or malformed input is returned as an error, and decoded values never alias the input buffer or values that were in the struct before.",
  ["inputs", "programs"], "every struct shape (field types, pointers, tags with and without options) combined with every argument list and every prior content of the struct",
  "The tests use four fixed structs with one fixed argument list each; repeated, null and absent entries, reuse and aliasing are not covered.",
  ["pkg/encoding/kvunmarshal.go"],
  [("KVScanner.Unmarshal, setFieldValue, setValue", "pkg/encoding/kvunmarshal.go")],
  observe=["the destination struct", "returned error"])

p("P08", "Pooled objects carry nothing over from their previous use",
  "A scanner, entry, message or writer obtained from its pool behaves exactly like a newly created one on the same input, whatever was done with pooled objects before: partially read or failed scans, entries still holding values, writers that grew. Objects in use at the same time never influence each other.",
  ["histories"], "every interleaving of acquire, (partial, failing) use and release over several live objects of every pooled kind",
  "Tests create scanners and writers directly or use each pooled object once; leakage needs a dirty release followed by a reuse.",
  ["pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go", "pkg/encoding/kvwriter.go", "pkg/encoding/actionwriter.go"],
  [("Acquire*/Release* reset fields", "pkg/encoding/*.go")],
  state=[("sync.Pool instances", "recycled scanners, entries, messages and writers", "pkg/encoding")],
  observe=["behaviour of the acquired object"])

p("P09", "The SPOP handshake accepts exactly the valid HELLOs and echoes the offer",
  "A connection whose first frame is a HAPROXY-HELLO offering a max-frame-size between 256 and 2147483647 receives exactly one AGENT-HELLO carrying version 2.0, that same max-frame-size and no capabilities, whatever other entries the HELLO holds and in whatever order; any other first frame or offer is refused with an AGENT-DISCONNECT that carries a status code and a message, and the connection closed, without an AGENT-HELLO and without the handler being called. A HELLO marked as health check is answered the same way and the connection is then closed by the agent.",
  ["inputs"], "every offer value including missing and out-of-range ones, every entry order, extra entries of any type, every other kind of first frame",
  "Three fixed offers are tested on an internal function; health checks, missing offers, entry order and wrong first frames are not.",
  ["spop/protocol.go", "spop/frames.go"],
  [("onHAProxyHello, Serve", "spop/protocol.go"), ("AgentHelloFrame.WriteTo", "spop/frames.go")],
  state=[("maxFrameSize, gotHello", "negotiated limit and handshake state", "spop/protocol.go protocolClient")],
  observe=["bytes on the connection", "connection close", "handler calls"])

p("P10", "Every NOTIFY is answered once, by its own ACK with its own actions",
  "For any number of concurrent connections, each NOTIFY makes the handler run once per message, in message order, with that message's name and arguments, and is answered on the same connection by exactly one ACK that carries the NOTIFY's stream and frame ids and exactly the actions those handler calls produced, in order. Nothing of one NOTIFY, message or connection ever appears in the answer to another.",
  ["inputs", "schedules"], "every set of connections and NOTIFY contents, every overlap of handler executions across connections, payloads up to and beyond the initial 64 KiB buffer; one outstanding NOTIFY per connection, since the agent negotiates neither pipelining nor async",
  "The server test sends a single NOTIFY; the e2e tests look at the HTTP status only, so a mix-up of ids, arguments or recycled buffers between overlapping requests is invisible.",
  ["spop/protocol.go", "spop/frames.go", "spop/frame.go", "spop/scheduler.go", "spop/agent.go", "pkg/buffer/slicebuf.go"],
  [("onNotify", "spop/protocol.go"), ("AckFrame", "spop/frames.go"), ("frame pool", "spop/frame.go"), ("shared worker pool", "spop/scheduler.go")],
  state=[("framePool", "recycled frame buffers shared by all connections", "spop/frame.go")],
  observe=["handler calls", "ACK frames on each connection"])

p("P11", "Bursts beyond the worker and queue capacity lose and duplicate nothing",
  "However many connections send a NOTIFY at the same time and however long handlers take, every NOTIFY is eventually handled exactly once and acknowledged exactly once, as long as handlers return. Requests beyond the capacity of the shared workers and their queue wait; they are never dropped, duplicated, left waiting while workers are idle, or overtaken without end by later ones.",
  ["schedules", "histories"], "every arrival pattern and handler duration, with the number of simultaneous requests from one to several times the workers plus queue slots, repeatedly filling and draining the queue",
  "The e2e load test cannot see a lost or duplicated request (HAProxy times out after 500 ms and still returns 200) and does not control how full the queue is.",
  ["spop/scheduler.go", "spop/protocol.go"],
  [("bounded queue with condition variables, worker loop", "spop/scheduler.go")],
  state=[("head, tail, size, elems", "ring buffer of pending frames", "spop/scheduler.go queue")],
  observe=["handler calls", "ACK frames"])

p("P12", "Frame size limits are enforced in both directions",
  "A frame longer than the limit in force (65535 bytes before the handshake, the negotiated max-frame-size after it) is never processed: the handler is not called for it and the connection is closed after an AGENT-DISCONNECT; frames up to and including the limit are processed. The agent never sends a frame longer than the negotiated size: an ACK that would be larger is not sent at all, not even partly, and later NOTIFYs on that connection are still answered correctly.",
  ["inputs", "histories"], "every negotiated size and every NOTIFY/ACK length around it, in every order within a connection",
  "Tests check the pre-handshake limit on an internal function; enforcement after negotiation and on outgoing ACKs is not tested at the boundary.",
  ["spop/frame.go", "spop/frames.go", "spop/protocol.go"],
  [("readFrom limit", "spop/frame.go"), ("AckFrame.writeTo limit", "spop/frames.go"), ("limit selection in Serve", "spop/protocol.go")],
  state=[("maxFrameSize", "negotiated limit", "spop/protocol.go protocolClient")],
  observe=["handler calls", "bytes on the connection", "connection close"])

p("P13", "Panicking handlers and hostile connections never harm the rest of the agent",
  "No handler panic and no byte sequence or I/O failure on a connection terminates the process or the agent, and none of them changes what any other connection observes, then or later, however often it happens, nor do they lower the number of handlers that can run at the same time. A NOTIFY whose handler panicked gets no ACK, not even a partial one, and later NOTIFYs on the same connection are still answered correctly. A mere claim of a frame length does not make the agent allocate that much.",
  ["fault_sequences", "inputs", "histories"], "every sequence of handler panics, malformed, truncated or unexpected frames, abrupt closes and read/write errors, interleaved with healthy connections, in numbers beyond the size of the worker pool; a remote that never reads its answers is outside",
  "One e2e test has a single handler panic and only checks that HAProxy still answers 200; malformed frames and lost workers are not observed.",
  ["spop/agent.go", "spop/scheduler.go", "spop/protocol.go", "spop/frame.go"],
  [("wrapPanic around workers, handler and connection loop", "spop/agent.go, scheduler.go, protocol.go")],
  observe=["process liveness", "ACKs on other connections", "bytes on the faulty connection"])

p("P14", "An SPOP handler's context lives exactly as long as its connection",
  "The context given to a handler is derived from the agent's base context and stays live while its connection does. It is cancelled once HAProxy sends a DISCONNECT frame, closes or resets the connection, or the base context is cancelled, so handlers waiting on it return; the end of one connection never cancels the handlers of another. Cancelling the base context also closes the listener and makes Serve return.",
  ["schedules", "fault_sequences"], "every way and moment of ending a connection while handlers of it and of others are running",
  "One e2e test waits for HAProxy to give up on one request; other ways of ending, isolation between connections and premature cancellation are not covered.",
  ["spop/protocol.go", "spop/agent.go"],
  [("ctxCancel on disconnect/close", "spop/protocol.go onHAProxyDisconnect, Close"), ("listener closed on BaseContext.Done", "spop/agent.go Serve")],
  state=[("ctx, ctxCancel", "per-connection context", "spop/protocol.go protocolClient")],
  observe=["context seen by the handler", "return of Serve"])

p("P15", "How a byte stream is segmented never changes the outcome",
  "For both protocols, what the application observes and what is sent back depend only on the bytes received on a connection, not on how they are split into reads: one byte at a time, several messages or frames pieces in one read, or a handshake together with the messages that follow it. This includes pauses of any length between the pieces of an SPOP frame.",
  ["schedules", "inputs"], "every way of cutting a valid session's byte stream into reads",
  "Tests write whole frames or handshakes to pipes and loopback sockets, so nearly all reads return complete units.",
  ["spop/frame.go", "peers/protocol.go", "peers/messages.go", "pkg/encoding/varint.go"],
  [("io.ReadFull on header and payload", "spop/frame.go readFrom, peers/protocol.go rawMessage.ReadFrom"), ("handshake line reading", "peers/messages.go Handshake.ReadFrom")],
  observe=["handler calls", "bytes sent back"])

p("P16", "Stick-table definitions match the peers wire format both ways",
  "Marshalling any valid table definition (any id, name, key type, key length, expiry, and set of supported data types in ascending order with their rate parameters) produces the HAProxy peers encoding, and unmarshalling that encoding yields the same definition and consumes exactly those bytes. A definition naming an unknown data type is rejected with an error, and data types print under their HAProxy names.",
  ["inputs"], "every definition, every subset of the non-array data types, every integer width",
  "One definition with one data type is round-tripped through the library's own encoder only, so symmetrical mistakes and most types are invisible.",
  ["peers/sticktable/sticktables.go", "peers/sticktable/constants.go", "peers/sticktable/constants_string.go"],
  [("Definition.Marshal/Unmarshal", "peers/sticktable/sticktables.go"), ("DataType.New/IsDelay/String", "peers/sticktable/constants.go")],
  observe=["encoded bytes", "decoded Definition"])

p("P17", "Entry updates match the peers wire format both ways",
  "For every table definition, key type and combination of data values (signed, unsigned, 64-bit, rate, and dictionary values that are absent, cached or spelled out), marshalling an entry update produces the HAProxy peers encoding, leaves the entry unchanged, and unmarshalling it yields the same key, values, update id and expiry and consumes exactly those bytes. Binary keys shorter than the table's key length are zero-padded to it.",
  ["inputs"], "every key type and value, every list of supported data types with boundary values, with and without update id and expiry",
  "A handful of fixed values (mostly one per type) are round-tripped; negative, maximal, one-byte, empty and cached dictionary values are not.",
  ["peers/sticktable/sticktables.go", "peers/sticktable/values.go"],
  [("EntryUpdate.Marshal/Unmarshal", "peers/sticktable/sticktables.go"), ("MapKey and MapData codecs", "peers/sticktable/values.go")],
  observe=["encoded bytes", "decoded EntryUpdate"])

p("P18", "Decoding arbitrary stick-table bytes is safe",
  "Unmarshalling any byte string as a table definition, or as an entry update, key or data value of any table, never panics, never reports more bytes consumed than it was given, and does not allocate memory out of proportion to its input. Data that ends too early is reported as an error, as is a definition that names an unknown data type and an entry or key of a table whose key type is unknown.",
  ["inputs"], "every byte string (random, truncated and mutated encodings, lengths beyond the end) against every table definition, including key types the library does not know",
  "No test decodes malformed data.",
  ["peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/sticktable/constants.go"],
  [("bounds checks in the Unmarshal methods", "peers/sticktable/values.go, sticktables.go"), ("KeyType.New", "peers/sticktable/constants.go")],
  observe=["Unmarshal results", "allocation volume"])

p("P19", "A peer session delivers exactly the updates the remote sent",
  "For any conforming history of table definitions and (full, timed, incremental) entry updates, mixed with control and acknowledgement messages and switches to the table already in use, the handler, be it a Handler or a HandlerFunc, receives each update once, in order, with the key, values, expiry and update id the remote sent, attributed to the most recently defined table; incremental updates carry the previous id plus one, wrapping at 32 bits. An update kept by the application never changes afterwards.",
  ["histories", "inputs"], "every conforming message history over several tables, every update kind and id, any number of updates retained",
  "Tests deliver one update for one table; switching tables, incremental ids, wrap-around and retention are not covered.",
  ["peers/protocol.go", "peers/sticktable/sticktables.go"],
  [("StickTableUpdateMessageType.OnMessage", "peers/protocol.go"), ("per-message data buffer", "peers/protocol.go rawMessage.ReadFrom")],
  state=[("lastTableDefinition, lastEntryUpdate", "decoding context of the session", "peers/protocol.go protocolClient")],
  observe=["HandleUpdate calls", "retained EntryUpdate values"])

p("P20", "Concurrent writers produce one intact, correctly numbered message stream",
  "However many goroutines send definitions, switches, single entries and batches over one peer connection, at the same time as the library's own heartbeats and replies, the remote receives a sequence of whole, well-formed messages containing every sent item exactly once and in the order each goroutine sent it. Entry update ids are unique and strictly increasing in the order in which they appear on the wire, and the entries of one batch stay in order.",
  ["schedules", "inputs"], "every interleaving of senders, heartbeats and replies, every mix and size of messages up to several times the output buffer",
  "Writer tests send sequentially from one goroutine and mostly do not look at the bytes.",
  ["peers/writer.go", "peers/protocol.go", "peers/peers.go"],
  [("mutex shared by Writer and session", "peers/peers.go Serve, peers/writer.go"), ("update id counter under the mutex", "peers/writer.go SendEntry/SendEntries")],
  state=[("nextUpdateID, buf, bw", "id counter, scratch and output buffer", "peers/writer.go Writer")],
  observe=["bytes received by the remote"])

p("P21", "Peer sessions send heartbeats and drop peers that fall silent",
  "After the handshake the remote receives something at least every three seconds for as long as the session lasts, even while the application is busy inside a handler. A remote that has sent no complete message for five seconds while the session was waiting for one has its connection closed, its handler's context cancelled and its handler closed, and one that keeps sending within that time is never dropped.",
  ["schedules", "histories"], "every timing of incoming messages and of handler execution, including gaps just below and just above five seconds",
  "No test lets time pass; the timers are never observed.",
  ["peers/protocol.go"],
  [("heartbeat ticker and last-message timer", "peers/protocol.go heartbeat, lastMessage, resetLastMessage")],
  state=[("nextHeartbeat, lastMessageTimer", "timers of the session", "peers/protocol.go protocolClient")],
  observe=["bytes on the connection", "connection close", "context", "handler Close"])

p("P22", "The peer handler lifecycle is complete and orderly",
  "Each accepted connection uses one handler (a new one if a source is configured), for which HandleHandshake runs at most once and before any update, updates are delivered one at a time, and Close runs exactly once, after everything else, however the session ended: remote close or reset, protocol error, failed handshake, silence, or cancellation of the base context. Afterwards its context is cancelled, its connection closed and no goroutine of the session is left; cancelling the base context ends Serve and all sessions.",
  ["histories", "fault_sequences"], "every way and moment of ending a session, over several concurrent sessions with their own handlers",
  "No test observes Close, the context after the end, or leaked goroutines.",
  ["peers/peers.go", "peers/protocol.go", "peers/handler.go"],
  [("deferred Close in Serve", "peers/peers.go"), ("context cancellation closes the session", "peers/protocol.go")],
  state=[("ctx, ctxCancel", "session context", "peers/protocol.go protocolClient")],
  observe=["Handler method calls", "context", "connection close", "return of Serve", "live goroutines"])

p("P23", "Hostile or broken peers cannot crash the process or disturb other peers",
  "Whatever bytes a remote peer sends, the process keeps running, other sessions observe no difference, and the memory used is bounded by what the remote actually sent rather than by lengths it claims. A session that receives an error message, an unknown message class or type, an update before any definition, or data that cannot be decoded is ended and its connection closed, and nothing undecodable reaches the handler.",
  ["inputs", "fault_sequences"], "every byte stream: random, mutated and truncated sessions, extreme claimed lengths, unknown types and key types, next to healthy sessions",
  "Tests only run well-formed sessions.",
  ["peers/protocol.go", "peers/peers.go", "peers/sticktable/values.go", "peers/sticktable/sticktables.go"],
  [("message framing and dispatch", "peers/protocol.go rawMessage.ReadFrom, messageHandler"), ("decoder bounds checks", "peers/sticktable")],
  observe=["process liveness", "HandleUpdate calls", "connection close", "allocation volume"])

p("P24", "Peer handshakes and control messages get exactly the specified replies",
  "A well-formed handshake is reported to the handler with every field as sent and answered with a single status line 200 that precedes everything else sent, messages of the handler included; one that lacks a field or has something else for a number is refused without either and its connection closed. Writing a handshake, also one made by NewHandshake for any remote peer, and reading it back yields the same fields; failing readers and writers are reported. After it, each synchronisation request is answered by exactly one partial-synchronisation message, in order, and no other control, acknowledgement or update message causes a reply.",
  ["inputs", "histories"], "every handshake content and every sequence of control, acknowledgement and update messages",
  "The tests only check that a status line arrives; control replies are never looked at.",
  ["peers/messages.go", "peers/protocol.go"],
  [("Handshake.ReadFrom/WriteTo", "peers/messages.go"), ("peerHandshake, ControlMessageType.OnMessage", "peers/protocol.go")],
  observe=["HandleHandshake argument", "bytes on the connection"])

p("P25", "The slice buffer is a faithful byte queue",
  "For any sequence of writes, reads, advances, growth and resets within its capacity, the slice buffer returns exactly the bytes written, in order, once each, and its reported length is the number of unread bytes. Growing never loses or changes unread bytes, always makes the requested space available, and never exposes space already used.",
  ["histories"], "every sequence of buffer operations over every initial size, including adopted slices",
  "The buffer has no tests of its own; the frame code uses one fixed pattern.",
  ["pkg/buffer/slicebuf.go"],
  [("SliceBuffer", "pkg/buffer/slicebuf.go")],
  state=[("readOffset, writeOffset", "bounds of the unread bytes", "SliceBuffer")],
  observe=["ReadBytes, ReadNBytes, WriteBytes, Len"])

p("P26", "A failed peer send leaves the stream and the writer intact",
  "A definition or entry that cannot be encoded (too large, an address key for a table that declares another key length, or an address of the wrong family) is reported as an error by the call that sends it, and no byte of it reaches the remote; of a batch with such an entry, only whole entries before it may. Sends before and after it, from any goroutine, arrive intact, heartbeats and replies continue, and a failure of the connection is reported by the send that hits it.",
  ["fault_sequences", "histories"], "every mixture of sendable and unsendable items and connection write failures at every point",
  "No test sends anything that fails.",
  ["peers/writer.go", "peers/sticktable/values.go", "peers/sticktable/sticktables.go"],
  [("marshal before write", "peers/writer.go"), ("space checks in Marshal methods", "peers/sticktable/values.go")],
  state=[("buf, bw, mu", "scratch buffer, output buffer and lock", "peers/writer.go Writer")],
  observe=["returned errors", "bytes received by the remote"])

p("P27", "Frames built by the agent are well-formed and accounted for",
  "Every AGENT-HELLO, AGENT-DISCONNECT and ACK frame written through the exported frame types is a single frame whose length prefix equals its content, with the final flag set and the given ids, version, capabilities, size, status code and matching message, or actions. The reported byte count equals the bytes actually written and a write failure or a failing action callback is returned, in the latter case with nothing written.",
  ["inputs", "fault_sequences"], "every frame content and every position of a write failure",
  "The frame types are only exercised indirectly with fixed values.",
  ["spop/frames.go", "spop/frame.go", "spop/error.go"],
  [("WriteTo of the frame types", "spop/frames.go"), ("encodeHeader, writeTo", "spop/frame.go")],
  observe=["bytes written", "returned count and error"])

p("P28", "Listening on an address serves real connections until the context ends",
  "An agent or peer started on a TCP address, by the package function, the ListenAndServe method or Serve with a listener, serves every connection made to it, also slow and concurrent ones, with the guarantees of the SPOP exchanges and peer sessions, until its base context is cancelled; then the call returns, handlers' contexts are cancelled, and the address can be listened on again. A health check receives the whole AGENT-HELLO followed by an orderly end of the connection. A listener that fails, an address that cannot be listened on, one already in use included, and contradicting peer handlers are reported as an error by the call, which listens on nothing afterwards.",
  ["inputs", "schedules", "histories"], "every mixture of exchanges, segmentations, reading speeds and ways to end connections over real sockets, and every way to start a server",
  "The tests that use sockets exchange one fixed message each; ending, errors and half-closed, reset or slow connections are never exercised.",
  ["spop/agent.go", "peers/peers.go"],
  [("ListenAndServe, Agent.Serve", "spop/agent.go"), ("ListenAndServe, Peer.Serve", "peers/peers.go"), ("protocolClient.Serve", "spop/protocol.go"), ("protocolClient.Serve", "peers/protocol.go")],
  observe=["bytes and end of the socket on the remote side", "return of the serving call", "availability of the address", "handler calls and contexts"])

p("P29", "Connections that have ended leave nothing behind",
  "However a connection was used and however it ended, once the remote has ended it and its handlers have returned, the server has closed its socket, and no goroutine, context registration with the base context, or memory of it remains, apart from what a fixed number of SPOP workers and queue slots may still refer to. Resource use therefore does not grow with the number of connections served.",
  ["histories", "fault_sequences"], "every history of well-behaved, hostile, panicking, busy and failing connections, one after another and at the same time",
  "Leaks only show after many connections that ended in particular ways; tests make one or two.",
  ["spop/agent.go", "spop/protocol.go", "spop/scheduler.go", "peers/peers.go", "peers/protocol.go"],
  [("deferred Close calls in Agent.Serve", "spop/agent.go"), ("protocolClient.Close", "spop/protocol.go"), ("deferred Close calls in Peer.Serve", "peers/peers.go"), ("heartbeat, lastMessage, AfterFunc in Serve", "peers/protocol.go")],
  observe=["Close of the connection", "goroutines", "reachability of connections and handlers after garbage collection"])

p("P30", "A connection can be used indefinitely",
  "However many NOTIFYs (also with panicking handlers or ACKs that are too large) an SPOP connection has carried, and however many messages, sends (also failing ones) and heartbeats a peer session, the next one is treated exactly like the first: the handler is called, answers and updates are right, and update ids go on increasing. Neither the goroutines nor the memory the server uses grow with their number.",
  ["histories", "fault_sequences"], "every repetition of every short conforming exchange, including handlers that panic and sends that fail",
  "Tests exchange a handful of messages on a connection; accumulation, counters that run over and workers that are lost show after thousands.",
  ["spop/protocol.go", "spop/frame.go", "spop/scheduler.go", "peers/protocol.go", "peers/writer.go", "pkg/encoding/kvscanner.go"],
  [("protocolClient.Serve and onNotify", "spop/protocol.go"), ("frame pool", "spop/frame.go"), ("queue", "spop/scheduler.go"), ("Serve, lastEntryUpdate, timers", "peers/protocol.go"), ("nextUpdateID, buffers", "peers/writer.go")],
  observe=["ACKs and messages on the wire", "handler calls", "goroutines and live heap objects after garbage collection"])

p("P31", "Keys, values and updates print exactly and unambiguously",
  "The text of every received key, value and update says what it holds: integers in decimal, addresses in their usual notation, string keys as they are, rates with their three numbers, dictionary values with their id, and an update with its id, its key, and each data type's name followed by its value, in order. Different keys or values of a table never print alike, equal ones always do, and printing changes nothing. No constant of the protocol prints like another.",
  ["inputs"], "every key, value and update that can be received, and every number as a protocol constant",
  "Applications use these texts as labels and log lines (see the examples); tests print one or two values.",
  ["peers/sticktable/values.go", "peers/sticktable/sticktables.go", "peers/sticktable/constants.go", "peers/sticktable/constants_string.go", "peers/constants_string.go"],
  [("String methods of keys and data", "peers/sticktable/values.go"), ("EntryUpdate.String", "peers/sticktable/sticktables.go"), ("DataType.String", "peers/sticktable/constants.go"), ("generated String methods", "peers/constants_string.go")],
  observe=["return values of String", "the printed objects afterwards"])

p("P32", "Received updates can be kept and forwarded unchanged",
  "Every update a peer session delivers, together with the definition delivered with it, can be sent on through the writers of other sessions (within the sizes a writer can encode), at once or at any time later, by any goroutine, singly or in batches, and to several of them: each receiver gets definitions equal to those received and each update once, in order, with the key, values and expiry as received and increasing update ids of its own. Sending changes neither the updates, nor the definitions, nor the list a batch was given in.",
  ["inputs", "histories", "schedules"], "every conforming history on the receiving side, and every way of sending it on",
  "It takes decoder, session, encoder and writer together, with what they keep and share; tests check each by itself.",
  ["peers/protocol.go", "peers/writer.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go"],
  [("OnMessage of table updates", "peers/protocol.go"), ("SendTableDefinition, SendEntry, SendEntries, marshalEntry", "peers/writer.go"), ("Marshal and Unmarshal", "peers/sticktable/sticktables.go")],
  observe=["messages on the receivers' wires", "the updates kept by the application"])

p("P33", "The pipes and readers of testutil deliver exactly what they are given",
  "Both ends of a PipeConn may be read, written and closed by different goroutines at the same time: each end reads exactly the bytes whose writes the other end was told have succeeded, unchanged and in order, whatever the sizes; closing either end ends every pending and later call on both, and calls on a closed net.Conn report net.ErrClosed. A RepeatReader fills every buffer with its data over and over, continuing where the last read stopped, without changing it, and reports io.EOF if it has none. A TempFile holds exactly its content until the test is over.",
  ["inputs", "schedules"], "every sequence of reads, writes and closes, of any sizes, from both ends",
  "The package's users test their own handlers with these; its tests make one or two transfers.",
  ["pkg/testutil/pipeconn.go", "pkg/testutil/reader.go", "pkg/testutil/testfile.go"],
  [("PipeConn", "pkg/testutil/pipeconn.go"), ("RepeatReader.Read", "pkg/testutil/reader.go"), ("TempFile", "pkg/testutil/testfile.go")],
  observe=["bytes and errors at both ends", "files"])

p("P34", "testutil starts and configures HAProxy as asked and leaves nothing behind",
  "HAProxyConfig.Run starts HAProxy with a configuration that holds every given text unchanged in its section, the SPOE agent and the peer exactly if their addresses are given, and returns the frontend's socket once HAProxy accepts connections; one that does not come up, or is missing, ends the test. RunProcess starts a process with exactly the given arguments. When the test is over no process, file, listener or goroutine of these is left, and a failed test logs what the processes printed and the configuration. WithNAllocations fails a test exactly if the function allocates a different number of times.",
  ["inputs", "faults"], "every configuration, process behaviour and outcome of the test",
  "Every end-to-end test relies on it, and those need an installed HAProxy, a fixed set of configurations and only succeed.",
  ["pkg/testutil/haproxy.go", "pkg/testutil/subprocess.go", "pkg/testutil/net.go", "pkg/testutil/allocs.go"],
  [("HAProxyConfig.Run and its template", "pkg/testutil/haproxy.go"), ("RunProcess", "pkg/testutil/subprocess.go"), ("TCPListener, TCPPort", "pkg/testutil/net.go"), ("WithNAllocations", "pkg/testutil/allocs.go")],
  observe=["arguments and configuration the process gets", "what is logged, and processes, files and goroutines after the test"])

p("P35", "An agent or peer serves any number of listeners, in turn or at once",
  "The same Agent or Peer can be used for any number of calls of Serve, one after another or at the same time, whether earlier calls have ended because their listener failed or because the base context was cancelled (another one being set then), or still go on. Each call serves the connections of its own listener just as the first one did. A call that ends because its listener fails affects neither other calls nor connections it has accepted, and several agents and peers in a process never get each other's connections, messages or updates.",
  ["histories", "faults"], "every sequence of calls, connections, exchanges on any of them, listener failures and cancellations, over several agents and peers",
  "Tests serve one listener once, with one agent or peer at a time.",
  ["spop/agent.go", "peers/peers.go", "spop/scheduler.go"],
  [("Agent.Serve", "spop/agent.go"), ("Peer.Serve", "peers/peers.go")],
  observe=["return and error of each call", "answers and updates on each connection", "handler contexts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
