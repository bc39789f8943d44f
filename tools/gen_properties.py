#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
M = "lib/src/messages/"
p("C01", "Every valid request is put on the wire as exactly one conforming ADU",
  "For every request object of the eight supported functions, every unit identifier and every transaction identifier, the bytes the client emits are exactly the Modbus TCP frame the specification prescribes (header, length, unit, function code, big-endian addresses, counts and LSB-first packed data) and nothing else. Parsing that frame back gives an equal request.",
  ["inputs"], "All request types, start addresses, quantities in the legal range, data values, unit ids 0..255 and transaction ids 0..65535.",
  "The encoder tests (not even part of the offline build) compare a handful of fixed frames; the claim is over all addresses, counts and data patterns, including bit counts not divisible by eight and maximum sizes.",
  [M+"ReadBitsRequestImpl.cpp", M+"ReadRegistersRequestImpl.cpp", M+"WriteSingleCoilRequestImpl.cpp", M+"WriteSingleRegisterRequestImpl.cpp", M+"WriteMultipleCoilsRequestImpl.cpp", M+"WriteMultipleRegistersRequestImpl.cpp", M+"mbap/MbapMessage.cpp", M+"IMessage.cpp"],
  [("request build_message / get_message_length", M+"*RequestImpl.cpp"), ("MBAP header construction", M+"mbap/MbapMessage.cpp")],
  observe=["bytes handed to the TCP connection"])
p("C02", "A server accepts a request PDU if and only if it is well-formed",
  "For any bytes carried as the PDU of a supported function, the server decodes it into a request exactly when it has the prescribed length, a legal quantity, a consistent byte count and legal coil values, and the decoded request then has exactly the addresses and values of the bytes. A complete PDU with an illegal quantity, byte count or coil value is reported as Illegal Data Value, any other malformed PDU as a malformed request, and decoding never reads outside the PDU.",
  ["inputs"], "All byte strings of 0..260 bytes as PDU of each of the eight functions.",
  "Tests try a few truncated frames per type; acceptance must be decided correctly for every length, count and byte-count combination.",
  [M+"ReadBitsRequestImpl.cpp", M+"ReadRegistersRequestImpl.cpp", M+"WriteSingleCoilRequestImpl.cpp", M+"WriteSingleRegisterRequestImpl.cpp", M+"WriteMultipleCoilsRequestImpl.cpp", M+"WriteMultipleRegistersRequestImpl.cpp"],
  [("request parse functions", M+"*RequestImpl.cpp")], observe=["result of parsing a request", "request seen by the server session"])
p("C03", "Responses round-trip: the client sees the values and addresses the server sent",
  "For every request and every response the server can give to it, the response frame is the one the specification prescribes, and decoding it at the client in the context of the request yields exactly the values the server sent, each labelled with the address start+i of the request.",
  ["inputs"], "All eight functions, all legal quantities, start addresses (including ranges that end at address 65535) and data values.",
  "Existing round trips use one or two small fixed vectors; bit packing, padding and address labelling must be right for all counts 1..2000 / 1..125.",
  [M+"ReadBitsResponseImpl.cpp", M+"ReadRegistersResponseImpl.cpp", M+"WriteSingleCoilResponseImpl.cpp", M+"WriteSingleRegisterResponseImpl.cpp", M+"WriteMultipleCoilsResponseImpl.cpp", M+"WriteMultipleRegistersResponseImpl.cpp"],
  [("response build_message", M+"*ResponseImpl.cpp"), ("response parse with request context", M+"*ResponseImpl.cpp")])
p("C04", "A client accepts only response PDUs that conform to its request",
  "For any bytes received as the response PDU to a request, the client yields a value only if the bytes are a conforming normal response for that request (its function code, exactly the prescribed length, a byte count matching the requested quantity, a legal coil value), and then the value is what the bytes say. An exception PDU for the request's function yields the Modbus exception it carries; everything else yields a malformed-response error, and nothing is ever read outside the received bytes.",
  ["inputs"], "All response byte strings of 0..253 bytes against all requests of the eight functions.",
  "Unit tests cover a few truncations; a wrong byte count, quantity or coil value or a truncated body must be rejected for all lengths and contents.",
  [M+"ReadBitsResponseImpl.cpp", M+"ReadRegistersResponseImpl.cpp", M+"WriteSingleCoilResponseImpl.cpp", M+"WriteSingleRegisterResponseImpl.cpp", M+"WriteMultipleCoilsResponseImpl.cpp", M+"WriteMultipleRegistersResponseImpl.cpp", M+"ExceptionResponse.cpp"],
  [("response parse functions", M+"*ResponseImpl.cpp"), ("exception response recognition", M+"ExceptionResponse.cpp")],
  observe=["Expected value handed to the response handler"])
p("C05", "Modbus exceptions reach the client with the code the server raised",
  "Whatever standard Modbus exception a server session raises for whatever request, the reply is the two-byte exception PDU with the specification's code and the client is given that same exception. A code the specification does not define is reported as unknown, and no code is ever turned into another one.",
  ["inputs"], "All exception types of the public enumeration, all 256 raw codes, all function codes.",
  "The parse direction is tested per code in isolation, the emit direction against single constants; nothing relates the two.",
  [M+"ExceptionType.cpp", M+"ExceptionResponse.cpp", "lib/include/modbus/messages/ExceptionType.h", "lib/include/modbus/exceptions/ModbusException.h"],
  [("code table and exception parsing", M+"ExceptionType.cpp"), ("exception response build/parse", M+"ExceptionResponse.cpp"), ("enumerator values", "lib/include/modbus/messages/ExceptionType.h")])
p("C06", "MBAP framing is exact and independent of how TCP splits the stream",
  "For any byte stream and any division of it into received chunks, the same sequence of messages (transaction id, unit id, payload) is delivered, and it is the sequence the header lengths prescribe: frames with a foreign protocol id or a zero length are skipped, over-long frames are consumed completely and their payload cut at the maximum size, and parsing goes on in sync after each of them. After a reset, parsing restarts at a frame boundary with nothing left over.",
  ["inputs", "histories"], "All byte streams (valid, corrupt, over-long, concatenated frames) and all segmentations, with resets at any point.",
  "The parser tests feed a few frames in one or two pieces; segmentation and resynchronisation quantify over all streams and splits.",
  [M+"mbap/MbapParser.cpp", M+"mbap/MbapParser.h", M+"mbap/MbapMessage.cpp"],
  [("incremental header/body state machine", M+"mbap/MbapParser.cpp")],
  state=[("bytes still to read and header/body flag", "position inside the current frame", M+"mbap/MbapParser.h")])
S = "lib/src/server/channel/"
p("C07", "The server answers each request once, in order, with the right unit and session",
  "For every sequence of frames on a connection, each request addressed to a unit with a registered session is passed exactly once to that unit's current session and produces exactly one reply carrying the request's transaction and unit identifiers, in the order of the requests; unsupported functions get an Illegal Function exception. Requests for unregistered units, malformed requests and requests for which the session fails with a non-Modbus error get no reply. Registering a session for a unit that already has one replaces it.",
  ["histories", "inputs"], "All interleavings of add-session, start, requests of any kind (valid, malformed, unsupported, foreign unit) and shutdown.",
  "Tests send one request per section to a mock; ordering, echoing and session replacement are claims about all histories.",
  [S+"ServerChannelTcp.cpp", S+"ServerConnectionListener.cpp", "lib/include/modbus/server/IServerChannel.h", "lib/include/modbus/server/IServerSession.h"],
  [("dispatch on unit and function code", S+"ServerChannelTcp.cpp"), ("session table", S+"ServerChannelTcp.cpp")],
  observe=["calls on server sessions", "bytes sent on the connection"])
p("C08", "Connections to a server do not influence each other",
  "However the bytes of several clients of one server are interleaved, and whatever garbage, partial frames or disconnections some of them produce, every client receives exactly the replies its own byte stream calls for.",
  ["schedules", "inputs", "fault_sequences"], "All interleavings of chunks from several connections, including clients that send arbitrary bytes or stop mid-frame.",
  "No test drives two connections at once; isolation is a claim about all interleavings.",
  [S+"AsioServer.cpp", S+"AsioServerTcpConnection.cpp", S+"ServerConnectionListener.cpp", S+"ServerConnectionListenerBuilder.cpp", S+"ServerChannelTcp.cpp"],
  [("one parser and listener per connection", S+"ServerConnectionListenerBuilder.cpp")])
D = "lib/src/server/db/"
p("C09", "The in-memory server answers requests as plain address-to-value maps would",
  "Over every history of database changes and client requests, the in-memory session answers as four independent maps (coils, discrete inputs, holding registers, input registers) would: reads return the current value of every requested address, writes change exactly the addressed points, and a request touching any address that does not exist, or running past address 65535, is answered Illegal Data Address and changes nothing.",
  ["histories", "inputs"], "All sequences of add/set/remove/clear and of the eight requests, with any ranges, including empty and wrapping ones.",
  "Tests check single requests against small contiguous databases; atomic failure, holes and boundary ranges need all histories.",
  [D+"InMemoryDatabase.cpp", D+"SingleTypeDatabase.cpp", "lib/include/modbus/server/db/InMemoryDatabase.h"],
  [("request handlers", D+"InMemoryDatabase.cpp"), ("range lookup", D+"SingleTypeDatabase.cpp")])
p("C10", "A point database behaves as a sorted map with range queries",
  "Over every history of operations, a point database behaves as a map from 16-bit addresses to values: add never overwrites, set never creates, reads and validity queries agree with the map, and an operation on a (non-empty) range succeeds exactly when every address of the range exists, ranges never wrapping past 65535. Failed operations return false and change nothing, neither the database nor the caller's output.",
  ["histories", "inputs"], "All operation sequences over the full address range for both point types, including ranges that touch or exceed 65535.",
  "Tests are a fixed script; a model comparison over random histories reaches holes, boundaries and re-additions.",
  [D+"SingleTypeDatabase.cpp", "lib/include/modbus/server/db/SingleTypeDatabase.h", "lib/include/modbus/server/db/IDatabase.h"],
  [("ordered map and range lookup", D+"SingleTypeDatabase.cpp")])
p("C11", "Database transactions are atomic towards concurrent requests and transactions",
  "While several threads run transactions and serve requests on one in-memory session, every request and transaction behaves as if executed alone: no read returns a mixture of two transactions, no update is lost, and there is no data race.",
  ["schedules"], "All interleavings of transactions on the four databases and requests served by other threads.",
  "Tests are single-threaded.",
  [D+"InMemoryDatabase.cpp", "lib/include/modbus/server/db/InMemoryDatabase.h"],
  [("mutex around transactions and request handlers", D+"InMemoryDatabase.cpp")])
p("C12", "The server keeps accepting, and never holds more connections than configured",
  "A running server always accepts the newest connection and serves it; whenever that exceeds the configured maximum it closes the oldest established connections and only those, so that at most the configured number stays open. Client disconnections free their slot, and a transient failure to accept a connection does not stop later clients from being served.",
  ["histories", "fault_sequences", "configurations"], "All histories of connects, disconnects, resets and requests, all maxima (with a maximum of 0 no connection stays open), and accept failures at any point.",
  "One test opens max+1 connections once; reuse of slots, mixed disconnects and accept errors are untested.",
  [S+"AsioServer.cpp", S+"AsioServerTcpConnection.cpp"],
  [("accept loop and connection list", S+"AsioServer.cpp")],
  state=[("open connection count", "number of established connections", S+"AsioServer.h")])
p("C13", "Bytes reach the peer whole and in order under pipelining and backpressure",
  "However many requests are outstanding, and however slowly the peer reads or the kernel accepts bytes, the bytes each side transmits are the complete frames in the order they were produced: none lost, duplicated, cut or replaced. No write ever uses memory that was released.",
  ["schedules", "fault_sequences"], "All pipelining depths, peer read schedules, partial sends and would-block results of the socket.",
  "The tests send one small frame at a time over an idle loopback socket, where every send completes at once and in full.",
  [S+"AsioServerTcpConnection.cpp", "lib/src/client/channel/AsioClientTcpConnection.cpp"],
  [("asynchronous send with an owned buffer", S+"AsioServerTcpConnection.cpp"), ("asynchronous send with an owned buffer", "lib/src/client/channel/AsioClientTcpConnection.cpp")])
C = "lib/src/client/channel/"
p("C14", "Every client request gets exactly one outcome",
  "Every request issued on a client session that is not shut down has its handler called exactly once, with a response, a Modbus exception, a malformed-message error, a timeout or a connection error, whatever the peer, the connection and other requests do. Handlers may issue further requests from inside the callback.",
  ["histories", "schedules", "fault_sequences"], "All interleavings of requests, responses, garbage, connection errors and timer expirations.",
  "Tests follow single scripted exchanges; exactly-once is a claim over all interleavings.",
  [C+"ClientChannelTcp.cpp", "lib/src/client/session/ClientSessionImpl.cpp", "lib/src/client/session/ClientSessionImpl.h"],
  [("current request and pending queue", C+"ClientChannelTcp.cpp")], observe=["response handler invocations"])
p("C15", "A client channel has one request on the wire at a time, in submission order",
  "On every client channel, requests of all its sessions are transmitted in the order they were issued, each as one frame, and the next one only after the previous one got its outcome. Any 65536 consecutive requests carry distinct transaction identifiers.",
  ["histories", "schedules"], "All histories of requests from several sessions mixed with responses, errors and timeouts, beyond transaction identifier wrap-around.",
  "Tests queue two or three requests; order and identifier uniqueness must hold over unbounded histories.",
  [C+"ClientChannelTcp.cpp", "lib/src/TransactionIdentifier.cpp"],
  [("FIFO queue with a single current request", C+"ClientChannelTcp.cpp"), ("incrementing transaction id", "lib/src/TransactionIdentifier.cpp")], observe=["frames handed to the TCP connection"])
p("C16", "A response is only ever delivered to the request it answers",
  "A request completes with a response only if a frame with its own transaction and unit identifiers arrives while it is outstanding, and the outcome it gets is the decoding of the first such frame. Late, duplicated, unsolicited or foreign frames have no effect on any request.",
  ["histories", "schedules"], "All sequences and segmentations of frames with matching and non-matching identifiers relative to outstanding, timed-out and failed requests.",
  "Tests inject one wrong frame; the claim is over all histories including late answers to timed-out requests.",
  [C+"ClientChannelTcp.cpp"],
  [("identifier match against the current request", C+"ClientChannelTcp.cpp")])
p("C17", "A request times out exactly when its own timeout elapses unanswered",
  "A transmitted request is given a timeout if and only if its own timeout, counted from its transmission, elapses without its response or a connection error having been processed; the next queued request is then transmitted. A timer of an earlier, already completed request never ends a later one, even if it had already expired when it was cancelled.",
  ["schedules", "histories"], "All timeouts, including per-request overrides and zero, and all orders in which expired timers, responses and errors are processed.",
  "The tests advance a mock clock once; a cancelled-but-already-queued timer needs a particular interleaving.",
  [C+"ClientChannelTcp.cpp"],
  [("timer started at transmission and cancelled at completion", C+"ClientChannelTcp.cpp")])
p("C18", "Invalid requests are refused locally and never transmitted",
  "A request that cannot be expressed in Modbus (zero or excessive quantity, no values or too many values) is reported as a malformed request exactly once and puts nothing on the wire; requests before and after it are unaffected. Every request within the limits is transmitted.",
  ["inputs", "histories"], "All quantities 0..65535 and all value counts, single and multiple writes, mixed into histories of valid requests.",
  "Tests check one or two boundary values per message class.",
  [M+"ReadBitsRequestImpl.cpp", M+"ReadRegistersRequestImpl.cpp", M+"WriteMultipleCoilsRequestImpl.cpp", M+"WriteMultipleRegistersRequestImpl.cpp", C+"ClientChannelTcp.cpp"],
  [("request validity check before sending", C+"ClientChannelTcp.cpp"), ("is_valid of each request", M+"*RequestImpl.cpp")])
p("C19", "Scheduled requests poll at their period, one at a time, until stopped",
  "A started scheduled request is sent at once and then again each time its period has elapsed after the previous outcome, whatever that outcome was, with at most one instance in flight; every outcome is passed to its handler. After a stop has taken effect no further instance is sent until it is started again, which begins a new polling at once that is independent of an instance still in flight, and changes of the period apply from the next wait on; this holds for any sequence of start, stop, period changes and session shutdown.",
  ["histories", "schedules"], "All sequences and timings of start/stop/set-period/shutdown relative to outstanding requests, responses, timeouts and expired timers.",
  "Tests follow one start, one response and one stop with a mock clock.",
  ["lib/src/client/session/ScheduledRequest.hpp", "lib/src/client/session/ScheduledRequest.h", "lib/src/client/session/ClientSessionImpl.cpp"],
  [("self-rearming timer", "lib/src/client/session/ScheduledRequest.hpp")])
p("C20", "A client channel recovers from every connection failure",
  "When the connection cannot be established or is lost, cleanly or not and at any byte, every request outstanding or queued at that moment ends with a connection error, and the next request issued establishes a new connection. Once the server is reachable again requests succeed and are decoded from the new connection's bytes only.",
  ["fault_sequences", "histories"], "All sequences of refused connections, name-resolution failures, resets, clean closes in the middle of a frame, silent peers and recoveries.",
  "Two tests restart a local server once; failures at particular bytes, resolver failures and repeated faults are not reached.",
  [C+"AsioClientTcpConnection.cpp", C+"ClientChannelTcp.cpp"],
  [("connection state machine", C+"AsioClientTcpConnection.cpp"), ("error propagation to pending requests", C+"ClientChannelTcp.cpp")])
p("C21", "End to end, client operations take effect on the server as if executed in order",
  "With a manager running any number of threads, every operation issued by any client channel on a healthy connection gets the response the server session computed for that very operation, and the operations of one channel take effect in the order they were issued. Reads therefore return the values most recently written, whatever the number of channels, sessions, units and threads.",
  ["histories", "schedules", "configurations"], "All operation histories over several channels and sessions against real servers, 1..8 worker threads.",
  "No test connects the real client to the real server.",
  ["lib/src/ModbusManagerImpl.cpp", "lib/src/IModbusManager.cpp", C+"ClientChannelTcp.cpp", S+"ServerChannelTcp.cpp", "lib/src/client/session/ClientSessionImpl.cpp", D+"InMemoryDatabase.cpp"],
  [("manager wiring of channels, executors and thread pool", "lib/src/ModbusManagerImpl.cpp")])
p("C22", "After shutdown nothing happens any more, and everything is released",
  "Once a channel's shutdown has taken effect, no response handler, session callback, poll or transmission of that channel happens any more, its connections are closed, new sessions are refused and further calls are harmless; a started server also stops listening and shuts its sessions down. Destroying the manager at any moment terminates (once timers started by the user have expired), after which all sockets and channel objects are released.",
  ["histories", "schedules"], "Shutdown of channels and of the manager at any point of any history, with requests outstanding, scheduled, queued or being answered.",
  "Tests shut down idle channels; teardown must be safe at every point.",
  ["lib/src/ModbusManagerImpl.cpp", C+"ClientChannelTcp.cpp", C+"AsioClientTcpConnection.cpp", S+"AsioServer.cpp", S+"AsioServerTcpConnection.cpp", S+"ServerChannelTcp.cpp", "lib/src/client/session/ClientSessionImpl.cpp"],
  [("shutdown posted to the channel's executor", C+"ClientChannelTcp.cpp"), ("shutdown of acceptor and connections", S+"AsioServer.cpp")])
p("C23", "The public API may be called from any thread",
  "Any public operation on managers, client channels, client sessions, scheduled requests and server channels may be called from any thread at any time, concurrently with the library's own threads, without data races, crashes or lost effects.",
  ["schedules"], "All concurrent use of the public API from several threads, including during traffic and shutdown.",
  "All tests call the API from a single thread.",
  ["lib/src/ModbusManagerImpl.cpp", C+"ClientChannelTcp.cpp", "lib/src/client/session/ClientSessionImpl.cpp", "lib/src/client/session/ScheduledRequest.hpp", S+"ServerChannelTcp.cpp"],
  [("work posted to a per-channel strand", C+"ClientChannelTcp.cpp"), ("manager mutex", "lib/src/ModbusManagerImpl.cpp")])
p("C24", "Session timers fire once, not early, and not after a timely cancel",
  "A timer started on a client session runs its action exactly once, not before its expiration time, unless it is cancelled before it expires, in which case the action never runs (cancelled later, it may still run, once). The reported expiration time is the requested one, and timers are independent of each other, of requests and of the lifetime of the handle.",
  ["histories", "schedules"], "All sequences of starting timers by duration or time point, cancelling, dropping handles and advancing time.",
  "Session timers have no test.",
  ["lib/src/client/session/ClientSessionImpl.cpp", "lib/src/TimerWrapper.cpp", "lib/include/modbus/ITimer.h"],
  [("forwarding to the executor's timers", "lib/src/client/session/ClientSessionImpl.cpp")])
p("C25", "Connections use the configured endpoint and network adapter",
  "A client channel connects only to the configured host and port, and if an adapter address is configured its connections originate from that address; an adapter address that is malformed or not local makes requests fail without any connection being made. A server listens on exactly the configured address and port.",
  ["configurations"], "All loopback endpoints, ports and adapter addresses, valid and invalid.",
  "Tests use 127.0.0.1 without an adapter only.",
  [C+"AsioClientTcpConnection.cpp", S+"AsioServer.cpp", "lib/src/ModbusManagerImpl.cpp", "lib/src/Ipv4Endpoint.cpp"],
  [("binding the socket to the adapter", C+"AsioClientTcpConnection.cpp"), ("acceptor endpoint", S+"AsioServer.cpp")])
p("C26", "An expected result holds either its value or its error, faithfully",
  "A result object is valid exactly when built from a value; it then returns that value, and otherwise it reports and returns the stored error for exactly its dynamic type and the bases of it, and refuses every other query with the documented exception. Copies and moves preserve this, and every contained value or error is destroyed exactly once.",
  ["inputs", "histories"], "All sequences of constructing, copying, moving and querying results holding values or errors of any exception type of the library.",
  "There is no test of the result type at all.",
  ["lib/include/modbus/Expected.h", "lib/include/modbus/exceptions/IException.h", "lib/include/modbus/exceptions/ModbusException.h"],
  [("tagged union", "lib/include/modbus/Expected.h")])
p("C27", "Identifiers and endpoints behave as plain values",
  "Unit identifiers, transaction identifiers and endpoints compare equal exactly when all their components are equal, hash consistently with that, return their components unchanged, and transaction identifiers count modulo 65536. Printing one gives its 0x-prefixed, zero-padded upper-case value regardless of the format flags, fill and locale of the stream and leaves these as they were.",
  ["inputs", "histories"], "All 256 unit ids, all 65536 transaction ids, arbitrary host names and ports, and all stream format states.",
  "Tests use one or two values each and a fresh stream.",
  ["lib/src/UnitIdentifier.cpp", "lib/src/TransactionIdentifier.cpp", "lib/src/Ipv4Endpoint.cpp", "lib/include/modbus/UnitIdentifier.h"],
  [("comparison, increment and stream operators", "lib/src/TransactionIdentifier.cpp")])
p("C28", "Logging respects the configured level and never disturbs operation",
  "A component created with a logging level emits exactly the messages of that level or above to the configured sinks, a child logger with a level of its own follows that level only, and the log text names the channel. The level never changes protocol behaviour.",
  ["configurations", "histories"], "All six levels, for every severity, for parents and children.",
  "Logging has no test.",
  ["lib/src/logging/Logger.h", "lib/src/logging/LoggerFactory.cpp", "lib/src/logging/LoggingLevelConversion.h", "lib/include/modbus/logging/LoggerFactory.h"],
  [("level conversion and cloning", "lib/src/logging/Logger.h")])
p("C29", "Finished work leaves nothing behind",
  "However many requests, polls, timers, frames, connections, reconnections and transactions a channel has already dealt with, the memory and sockets it holds depend only on what is open or outstanding: repeating an activity that ends does not make them grow (channels, sessions and polls count as open until their shutdown). Nor can a peer make data pile up: bytes that are not expected are dropped, and a server reads no further requests while its replies to earlier ones are not taken.",
  ["histories"], "All activities that end, repeated any number of times, and all peers that send without reading.",
  "Tests are far too short to notice what accumulates, and do not look at memory.",
  [C+"ClientChannelTcp.cpp", C+"AsioClientTcpConnection.cpp", S+"AsioServer.cpp", S+"AsioServerTcpConnection.cpp", S+"ServerChannelTcp.cpp", "lib/src/client/session/ScheduledRequest.hpp"],
  [("timers cancelled when a request has its outcome", C+"ClientChannelTcp.cpp"), ("removal of closed connections, reading only while nothing is queued", S+"AsioServerTcpConnection.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
