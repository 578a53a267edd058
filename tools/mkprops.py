#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here)."""
import json, os
C = "yamux/src/connection.rs"; S = "yamux/src/connection/stream.rs"; F = "yamux/src/connection/stream/flow_control.rs"
R = "yamux/src/connection/rtt.rs"; CL = "yamux/src/connection/closing.rs"; CU = "yamux/src/connection/cleanup.rs"
FR = "yamux/src/frame.rs"; H = "yamux/src/frame/header.rs"; IO = "yamux/src/frame/io.rs"; CH = "yamux/src/chunks.rs"
L = "yamux/src/lib.rs"; T = "yamux/src/tagged_stream.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
NET = "bytes read from and written to the transport"
API = "results of the public calls"

p("C01", "The wire format is the specification's, in both directions",
  "Every frame sent has a 12-byte header with version 0, a known type, only known flags, the right stream identifier and length, all big-endian, followed (for data) by exactly as many bytes of content as the length says. Every header with version 0 and a known type is understood with exactly the values it carries. Any other version or type, and any data frame longer than 1 MiB, ends the connection with a decoding error that names the offending value.",
  ["inputs"], "all 2^96 headers, all identifiers, lengths, flags, ping values and contents (content up to 3 bytes per frame)",
  "The one round-trip test samples frames made by the code's own encoder; an encoder and a decoder wrong in the same way, or a wrong value for rare identifiers or lengths, pass.",
  [H, IO, FR], [("header encode/decode", H), ("frame reader and writer", IO)], observe=[NET])
p("C02", "What is read does not depend on how the bytes arrive",
  "The frames understood are the same however the transport cuts and delays the incoming bytes, in headers and in contents. If the transport ends between two frames the connection ends without error; if it ends within one it ends with a decoding error, and if a read fails with an error; in each case exactly the content of the frames that arrived completely is delivered. A data frame that is too long is refused as soon as its header has arrived.",
  ["inputs", "fault_sequences"], "all cut positions (up to three cuts), pauses, and every byte position at which the transport ends or fails, over a sequence of frames of all kinds; any chunk sizes for long contents",
  "The tests' transports deliver whole writes at once; cuts inside a header or at one particular byte are not reached.",
  [IO, C], [("incremental read state", IO), ("end of stream", C)], [("read state", "what of the current frame has arrived", IO)], [NET, API])
p("C03", "The bytes sent are whole frames in order, however the transport takes them",
  "The bytes handed to the transport are the same frames in the same order whatever pieces the transport accepts and wherever it pauses: nothing is repeated, skipped or interleaved. When a write or flush fails, or a write accepts nothing or claims more than it was given, the connection ends with an I/O error and writes nothing further. What was written is flushed before the connection goes idle.",
  ["inputs", "fault_sequences"], "all cut positions (up to two or three partial writes), pauses and every byte position of a failure, over frames of all kinds, any length of content",
  "The tests' transports accept whole buffers or small fixed pieces; failures at a chosen byte are not reached.",
  [IO, C], [("incremental write state", IO), ("flush in the connection's loop", C)], [("write state", "what of the current frame has been written", IO)], [NET])
p("C04", "A stream never sends more data than the peer has granted",
  "On each stream the data sent never exceeds the initial window of 256 KiB plus all window updates received for it, for any interleaving of writes, window updates and acknowledgements. A write on an open stream with credit left accepts at least one byte while the connection can send; without credit it waits, and accepts data again after the next update.",
  ["histories", "inputs"], "all histories of up to 6 operations with any lengths and any credits, one or two streams, opened by either side, as client and server",
  "Tests exchange data between two instances of this code with ordinary sizes; exact exhaustion, huge credits and updates between partial writes are sampled at best.",
  [S, F, C], [("credit taken by a write", S), ("credit granted by an update", C), ("flow controller", F)], [("send window", "credit left", F)], [NET, API])
p("C05", "A peer that exceeds its window is stopped; one that does not is served",
  "Data beyond the receive window granted on its stream is a protocol violation: it is not delivered, and the peer is told so with a go-away. Data within the window is always accepted and delivered, including a frame that uses the window exactly, whatever was read, sent or granted before, and also while nothing can be written.",
  ["histories", "inputs"], "all histories of up to 5 operations with any lengths followed by a data frame of any length up to 1 MiB; initial and grown windows; one and two streams",
  "The tests' peer is the implementation itself, which never exceeds the window.",
  [C, S, F], [("check on received data", C), ("receive window accounting", F)], [("receive window", "what the peer may still send", F)], [NET, API])
p("C06", "Reading gives the peer its window back: no stream stalls for want of credit",
  "Once the application has read everything received on an open stream, and the connection was able to send, the peer can send at least half of the stream's window; this holds however the data and the reads were divided. Granted window plus unread data never exceed the stream's maximum window, and no window update without credit is sent except to open or acknowledge a stream.",
  ["histories", "inputs", "schedules"], "all histories of up to 4 (thorough: 5) operations with any frame lengths and read sizes, the connection polled after each or only when woken, the transport blocked in between",
  "A lost or doubled byte of window shows only after particular sequences of frame lengths and reads; random tests that move some data do not get there.",
  [S, F, C], [("window updates sent on reading", S), ("computation of the next update", F)], [("receive window, maximum", "granted, and what may be granted", F)], [NET])
p("C07", "Windows grow only within the connection's receive limit",
  "The receive windows granted and the data not yet read, summed over all streams, never exceed the configured limit of the connection, whatever windows grew and shrank before. A stream's window grows, to at most twice its size at a time, exactly when it is used up within two round trips (as measured last) and the limit leaves room, and what a dropped stream had used of the limit is available to others again.",
  ["histories", "configurations", "inputs"], "any limit from the minimum to 1 GiB above it, or none; up to three streams; histories of up to 3 (thorough: 4) rounds with any round-trip and elapsed times",
  "Growth depends on the clock, the round-trip time and the remaining limit together; tests run at wall-clock speed with the default limit of 1 GiB, which they never reach.",
  [F, S, C, R, L], [("automatic growth", F), ("share of the limit given back", F)], [("sum of the windows above the default", "shared by all streams", C)], [NET])
p("C08", "Reads, writes and closes follow the stream's half-closed states",
  "A read gives data already received, in order, before anything else; then it reports the end of the stream if the peer has closed or reset it or the connection has ended, and otherwise waits. A write succeeds or waits as long as the stream is open for writing, and fails after the application closed the stream, after a reset, and after the connection's end; the other direction is not affected by closing one. The state shown by the stream agrees with this, and with the option not to read after close set, unread data is discarded when the connection ends.",
  ["histories"], "all histories of up to 4 (thorough: 5) operations of the application and frames of the peer with any lengths, client and server, streams of either side, transport open or blocked",
  "The tests cover a handful of orders of close, reset and data; there are hundreds, and lengths matter.",
  [S, C], [("stream state transitions", S), ("frames received", C)], [("stream state", "open, closed for sending, receiving, both", S)], [API])
p("C09", "Each stream's frames carry SYN, ACK and FIN at the right place, once",
  "The first frame sent on a stream opened locally carries SYN, the first on a stream of the peer carries ACK, and no other frame does. FIN is sent at most once, only after the application closed or dropped the stream and after all its data, and nothing but window updates follows it; nothing at all follows a reset, and a reset is sent only for a dropped stream that neither side had ended.",
  ["histories", "schedules"], "all histories of up to 5 operations on streams of either side, with the connection polled after each or at arbitrary times, and during the connection's close",
  "The flags depend on which of several tasks gets to send first; the tests always send data first.",
  [C, S, FR], [("pending flag of a stream", S), ("closing and dropping a stream", C)], [("pending flag", "what the next frame must carry", S)], [NET])
p("C10", "Stream identifiers have the right parity and are never used twice",
  "Streams opened locally get odd identifiers as client and even ones as server, strictly increasing, never 0 and never one used before on this connection. When none is left, opening a stream fails with the error for that and does not wrap around. A stream the peer opens with an identifier of the wrong parity, with 0, or with one in use is a protocol violation and gives no stream.",
  ["histories", "inputs"], "all histories of up to 5 operations, any identifier in the peer's frames, and identifiers near the end of the range",
  "Exhaustion needs 2^31 streams; a peer that chooses wrong identifiers does not exist in the tests.",
  [C], [("next identifier", C), ("check of inbound identifiers", C)], [("next identifier", "of a local stream", C)], [API, NET],
  "one to start near the end of the identifiers: a guarded function that sets the next identifier")
p("C11", "There are never more streams than configured",
  "The number of streams of a connection never exceeds the configured maximum, whoever opens them and however they come and go. The local side gets the error for too many streams, the peer a go-away; below the maximum neither happens, and a dropped stream's place can be used again once the connection has been polled.",
  ["histories", "configurations"], "maxima of one and two streams, all histories of up to 4 (thorough: 5) openings by either side, closes, resets and drops, with the connection polled after each or not",
  "The one test of the limit opens streams from one side only and never frees any.",
  [C, L], [("limit on opening", C), ("limit on accepting", C), ("removal of dropped streams", C)], [("table of streams", "those that exist", C)], [API, NET])
p("C12", "At most 256 opened streams wait for acknowledgement, and opening goes on after",
  "A new stream cannot be opened while 256 streams opened locally are neither acknowledged by the peer nor ended; the task that wants to open one waits, and is woken as soon as one of them is acknowledged, ended, reset or dropped. Whether a stream reports that its acknowledgement is pending agrees with the frames exchanged, for streams of both sides.",
  ["histories", "schedules"], "256 streams and all histories of up to 2 events; one stream of either side and all histories of up to 4 events",
  "The test of the backlog acknowledges in order by reading and writing data only.",
  [C, S, L], [("backlog check", C), ("wake-up of the opener", C)], [("acknowledged", "part of the stream's state", S)], [API])
p("C13", "Every ping is answered, in order, with its own value",
  "Each ping received on the session is answered by exactly one pong with the same value and no stream, in the order the pings came, whatever else is being sent and also after the transport was blocked. Pongs received are never answered.",
  ["histories", "inputs"], "any values, histories of up to 4 operations with data, window updates, blocking and unblocking in between",
  "No test sends a ping other than the implementation's own.",
  [C], [("ping handling", C), ("pending answers", C)], [("pending answers", "pongs to be sent", C)], [NET])
p("C14", "No input can crash the connection; protocol violations are told by go-away",
  "Whatever frames the peer sends, in whatever state the streams are, no call panics, overflows or loops. A frame that breaks the protocol (an identifier or a repeated opening it must not use, too much data, too much credit, a pong nobody asked for) is answered with exactly one go-away naming a protocol error, too many streams with one naming the same or an internal error; every other well-formed frame, including any for a stream that does not exist, is not.",
  ["inputs", "histories"], "one, two and (thorough) three frames with every field free (type, flags, identifier, length) after all histories of up to 2 operations",
  "The inputs are frames no implementation sends on purpose; the tests have no hostile peer.",
  [C, IO, H, F, S], [("checks on received frames", C), ("window arithmetic", F)], [], [NET, API])
p("C15", "An orderly close sends everything accepted, one go-away, and closes",
  "When the connection is closed, everything the streams had accepted before (data, ends, window updates, answers to pings) is sent in order as whole frames, then one go-away with code 0 as the last frame, and then the transport is closed, once. The close completes whenever the transport takes the bytes, also if the peer is closing at the same time and the transport holds only little; during it no stream is opened, accepted or written to, and repeating it succeeds.",
  ["histories", "schedules", "fault_sequences"], "all histories of up to 3 (thorough: 4) operations before the close, on idle and blocked transports, and up to 3 operations during it; up to 5 streams with queued data",
  "The tests close idle connections; what is queued at the moment of the close, and a transport that pauses during it, are schedules they do not produce.",
  [CL, C, CU], [("draining of the streams' queues", CL), ("go-away and close of the transport", CL)], [("state of the close", "draining, flushing, closing", CL)], [NET, API])
p("C16", "No lost wake-ups: whoever can go on is woken",
  "Whenever a task waits in the connection, in a read, in a write or in opening a stream, and something then makes progress possible for it (bytes arriving, room on the transport, credit, data, a command from a stream, a free place), it has been woken. This holds for a reader and a writer of the same stream in different tasks.",
  ["schedules", "histories"], "all histories of up to 4 events after which only woken tasks are run until none is left; then no waiting call may be able to go on; one and two streams, full queues, blocked transports, exhausted credit, full backlog",
  "A lost wake-up needs one particular order of polls; executors in tests poll often enough to hide it.",
  [C, S, IO, T], [("registered wakers", C), ("wakers of a stream", S), ("command channel", S)], [("wakers", "of reader, writer, connection and opener", S)], [API])
p("C17", "A dropped stream is ended towards the peer and leaves nothing behind",
  "When a stream is dropped, what it had accepted is sent; then the peer is told by exactly one reset if the stream was open, or by one end if the peer had already ended it, and by nothing more if the stream was closed or reset before. Its place, its share of the receive limit, its identifier and its memory are free again, and whatever the peer still sends for it is ignored without an answer, a violation or an effect on other streams.",
  ["histories", "schedules"], "all histories of up to 3 (thorough: 4) operations before the drop, with the transport open or blocked, then any frame for the dropped stream, then a new stream",
  "The tests drop streams only after a complete exchange.",
  [C, S], [("handling of a dropped stream", C), ("frames for unknown streams", C)], [("table of streams", "those that exist", C)], [NET, API])
p("C18", "A slow peer or transport bounds what is queued",
  "While the transport takes nothing, each stream accepts only a fixed number of writes, window updates are not piled up, and pings are read only up to a fixed number: so memory stays bounded. As soon as the transport takes data again, everything queued is sent and writing goes on.",
  ["histories", "inputs"], "a blocked transport; as many writes of any length as are accepted on one and two streams, 20 pings, reads of 4 full windows, and streams opened, written and dropped over and over",
  "Tests use transports that take everything; a queue without bound would go unnoticed.",
  [C, S], [("bounded command channel", C), ("one frame in hand", C), ("reading stops while answers wait", C)], [("pending frames", "to be written next", C)], [API, NET])
p("C19", "The bytes of a stream arrive unchanged, complete and in order",
  "The content of the data frames sent on a stream, joined, is exactly what the application's writes accepted, byte for byte and in order. What the application reads, in pieces of any size or as whole packets, is exactly the content received for that stream, up to its end.",
  ["inputs", "histories"], "symbolic bytes: all contents; histories of up to 4 writes or reads of 1 to 4 bytes on two streams, split into frames of any size, transport blocked in between; and any single byte, by its position, in histories of 3 to 4 (thorough: 5) operations with any lengths, any split size, frames cut anywhere by the transport",
  "Tests compare long random contents moved in a few fixed ways.",
  [S, CH, C, IO], [("chunk queue", CH), ("frame contents", IO)], [("receive buffer", "received and not yet read", CH)], [NET, API])
p("C20", "Streams do not affect each other",
  "What happens on one stream (data, its end, reset, close, drop, exhausted credit, a reader that does not read) leaves the data, credit, window, state and waiting tasks of every other stream as they were. Frames for streams that do not exist change nothing.",
  ["histories", "inputs"], "two streams of either side; all histories of up to 3 (thorough: 4) operations on one while the other is watched; any frame without SYN for unknown streams",
  "Tests with several streams do the same thing on each.",
  [C, S], [("lookup of the stream of a frame", C), ("separate flow control", F)], [("table of streams", "those that exist", C)], [NET, API])
p("C21", "A finished connection stays finished, and releases everyone",
  "Once the connection has ended, for whatever reason, polling it gives its end again and never panics, opening gives the error for a closed connection, and closing succeeds; the transport is not used any more. Every task waiting on a stream or to open one has been woken, reads give what was received and then the end, writes fail, closes succeed, and streams can be dropped; when the connection and its streams are dropped, all memory they used is free again.",
  ["histories", "fault_sequences"], "ends by read and write failure, end of the transport, go-away, close, garbage, too many streams, after all histories of up to 3 (thorough: 4) operations",
  "Each reason meets each state of the streams; tests have a few combinations.",
  [C, CU, CL], [("clean-up of streams", C), ("states of a connection", C)], [("connection state", "active, closing, cleaning up, closed", C)], [API, NET])
p("C22", "Data frames are no longer than configured, and writes take all they can",
  "No data frame carries more bytes than the configured size for splitting writes. A write accepts no more than it was given, no more than the credit, and no more than that size, and it accepts something whenever it was given something and the stream and connection can take it; what it accepted is what is sent.",
  ["inputs", "configurations", "histories"], "any configured size from 1 up, any lengths and credits, histories of up to 3 (thorough: 4) writes",
  "Tests use the default and a few random sizes with ordinary lengths.",
  [S, L], [("splitting a write", S)], [], [NET, API])
p("C23", "Round-trip pings: one at a time, ten seconds apart, each recognised",
  "A ping is sent at the start of the connection, and again when it is polled at least ten seconds after the previous pong, never while one is unanswered and never earlier; its values are distinct. A pong with the value waited for ends the wait; any other pong is a protocol violation.",
  ["schedules", "inputs"], "all histories of up to 4 (thorough: 5) steps with a clock that moves by any amount, transport blocked in between; any pong",
  "Tests do not run for ten seconds, and their peer answers correctly.",
  [R, C], [("ping schedule", R), ("pong check", R)], [("ping state", "when to send, or what is waited for", R)], [NET])
p("C24", "Transport errors end the connection and reach everyone",
  "If reading, writing or flushing the transport fails, with whatever kind of error and at whatever point, the next poll of the connection reports an I/O error (for reading: one that carries it) and then its end; the error is not swallowed, retried or reported as an orderly end. Tasks waiting on streams or to open one are woken, data received before can still be read, and nothing more is sent.",
  ["fault_sequences", "histories"], "failures of any of 16 kinds of reads, writes (error, or nothing accepted) and flushes after all histories of up to 3 operations, and also during the close",
  "Tests have no failing transport.",
  [IO, C, CU], [("error paths of the connection's loop", C), ("error conversion", "yamux/src/error.rs")], [], [API, NET])
p("C25", "A go-away from the peer ends the connection in an orderly way",
  "After a go-away from the peer, whatever its code, flags and stream, the connection ends without an error, nothing that follows it is looked at, and it is not answered. Data received before can be read, waiting tasks are woken, and writes fail.",
  ["inputs", "histories"], "any code, flags and stream, after all histories of up to 3 operations",
  "Tests end connections from one side in one way.",
  [C], [("go-away handling", C)], [], [API, NET])
p("C26", "Two endpoints deliver everything to each other and come to rest",
  "When two connections of this implementation are joined by a reliable transport of any capacity and their tasks run whenever woken, everything written on a stream is read at the other end completely and in order, followed by the end if the writer closed; no task waits for ever, neither side finds fault with the other, and both can be closed, one after the other or at the same time. Dropping one end lets the other end's reader and writer finish and leaves other streams alone; a reader that pauses holds up only its own stream's writer, within its window.",
  ["schedules", "histories", "inputs"], "one and two streams opened by either side, any amounts up to two or three windows in both directions, transports that hold from 12 bytes to 1 MiB, chosen task orders, pauses, drops and closes at several moments",
  "Deadlocks between two endpoints need full buffers on both sides at once and a particular order of polls; the tests' transports are large and fast, and their one deadlock test writes from one side.",
  [C, S, F, CL, IO], [("reading goes on while writing waits", C), ("window updates", S), ("reading on while closing", CL)], [], [API])
p("C27", "Streams and their connection can be used from different threads",
  "A stream may be used on one thread while its connection is polled, or other streams are used, on others: whatever the other threads do while a call is under way, no call panics or deadlocks, no task waits for ever although it could go on (a wake-up that falls into the middle of a call is not lost), every accepted byte and the end of each closed stream are sent, what was received can be read, and the rules of the protocol (credit, windows, limits, SYN and ACK and FIN once) hold as if the calls had been made one after another.",
  ["schedules"], "all sequences of 2 (some: 3) calls, any of which is interrupted up to once (some: twice) by a whole call of another thread, at any point where it takes or releases a lock, between two steps of handing over a command, or where it enters the transport; locks are never taken in opposite orders by two threads",
  "The tests' tasks interleave only where they await; a race needs another thread to run in the few instructions between two locks of one call.",
  [S, C, F, R], [("shared state of a stream behind a mutex", S), ("commands to the connection", S), ("wake-ups by the connection", C)],
  [("Shared", "state, windows, buffer and wakers of a stream", S), ("accumulated_max_stream_windows", "what all streams have grown by", F)], [NET, API])
p("C28", "Configurations are taken or refused as documented, and those taken work",
  "Setting the maximum number of streams or the connection's receive limit is refused (by a panic) exactly when the limit would be less than 256 KiB for each of the streams; no limit is always enough, and no combination of values overflows. The defaults are 512 streams, 1 GiB, 16 KiB for splitting writes, and reading what was received after the connection's end. With every configuration taken, in debug and release builds, streams can be opened, written, read and closed, windows grow without a panic, and the limits set are the limits kept.",
  ["configurations", "inputs"], "all values of every setting in any order of two calls; any limit, maximum and split size with streams whose windows grow twice; the default's limits reached: 512 streams of either side, one window grown as far as possible",
  "Tests use the default and a few small values; products of large values overflow only there.",
  [L, F, C, S], [("checks of the setters", L), ("limit arithmetic of the growth", F)], [("Config", "shared by all streams", L)], [API, NET])
p("C29", "Streams take turns, and answers and reading do not wait behind queued data",
  "While the transport takes only one frame at a time, every stream that has something to send gets its turn after a few frames of the others, however much these have to send. Pings are answered before data that streams have queued, and what the peer sends (data, new streams, pings) is taken in and can be read while frames wait to be written.",
  ["schedules", "histories"], "two and three streams with full queues, any of which goes on writing whenever it can; a transport that takes one frame at a time, 12 and 16 times; up to three pings, data and a new stream arriving in between at any of three moments",
  "Tests' transports take everything at once, so that nobody ever waits.",
  [C], [("answers before stream frames", C), ("fair selection among streams", C), ("reading independent of writing", C)], [("pending frames", "to be written next", C)], [NET, API])
o = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(o, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
