#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})
R = "src/reactor/"

prop("C01", "Removed registrations never fire, ready ones fire exactly once",
 "Once a registration has been removed from the event loop (or its descriptor object closed or destroyed), its callback is never invoked again, even if its readiness was already collected in the batch being dispatched and even if the memory is freed or a new registration is made in the meantime. "
 "Every other registration that was ready when the batch was collected is dispatched exactly once in that batch, whatever the callbacks running before it remove, add, signal or abort. Conditions and handlers changed for a registration hold for everything collected afterwards.",
 ["histories", "schedules"], "all orders of readiness of up to 4 registrations and all sequences (bounded length) of remove / re-add / replace / signal / abort actions made between turns and from inside callbacks; batches of up to 40 with every (actor, removed range) pair",
 "tests dispatch one or two events per turn and never remove a third party's registration in the middle of a batch",
 [R+"core.c", R+"descriptor.c"], [("neutralising collected events on removal", "core.c reactor_delete"), ("dispatch over the collected batch", "core.c reactor_loop_once"), ("close removes before closing", "descriptor.c descriptor_close")],
 [("collected batch", "events returned by the last wait and not dispatched yet", "core.c struct reactor")], ["callback invocations", "descriptor table"])

prop("C02", "The loop ends exactly when asked to or when nothing is registered",
 "The loop returns without waiting again as soon as no registration remains, an abort has been requested, or SIGTERM/SIGINT has been received while it waits or runs callbacks; until then it keeps running, being interrupted by signals is harmless, and a new loop constructed later starts afresh. "
 "However many descriptors are ready at once, each is dispatched, none repeatedly before its turn and none starved. A peer that disappears never terminates the process through SIGPIPE.",
 ["histories", "schedules"], "all bounded histories of registrations, readiness, interruptions, signals and aborts at every wait and in every callback; 1..150 simultaneously ready descriptors, edge and level triggered",
 "tests run single turns; interruptions, signals in callbacks and more than 32 ready descriptors are not reached",
 [R+"core.c"], [("loop condition", "core.c reactor_loop"), ("EINTR handling and batch size", "core.c reactor_loop_once"), ("signal set-up", "core.c reactor_construct")],
 [("registration count", "number of live registrations", "core.c struct reactor"), ("active flag", "cleared by abort", "core.c struct reactor")], ["return of the loop", "epoll_wait calls", "signal dispositions"])

prop("C03", "Descriptor readiness is translated exactly per interest mask",
 "For an open descriptor object and its current interest mask, each turn delivers exactly: a read event if input is ready and read interest is set, then a write event if output is possible and write interest is set, then a close event if the peer hung up or failed - in this order, edge triggered unless level triggering was asked for, and nothing after the callback closed the object. "
 "Changing the mask takes effect immediately; closing closes the underlying descriptor exactly once, repeated closing or destruction is harmless, and an object without callback ignores events.",
 ["histories", "configurations"], "all masks, all bounded histories of data arrival, draining, space exhausted/available, end of stream, reset, mask change and close, between turns and inside callbacks, for sockets, event descriptors and both pipe ends",
 "tests use one mask and one event per descriptor; combinations with hang-up and mask changes in callbacks are untested",
 [R+"descriptor.c", R+"core.c"], [("mask to epoll events", "descriptor.c descriptor_events"), ("event to callback", "descriptor.c descriptor_callback"), ("close", "descriptor.c descriptor_close")], None, ["callback sequence", "epoll interest set"])

prop("C04", "The loop's clock is constant within a turn and refreshed every turn",
 "All queries of the loop's cached time within one turn return the same value, however long the callbacks take; that value lies between the moment the turn's events were collected and the moment of the first query, and it never goes backwards while the system clock does not.",
 ["schedules", "histories"], "all bounded interleavings of passing time, queries and turns, with queries before the loop starts and in any callback",
 "the tests query the clock at most once and cannot control time",
 [R+"core.c"], [("cached time", "core.c reactor_now"), ("reset per turn", "core.c reactor_loop_once")], None, ["reactor_now()"])

prop("C05", "Event loops of different threads are independent",
 "Each thread owns its own event loop: construction, registrations, dispatching, aborting, clock and destruction of one thread's loop never change what another thread's loop does, for any interleaving of the two, and the same holds for servers and encrypted streams run in different threads.",
 ["schedules"], "all interleavings, at the granularity of API calls, turns and server steps, of two threads each running its own loop through construct / register / signal / turn / abort / destroy with events, timers, streams, streams whose peer has gone and notifications, and through a server request",
 "tests are single threaded", [R+"core.c", R+"server.c", R+"stream.c"], [("thread-local loop state", "core.c reactor_core"), ("thread-local date", "server.c server_date_string"), ("thread-local TLS flag", "stream.c stream_ssl_activated")], None, ["callbacks per thread"])

prop("C06", "Stream output reaches the peer complete, in order and unduplicated",
 "The bytes the peer of an open stream receives are at every moment a prefix of the concatenation of everything written (by copying or by filling allocated space) in call order, no byte lost, duplicated or altered, for any split of writes and flushes, any partial acceptance by the kernel and any pace of the peer. "
 "This holds for sockets and for pipes, and also when writing and flushing happens inside event callbacks.",
 ["histories", "schedules"], "all bounded sequences of write/allocate/flush/turn and of peer progress, over send spaces from 0 bytes to everything, including writes from inside read and write callbacks",
 "tests write a few bytes that are accepted at once", [R+"stream.c", R+"buffer.c"], [("partial write bookkeeping", "stream.c stream_socket_write"), ("append", "stream.c stream_write, stream_allocate")], [("output buffer", "bytes not accepted by the kernel yet", "stream.h struct stream")], ["bytes received by the peer"])

prop("C07", "Stream input is delivered complete and in order, before the close event",
 "At every moment the bytes a stream offers for reading are exactly those the peer sent, in order, minus those consumed; consumption removes exactly the requested number from the front. "
 "Whenever new input arrives on a stream opened for reading, a read event is delivered in that turn, for input of any size and any fragmentation, and all input sent before the peer closed or reset is offered before the close event; a stream not opened for reading gets no read event.",
 ["histories", "schedules", "inputs"], "all bounded interleavings of arriving chunks (sizes around the receive block size), end of stream, reset, consumption by 0/1/all bytes inside and outside callbacks, and turns",
 "tests deliver one small chunk", [R+"stream.c", R+"descriptor.c", R+"buffer.c"], [("read until drained", "stream.c stream_socket_read"), ("event order", "descriptor.c descriptor_callback")], [("input buffer", "received and not consumed", "stream.h struct stream")], ["stream_read()", "event sequence"])

prop("C08", "Pending stream output always makes progress and notifications fire",
 "Once flushed, output that the kernel did not take immediately is sent without further calls as soon as the peer makes room, until everything is sent: no history leaves an open stream with pending output, room to send and nothing scheduled. "
 "A requested write notification is delivered once when the stream is next able to send (also if requested before opening), and a write event is never delivered unless it was requested or pending output existed.",
 ["histories", "schedules"], "all bounded histories of write, flush, notify, peer progress and turns from any starting send space, including requests made in callbacks",
 "tests use sockets with free space and never fill the send buffer", [R+"stream.c", R+"descriptor.c"], [("interest in writing", "stream.c stream_socket_mask/update"), ("write callback", "stream.c stream_socket_callback")], [("notify flag", "a notification is due", "stream.h struct stream")], ["write events", "bytes at the peer", "loop readiness"])

prop("C09", "A failing peer is reported as close and never kills the process",
 "Whatever the peer does - orderly close, half close, reset, reader of a pipe gone - at any point relative to the stream's own reads, writes and flushes, the process is not terminated (neither by a signal nor by an internal assertion), no operation blocks, and the stream's owner is told through a close event. "
 "Input received before the failure is still delivered, and the stream can afterwards be closed or destroyed normally.",
 ["fault_sequences", "schedules"], "peer end of stream and reset injected at every step of all bounded histories of write/flush/notify/turn, with pending output and with writes from callbacks, for sockets and pipes",
 "tests never write to a vanished peer", [R+"stream.c", R+"core.c"], [("error handling in write", "stream.c stream_socket_write"), ("close event", "stream.c stream_socket_callback"), ("SIGPIPE ignored", "core.c reactor_construct")], None, ["process survival", "close events"])

prop("C10", "Encrypted streams have the same integrity and progress guarantees",
 "Over a TLS stream, on either side and with any fragmentation of the ciphertext, any pace of the peer and any amount of queued data, each side receives exactly the plaintext the other wrote, in order; data queued before the handshake finished is sent once it has, and flushed output makes progress to completion without further calls. "
 "Input and output progress independently, a requested write notification fires once the output is sent, and a peer that disappears at any point leads to a close event.",
 ["schedules", "inputs", "fault_sequences"], "bounded exploration of ciphertext fragmentation, send space, ordering of reads, writes and turns through handshake and transfer, with sizes below and above the record size and a disconnect at every step",
 "the test performs one unfragmented exchange", [R+"stream.c"], [("TLS read/flush/mask", "stream.c stream_ssl_read, stream_ssl_flush, stream_ssl_mask")], [("TLS state", "what the TLS engine waits for", "stream.h struct stream")], ["plaintext at both ends", "events"])

prop("C11", "Streams can be closed, destroyed and reopened at any point",
 "A stream may be closed or destroyed (and its memory freed) at any time, including inside any of its own callbacks and with data pending in either direction: afterwards no callback of it runs, no freed memory is touched, and its descriptor, buffers and encryption state are released exactly once. "
 "Closing twice is harmless, and a closed stream can be opened again on another descriptor, plain or encrypted, and then behaves as a fresh one: no data, notification or encryption state of the earlier connection carries over.",
 ["histories", "schedules"], "close / destroy / reopen at every step and in every callback of all bounded histories, plain then TLS and TLS then plain",
 "tests close at one fixed point", [R+"stream.c", R+"descriptor.c", R+"core.c"], [("close", "stream.c stream_close"), ("destruct", "stream.c stream_destruct"), ("open", "stream.c stream_open")], None, ["callbacks", "heap", "descriptor table"])

prop("C12", "The server answers each request once, in order, for any segmentation",
 "For any split of the request bytes into segments, any pipelining, and any mix of immediate and deferred answers, the server invokes the request handler once per complete request, in order, with exactly that request's method, target and header fields, and never with a later request of the connection before the earlier one is answered. "
 "The client receives exactly one response per answered request, in request order, byte-exact, without needing further input, however slowly it reads.",
 ["schedules", "inputs", "histories"], "all segmentations (bounded number of cuts) of bounded pipelines, all choices immediate/deferred per request, all interleavings of arrival, deferred answers, client reading and turns, plain and with both parser builds",
 "tests send whole requests and answer immediately", [R+"server.c", R+"http.c", R+"stream.c"], [("request state machine", "server.c server_request_read, server_request_update"), ("deferred response", "server.c server_respond")], [("request state", "needs data / read / handling / closed", "server.h struct server_request")], ["handler invocations", "bytes at the client"])

prop("C13", "Requests and connections stay valid while held and are freed exactly once",
 "For every interleaving of client disconnects, deferred answers, closing, holding and releasing of requests, server shutdown and server destruction, a request object obtained by a handler stays valid until its answer was given and every hold was released, answering a request whose connection is gone is harmless, and then all its memory and its descriptor are released exactly once. "
 "No handler runs for a connection after it is closed or the server was shut down, and nothing is leaked or touched after it was freed.",
 ["schedules", "histories", "fault_sequences"], "all bounded interleavings of request arrival, end of stream/reset, respond, close, hold, release, shutdown and destruct, inside and outside the handler, with 1-2 connections",
 "tests exercise two or three fixed orders", [R+"server.c", R+"list.c", R+"stream.c"], [("reference counting", "server.c server_hold, server_release, server_close"), ("shutdown", "server.c server_shutdown")], [("reference count", "connection + handlers + holds", "server.h struct server_request")], ["heap", "descriptor table", "handler invocations"])

prop("C14", "Malformed requests get one 400 and a closed connection, nothing else",
 "When a connection delivers bytes that cannot be (the start of) an acceptable request, the server sends the answers to all earlier requests, then exactly one 400 response, then closes that connection; the handler is not invoked for the malformed request or anything after it, and other connections are unaffected. "
 "The decision depends only on the bytes, not on how they were segmented.",
 ["inputs", "schedules"], "a catalogue of malformed and boundary requests (illegal bytes, bad versions, missing parts, too many fields) x every cut point x preceding pipelined requests answered immediately or deferred",
 "tests send one malformed request in one segment", [R+"server.c", R+"http.c", "src/picohttpparser/picohttpparser.c"], [("bad request path", "server.c server_bad_request"), ("parser verdict", "server.c server_request_read")], None, ["bytes at the client", "handler invocations"])

prop("C15", "The server accepts every pending connection and isolates them",
 "Every connection that arrives on an open server is accepted and served, however many arrive between two turns and even if individual connections fail while being accepted; what one client sends, how slowly it reads or that it disconnects never changes what another receives. "
 "After shutdown no further connection is accepted, all connections and the listening socket are closed once, and the server may be opened again.",
 ["schedules", "fault_sequences"], "all bounded interleavings of arrivals (1..40 at once), aborted arrivals, requests, slow readers and shutdown over 2-3 connections",
 "tests accept one connection", [R+"server.c"], [("accept loop", "server.c server_socket_descriptor_callback, server_ssl_descriptor_callback"), ("shutdown", "server.c server_shutdown")], None, ["accepted connections", "bytes at the clients"])

prop("C16", "Every response is well formed, with exact length and a current date",
 "Every response the server emits is a well-formed HTTP/1.1 message carrying the given status line, server and date fields, the content type exactly when one was given, a content length equal to the body's size, and the body unchanged - for any status, type and body, including empty ones. "
 "The date is always a valid IMF-fixdate in GMT, from the first response on and however connections were introduced, and is at most about one second behind the clock while the loop is running.",
 ["inputs", "schedules"], "all combinations of bounded status/type/body, all orders of the first request and the date timer, connections accepted or handed in, clock values across day, month and year boundaries",
 "tests do not look at the date and run after the timer has fired", [R+"server.c", R+"http.c"], [("date update", "server.c server_date_update"), ("serialisation", "http.c http_write_response")], None, ["bytes at the client"])

prop("C17", "HTTP parsing accepts exactly the grammar and reports exact slices",
 "For every byte string, request and response parsing returns 'incomplete', 'malformed' or the exact length of the message head according to the documented grammar, and on success reports exactly the method, target, status code, reason and header name/value slices (surrounding blanks trimmed, continuation lines marked by an empty name) of that message, all lying inside the input. "
 "The result is the same with the portable and the vectorised code paths and for any alignment.",
 ["inputs"], "all strings over a grammar-covering alphabet up to a bounded length at every position of several message skeletons, all 256 byte values at every position of complete messages, all field lengths 0..70, each with both builds",
 "tests parse a handful of messages with the portable path only", [R+"http.c", "src/picohttpparser/picohttpparser.c"], [("request parser", "picohttpparser.c phr_parse_request"), ("response parser", "picohttpparser.c phr_parse_response"), ("wrappers", "http.c http_read_request_data, http_read_response")], None, ["return value and slices"])

prop("C18", "Parsing is prefix stable and reads only the bytes it was given",
 "If a byte string is a complete message head, every proper prefix of it is reported as incomplete and every extension gives the same result; if a prefix is malformed every extension is. "
 "The verdict depends only on the given bytes: parsing never looks at memory before or after them.",
 ["inputs", "histories"], "every prefix of every message of the exhaustive corpora of C17, placed against inaccessible memory and followed by different stale bytes",
 "tests parse whole messages in roomy buffers", [R+"http.c", "src/picohttpparser/picohttpparser.c"], [("end-of-input checks", "picohttpparser.c CHECK_EOF, is_complete")], None, ["return value"])

prop("C19", "HTTP messages written are exactly what a parser reads back",
 "Writing a request or a response appends exactly one well-formed message to the stream's pending output, leaving earlier output untouched, of exactly the size of its parts; parsing it back yields the given method, target, host, status, date, type and body with a content length equal to the body size (fields that do not apply being absent). "
 "This holds for any sizes of the parts, including empty ones, and any body length.",
 ["inputs", "configurations"], "all combinations of part sizes 0..N and body sizes around every power of ten, onto output of any fill",
 "tests write three fixed messages", [R+"http.c", R+"pointer.c", R+"stream.c", R+"utility.c"], [("request writer", "http.c http_write_request"), ("response writer", "http.c http_write_response")], None, ["stream output"])

prop("C20", "Header lookup is case-insensitive and returns the first match",
 "Looking up a name among parsed header fields returns the value of the first field whose name is equal ignoring ASCII case, and an empty result when there is none; it never matches a mere prefix or extension of a name and never looks beyond the given fields.",
 ["inputs"], "all field lists (up to 3 fields) over all names up to length 3 on a case-covering alphabet, against all such names; all byte pairs as one-byte names",
 "tests look up two names", [R+"http.c"], [("lookup", "http.c http_field_lookup")], None, ["http_field_lookup()"])

prop("C21", "Buffers behave as byte sequences under any operation sequence",
 "After any sequence of insert, fill, erase, resize, reserve, compact and clear operations, a buffer holds exactly the bytes the same operations produce on an ideal byte sequence, its capacity is never below its size nor below what was reserved, and no memory outside its allocation is accessed or leaked.",
 ["histories", "inputs"], "all operation sequences up to a depth over sizes at and around the growth boundaries, compared with an ideal sequence after each step",
 "tests run one short script", [R+"buffer.c"], [("growth", "buffer.c buffer_reserve"), ("insert/erase", "buffer.c buffer_insert, buffer_insert_fill, buffer_erase")], None, ["buffer contents, size, capacity"])

prop("C22", "Vectors behave as sequences and release each element exactly once",
 "After any sequence of insertions (single, range, fill), erasures, pushes, pops, clears and reservations a vector equals the ideal sequence, for every element size, and every element removed or destroyed is passed to the release function exactly once, with its own value, in sequence order.",
 ["histories", "configurations"], "all operation sequences up to a depth for element sizes 1, 4, 8 and 24, compared with an ideal sequence",
 "tests run one short script with one element size", [R+"vector.c", R+"buffer.c"], [("operations", "vector.c")], None, ["vector contents", "release calls"])

prop("C23", "Lists stay consistent and element addresses stay stable",
 "After any sequence of insertions at the ends or before any element, splices, erasures, finds (the sought object being the first argument of the comparison) and clears, forward and backward traversal give exactly the ideal sequence, elements never move in memory, and each removed element is released exactly once. "
 "Splicing moves an element before any other, also itself or between lists, without losing or duplicating any.",
 ["histories"], "all operation sequences up to a depth over two lists", "tests run one short script",
 [R+"list.c"], [("operations", "list.c")], None, ["traversal in both directions"])

prop("C24", "Maps behave as finite maps for any keys, collisions and growth",
 "After any sequence of insertions, look-ups, erasures, reservations and clears, each kind of map holds exactly the keys the ideal map holds, a look-up returns the value stored by the first insertion since the key was last absent, sizes agree and enumeration visits each entry once - whatever the hash values (collision chains, wrap-around, growth). "
 "Every entry removed, rejected as duplicate, or present at clear or destruction is passed to the release function exactly once.",
 ["histories", "configurations"], "all operation sequences up to a depth over keys whose home slots collide, neighbour and wrap around the table end, across growth; integer and string keys",
 "tests use keys that rarely collide and never wrap", [R+"map.c", R+"mapi.c", R+"maps.c", R+"hash.c"], [("probing and back-shift erase", "map.c map_at, map_insert, map_erase"), ("growth", "map.c map_rehash/map_reserve")], None, ["look-ups, enumeration, release calls"])

prop("C25", "String editing operations equal their definition on byte sequences",
 "Every editing operation on strings (insert, erase, prepend, append, replace first, replace all, find, resize, allocate, copy, compare) yields exactly the byte sequence its definition gives, for all contents including embedded zero bytes, empty operands, overlapping matches and operands that are slices of unrelated memory; the result is zero terminated, its size is exact and its capacity at least its size. "
 "No memory outside the operands is accessed and nothing is leaked.",
 ["inputs", "histories"], "all strings up to a length over a small alphabet (with zero byte) x all positions x all operands, and all operation sequences up to a depth, against reference definitions",
 "tests check a few examples", [R+"string.c", R+"data.c"], [("editing", "string.c"), ("find", "string.c string_find_at_data")], None, ["string contents, size, capacity"])

prop("C26", "Strings read from and written to descriptors and files exactly",
 "Writing a string to a descriptor transfers exactly its bytes however the kernel splits the writes, reading from a descriptor yields exactly all bytes up to its end however reads are split; saving to an existing file makes its contents exactly the string, and loading returns exactly the file's contents. "
 "Saving to a file that cannot be opened reports failure, loading one yields the empty string, and no descriptor or memory is leaked.",
 ["fault_sequences", "inputs"], "all sequences of short reads and writes (every split) for bounded contents, all pairs of old and new file sizes",
 "tests transfer whole small contents", [R+"string.c"], [("write loop", "string.c string_write"), ("read loop", "string.c string_read"), ("save/load", "string.c string_save, string_load")], None, ["bytes on the descriptor and in the file"])

prop("C27", "Data slices and output pointers behave exactly as defined",
 "Comparing, prefix testing, selecting, consuming and measuring offsets of data slices give exactly their mathematical result for all contents, sizes and positions including empty and null slices, without reading outside the slices; output pointers append exactly the given bytes and advance by exactly their number.",
 ["inputs"], "all pairs of slices up to a length over a small alphabet at all offsets, guarded by inaccessible memory",
 "tests check a few examples", [R+"data.c", R+"pointer.c"], [("slices", "data.c"), ("pointer", "pointer.c")], None, ["return values"])

prop("C28", "Decimal formatting is exact for every 32-bit number",
 "For each of the 2^32 unsigned values, the reported length equals the number of decimal digits and formatting writes exactly these digits (and the terminator, where one is promised), nothing before or after.",
 ["inputs"], "all 2^32 values", "tests sample a few values", [R+"utility.c"], [("length", "utility.c utility_u32_len"), ("digits", "utility.c utility_u32_sprint, utility_u32_toa")], None, ["bytes written"])

prop("C29", "Hashing depends on content only and matches its published definition",
 "The hash of a byte string depends only on its bytes, not on address, alignment or surrounding memory, equals the published FarmHash (na) 64-bit function for every length, is the same through the string and the data interface, and never reads outside the given bytes; integer hashing equals the published 64-bit finalizer and so has no collisions.",
 ["inputs"], "all lengths 0..1100 with several byte patterns at all 16 alignments against an independent reference; all short strings over an alphabet; integer hashing on exhaustive sub-ranges and all one- and two-bit patterns",
 "tests check two hashes", [R+"hash.c"], [("hash", "hash.c")], None, ["return values"])

prop("C30", "No event signal is ever lost or invented",
 "For any number of signals given before, between and during dispatches, the owner's callback is invoked for exactly as many signals as were given while it is open, without needing further signals to flush pending ones; closing, destroying or reopening the event at any point, including in its own callback, is safe and discards what is pending.",
 ["schedules", "histories"], "all bounded interleavings of signal / turn / close / reopen / destroy, inside and outside callbacks, over two events",
 "the test sends one signal per turn", [R+"event.c", R+"descriptor.c"], [("signal counter", "event.c event_callback, event_signal")], None, ["callback count", "loop readiness"])

prop("C31", "Timers report every expiration exactly once, on time, until cleared",
 "A timer fires first after the given delay and then at every multiple of its interval; the sum of expirations reported equals exactly the number that have passed since it was last set, none is reported early, and after clearing or setting it anew no expiration of the old setting is reported. "
 "This holds when expirations accumulate, when the timer is set, cleared or destroyed inside any callback, including in the turn in which it expired, and a zero delay fires promptly.",
 ["schedules", "histories"], "all bounded interleavings of time steps, turns, set, clear and destroy over two timers, inside and outside callbacks, with delays and intervals around second boundaries",
 "tests wait for one expiration in real time", [R+"timer.c", R+"descriptor.c"], [("reading expirations", "timer.c timer_callback"), ("arming", "timer.c timer_set")], None, ["expirations reported vs. clock"])

prop("C32", "Filesystem notifications arrive once, in order, with the right path",
 "Every notification the kernel queues for a watched path is delivered exactly once, in order, with the watched path, name, mask and watch id belonging to it, however many are queued. "
 "Clearing or destroying the notifier at any point, including inside its callback, stops delivery immediately and releases everything; watches added afterwards report their own paths only; unwatchable paths are reported as failure, and queue overflow or notifications of watches that are gone never crash or are delivered under a wrong path.",
 ["histories", "schedules", "fault_sequences"], "all bounded interleavings of watch / kernel notification / overflow / turn / clear / destroy, inside and outside callbacks; bursts larger than the read buffer",
 "tests receive one or two events", [R+"notify.c"], [("event decoding", "notify.c notify_callback"), ("watch table", "notify.c notify_watch, notify_clear")], None, ["callback sequence"])

prop("C33", "Asynchronous calls run once, then report done, unless cancelled",
 "For every interleaving of the worker thread and the owner: the call runs at most once in another thread, completion is reported in the owner's loop exactly once and only after the call has returned and with its effects visible, and never after cancellation or destruction has returned. "
 "After cancel or destroy returns, the worker no longer touches the object or its memory, no thread or descriptor is leaked, and the object can be used for another call - also from within the completion callback.",
 ["schedules"], "all interleavings (bounded preemptions) of worker and owner at every shared memory access, synchronisation and system call, with cancel / destroy / reuse at every point",
 "tests run one lucky schedule and sleep", [R+"async.c", R+"event.c", R+"descriptor.c", R+"core.c"], [("worker", "async.c async_thread"), ("cancel", "async.c async_cancel")], None, ["callbacks, thread life cycle, memory"], None)

prop("C34", "Name lookups deliver one result for the arguments given, unless cancelled",
 "A lookup reports exactly one success with the resolver's answer for exactly the host, service, family, type and flags given - whatever the caller does to its argument strings afterwards - or exactly one failure; a cancelled, superseded or destroyed lookup reports nothing. "
 "For every interleaving of the resolving thread, cancellation, a new lookup and destruction, no argument or result is used after being freed, freed twice or leaked.",
 ["schedules", "fault_sequences"], "all interleavings (bounded preemptions) of worker and owner with success and failure answers and cancel / lookup again / destroy at every point",
 "tests resolve once without racing", [R+"resolver.c", R+"async.c", R+"net.c"], [("worker call", "resolver.c resolver_callback"), ("cancel/clear", "resolver.c resolver_cancel, resolver_clear")], None, ["result events, heap, getaddrinfo results"], None)

prop("C35", "Socket set-up returns a ready descriptor or cleans up after any failure",
 "Creating a socket from a resolved address returns a non-blocking descriptor that is bound and listening (with address reuse enabled) for passive addresses and connecting to that address otherwise, or -1; whatever step fails, the process is not terminated, the address list is released exactly once and no descriptor leaks or is closed twice. "
 "Server TLS contexts are returned for a usable certificate and key and otherwise nothing is returned and nothing leaks.",
 ["fault_sequences", "inputs"], "a failure injected at every system call for every errno class, passive and active, with and without address; all combinations of usable and unusable certificate and key files",
 "tests only make the happy path and one bind failure", [R+"net.c"], [("socket set-up", "net.c net_socket"), ("resolve", "net.c net_resolve"), ("TLS context", "net.c net_ssl_server_context")], None, ["descriptor table, address lists, return values"])

prop("C36", "Chunked decoding is independent of how the input is split",
 "Decoding a chunked body yields the same payload, the same end position and the same verdict (complete, incomplete, malformed) however the encoded bytes are split into pieces, equals the concatenation of the chunk payloads, tells after every piece whether the input ended inside a chunk's payload, and never reads or writes outside the piece given.",
 ["inputs", "schedules"], "all strings up to a length over a grammar-covering alphabet and a set of longer bodies, each with all splits into up to 4 pieces",
 "no test in the repository exercises it", ["src/picohttpparser/picohttpparser.c"], [("decoder", "picohttpparser.c phr_decode_chunked")], None, ["output bytes and return value"])

prop("C37", "Clients and servers built from the library exchange messages end to end",
 "When clients made of a stream and the HTTP functions talk to the server within one event loop, plain or TLS, every request a client writes reaches the request handler once, in the order written, with method, target and fields as given, and the client reads back, in the same order, exactly one answer per request with the status, fields and body the handler gave - at whatever pace and in whatever pieces the network carries the bytes, and whether the handler answers at once, later, from another stream's callback (as a proxy does) or after clients left and came back on the same stream. "
 "What one connection does never disturbs another; the client is told when the server closed the connection, and everything is released at the end.",
 ["histories", "schedules", "inputs"], "all bounded interleavings of requests of every kind, pieces carried by the network in either direction, loop turns, deferred answers, clients leaving and coming back, for one or two connections and for a server that is its own client; every cut of an exchange followed by another; a grid of body, target, piece and buffer sizes",
 "tests join library parts with hand-written peers or one fixed exchange, all delivered at once", [R+"server.c", R+"stream.c", R+"http.c", R+"core.c", R+"descriptor.c", R+"buffer.c"], [("request path", "http.c http_write_request, server.c server_request_read"), ("answer path", "server.c server_respond, http.c http_read_response"), ("transport", "stream.c stream_flush, stream_socket_read, stream_ssl_read")], None, ["handler's requests", "client's answers", "close events", "descriptor table, heap"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
