#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
NET = ["include/crab/network.hxx", "include/crab/network_posix.hxx", "include/crab/network.hpp", "include/crab/network_base.hpp"]
HTTP = ["include/crab/http/connection.hxx", "include/crab/http/connection.hpp"]
SRV = ["include/crab/http/server.hxx", "include/crab/http/server.hpp"]


def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A handler may destroy the object it was called from",
     "A user handler of a timer, watcher, idle, socket, acceptor, datagram object, DNS resolver, buffered socket or client/server HTTP connection may destroy that very object: after invoking the handler, the library never again reads or writes memory of the object the handler was installed in. (The HTTP server, which keeps its clients itself, and the handler-running run loop are outside this guarantee.)",
     ["programs", "schedules"], "for every user handler body, every object type and every internal path that reaches a handler invocation",
     "Use-after-free appears only if a handler destroys its owner on the specific path that touches the owner later; unit tests never run the loop.",
     NET + HTTP, [("handler invocation from the loop", "include/crab/network.hxx RunLoop::run, process_timer"), ("protocol-layer handlers", "include/crab/http/connection.hxx sock_handler, dns_handler, shutdown_timer_handler")])

prop("C02", "Calls made by the user never re-enter user handlers",
     "Calling a public method of a timer, watcher, idle, socket, acceptor, datagram object, DNS resolver, buffered socket or HTTP client/server connection never invokes a user handler before the call returns; handlers run only from the run loop.",
     ["programs", "inputs", "schedules"], "for every public member function, every state of the object and every outcome of the system calls inside",
     "Needs every error path of every call; the synchronous callback shows up only for a particular syscall outcome.",
     NET + HTTP, [("deferred events", "include/crab/network.hxx Callable::add_pending_callable"), ("public API", "include/crab/network.hpp, include/crab/http/connection.hpp")])

prop("C03", "No handler after close, cancel or destruction",
     "After close(), cancel() or destruction of a socket, timer, watcher, DNS resolver, datagram object or acceptor returns, no handler of that object runs until the user arms it again: no queued event, timer, descriptor registration or cross-thread notification of it is left behind.",
     ["histories", "schedules"], "for every state in which the object can be closed, cancelled or destroyed, including with an event already queued for it",
     "The stale callback needs an event queued in the same loop turn before the close, which unit tests do not produce.",
     NET, [("event cancellation", "include/crab/network_base.hpp Callable::cancel_callable; include/crab/network_posix.hxx TCPSocket::close"), ("watcher and resolver cancellation", "include/crab/network.hxx Watcher::cancel, DNSResolver::cancel")])

prop("C04", "Timers never fire early, fire once, and honour the latest setting",
     "A timer's handler runs only once per setting, after the loop clock has reached the time most recently set, and is no longer set while it runs; setting it again while set replaces the time whether earlier or later, and cancel removes it. The loop never sleeps past the earliest set time, and delays too large or negative are clamped instead of overflowing.",
     ["histories", "inputs"], "for every sequence of set, re-set and cancel calls, every delay value and every loop time",
     "Depends on particular orders of re-arming and on clock values that tests cannot enumerate.",
     ["include/crab/network.hxx", "include/crab/network.hpp", "include/crab/intrusive_heap.hpp"], [("arming", "include/crab/network.hxx Timer::once, once_at, cancel"), ("firing", "include/crab/network.hxx RunLoopLinks::process_timer")],
     [("fire_time/moved_fire_time", "heap key and the (later) time actually asked for", "include/crab/network.hpp Timer")])

prop("C05", "A readiness indication is given up only when the kernel says so",
     "Sockets, acceptors and datagram objects stop trying to read, write or accept only after the kernel answered 'would block' (or the object was closed), and always stop then; every kernel readiness event, including error and hang-up, makes the affected direction usable again and queues the handler. Descriptors are registered edge-triggered for exactly the directions the object uses.",
     ["schedules", "inputs", "fault_sequences"], "for every system call outcome and every combination of kernel event bits",
     "With edge-triggered notification a wrongly dropped or kept flag loses a wakeup only for particular errno values or event bits.",
     NET, [("flag handling on I/O", "include/crab/network_posix.hxx read_some, write_some, can_accept, read_datagram, write_datagram"), ("event mapping and registration", "include/crab/network_posix.hxx RunLoop::step, impl_add_callable_fd")])

prop("C06", "TCP socket I/O: exact counts, and one deferred close event on failure",
     "A TCP socket read or write returns exactly the number of bytes the kernel transferred, passes the caller's buffers and lengths unchanged to the kernel, and never does I/O on a closed socket. On end-of-stream (read) or a real error the descriptor is released and exactly one close event is queued, while 'would block' leaves the socket open and returns 0.",
     ["inputs", "fault_sequences"], "for every result and errno of the kernel calls, for all read/write variants",
     "Tests contain no socket I/O at all and cannot force every errno.",
     ["include/crab/network_posix.hxx"], [("stream I/O", "include/crab/network_posix.hxx TCPSocket::read_some, write_some"), ("closing with event", "include/crab/network_posix.hxx TCPSocket::close")])

prop("C07", "Every descriptor has exactly one owner and is closed exactly once",
     "Every descriptor the library obtains from the kernel is closed exactly once on every path, including paths that throw: either it ends up owned by a live object that closes it on close or destruction, or it is closed before the call returns. Descriptors of accepted connections move from acceptor to socket without being leaked or owned twice.",
     ["fault_sequences", "inputs"], "for every success/failure combination of the system calls made while creating sockets, acceptors, datagram objects, signals and run loops",
     "Leaks and double closes need a specific call in the middle of a setup sequence to fail.",
     NET, [("owner type", "include/crab/network_base.hpp FileDescriptor"), ("setup sequences", "include/crab/network_posix.hxx TCPSocket::connect, accept, TCPAcceptor, UDPTransmitter, UDPReceiver, Signal, RunLoop")])

prop("C08", "The loop thread never blocks in I/O and never raises SIGPIPE",
     "Every descriptor on which the library performs I/O or which it registers with the loop is in non-blocking mode first, every send carries the no-SIGPIPE flag, and nothing reachable from the loop or from the asynchronous API makes a blocking system call, sleeps or joins a thread, apart from the loop's own wait and the documented synchronous calls.",
     ["schedules", "inputs"], "for every descriptor creation path and every function reachable from the run loop",
     "Blocking shows only with slow peers or full buffers.",
     NET, [("descriptor setup", "include/crab/network_posix.hxx set_nonblocking, accept4"), ("send flags", "include/crab/network_posix.hxx CRAB_MSG_NOSIGNAL")])

prop("C09", "State shared between threads is only touched under its lock",
     "Every piece of library state that more than one thread can reach (queue of called watchers, DNS work queue with the request being executed and its results, thread start/stop handshake) is accessed only while holding the mutex that guards it or before or after the object is shared; the loop's stop flag is atomic.",
     ["schedules"], "for every access site and every thread interleaving",
     "Data races need specific interleavings; the unit tests are single threaded.",
     ["include/crab/network.hxx", "include/crab/network.hpp"], [("watcher queue", "include/crab/network.hxx RunLoopLinks::call_watcher, cancel_called_watcher, trigger_called_watchers"), ("DNS worker", "include/crab/network.hxx DNSWorker::worker_fun, DNSResolver::resolve, cancel"), ("thread wrapper", "include/crab/network.hxx Thread")])

prop("C10", "No deadlock: consistent lock order, no user code or waiting under a lock",
     "The library's mutexes are acquired in one consistent order and never twice by one thread, no user handler runs and no blocking system call or thread join happens while any of them is held, and every condition-variable wait re-checks its condition in a loop under the mutex its notifier holds when changing that condition.",
     ["schedules"], "for every call path that acquires a mutex, for every interleaving of loop, worker and user threads",
     "Deadlocks and lost notifications need exact interleavings.",
     ["include/crab/network.hxx"], [("lock sites", "include/crab/network.hxx Thread, DNSWorker, DNSResolver, RunLoopLinks")])

prop("C11", "Cross-thread wakeups and loop cancellation are never lost",
     "A watcher call or loop cancel issued from any thread, at any moment, is always noticed: the notification is recorded before the loop is woken, the loop re-arms its wakeup before it looks for recorded notifications, takes all of them, and checks the stop flag before every wait; a cancel issued before run() makes run() return at once.",
     ["schedules"], "for every interleaving of the notifying thread with every step of the loop",
     "A lost wakeup needs the notification to land between two adjacent operations.",
     NET, [("notify side", "include/crab/network.hxx Watcher::call, RunLoop::cancel, RunLoop::wakeup"), ("loop side", "include/crab/network_posix.hxx RunLoop constructor wake handler; include/crab/network.hxx trigger_called_watchers, RunLoop::run")])

prop("C12", "Thread wrapper: usable when constructed, stopped and joined when destroyed",
     "Constructing a Thread returns only after its run loop exists, cancel() at any later moment reaches that loop only while it exists and never touches it afterwards, and destruction cancels the loop and then joins the thread. The loop pointer is withdrawn before the loop is destroyed, also when the thread function throws.",
     ["schedules"], "for every interleaving of creator, canceller and the new thread",
     "Requires the thread to finish, or not to have started, at a precise instant.",
     ["include/crab/network.hxx", "include/crab/network.hpp"], [("thread wrapper", "include/crab/network.hxx Thread::Thread, cancel, ~Thread")])

prop("C13", "Loop dispatch: each queued event delivered once, idles only when nothing else",
     "The loop delivers each queued event exactly once, taking it off the queue before running its handler so that a handler may queue, cancel or destroy freely; ready timers and events go before idle handlers, an idle handler runs only when a poll found nothing else, idle handlers take turns, and the loop never sleeps while an idle handler is active.",
     ["histories", "schedules"], "for every set of queued events, timers and idles and every action of their handlers",
     "Needs handlers that change the queues while the loop walks them.",
     NET, [("dispatch", "include/crab/network.hxx RunLoop::run")])

prop("C14", "DNS resolution: answered at most once, never after cancel, never stuck",
     "A resolve request is answered by exactly one handler call unless it is cancelled, replaced or the resolver destroyed, after which it is never answered; the worker thread uses a resolver only while the request is neither cancelled nor answered, takes its parameters before releasing the lock, and always returns to serve the next request.",
     ["schedules"], "for every interleaving of resolve, cancel, destruction and the worker thread",
     "Depends on cancelling while the worker is in the middle of a lookup.",
     ["include/crab/network.hxx"], [("DNS worker", "include/crab/network.hxx DNSWorker::worker_fun"), ("resolver", "include/crab/network.hxx DNSResolver::resolve, cancel, on_handler")])

prop("C15", "HTTP header parsing accepts exactly the documented grammar",
     "The request and response header parsers are byte-driven automata that accept a header only after its terminating empty line, never store line breaks or raw control characters (other than a tab in a header value) in any method, path, status text, header name or header value (percent escapes in a path decode to their byte), accept methods and header names made of token characters only, and accept no HTTP major version above 1. Header bytes beyond the size limit are rejected before being stored.",
     ["inputs"], "for every byte sequence in every chunking",
     "Input space is infinite; tests sample a few headers.",
     ["include/crab/http/request_parser.hxx", "include/crab/http/response_parser.hxx"], [("request automaton", "include/crab/http/request_parser.hxx RequestParser::consume"), ("response automaton", "include/crab/http/response_parser.hxx ResponseParser::consume")])

prop("C16", "Message framing headers are interpreted strictly",
     "Contradictory or malformed framing headers are rejected, never guessed: content-length must be pure digits without overflow, a repeated content-length is rejected, chunked must be the last transfer coding and appear once and overrides any content-length, and for the client and server the same header lines get the same interpretation. Header names and coding/connection tokens compare case-insensitively.",
     ["inputs"], "for every header block",
     "Request smuggling needs unusual header combinations that tests do not sample.",
     ["include/crab/http/request_parser.hxx", "include/crab/http/response_parser.hxx"], [("ready header processing", "include/crab/http/request_parser.hxx, response_parser.hxx process_ready_header")])

prop("C17", "HTTP bodies end exactly where their framing says",
     "A body parser with a content length takes exactly that many bytes, one with chunked encoding takes exactly the sum of the chunk sizes and finishes only after the zero chunk and the blank line ending the trailer, and neither takes a byte of the next message. Chunk sizes are hexadecimal with at least one digit and are rejected on overflow, over-long chunk headers and trailers are rejected, and bad framing is reported as an error.",
     ["inputs"], "for every byte sequence, chunking and limit",
     "Boundary conditions (overflowing sizes, limits, splits across reads) are not sampled by tests.",
     ["include/crab/http/request_parser.hxx", "include/crab/http/request_parser.hpp"], [("body parser", "include/crab/http/request_parser.hxx BodyParser::parse, consume")])

prop("C18", "Written headers are well formed and read back with the same meaning",
     "A request or response header written by the library starts with a correct start line, contains every field the user set exactly once (host, date, server, content type, content length or chunked, connection, upgrade, authorization, accept key, custom headers) under the name the library's own parser reads it by, each line ends in CRLF, and the header ends with exactly one empty line.",
     ["inputs"], "for every combination of header fields",
     "The field combinations are exponential.",
     ["include/crab/http/types.hxx", "include/crab/http/types.hpp", "include/crab/http/request_parser.hxx", "include/crab/http/response_parser.hxx"], [("writers", "include/crab/http/types.hxx RequestHeader::to_string, ResponseHeader::to_string"), ("readers", "process_ready_header in request_parser.hxx, response_parser.hxx")])

prop("C19", "WebSocket frame headers are encoded and decoded by the same bit layout",
     "For every opcode, final flag, masking choice and payload length up to 2^63-1 the frame header written has the standard layout with the shortest length encoding and network byte order, and the reader recovers the same values from these bytes. The reader rejects reserved bits, undefined opcodes and a 64-bit length with the top bit set, and accepts continuation frames.",
     ["inputs"], "for every opcode, flag, mask and length, and every header byte sequence",
     "Length boundaries (125, 126, 65535, 65536, 2^63) and bit patterns are not sampled by tests.",
     ["include/crab/http/web_message_parser.hxx", "include/crab/http/web_message_parser.hpp"], [("writer", "include/crab/http/web_message_parser.hxx WebMessageHeaderSaver"), ("reader", "include/crab/http/web_message_parser.hxx WebMessageHeaderParser::consume")])

prop("C20", "Frames sent obey the role and control-frame rules",
     "A client masks every frame it sends with the key it announces, a server masks none; control frames are sent and accepted only as a single final frame with at most 125 bytes of payload, and a message's frames are sent as one first frame with its opcode, continuation frames after it and exactly one final frame.",
     ["inputs", "histories"], "for every message, streaming history and connection role",
     "Requires frame-level inspection of every write path.",
     HTTP + ["include/crab/http/web_message_parser.hxx"], [("frame writers", "include/crab/http/connection.hxx write(WebMessage), write(opcode), write(chunk), write_last_chunk"), ("control frame checks", "include/crab/http/web_message_parser.hxx")])

prop("C21", "WebSocket messages are reassembled from frames completely and in order",
     "A data message is delivered to the user exactly once, only after its final frame, with the opcode of its first frame and the payloads of its frames in order; continuation without a start and a new start inside a message are refused, control frames between fragments disturb nothing, pings are answered with the same payload, and a text message that is not valid UTF-8 is never delivered.",
     ["inputs", "histories"], "for every sequence of frames and every split of them into reads",
     "Interleavings of fragments and control frames are not tested.",
     HTTP, [("assembly", "include/crab/http/connection.hxx ClientConnection::advance_state, ServerConnection::advance_state")])

prop("C22", "Server responses are framed exactly as announced",
     "Whatever sequence of body writes the application makes, a response body has exactly the announced content length or is a well-formed sequence of non-empty chunks closed by one final chunk; writing more than announced is refused before any excess byte is sent. When the request asked for the connection to close, finishing the response by any means half-closes it, and otherwise the connection returns to reading the next request.",
     ["histories", "inputs"], "for every sequence of header, body and finishing calls, keep-alive setting and framing mode",
     "Each write overload has its own copy of the finishing logic; tests call none of them.",
     HTTP, [("response writers", "include/crab/http/connection.hxx ServerConnection::write overloads, write_last_chunk")],
     [("remaining_body_content_length", "announced length minus written", "include/crab/http/connection.hpp ServerConnection")])

prop("C23", "A reused connection object carries nothing over from its previous use",
     "After close, connect, accept or upgrade, an HTTP or buffered connection behaves like a new one: unread input, half-built requests, responses, frames or messages, pending output, shutdown requests, timers, and saved host or key data of the earlier peer never influence the next use.",
     ["histories"], "for every state in which the object is closed or reused",
     "Needs reuse after being interrupted in a particular intermediate state.",
     HTTP, [("reset points", "include/crab/http/connection.hxx ClientConnection::close, connect; ServerConnection::close, accept, web_socket_upgrade; BufferedTCPSocket::close")])

prop("C24", "Malformed peer input is contained",
     "No byte sequence from a peer makes an exception escape from an HTTP or WebSocket connection into the run loop: a parse failure discards the pending input, half-closes the connection, and delivers nothing further from it, and a server client that sent garbage does not affect other clients.",
     ["inputs"], "for every byte sequence from the peer in every connection state",
     "Needs malformed input in each of the protocol states.",
     HTTP + SRV, [("containment", "include/crab/http/connection.hxx advance_state catch blocks")])

prop("C25", "A client enters WebSocket mode only after a verified upgrade",
     "A client connection switches to WebSocket framing only when it asked for an upgrade, the response is a valid upgrade response without body, and its accept value matches the key of that very request; an upgrade response nobody asked for is refused, and a server switches only for a valid upgrade request, answering with the accept value computed from that request's key.",
     ["inputs"], "for every response header and every request history",
     "Adversarial responses are not tested.",
     HTTP + ["include/crab/http/types.hxx", "include/crab/http/response_parser.hxx"], [("verification", "include/crab/http/connection.hxx advance_state WEB_UPGRADE_RESPONSE_HEADER; ServerConnection::web_socket_upgrade")])

prop("C26", "Streams and buffers neither lose, duplicate nor reorder bytes",
     "Reading from or writing to any stream or buffer moves exactly the returned number of bytes, in order, never beyond the caller's range or the stored data, and the amount reported as remaining always changes by exactly that number; a ring buffer's wrap-around is invisible to the user.",
     ["inputs", "histories"], "for every sequence of operations and every partial transfer by the other side",
     "Partial transfers and wrap-around positions are not sampled.",
     ["include/crab/streams.hxx", "include/crab/streams.hpp"], [("buffer", "include/crab/streams.hxx Buffer"), ("memory/string/limited/combined streams", "include/crab/streams.hpp, streams.hxx")])

prop("C27", "Buffered socket: bytes leave in call order, accounting exact, clean shutdown",
     "Bytes handed to a buffered socket reach the socket in call order, each exactly once, and nothing new overtakes data still buffered; the reported buffered size equals the bytes accepted and not yet sent. After a shutdown request nothing more is accepted, the half-close is sent once after the last buffered byte, and a peer that never finishes is disconnected by a timeout.",
     ["histories", "fault_sequences"], "for every sequence of writes, buffer calls, partial sends and shutdowns",
     "Partial sends at particular positions are needed.",
     HTTP, [("buffered socket", "include/crab/http/connection.hxx BufferedTCPSocket")])

prop("C28", "Integer conversions are exact or throw",
     "integer_cast between integer types returns the mathematically equal value or throws, and so does integer_cast from a string: any sign mismatch, overflow, missing digit or trailing garbage throws. Parsing never wraps around silently, and checked addition reports overflow exactly when the true sum does not fit.",
     ["inputs"], "for every value of every supported source and target type, and every string",
     "The value space is far larger than the sampled boundaries.",
     ["include/crab/integer_cast.hpp"], [("conversions", "include/crab/integer_cast.hpp integer_cast, integer_parse, safe_add")])

prop("C29", "UTF-8, hex and base64 codecs accept exactly valid input and invert",
     "UTF-8 validation accepts exactly the well-formed sequences of the standard (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes). Hexadecimal and base64 decoders accept exactly their alphabets, and they and the URL decoder recover what the encoders produced.",
     ["inputs"], "for every byte string",
     "Tests check a few vectors.",
     ["include/crab/util.hxx", "include/crab/crypto/base64.hxx", "include/crab/http/query_parser.hxx"], [("utf-8", "include/crab/util.hxx is_valid_utf8"), ("hex", "include/crab/util.hxx from_hex, to_hex"), ("base64", "include/crab/crypto/base64.hxx")])

prop("C30", "Query, cookie and URI parsing keeps every pair separate",
     "In query strings every '&' ends a pair and only the first '=' of a pair separates key from value; percent escapes decode to their byte or stay as literal text when malformed, '+' means space, and no pair, wherever its escapes stand, is dropped, duplicated or merged with its neighbour. Cookie and URI parsing likewise keep all components.",
     ["inputs"], "for every string",
     "Malformed escapes next to separators are not sampled.",
     ["include/crab/http/query_parser.hxx"], [("automata", "include/crab/http/query_parser.hxx QueryParser, CookieParser, URIParser")])

prop("C31", "Intrusive containers keep their structure under any operation order",
     "For every sequence of insertions, removals and object destructions, the intrusive heap keeps its order and every element's stored position exact, an element can be in it only once, and the intrusive list keeps its links consistent, unlinking is idempotent, and destroying a linked element or list leaves no dangling links.",
     ["histories"], "for every sequence of operations",
     "Structural corruption needs particular shapes.",
     ["include/crab/intrusive_heap.hpp", "include/crab/intrusive_list.hpp"], [("heap", "include/crab/intrusive_heap.hpp IntrusiveHeap"), ("list", "include/crab/intrusive_list.hpp IntrusiveList, IntrusiveNode")])

prop("C32", "HTTP server: connection limit respected and disconnects reported once",
     "The HTTP server never holds more clients than its limit, resumes accepting whenever a slot becomes free, and when a client disconnects it calls each handler still waiting on that client exactly once, including a WebSocket close message if none was delivered, then forgets the client and never touches it again.",
     ["histories", "schedules"], "for every order of connects, disconnects and handlers",
     "Needs many clients connecting and leaving in particular orders.",
     SRV, [("server", "include/crab/http/server.hxx Server::accept_all, on_client_handler, on_client_disconnected")])

prop("C33", "HTTP server: a failing request handler is answered, not propagated",
     "An exception (derived from std::exception) thrown by a request handler never escapes into the run loop: if the response was not started the client gets an error response (401 with a challenge for authorization failures, 422 otherwise), and an exception from a WebSocket handler closes that WebSocket with an error code. The server continues with the same and other clients.",
     ["inputs", "programs"], "for every handler that throws, in every stage of its response",
     "The stages at which a handler throws are not tested.",
     SRV, [("containment", "include/crab/http/server.hxx Server::on_client_handle_request, on_client_handle_message")])

prop("C34", "TLS client connections verify the peer before carrying data",
     "A TLS connection verifies the server's certificate chain and host name before any application byte is exchanged and treats any verification failure as a disconnect.",
     ["inputs"], "for every certificate chain and host name", "Needs a TLS peer.",
     ["include/crab/http/crab_tls.hxx", "include/crab/http/crab_tls_certificates.hxx"], [("TLS socket", "include/crab/http/crab_tls.hxx TCPSocketTLS")])

prop("C35", "Digests, checksums and random numbers have the specified values",
     "For every message, however it is split into updates, MD5 is the digest of RFC 1321 and SHA-1 that of FIPS 180-4 (padding and 64-bit length included), and crc32() and crc32c() continue the reflected CRCs with polynomials EDB88320 and 82F63B78. "
     "A crab::Random made from a seed is PCG32 (XSH-RR) with stream seed*2+1 after two steps from state 0, and bytes() and data() write its outputs in order, four bytes little-endian per step, exactly as many as asked for.",
     ["inputs"], "for every message", "Only test vectors are sampled.",
     ["include/crab/crypto/md5.hxx", "include/crab/crypto/sha1.hxx", "include/crab/crypto/crc32.hxx", "include/crab/util.hxx"], [("digests", "include/crab/crypto"), ("generator", "include/crab/util.hxx Random")])

prop("C36", "End-to-end delivery and fairness under load",
     "Every message written on one side of a connection is eventually delivered on the other side while both run, and no client, timer or idle handler starves.",
     ["schedules", "histories"], "for every load", "Liveness cannot be sampled.",
     NET + HTTP, [("loop", "include/crab/network.hxx RunLoop::run")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
