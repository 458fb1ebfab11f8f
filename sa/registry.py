"""Which rule decides which property."""
import rules_net as N
import rules_thr as T
import rules_parse as HP
import rules_body as B
import rules_head as HD
import rules_ws as W
import rules_query as Q
import rules_int as I
import rules_codec as K
import rules_msg as MSG
import rules_conn as CN
import rules_sock as SK
import rules_stream as ST
import rules_srv as SV
import rules_intr as IN
import rules_reuse as RU
import rules_digest as DG

ABS = "abstract interpretation of the LLVM IR"
AUT = "automaton extraction by abstract interpretation of the LLVM IR and product with a specification automaton"
CG = "call-graph rules over the LLVM IR"
COMMON = ("The type-checked IR of the repository's single translation unit is interpreted abstractly (symbolic store, intervals, "
          "object lifetimes, contracts for libstdc++, libc and system calls); every obligation is a fact about every abstract path. ")


def c(func, technique, text):
    return dict(func=func, level="other", technique=technique, explanation=text)


CHECKS = {
    "C01": c(N.C01, ABS, COMMON + "From every internal callback that ends in a user handler, the handler call is a point at which the owning object "
             "may be freed; afterwards no load or store may touch its memory (typestate alive/destroyed). Covers all handler-owning classes but the HTTP server."),
    "C02": c(N.C02, CG, "Reachability over the resolved call graph (virtual calls and std::function targets included): no public method of the listed classes "
             "reaches an invocation of a user handler. Closed-world: only calls that user code itself can make are roots."),
    "C03": c(N.C03, ABS, COMMON + "After close(), cancel() and the destructors from every reachable typestate, the run loop's queues, timers, the kernel "
             "registration, the called-watcher list and the DNS queue hold nothing of the object."),
    "C04": c(N.C04, ABS, COMMON + "Timer set/cancel/run and the loop's wait are evaluated with symbolic times; ordering, clamping and the value passed to "
             "the kernel's wait are compared with the timers' earliest time. The heap itself is abstracted by its contract (decided by C31)."),
    "C05": c(N.C05, ABS, COMMON + "Readiness flags are compared with the system call result on every path of every I/O method, and with the event mask "
             "in the loop's dispatch; epoll_ctl arguments must be edge-triggered and match the directions used."),
    "C06": c(N.C06, ABS, COMMON + "Return value, arguments and descriptor/close-event state of TCP socket methods are compared with the kernel's symbolic result on every path."),
    "C07": c(N.C07, ABS, COMMON + "Each descriptor returned by the kernel is a linear resource; on every normal and throwing exit it has one owner or was closed once."),
    "C08": c(N.C08, ABS + "; " + CG, COMMON + "Typestate 'non-blocking' for descriptors, constant flags of sends, and call-graph absence of blocking calls from the loop thread."),
    "C09": c(T.C09, ABS, COMMON + "Lock-set of every access to memory shared between threads, including hand-over of ownership (executing request, called watchers)."),
    "C10": c(T.C10, ABS, COMMON + "Lock order, no user code / blocking / join while locked, waits in loops under the right mutex, changes notified."),
    "C11": c(T.C11, ABS, COMMON + "Order of record / wake / re-arm / look events on every path of Watcher::call, RunLoop::cancel, the wake-up callable and RunLoop::run."),
    "C12": c(T.C12, ABS, COMMON + "Order of publication, withdrawal, cancellation, join and destruction on every path of Thread's constructor, entry and destructor."),
    "C13": c(T.C13, ABS, COMMON + "Events of one loop iteration (timers, queue, idle, wait) in every abstract state of queue, idle list and stop flag."),
    "C14": c(T.C14, ABS, COMMON + "Event order and ownership of requests in resolver calls and worker iterations; other threads' interference is modelled at each lock release."),
    "C15": c(HP.C15, AUT, COMMON + "The step function of both parsers is extracted for every state and every byte class and compared, over the product, with an automaton "
             "written from the grammar (next state, stored text, errors, limits). Covers all byte sequences and chunkings."),
    "C16": c(HP.C16, AUT, COMMON + "All outcomes of committing a header line, for every recognised name, coding token list and prior framing state, are compared with a table "
             "written from the specification."),
    "C17": c(B.C17, AUT, COMMON + "parse() is interpreted one loop round at a time from every reachable pair of implementation and specification state: framing bytes one by one, "
             "body bytes as a block of symbolic size with a symbolic number outstanding. The size register is compared bit by bit; limits are decided on the cycles of "
             "the product automaton."),
    "C18": c(HD.C18, ABS + "; symbolic text pieces", COMMON + "to_string() of both headers is interpreted with unknown field contents; what is written is kept as a sequence of literals, whole "
             "fields and printed numbers, split at CRLF and compared with the lines the fields demand. All combinations of fields set and unset; up to 3 codings and 3 custom headers."),
    "C19": c(W.C19, ABS + "; bit-level provenance", COMMON + "The header writer is interpreted with symbolic opcode, length (three classes covering 0..2^63-1) and key; the reader byte by byte over "
             "every class of first, second and third byte. Every bit written and every bit of every field read is compared with the layout."),
    "C20": c(MSG.C20, ABS + "; bit-level provenance", COMMON + "Every public writer, timer and event of both connections is interpreted with symbolic opcode, text length and "
             "streaming state; what reaches the socket is decoded back into frames and run through the frame-sequence automaton, with masking and payload tracked as "
             "content. The frame reader is explored as for C19."),
    "C21": c(MSG.C21, ABS + "; inductive invariant", COMMON + "One round of the reading loop is interpreted from every phase, message in progress and frame kind, with the parsers cut off at "
             "parse() (decided by C19 and here for the payload parser); the message after the round must be the message before plus exactly the frame's payload."),
    "C22": c(CN.C22, ABS + "; symbolic text pieces", COMMON + "Every writer of a response (header, part as bytes or text, final chunk, whole response) is interpreted in every phase with "
             "symbolic announced length, outstanding length and part size; what reaches the socket, what is left outstanding and how the exchange ends are compared with "
             "the framing rules on every path. The outstanding length is the inductive invariant that ties one call to the next."),
    "C23": c(RU.C23, ABS + "; taint (non-interference) of object data", COMMON + "Every datum of the object gets a name of its own, close(), connect() or accept() is interpreted, and from each state reachable afterwards every public "
             "function, every event that can still arrive and every round of the reading loop is interpreted. A datum that still carries an earlier name may not decide "
             "a branch whose outcomes differ, be sent, looked up, returned or handed out, nor be what a parser goes on from; input left in the buffer may not be read; "
             "timers, the address lookup and the socket must have been given up. The buffered socket's queue, byte count, shutdown flags and timer are checked after "
             "every function and event that closes or reopens it."),
    "C24": c(CN.C24, ABS + "; exception-type hierarchy; phase/timer reachability", COMMON + "The exception types the parsers can throw are collected from every throw "
             "site reachable from them and must derive from std::exception. From every phase each event (socket, timers that can be set in that phase, reading functions) is "
             "interpreted with parsers that fail with each of these types: no exception may leave the connection, a failure must drop the input, half-close and deliver "
             "nothing, and no store may leave the connection object."),
    "C25": c(CN.C25, ABS, COMMON + "Requests and responses with each upgrade field right and wrong are taken through write(), the reading loop and read_next() from every phase; only the "
             "right combination may lead to WebSocket framing. Key, random bytes, digest and base64 are opaque functions of their inputs, so the accept value must be "
             "the very term built from the key that was sent."),
    "C26": c(ST.C26, ABS + "; linear arithmetic over path facts (Fourier-Motzkin); symbolic byte ranges", COMMON + "Every method of the circular buffer, of the memory, vector, string "
             "and combined streams and of the base classes is interpreted from every state (positions and sizes symbolic), with a partner that takes or gives all, part or "
             "nothing of each transfer (up to three transfers that move something). The bytes moved followed by what remains must be, range by range, what was there before; the "
             "number returned, the ranges offered to the partner, the accessors and every early end are proved from the inequalities of the path."),
    "C27": c(SK.C27, ABS + "; symbolic byte segments", COMMON + "Every public method and event handler of the buffered socket is interpreted for queues of up to three pieces "
             "(small and large, symbolic sizes), every shutdown phase, open and broken sockets; the socket underneath may take all, part or nothing of each write. What was sent "
             "followed by what is buffered must be, segment by segment, what was buffered followed by what was passed; the reported size must be the same linear term as the sum."),
    "C28": c(I.C28, ABS, "Every instantiation (8 target types, 8 source types, text of both overloads, checked addition and subtraction) is interpreted with symbolic "
             "arguments. Branch facts of each path become integer inequalities; a returned value must be provably equal to the mathematical one without wrap, and "
             "a throwing path must be provably without a representable value. Texts: all byte classes up to 4 bytes, all digit counts up to one more than the longest value."),
    "C29": c(K.C29, AUT + "; bit-level provenance of output bytes", COMMON + "The UTF-8 validator's loop is explored as the product with the automaton of RFC 3629 for "
             "texts of any length. The codecs are interpreted on symbolic texts of every length up to a bound (hex 4 bytes, base64 8, URL 4): every output byte is compared "
             "bit by bit with the specified function of the input, on every path; accepted texts are exactly the specified ones."),
    "C30": c(Q.C30, AUT, COMMON + "The step functions of the query, cookie and URI parsers (including the end of input and two-byte look-back of percent escapes) are "
             "extracted for every state and byte and compared with register automata: which bytes go to which key, value or component, when a pair is stored."),
    "C31": c(IN.c31, ABS + "; inductive step from every well-formed state of bounded size; type-level witnesses", "All members of both templates are instantiated for an element type and an ordering "
             "known only to be one. Heaps: from every heap of up to 20 elements (33 in the thorough tier), whose keys are known only through the heap order, every operation on every element "
             "must leave a heap of exactly the specified elements, with every stored position exact; orderings are decided by reachability over known comparisons. Lists: from every ring up "
             "to 5 elements, insertion, unlinking, walking and destruction. That linked objects cannot be copied or moved is read from the type system."),
    "C32": c(SV.c32, ABS + "; linear arithmetic over path facts (Fourier-Motzkin); typestate of removed clients", COMMON + "The server is interpreted from its constructor: the function it binds to the "
             "acceptor and the function it binds to each client, with any number of clients and any limit, a client in every phase with every combination of waiting handlers; "
             "user handlers return, throw, lose the connection, or first use each operation a client offers. Connections are cut off at ServerConnection (C20-C25)."),
    "C33": c(SV.c33, ABS, COMMON + "The same exploration of the server's event handlers as for C32: after each exception of a request or WebSocket handler, in every stage of its response, exactly the "
             "specified answer must be written and no exception may leave the handler, and reading must go on with what the client sent."),
    "C35": c(DG.C35, ABS + "; canonical bit-level value numbering against the published algorithms", COMMON + "Code and specification are evaluated in one value numbering whose normal forms "
             "(polynomials over GF(2) for logic, sums modulo 2^n for arithmetic) make equal names equal functions. Each compression function is compared for every chaining state and block; "
             "padding, length field and buffering for every fill of the buffer with a symbolic number of blocks before it and symbolic bytes; the checksums from a symbolic register for texts up to a bound "
             "(the loop carries only that register); the generator for every state, split by its rotation."),
}
NOT_APPLICABLE = {
    "C34": "TLS support is compiled out of this build (CRAB_TLS=0): there is no analysable code for it in the build the check must decide.",
    "C36": "End-to-end delivery and fairness are liveness claims over kernel scheduling and peers; nothing in the source bounds them.",
}
