"""Rules for the event loop and socket layer (C01-C14)."""
from absint import State, P, S, Exc, is_ptr, mask, sgn, add, evalt, leaves
from model import AnalysisError
import objects as O
import repo_models, callgraph
from fw import path_of, short

EAGAIN = 11
XFER_IN = ("recv", "recvmsg", "recvfrom", "read", "readv", "recvmmsg")
XFER_OUT = ("send", "sendmsg", "sendto", "write", "writev", "sendmmsg")
NEWFD = ("socket", "accept", "accept4", "epoll_create1", "epoll_create", "eventfd", "signalfd", "dup", "open", "socketpair", "pipe2",
         "timerfd_create")
TCP = "crab::TCPSocket"
CALLABLE = "crab::Callable"
# classes with user handlers that own kernel or loop resources
NETCLS = ("crab::TCPSocket", "crab::TCPAcceptor", "crab::UDPTransmitter", "crab::UDPReceiver", "crab::Signal")


def events(s, *kinds):
    return [e for e in s.trace() if e[0] in kinds]


def sysc(s, *names):
    return [e for e in s.trace() if e[0] == "sys" and (not names or e[2] in names)]


def where(prog, s, fn):
    t = [e for e in s.trace() if isinstance(e[1], dict) and e[1].get("l")]
    return prog.loc(t[-1][1]) if t else "%s:%d" % (prog.relfile(fn.file), fn.line)


def fwhere(prog, fn):
    return "%s:%d" % (prog.relfile(fn.file), fn.line)


def yes(E, s, pred, a, b, w=64):
    """is pred(a,b) certain in state s"""
    return E.decide(s, E.icmp(s, pred, a, b, w)) is True


def no(E, s, pred, a, b, w=64):
    return E.decide(s, E.icmp(s, pred, a, b, w)) is False


def fld(E, s, this, prog, cls, path, bool_=False):
    off, sz, t = prog.field(cls, path)
    v = E.load(s, P(this[1], this[2] + off), sz, "i%d" % (8 * sz))
    return v


def typed_offsets(prog, cls, tq, _t=None, _o=0, _p=""):
    """[(offset, path)] of every (nested) member of type tq inside class cls; std:: types are not entered"""
    t = prog.type(cls) if _t is None else _t
    out = []
    for (n, o, sz, ty) in prog.members(t):
        if ty is None:
            continue
        q = ty.get("q", "")
        p = (_p + "." if _p else "") + n
        if q == tq or (tq.endswith("*") and q.startswith(tq[:-1])):
            out.append((_o + o, p))
        elif ty.get("k") in ("class_type", "structure_type") and not q.startswith("std::"):
            out += typed_offsets(prog, cls, tq, ty, _o + o, p)
        elif ty.get("k") == "array_type":
            pass
    return out


def run_method(prog, E, fn, cls=None, this=None, st=None, args=None):
    cls = cls or fn.scope
    this = this or O.THIS
    st = O.proto_state(prog, cls, this) if st is None else st
    return E.run(fn, args or O.sym_args(prog, fn, this), st)


def flag(E, prog, s, this, off_callable, name):
    """value of Callable::<name>: True/False/None(unknown unchanged)"""
    off, sz, _ = prog.field(CALLABLE, name)
    p = P(this[1], this[2] + off_callable + off)
    v = E.load(s, p, 1, "i8")
    c = E.const_of(s, v)
    if c is not None:
        return bool(c & 1), v
    d = E.decide(s, E.icmp(s, "ne", v, 0, 8))
    return d, v


def the_callable(prog, cls):
    c = typed_offsets(prog, cls, CALLABLE)
    # the object's own event callable, not the ones nested in Timers
    if not c:
        raise AnalysisError("no Callable in %s" % cls)
    return c[0][0]


def the_fd(prog, cls):
    c = typed_offsets(prog, cls, "crab::details::FileDescriptor")
    if not c:
        raise AnalysisError("no FileDescriptor in %s" % cls)
    return c


def node_off(prog):
    return prog.foff(CALLABLE, "triggered_callables_node")


def ceval(c, s, x):
    return None


# ------------------------------------------------------------------ C06 / C05: byte transfer functions

def errno_of(E, s, ev):
    """(is EAGAIN?) of a failed system call event: True / False / None"""
    en = ev[6]
    return E.decide(s, E.icmp(s, "eq", en, EAGAIN, 32))


def fd_value(prog, cls, this, E, s, off):
    return E.load(s, P(this[1], this[2] + off), 4, "i32")


def tcp_transfers(prog):
    out = []
    for f in O.methods(prog, TCP):
        if f.base == "read_some":
            out.append((f, "in"))
        elif f.base == "write_some":
            out.append((f, "out"))
    # only the overloads that reach the kernel themselves
    return out


def closed_by(E, s, fdterm):
    """number of close() calls of that descriptor on the path"""
    return len([e for e in sysc(s, "close") if e[4] and e[4][0] == fdterm])


def C06(prog, rep):
    fns = tcp_transfers(prog)
    coff = the_callable(prog, TCP)
    node = P(O.THIS[1], coff + node_off(prog))
    n_xfer = 0
    for f, d in fns:
        E = O.engine(prog, buffers=True)
        E.exit_limit = 4000
        E.loop_limit = 400
        names = XFER_IN if d == "in" else XFER_OUT

        def at_sys(E_, st, fr, i, name, args, res, sign, f=f, d=d, names=names):
            if name in names and sign > 0:
                check_bufs(prog, rep, E_, st, f, d, ("sys", i, name, fr.fn, tuple(args), res), path_of(prog, st))
        E.sys_hook = at_sys
        r = run_method(prog, E, f, TCP)
        rep.engine(E, r)
        reached = False
        for k, v, s in r:
            w = where(prog, s, f)
            pth = path_of(prog, s)
            q = f.dm
            rep.ob("no exception escapes", k == "ret", q, w, "exception escapes from socket I/O", "exc", pth)
            if k != "ret":
                continue
            xf = sysc(s, *names)
            oth = sysc(s, *(XFER_OUT if d == "in" else XFER_IN))
            rep.ob("only the right direction", not oth, q, w, "transfers in the wrong direction", "dir", pth)
            pushes = [e for e in events(s, "list.push") if e[2][1] == node]
            if not xf:
                rep.ob("nothing transferred, nothing reported", E.const_of(s, v) == 0, q, w,
                       "returns a byte count without a kernel transfer", "zero", pth)
                rep.ob("no kernel transfer leaves the socket alone", not sysc(s, "close", "shutdown") and not pushes, q, w,
                       "closes or signals without having talked to the kernel", "quiet", pth)
                continue
            reached = True
            n_xfer += 1
            tot = 0
            for e in xf:
                fdv = e[4][0]
                rep.ob("I/O only on an open socket", E.decide(s, E.icmp(s, "sge", fdv, 0, 32)) is True, q, prog.loc(e[1]),
                       "kernel call on a possibly closed descriptor", "fd", pth)
                if e[5] != -1 and e[5] != mask(64):
                    tot = add(tot, e[5], 64)
            last = xf[-1]
            fdv = last[4][0]
            rep.ob("the kernel's count is returned", v == tot or E.const_of(s, v) is not None and E.const_of(s, v) == E.const_of(s, tot), q, w,
                   "returned %r, kernel transferred %r" % (v, tot), "count", pth)
            fail = last[5] == -1
            eof = d == "in" and not fail and E.const_of(s, last[5]) == 0
            ncl = closed_by(E, s, fdv)
            if fail:
                ea = errno_of(E, s, last)
                if ea is None:
                    rep.ob("would-block is told apart from errors", False, q, w, "error path does not depend on errno", "errno", pth)
                    continue
                dead = ea is False
            else:
                dead = eof
            if dead:
                why = "end of stream" if eof else "error"
                rep.ob("descriptor released on failure or end", ncl == 1, q, w, "%s: descriptor closed %d times" % (why, ncl), "release", pth)
                rep.ob("exactly one close event", len(pushes) == 1 and s.g.get(("in", node)) == 1, q, w,
                       "%s: %d close events queued" % (why, len(pushes)), "event", pth)
                rep.ob("failure reports zero bytes", E.const_of(s, v) == 0 or tot == v, q, w, "count after failure", "zero", pth)
                # afterwards the socket must be dead: the library's own read/write make no kernel call, is_open is still true
                io = prog.one(TCP + "::is_open")
                for k2, v2, s2 in O.engine(prog).run(io, [O.THIS], s.copy()):
                    rep.ob("close event still pending is visible as open", E.const_of(s2, v2) == 1, q, w, "is_open() is false before the close event",
                           "isopen", pth)
                for f2, d2 in fns:
                    E2 = O.engine(prog, buffers=True)
                    for k2, v2, s2 in E2.run(f2, O.sym_args(prog, f2, O.THIS, "a2"), s.copy()):
                        more = [e for e in s2.trace()[len(s.trace()):] if e[0] == "sys" and e[2] in XFER_IN + XFER_OUT]
                        rep.ob("no I/O after failure", not more, q, w, "%s still talks to the kernel after %s" % (f2.base, why), "dead", pth)
            else:
                rep.ob("success or would-block keeps the socket", ncl == 0 and not pushes, q, w, "socket closed or signalled without cause",
                       "keep", pth)
        if not reached and f.dm.count(",") >= 1 and "char*" in f.dm and "signed" in f.dm:
            rep.ob("transfer reaches the kernel", False, f.dm, fwhere(prog, f), "never calls the kernel", "reach")
    if n_xfer < 8:
        raise AnalysisError("C06: only %d transferring paths found" % n_xfer)
    # close(with_event)
    f = prog.one(TCP + "::close")
    E = O.engine(prog)
    fdo = the_fd(prog, TCP)[0][0]
    st = O.proto_state(prog, TCP)
    fd0 = fd_value(prog, TCP, O.THIS, E, st, fdo)
    we = S(("arg", 1), 1)
    r = E.run(f, [O.THIS, we] if f.args[1]["t"] == "i1" else O.sym_args(prog, f, O.THIS), st)
    rep.engine(E, r)
    for k, v, s in r:
        w, pth = where(prog, s, f), path_of(prog, s)
        pushes = [e for e in events(s, "list.push") if e[2][1] == node]
        was_fd = E.decide(s, E.icmp(s, "sge", fd0, 0, 32))
        ev = E.decide(s, E.icmp(s, "ne", we, 0, 1))
        rep.ob("close never throws", k == "ret", f.dm, w, "exception", "exc", pth)
        ncl = closed_by(E, s, fd0)
        if was_fd is True:
            rep.ob("close releases the descriptor", ncl == 1, f.dm, w, "closed %d times" % ncl, "release", pth)
        elif was_fd is False:
            rep.ob("close releases the descriptor", ncl == 0, f.dm, w, "closed %d times although already closed" % ncl, "release0", pth)
        fdn = fd_value(prog, TCP, O.THIS, E, s, fdo)
        rep.ob("closed socket owns no descriptor", E.decide(s, E.icmp(s, "slt", fdn, 0, 32)) is True, f.dm, w, "descriptor kept", "fd", pth)
        if was_fd is True and ev is True:
            rep.ob("close with event queues one event", len(pushes) == 1 and s.g.get(("in", node)) == 1, f.dm, w, "%d events" % len(pushes), "event", pth)
        if ev is False:
            rep.ob("plain close leaves no event", s.g.get(("in", node)) == 0, f.dm, w, "event still queued", "noevent", pth)
    rep.need("the kernel's count is returned", 8)
    rep.need("exactly one close event", 4)
    rep.need("caller's buffer and length passed on", 4)


def check_bufs(prog, rep, E, s, f, d, ev, pth):
    """the kernel was given the caller's buffers"""
    q, loc = f.dm, prog.loc(ev[1])
    a = ev[4]
    params = [x for x in f.args]
    cargs = [P(("*", ("arg", k)), 0) if x["t"] == "p" else S(("arg", k), int(x["t"][1:])) for k, x in enumerate(params)]
    pairs = []
    k = 1
    while k + 1 < len(params) and params[k]["t"] == "p" and params[k + 1]["t"] == "i64":
        pairs.append((cargs[k], cargs[k + 1]))
        k += 2
    if not pairs:
        return
    if ev[2] in ("recv", "send", "recvfrom", "sendto", "read", "write"):
        ok = (a[1], a[2]) in pairs
        rep.ob("caller's buffer and length passed on", ok, q, loc, "kernel gets %r" % (a[1:3],), "buf", pth)
        return
    m = a[1]
    if not is_ptr(m):
        return
    iov = E.load(s, P(m[1], m[2] + 16), 8, "p")
    n = E.const_of(s, E.load(s, P(m[1], m[2] + 24), 8, "i64"))
    if n is None or not is_ptr(iov):
        rep.ob("caller's buffer and length passed on", False, q, loc, "vector length unknown", "buf", pth)
        return
    want = [(p, c) for p, c in pairs if E.decide(s, E.icmp(s, "ne", c, 0, 64)) is not False]
    got = []
    for j in range(n):
        got.append((E.load(s, P(iov[1], iov[2] + 16 * j), 8, "p"), E.load(s, P(iov[1], iov[2] + 16 * j + 8), 8, "i64")))
    sub = any(got == want[j:j + len(got)] for j in range(len(want) + 1)) and (got or not want)
    rep.ob("caller's buffer and length passed on", sub, q, loc, "kernel gets %r, caller gave %r" % (got, want), "buf", pth)


# ------------------------------------------------------------------ C01: destruction from inside the handler

OWNERS = ("crab::Timer", "crab::Watcher", "crab::Idle", "crab::Signal", "crab::TCPSocket", "crab::TCPAcceptor", "crab::UDPTransmitter",
          "crab::UDPReceiver", "crab::DNSResolver", "crab::BufferedTCPSocket", "crab::http::ClientConnection", "crab::http::ServerConnection",
          "crab::http::ClientRequestSimple")
LOOP = "crab::RunLoop"


def coarse(E, n=3):
    """few states per program point: for rules that do not depend on data"""
    E.exit_limit, E.loop_limit, E.merge_limit, E.gsys = n, n, n, False
    E.gc_ghosts = ("in", "ne", "fr", "timer")


def set_current(prog, E, st, ptr):
    """RunLoop::current() is ptr"""
    f = prog.one(LOOP + "::current")
    got = []
    E2 = O.engine(prog)
    E2.mem_hook = lambda E_, s, fr, i, p, size, store, v: got.append(p) if not store and p[1][0] == "glob" else None
    E2.run(f, [], State())
    if not got:
        raise AnalysisError("RunLoop::current() does not read a variable")
    E.store(st, got[-1], 8, ptr)
    return st


def step_border(prog, E):
    """RunLoop::step: waits, queues any events, changes anything in the loop but runs no handler (decided in C03)"""
    def m(E2, st, fr, i, args, fn):
        E2.emit_ev(st, fr, i, "step", args[0], args[1:], None)
        st.log(("step", i, args[1] if len(args) > 1 else None, fr.fn))
        repo_models.forget_lists(st)
        E2.store_havoc(st, args[0], prog.type(LOOP)["sz"])
        s2 = st.copy()
        return [("ret", None, st), ("exc", Exc("std::runtime_error", P(("exo", "std::runtime_error"), 0)), s2)]
    prog.one(LOOP + "::step")
    E.models[LOOP + "::step"] = m


def deep_callbacks(prog, cls):
    try:
        return O.callbacks(prog, cls)
    except AnalysisError:
        return []


def C01(prog, rep):
    def watch(E, entry, owner=None):
        bad = {}

        def user(E_, st, fr, i, fp, args):
            dead = set()
            if owner is not None:
                dead.add(owner)
            if is_ptr(fp) and fp[1][0] == "*":
                dead.add(fp[1])
            st.g[("dead",)] = tuple(sorted(dead, key=repr))
            rep.count("handler invocations")
            top = [x for x in E_.stack if prog.in_repo(x)][-1]
            E.inv.add((fwhere(prog, top), top.dm, repr(fp)))
            E_.havoc_world(st)
            out = [("ret", E_.topt(st, fr, i), st)]
            return out

        def hit(st, fr, i, p, what):
            d = st.g.get(("dead",))
            if d and is_ptr(p) and p[1] in d:
                rep.ob("object not used after its handler ran", False, entry.dm, prog.loc(i), "%s of the object after its handler returned (in %s)"
                       % (what, fr.fn.dm), "%s" % fr.fn.qual, path_of(prog, st))
                E.hits += 1

        def mem(E_, st, fr, i, p, size, store, v):
            hit(st, fr, i, p, "write" if store else "read")

        def model(E_, st, fr, i, fn, args):
            for a in args:
                hit(st, fr, i, a, "call of %s" % fn.qual)
        E.user_hook, E.mem_hook, E.model_hook = user, mem, model
        E.taken, E.inv, E.hits, E.root_this = set(), set(), 0, O.THIS[1]
        return E

    def done(E, entry, r):
        rep.engine(E, r)
        if E.inv and not E.hits:
            for loc, f, _ in sorted(E.inv):
                rep.ob("object not used after its handler ran", True, entry.dm, loc)
                rep.sample("%s -> handler invoked at %s" % (entry.dm, loc))
        return len(E.inv)

    # objects: every internal callback bound in the object
    for cls in OWNERS:
        for name, off, inv in deep_callbacks(prog, cls):
            E = watch(O.engine(prog, buffers=True), inv, O.THIS[1])
            repo_models.class_envelope(E, ("crab::TCPSocket", "crab::BufferedTCPSocket", "crab::DNSResolver", "crab::TCPAcceptor") + repo_models.STREAMS)
            coarse(E)
            r = O.run_callback(prog, E, cls, off, inv)
            done(E, inv, r)
            rep.count("callbacks analysed")
    # the loop: handlers installed in callables, timers and idles
    for name in ("run",):
        f = prog.one(LOOP + "::" + name)
        E = watch(O.engine(prog, timers=False), f, None)
        coarse(E)
        step_border(prog, E)
        r = run_method(prog, E, f, LOOP, st=set_current(prog, E, O.proto_state(prog, LOOP), O.THIS))
        n = done(E, f, r)
        if n < 3:
            raise AnalysisError("RunLoop::%s: only %d handler invocations found" % (name, n))
    rep.need("object not used after its handler ran", 8)


# ------------------------------------------------------------------ C02: no handler runs inside a call made by the user

def public_entries(prog, cls):
    base = cls.rsplit("::", 1)[1]
    return sorted((f for f in prog.fn.values() if f.bb is not None and f.scope == cls and (f.acc == 3 or f.base == "~" + base)), key=lambda f: f.name)


def C02(prog, rep):
    g = callgraph.CallGraph(prog)
    for cls in OWNERS:
        fs = public_entries(prog, cls)
        if len(fs) < 3:
            raise AnalysisError("C02: %s has only %d public functions" % (cls, len(fs)))
        for f in fs:
            par = g.reach([f], stop=callgraph.is_function_call)
            rep.fns |= set(par)
            hit = [n for n in par if callgraph.is_function_call(prog.fn[n])]
            site = None
            if hit:
                caller, i = par[hit[0]]
                site = prog.loc(i)
            rep.ob("public call reaches no handler invocation", not hit, f.dm, site or fwhere(prog, f),
                   "a std::function is invoked inside the call: %s" % (" ; ".join(g.path(par, hit[0])[-3:]) if hit else ""),
                   hit and par[hit[0]][0].qual or "", g.path(par, hit[0]) if hit else None)
    rep.count("functions reached", len(rep.fns))
    # the sink is recognised: the loop itself does run handlers
    par = g.reach([prog.one(LOOP + "::run")], stop=callgraph.is_function_call)
    if sum(1 for n in par if callgraph.is_function_call(prog.fn[n])) < 1:
        raise AnalysisError("C02: RunLoop::run reaches no handler invocation")
    cb = 0
    for cls in OWNERS:
        for name, off, inv in deep_callbacks(prog, cls):
            par = g.reach([inv], stop=callgraph.is_function_call)
            cb += any(callgraph.is_function_call(prog.fn[n]) for n in par)
    if cb < 5:
        raise AnalysisError("C02: internal callbacks no longer reach user handlers (%d)" % cb)
    rep.need("public call reaches no handler invocation", 120)


# ------------------------------------------------------------------ C03: nothing left behind after close, cancel, destruction

FD = "crab::details::FileDescriptor"
DNS = "crab::DNSResolver"
NODE = "crab::IntrusiveNode<"


def owned(prog, cls):
    """(kind, offset, path) of everything inside an object of class cls that can make a handler of it run"""
    out = []
    for o, p in typed_offsets(prog, cls, NODE + "*"):
        out.append(("node", o, p))
    for o, p in typed_offsets(prog, cls, "crab::Timer"):
        out.append(("timer", o, p))
    for o, p in typed_offsets(prog, cls, FD):
        out.append(("fd", o, p))
    if cls == "crab::Timer":
        out.append(("node", prog.foff(cls, "heap_index"), "heap_index"))
    # timers contribute through ("timer", ..) only
    tm = [(o, o + prog.type("crab::Timer")["sz"]) for k, o, p in out if k == "timer"]
    return [x for x in out if x[0] == "timer" or not any(a <= x[1] < b for a, b in tm)]


def resolver_bases(prog, cls):
    if cls == DNS:
        return [0]
    return [o for o, p in typed_offsets(prog, cls, DNS)]


def closed_resolver_split(prog, E, st, this, cls):
    """entry states: a resolver that is not resolving has nothing queued (its own methods re-establish this)"""
    sts = [st]
    for b in resolver_bases(prog, cls):
        nxt = []
        for s in sts:
            for k, v, s2 in E.run(prog.one(DNS + "::is_open"), [P(this[1], this[2] + b)], s):
                c = E.const_of(s2, v)
                if c is None:
                    for truth in (True, False):
                        s3 = s2.copy()
                        if E.assume(s3, E.icmp(s3, "ne", v, 0, 1), truth):
                            nxt.append((s3, truth))
                else:
                    nxt.append((s2, bool(c & 1)))
        sts = []
        for s, op in nxt:
            if not op:
                for o, p in typed_offsets(prog, DNS, NODE + "*"):
                    s.g[("in", P(this[1], this[2] + b + o))] = 0
                s.g[("idle-resolver", P(this[1], this[2] + b))] = 1
            sts.append(s)
    return sts


def quiet_obligations(prog, rep, E, s, this, cls, f, fds, what, dtor, skip=()):
    w, pth = where(prog, s, f), path_of(prog, s)
    for kind, off, p in owned(prog, cls):
        ptr = P(this[1], this[2] + off)
        if kind == "node":
            rep.ob("nothing of the object stays queued", s.g.get(("in", ptr)) == 0, f.dm, w, "%s may still be queued after %s" % (p, what), p, pth)
        elif kind == "timer":
            rep.ob("no timer of the object stays set", s.g.get(("timer", ptr)) == 0, f.dm, w, "%s may still be set after %s" % (p, what), p, pth)
        elif kind == "fd":
            f0 = fds[off]
            was = E.decide(s, E.icmp(s, "sge", f0, 0, 32))
            n = closed_by(E, s, f0)
            if was is not False:
                rep.ob("descriptor closed, so no readiness can be reported", n == 1, f.dm, w, "%s: closed %d times after %s" % (p, n, what), p, pth)
            if not dtor:
                v = fd_value(prog, cls, this, E, s, off)
                rep.ob("descriptor closed, so no readiness can be reported", E.decide(s, E.icmp(s, "slt", v, 0, 32)) is True, f.dm, w,
                       "%s still holds a descriptor after %s" % (p, what), p + "#", pth)


def all_fds(prog, E, st, this, cls):
    return {o: fd_value(prog, cls, this, E, st, o) for o, p in typed_offsets(prog, cls, FD)}


def worker(prog, E, st):
    """address of the DNS worker and offset of its current request"""
    f = prog.one("crab::details::DNSWorker::get_instance")
    for k, v, s in E.run(f, [], st.copy()):
        if k == "ret" and is_ptr(v):
            return v
    raise AnalysisError("DNSWorker::get_instance returns no object")


OTHER = P(("*", ("other resolver",)), 0)


def request_of(prog, E, s):
    wp = worker(prog, E, s)
    eo = prog.foff("crab::details::DNSWorker", "executing_request")
    return E.load(s, P(wp[1], wp[2] + eo), 8, "p")


def split_request(prog, E, s, this, cls):
    """entry states: the worker executes this object's request, another's, or none"""
    bs = resolver_bases(prog, cls)
    if not bs:
        return [s]
    me = P(this[1], this[2] + bs[0])
    out = []
    for v in ((me, OTHER, 0) if s.g.get(("idle-resolver", me)) != 1 else (OTHER, 0)):
        s2 = s.copy()
        wp = worker(prog, E, s2)
        E.store(s2, P(wp[1], wp[2] + prog.foff("crab::details::DNSWorker", "executing_request")), 8, v)
        s2.g[("request",)] = v
        out.append(s2)
    return out


def C03(prog, rep):
    off = S(("arg", "off"), 1)
    STOPPERS = [("crab::Timer", "cancel"), ("crab::Watcher", "cancel"), ("crab::Idle", "set_active"), ("crab::TCPSocket", "close"),
                (DNS, "cancel"), ("crab::BufferedTCPSocket", "close"), ("crab::http::ClientConnection", "close"),
                ("crab::http::ServerConnection", "close")]
    DTORS = ("crab::Timer", "crab::Watcher", "crab::Idle", "crab::Signal", "crab::TCPSocket", "crab::TCPAcceptor", "crab::UDPTransmitter",
             "crab::UDPReceiver", DNS, "crab::BufferedTCPSocket", "crab::http::ClientConnection", "crab::http::ServerConnection")
    jobs = []
    for cls, m in STOPPERS:
        for f in prog.find(cls + "::" + m):
            jobs.append((cls, f, False))
    for cls in DTORS:
        jobs.append((cls, None, True))
    for cls, f, isd in jobs:
        E = O.engine(prog, timers=cls != "crab::Timer")
        E.exit_limit = 200
        E.apart = {O.THIS[1], OTHER[1]}
        st = O.proto_state(prog, cls)
        fds = all_fds(prog, E, st, O.THIS, cls)
        for s0 in [x for y in closed_resolver_split(prog, E, st, O.THIS, cls) for x in split_request(prog, E, y, O.THIS, cls)]:
            if isd:
                d = member_dtor(prog, cls)
                if d is None:
                    # trivial or inlined destructor: the members' own destructors
                    rep.ob("nothing of the object stays queued", True, cls, "", "", "")
                    continue
                r = E.run(d, [O.THIS], s0)
                fn = d
            else:
                fn = f
                args = O.sym_args(prog, f, O.THIS)
                for k, a in enumerate(f.args):
                    if k and a["t"] in ("i1", "i8"):
                        args[k] = 0        # close(false), set_active(false)
                r = E.run(f, args, s0)
            rep.engine(E, r)
            for k, v, s in r:
                what = "destruction" if isd else fn.base + "()"
                rep.ob("closing never throws", k == "ret", fn.dm, where(prog, s, fn), "exception escapes", "exc", path_of(prog, s))
                if k != "ret":
                    continue
                quiet_obligations(prog, rep, E, s, O.THIS, cls, fn, fds, what, isd)
                for b in resolver_bases(prog, cls):
                    me = P(O.THIS[1], O.THIS[2] + b)
                    if not isd:
                        for k2, v2, s2 in E.run(prog.one(DNS + "::is_open"), [me], s.copy()):
                            rep.ob("cancelled resolver is not resolving", E.const_of(s2, v2) == 0, fn.dm, where(prog, s, fn), "is_open() after " + what,
                                   "resolving", path_of(prog, s))
                    if s.g.get(("idle-resolver", me)) == 1:
                        continue
                    ex = request_of(prog, E, s)
                    was = s.g.get(("request",))
                    rep.ob("worker forgets a cancelled request", ex != me, fn.dm, where(prog, s, fn),
                           "the worker may still execute the request after " + what, "exec", path_of(prog, s))
                    if was == OTHER:
                        rep.ob("cancelling leaves other requests alone", ex == OTHER, fn.dm, where(prog, s, fn),
                               "the request of another resolver is dropped by " + what, "other", path_of(prog, s))
    # a resolver that is not resolving has nothing queued: established by every public method
    for f in O.methods(prog, DNS):
        if f.base.startswith("sync_") or f.ret == "void" and False:
            continue
        if not f.args or f.args[0]["t"] != "p" or f.base in ("is_open",):
            continue
        E = O.engine(prog)
        for s0 in closed_resolver_split(prog, E, O.proto_state(prog, DNS), O.THIS, DNS):
            for k, v, s in E.run(f, O.sym_args(prog, f, O.THIS), s0):
                for k2, v2, s2 in E.run(prog.one(DNS + "::is_open"), [O.THIS], s.copy()):
                    if E.decide(s2, E.icmp(s2, "ne", v2, 0, 1)) is not True:
                        for o, p in typed_offsets(prog, DNS, NODE + "*"):
                            rep.ob("resolver not open has nothing queued", s2.g.get(("in", P(O.THIS[1], o))) == 0, f.dm, where(prog, s, f),
                                   "%s may be queued although is_open() is false" % p, p, path_of(prog, s))
            rep.engine(E)
    # failed connect: nothing will be delivered
    for cls in (TCP,):
        for f in prog.find(cls + "::connect"):
            E = O.engine(prog)
            E.exit_limit = 400
            r = run_method(prog, E, f, cls)
            rep.engine(E, r)
            node = P(O.THIS[1], the_callable(prog, cls) + node_off(prog))
            seen = 0
            for k, v, s in r:
                if k == "ret" and E.const_of(s, v) == 0:
                    seen += 1
                    rep.ob("failed connect leaves the socket closed", s.g.get(("in", node)) == 0, f.dm, where(prog, s, f),
                           "an event stays queued although connect() failed", "connect", path_of(prog, s))
            if not seen:
                raise AnalysisError("connect never fails")
    # the step that collects kernel events runs no handlers, so no collected event can refer to a destroyed object
    g = callgraph.CallGraph(prog)
    st = prog.one(LOOP + "::step")
    par = g.reach([st], stop=callgraph.is_function_call)
    hit = [n for n in par if callgraph.is_function_call(prog.fn[n])]
    rep.ob("no handler runs while kernel events are being collected", not hit, st.dm, fwhere(prog, st),
           "handler invoked while later events of the batch may refer to objects it destroys", "step", g.path(par, hit[0]) if hit else None)
    rep.need("nothing of the object stays queued", 25)
    rep.need("descriptor closed, so no readiness can be reported", 12)
    rep.need("no timer of the object stays set", 6)
    rep.need("worker forgets a cancelled request", 6)


def member_dtor(prog, cls):
    base = cls.rsplit("::", 1)[1]
    fs = [f for f in prog.by_qual.get(cls + "::~" + base, ()) if f.bb is not None]
    d2 = [f for f in fs if f.name.endswith("D2Ev")]
    d1 = [f for f in fs if f.name.endswith("D1Ev")]
    return (d2 or d1 or [None])[0]


# ------------------------------------------------------------------ C04: timers

TIMER = "crab::Timer"
LOOPP = P(("*", ("loop",)), 0)
NOWS = S(("now",), 64)
I64MAX = (1 << 63) - 1


def clock_cell(prog):
    """offset of the loop clock in RunLoop: what RunLoop::now() reads"""
    f = prog.one(LOOP + "::now")
    got = []
    E = O.engine(prog)
    E.mem_hook = lambda E_, s, fr, i, p, size, store, v: got.append(p[2]) if not store and is_ptr(p) and p[1] == O.THIS[1] else None
    E.run(f, [O.THIS], State())
    if not got:
        raise AnalysisError("RunLoop::now() reads nothing")
    return got[-1]


def one_timer_heap(E, T, hoff):
    """the heap of timers holds T or nothing"""
    node = P(T[1], T[2] + hoff)

    def isin(st):
        return st.g.get(("in", node))

    def ins(E2, st, fr, i, args, fn):
        E2.emit_ev(st, fr, i, "heap.insert", args[0], args[1], isin(st))
        was = isin(st)
        st.g[("in", node)] = 1
        return 1 - was

    def era(E2, st, fr, i, args, fn):
        was = isin(st)
        st.g[("in", node)] = 0
        return was

    def front(E2, st, fr, i, args, fn):
        return T

    def pop(E2, st, fr, i, args, fn):
        st.g[("in", node)] = 0
        return None

    def empty(E2, st, fr, i, args, fn):
        return 1 - isin(st)
    for name, m in (("insert", ins), ("erase", era), ("front", front), ("pop_front", pop), ("empty", empty)):
        def ok(q, dm, name=name):
            return q.startswith("crab::IntrusiveHeap<") and q.endswith("::" + name)
        E.pats.insert(0, (ok, m))
    return node


def timer_engine(prog):
    E = O.engine(prog, timers=False)
    E.exit_limit, E.loop_limit = 400, 400
    hoff = prog.foff(TIMER, "heap_index")
    T = O.THIS
    node = one_timer_heap(E, T, hoff)
    E.apart = {T[1], LOOPP[1], ("*", ("timeout",))}
    return E, T, node


def loop_state(prog, E, st, now=NOWS):
    set_current(prog, E, st, LOOPP)
    E.store(st, P(LOOPP[1], clock_cell(prog)), 8, now)
    return st


def C04(prog, rep):
    once_at = prog.one(TIMER + "::once_at")
    pt = prog.one("crab::details::RunLoopLinks::process_timer")
    loff = prog.foff(LOOP, "links")
    maxms = prog.enum_value(LOOP, "MAX_SLEEP_MS")
    TP = S(("arg", 1), 64)
    # 1. the key of the timer queue: what the heap order compares
    hp = [f for f in prog.fn.values() if f.bb is not None and f.qual.startswith(TIMER + "::HeapPred") and f.base == "operator()"]
    if len(hp) != 1:
        raise AnalysisError("heap order of timers not found")
    keys = set()
    E = O.engine(prog)
    A, B = P(("*", ("a",)), 0), P(("*", ("b",)), 0)
    E.mem_hook = lambda E_, s, fr, i, p, size, store, v: keys.add(p[2]) if not store and is_ptr(p) and p[1] in (A[1], B[1]) else None
    hres = E.run(hp[0], [O.THIS, A, B], State())
    rep.engine(E, hres)
    inv = timer_invariants(prog, once_at, TP)
    rep.sample("invariants of a set timer found: %s" % ["+%d >= +%d" % x for x in sorted(inv)])
    # 2. set, then let the loop look at it: from every state of the timer
    for start in (0, 1):
        E, T, node = timer_engine(prog)
        st = loop_state(prog, E, State())
        st.g[("in", node)] = start
        if start:
            assume_inv(E, st, T, inv)
        stores = []

        def mem(E_, s, fr, i, p, size, store, v):
            if store and is_ptr(p) and p[1] == T[1] and any(p[2] <= k < p[2] + size for k in keys):
                rep.ob("queue key never changes while queued", s.g.get(("in", node)) == 0, fr.fn.dm, prog.loc(i),
                       "the key the timer queue is ordered by is written while the timer is in the queue", fr.fn.qual, path_of(prog, s))
        E.mem_hook = mem
        r1 = E.run(once_at, [T, TP], st)
        rep.engine(E, r1)
        for k1, v1, s1 in r1:
            rep.ob("setting never throws", k1 == "ret", once_at.dm, where(prog, s1, once_at), "exception", "exc", path_of(prog, s1))
            if k1 != "ret":
                continue
            rep.ob("a timer that was set is set", s1.g.get(("in", node)) == 1, once_at.dm, where(prog, s1, once_at), "not in the queue afterwards",
                   "set%d" % start, path_of(prog, s1))
            for k2, v2, s2 in E.run(prog.one(TIMER + "::is_set"), [T], s1.copy()):
                rep.ob("is_set tells the truth", E.const_of(s2, v2) == 1, once_at.dm, where(prog, s1, once_at), "is_set() is false", "isset", path_of(prog, s1))
            if s1.g.get(("in", node)) != 1:
                continue
            calls = []

            def user(E_, s, fr, i, fp, args):
                calls.append(1)
                pth = path_of(prog, s)
                rep.ob("handler runs only at or after the time set", E_.decide(s, E_.icmp(s, "sle", TP, NOWS, 64)) is True, pt.dm, prog.loc(i),
                       "handler runs although the latest set time may be in the future", "early%d" % start, pth)
                rep.ob("timer is no longer set while its handler runs", s.g.get(("in", node)) == 0, pt.dm, prog.loc(i), "still queued", "popped", pth)
                rep.ob("handler runs once", not s.g.get(("ran",)), pt.dm, prog.loc(i), "handler runs twice for one setting", "twice", pth)
                s.g[("ran",)] = 1
                return [("ret", None, s)]
            E.user_hook = user
            tmo = P(("*", ("timeout",)), 0)
            s1 = s1.copy()
            E.store(s1, tmo, 4, S(("t0",), 32))
            r2 = E.run(pt, [P(LOOPP[1], LOOPP[2] + loff), tmo], s1)
            rep.engine(E, r2)
            E.user_hook = None
            for k2, v2, s2 in r2:
                pth, w = path_of(prog, s2), where(prog, s2, pt)
                if k2 != "ret":
                    if "bad_function_call" in str(v2.tname) and not s2.g.get(("ran",)):
                        continue        # a timer without a handler
                    rep.ob("looking at timers never throws", False, pt.dm, w, "exception %r" % (v2,), "exc", pth)
                    continue
                if s2.g.get(("ran",)):
                    rep.ob("loop learns that a handler ran", E.const_of(s2, v2) == 1, pt.dm, w, "returns false", "ran", pth)
                    continue
                rep.ob("no handler ran, so nothing is reported", E.const_of(s2, v2) == 0, pt.dm, w, "returns true", "notran", pth)
                rep.ob("a due timer is run", E.decide(s2, E.icmp(s2, "sgt", TP, NOWS, 64)) is True, pt.dm, w,
                       "handler does not run although the time set may have come", "due%d" % start, pth)
                rep.ob("a timer that did not fire stays set", s2.g.get(("in", node)) == 1, pt.dm, w, "lost", "lost%d" % start, pth)
                t = E.load(s2, tmo, 4, "i32")
                if t == S(("t0",), 32):
                    far = add(NOWS, maxms * 1000000, 64)
                    rep.ob("loop sleeps no longer than until the earliest timer", E.decide(s2, E.icmp(s2, "sge", TP, far, 64)) is True, pt.dm, w,
                           "sleeping time not shortened although the timer is due sooner", "sleep%d" % start, pth)
                else:
                    ok, why = sleep_ok(E, prog, t, TP, maxms)
                    rep.ob("loop sleeps no longer than until the earliest timer", ok, pt.dm, w, why, "term%d" % start, pth)
    # 3. order of the queue: earliest first
    kt = {}
    E, T, node = timer_engine(prog)
    st = loop_state(prog, E, State())
    st.g[("in", node)] = 0
    for nm, obj in (("a", A), ("b", B)):
        E2 = O.engine(prog, timers=False)
        E2.apart = {A[1], B[1], LOOPP[1]}
        n2 = one_timer_heap(E2, obj, prog.foff(TIMER, "heap_index"))
        st.g[("in", n2)] = 0
        r = E2.run(once_at, [obj, S((nm, "time"), 64)], st)
        if len(r) != 1:
            raise AnalysisError("once_at on an unset timer has %d outcomes" % len(r))
        st = r[0][2]
    ta, tb = S(("a", "time"), 64), S(("b", "time"), 64)
    E = O.engine(prog)
    for truth in (True, False):
        s = st.copy()
        E.assume(s, E.icmp(s, "sgt", ta, tb, 64), truth)
        for k, v, s2 in E.run(hp[0], [O.THIS, A, B], s):
            c = E.decide(s2, E.icmp(s2, "ne", v, 0, 1))
            rep.ob("queue order is earliest time first", k == "ret" and c is truth, hp[0].dm, fwhere(prog, hp[0]),
                   "later-than test says %s when a is %s b" % (c, "later than" if truth else "not later than"), "order%s" % truth, path_of(prog, s2))
    # 4. relative delays: clamped, never overflowing
    for f in prog.find(TIMER + "::once"):
        if f.args[1]["t"] == "i64":
            delay_int(prog, rep, f)
        else:
            delay_float(prog, rep, f)
    # 5. the loop's own use
    run = prog.one(LOOP + "::run")
    loop_timers(prog, rep, run, pt, maxms)
    step = prog.one(LOOP + "::step")
    E = O.engine(prog)
    coarse(E)
    seen = []

    def sysh(E_, s, fr, i, name, args, res, sign):
        if name.startswith("epoll_"):
            seen.append(1)
            rep.ob("wait lasts as long as asked", args[3] == S(("arg", 1), 32), step.dm, prog.loc(i), "waits for %r" % (args[3],), "wait", path_of(prog, s))
    E.sys_hook = sysh
    r = E.run(step, [O.THIS, S(("arg", 1), 32)], set_current(prog, E, O.proto_state(prog, LOOP), O.THIS))
    rep.engine(E, r)
    if not seen:
        raise AnalysisError("RunLoop::step does not wait")
    rep.need("handler runs only at or after the time set", 2)
    rep.need("a due timer is run", 2)
    rep.need("loop sleeps no longer than until the earliest timer", 3)
    rep.need("queue key never changes while queued", 1)
    rep.need("delay is clamped", 6)
    rep.need("wait respects the timers", 3)


def time_fields(prog):
    return sorted(o for n, o, sz, ty in prog.members(prog.type(TIMER)) if ty and ty.get("q", "").startswith("std::chrono::time_point<"))


def assume_inv(E, st, T, inv):
    for a, b in inv:
        va, vb = E.load(st, P(T[1], a), 8, "i64"), E.load(st, P(T[1], b), 8, "i64")
        E.assume(st, E.icmp(st, "sge", va, vb, 64), True)


def timer_invariants(prog, once_at, TP):
    """inequalities between the time fields of a timer that setting it always establishes (greatest inductive subset)"""
    fs = time_fields(prog)
    inv = {(a, b) for a in fs for b in fs if a != b}
    while True:
        bad = set()
        for start in (0, 1):
            E, T, node = timer_engine(prog)
            st = loop_state(prog, E, State())
            st.g[("in", node)] = start
            if start:
                assume_inv(E, st, T, inv)
            for k, v, s in E.run(once_at, [T, TP], st):
                for a, b in inv:
                    va, vb = E.load(s, P(T[1], a), 8, "i64"), E.load(s, P(T[1], b), 8, "i64")
                    if E.decide(s, E.icmp(s, "sge", va, vb, 64)) is not True:
                        bad.add((a, b))
        if not bad:
            return inv
        inv -= bad


def sleep_ok(E, prog, t, TP, maxms):
    ls = {l for l in leaves(t)}
    other = [l for l in ls if l != NOWS]
    if len(other) != 1:
        return False, "sleeping time %r does not depend on one timer's time" % (t,)
    for now in (0, 1000000, 123456789012345):
        for d in (1, 500000, 999999, 1000000, 1000001, 1999999, 2000000, 1234567890, maxms * 1000000 - 1):
            v = sgn(evalt(t, {NOWS: now, other[0]: now + d}, prog), 32)
            if v < 0 or v * 1000000 > d + 1000000:
                return False, "sleeps %d ms with %d ns to go" % (v, d)
    return True, ""


def delay_int(prog, rep, f):
    D = S(("arg", 1), 64)
    P62 = 1 << 62
    parts = [("negative or zero", (0, P62), [(-(1 << 63), -1), (0, 0)], "now"), ("ordinary", (0, P62 // 2), [(1, P62 // 2)], "sum"),
             ("too large", (P62, P62 + P62 // 2), [(P62, I64MAX)], "max"), ("largest", (1, P62), [(I64MAX, I64MAX)], "max")]
    for name, nr, dr, want in parts:
        for lo, hi in dr:
            E = O.engine(prog, timers=False)
            got = []

            def m(E2, st, fr, i, args, fn):
                got.append((args[0], args[1], st.copy(), i))
                return None
            E.models[TIMER + "::once_at"] = m
            st = loop_state(prog, E, State())
            st.cons[NOWS] = (nr,)
            if lo == hi:
                d = lo & mask(64)
            else:
                d = D
                st.cons[D] = ((lo & mask(64), hi & mask(64)),)
            rep.engine(E, E.run(f, [O.THIS, d], st))
            if not got:
                rep.ob("delay is clamped", False, f.dm, fwhere(prog, f), "timer not set for a delay that is %s" % name, name)
            for obj, tp, s, i in got:
                exp = {"now": NOWS, "sum": add(NOWS, d, 64), "max": I64MAX}[want]
                same = E.decide(s, E.icmp(s, "eq", tp, exp, 64))
                rep.ob("delay is clamped", tp == exp or same is True, f.dm, prog.loc(i), "%s delay sets the time to %r, expected %r" % (name, tp, exp), name,
                       path_of(prog, s))
                rep.ob("the timer itself is set", obj == O.THIS, f.dm, prog.loc(i), "another timer is set", "obj")


def feval(t, env):
    """value of a floating point or integer term"""
    import math
    if isinstance(t, float):
        return t
    if isinstance(t, int):
        return sgn(t, 64)
    k = t[0]
    if k == "fc":
        return float(t[1])
    if k == "fs":
        if t in env:
            return env[t]
        o = t[1]
        if isinstance(o, tuple):
            return feval(("fs",) + o, env)
        a = [feval(x, env) for x in t[2:]]
        if o == "fmul":
            return a[0] * a[1]
        if o == "fdiv":
            return a[0] / a[1]
        if o == "fadd":
            return a[0] + a[1]
        if o == "fsub":
            return a[0] - a[1]
        if o == "fneg":
            return -a[0]
        if o in ("sitofp", "uitofp"):
            return float(a[0])
        if o in ("fpext", "fptrunc"):
            return a[0]
        raise AnalysisError("floating point term %r" % (t,))
    if k == "s":
        if t in env:
            return env[t]
        n = t[1]
        if isinstance(n, tuple) and n[0] in ("fptosi", "fptoui"):
            x = feval(n[1], env)
            if not -2.0 ** 63 <= x < 2.0 ** 63:
                return None
            return int(x)
        raise AnalysisError("unknown quantity %r in a delay computation" % (t,))
    if k == "lin":
        r = sgn(t[1], 64)
        for x, c in t[2]:
            v = feval(x, env)
            if v is None:
                return None
            r += v * sgn(c, 64)
        return r
    raise AnalysisError("delay term %r" % (t,))


def delay_float(prog, rep, f):
    import math
    E = O.engine(prog, timers=False)
    E.exit_limit = 1000
    got = []

    def m(E2, st, fr, i, args, fn):
        got.append((args[0], args[1], st.copy(), i))
        return None
    E.models[TIMER + "::once_at"] = m
    st = loop_state(prog, E, State())
    st.cons[NOWS] = ((0, I64MAX),)
    D = ("fs", ("arg", 1))
    rep.engine(E, E.run(f, [O.THIS, D], st))
    if not got:
        raise AnalysisError("Timer::once(double) never sets the timer")
    paths = []
    for obj, tp, s, i in got:
        conds = [(e[2][1], e[2][0]) for e in s.trace() if e[0] == "brc"]
        fcs = []
        for sym, ran in s.cons.items():
            if sym[0] == "s" and isinstance(sym[1], tuple) and sym[1][0] == "fcmp":
                c = E.const_of(s, sym)
                if c is not None:
                    fcs.append((sym[1], bool(c)))
        paths.append((obj, tp, fcs, i, s))

    def fc(c, env):
        p, a, b = c[1], feval(c[2], env), feval(c[3], env)
        if a is None or b is None:
            return None
        un = isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b)
        base = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]] if p not in ("ord", "uno", "true", "false") else None
        if base is None:
            return {"ord": not un, "uno": un, "true": True, "false": False}[p]
        return (base and not un) if p[0] == "o" else (base or un)
    for now in (0, 10 ** 15, 1 << 62):
        for d in (-1e300, -1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 3600.0, 4e9, 8e9, 1e10, 1e18, 1e300, math.inf):
            env = {NOWS: now, D: d}
            x = d * 1e9
            want = now if d <= 0 else (I64MAX if x >= float(I64MAX - now) else now + int(x))
            hit = 0
            for obj, tp, fcs, i, s in paths:
                if all(fc(c, env) is t for c, t in fcs):
                    hit += 1
                    v = feval(tp, env) if not is_ptr(tp) else None
                    ok = v is not None and abs(v - want) <= 2048 and v <= I64MAX
                    rep.ob("delay is clamped", ok, f.dm, prog.loc(i), "delay %g s at clock %d sets the time to %s, expected %d" % (d, now, v, want),
                           "float", path_of(prog, s))
                    rep.ob("the timer itself is set", obj == O.THIS, f.dm, prog.loc(i), "another timer is set", "obj")
            if not hit:
                rep.ob("delay is clamped", False, f.dm, fwhere(prog, f), "timer not set for a delay of %g s" % d, "float-none")


def loop_timers(prog, rep, run, pt, maxms):
    E = O.engine(prog, timers=False)
    coarse(E, 40)
    step_border(prog, E)
    V = S(("until timer",), 32)
    clk = clock_cell(prog)

    def m(E2, st, fr, i, args, fn):
        st.log(("process_timer", i, None, fr.fn))
        rep.ob("timers are compared with a clock read after waiting", st.g.get(("stale",)) != 1, run.dm, prog.loc(i),
               "the loop clock is not updated between waiting and looking at timers", "clock", path_of(prog, st))
        a = st.copy()
        b = st.copy()
        repo_models.forget_lists(a)
        E2.havoc_world(a)
        set_current(prog, E2, a, O.THIS)
        for s, w in ((st, maxms), (b, V)):
            s.g[("allowed",)] = (w,)
        st.g[("untouched",)] = args[1]
        E2.store(b, args[1], 4, V)
        a.g[("allowed",)] = ()
        return [("ret", 1, a), ("ret", 0, st), ("ret", 0, b)]
    E.models[pt.qual] = m

    def step(E2, st, fr, i, kind, a, args, c):
        t = args[0] if args else maxms
        al = st.g.get(("allowed",), ())
        ok = t == 0 or t in al
        if isinstance(t, int) and t != 0 and maxms in al and 0 < sgn(t, 32) <= maxms:
            ok = True
        rep.ob("wait respects the timers", ok, run.dm, prog.loc(i), "waits for %r, allowed is %r" % (t, al), "wait", path_of(prog, st))
        st.g[("allowed",)] = ()
        st.g[("stale",)] = 1
    E.on("step", step)

    def mem(E2, st, fr, i, p, size, store, v):
        if store and is_ptr(p) and p == P(O.THIS[1], O.THIS[2] + clk):
            if isinstance(v, tuple) and v[0] == "s" and "now" in repr(v[1])[:12]:
                st.g[("stale",)] = 0
    E.mem_hook = mem

    def user(E2, st, fr, i, fp, args):
        st.g[("allowed",)] = ()
        E2.havoc_world(st)
        set_current(prog, E2, st, O.THIS)
        return [("ret", None, st)]
    E.user_hook = user
    st = set_current(prog, E, O.proto_state(prog, LOOP), O.THIS)
    st.g[("stale",)] = 1
    r = E.run(run, [O.THIS], st)
    rep.engine(E, r)


# ------------------------------------------------------------------ C05: readiness flags

EPIN, EPOUT, EPERR, EPHUP, EPRDHUP, EPET, EPPRI = 1, 4, 8, 0x10, 0x2000, 1 << 31, 2
LIMITS = (24, 23, 105, 12)          # EMFILE ENFILE ENOBUFS ENOMEM


def flag_ptr(prog, this, coff, name):
    return P(this[1], this[2] + coff + prog.foff(CALLABLE, name))


def C05(prog, rep):
    adds = LOOP + "::impl_add_callable_fd"
    want_dirs = {"crab::TCPSocket": (1, 1), "crab::TCPAcceptor": (1, 0), "crab::UDPTransmitter": (1, 1), "crab::UDPReceiver": (1, 1), "crab::Signal": (1, 0)}
    used = {}
    # 1. every public method of every class with a descriptor: when may a direction be given up
    for cls in NETCLS:
        coff = the_callable(prog, cls)
        R, W = flag_ptr(prog, O.THIS, coff, "can_read"), flag_ptr(prog, O.THIS, coff, "can_write")
        fds = the_fd(prog, cls)
        for f in O.methods(prog, cls):
            for r0, w0 in ((1, 1), (1, 0), (0, 1)):
                E = O.engine(prog, buffers=True)
                E.exit_limit, E.loop_limit = 400, 60
                st = O.proto_state(prog, cls)
                E.store(st, R, 1, r0)
                E.store(st, W, 1, w0)
                for k, a in enumerate(f.args):
                    if a["t"] == "i64":
                        st.cons[S(("arg", k), 64)] = ((0, 1 << 62),)       # no object is larger
                fd0 = [fd_value(prog, cls, O.THIS, E, st, fo) for fo, _ in fds]
                E.apart = {O.THIS[1]} | {P(("*", ("arg", k)), 0)[1] for k in range(1, 6)}
                calls = []

                def reg(E2, s, fr, i, args, fn):
                    calls.append((args, i))
                    s.log(("register", i, tuple(args[1:]), fr.fn))
                    b = s.copy()
                    return [("ret", None, s), ("exc", Exc("std::runtime_error", P(("exo", "std::runtime_error"), 0)), b)]
                E.models[adds] = reg

                def at_sys(E_, s, fr, i, name, args, res, sign):
                    if name in XFER_IN + ("accept", "accept4"):
                        fl = E_.const_of(s, E_.load(s, R, 1, "i8"))
                        rep.ob("no attempt on a direction that would block", fl == 1, f.dm, prog.loc(i), "%s although the kernel said 'would block'" % name,
                               "r", path_of(prog, s))
                    elif name in XFER_OUT:
                        fl = E_.const_of(s, E_.load(s, W, 1, "i8"))
                        rep.ob("no attempt on a direction that would block", fl == 1, f.dm, prog.loc(i), "%s although the kernel said 'would block'" % name,
                               "w", path_of(prog, s))
                E.sys_hook = at_sys
                for name in ("accept", "accept4"):
                    retry_rule(prog, rep, E, f, name)
                r = run_method(prog, E, f, cls, st=st)
                rep.engine(E, r)
                for k, v, s in r:
                    pth, w = path_of(prog, s), where(prog, s, f)
                    closed = bool(sysc(s, "close"))
                    for nm, ptr, was, names in (("read", R, r0, XFER_IN + ("accept", "accept4")), ("write", W, w0, XFER_OUT)):
                        xf = sysc(s, *names)
                        now = E.const_of(s, E.load(s, ptr, 1, "i8"))
                        last = xf[-1] if xf else None
                        fail = last is not None and last[5] in (-1, mask(64), mask(32))
                        ea = errno_of(E, s, last) if fail else False
                        if fail and ea is None:
                            rep.ob("would-block is told apart from errors", False, f.dm, w, "outcome of failing %s does not depend on errno" % last[2], nm, pth)
                            continue
                        if last is not None:
                            used.setdefault(cls, set()).add(nm)
                        if was == 1 and not closed:
                            if ea is True:
                                rep.ob("'would block' ends the attempts", now == 0, f.dm, w, "can_%s stays set after 'would block'" % nm, nm, pth)
                            else:
                                same = [E.decide(s, E.icmp(s, "eq", fd_value(prog, cls, O.THIS, E, s, fo), f0, 32)) is not False and not no(E, s, "sge", f0, 0, 32)
                                        for (fo, _), f0 in zip(fds, fd0)]      # a replaced descriptor starts afresh
                                rep.ob("given up only on 'would block' or close", now == 1 or not all(same), f.dm, w,
                                       "can_%s cleared without the kernel saying 'would block'" % nm, nm, pth)
                    if cls == "crab::TCPAcceptor" and f.base == "can_accept":
                        acc = sysc(s, "accept", "accept4")
                        if k == "ret" and acc and E.const_of(s, v) == 0 and E.const_of(s, E.load(s, R, 1, "i8")) == 1:
                            rep.ob("a retry is arranged", any(e[0] == "timer.set" for e in s.trace()), f.dm, w,
                                   "gives up accepting after an error without arranging a retry", "retry", pth)
    for cls, dirs in want_dirs.items():
        d = used.get(cls, set())
        if cls != "crab::Signal" and ("read" in d) != bool(dirs[0]) or ("write" in d) and not dirs[1]:
            rep.ob("used directions are registered", False, cls, None, "object transfers %s" % sorted(d), cls)
    # 2. registration: which directions, which event callable, which descriptor
    for cls in NETCLS + (LOOP,):
        coff = the_callable(prog, cls)
        dirs = want_dirs.get(cls, (1, 0))
        fs = O.methods(prog, cls) + O.ctor_calls_all(prog, cls)
        nreg = 0
        for f in fs:
            E = O.engine(prog)
            coarse(E, 20)
            got = []

            def reg(E2, s, fr, i, args, fn):
                got.append((args, i, s.copy(), path_of(prog, s)))
                return None
            E.models[adds] = reg
            ctor = f.base == cls.rsplit("::", 1)[1]
            if not ctor and not callgraph_reaches(prog, f, adds):
                continue
            st = State() if ctor else O.proto_state(prog, cls)
            E.apart = {O.THIS[1]} | {P(("*", ("arg", k)), 0)[1] for k in range(1, 6)}
            r = run_method(prog, E, f, cls, st=st)
            rep.engine(E, r)
            for args, i, s, pth in got:
                nreg += 1
                rep.ob("registered with the object's own callable", args[2] == P(O.THIS[1], O.THIS[2] + coff), f.dm, prog.loc(i),
                       "registers %r" % (args[2],), "callable", pth)
                rd = [E.const_of(s, x) for x in args[3:5]]
                rep.ob("registered for exactly the directions used", tuple(None if x is None else x & 1 for x in rd) == dirs, f.dm, prog.loc(i),
                       "registers read=%s write=%s, uses read=%d write=%d" % (rd[0], rd[1], dirs[0], dirs[1]), "dirs", pth)
        if not nreg:
            rep.ob("registered for exactly the directions used", False, cls, None, "%s never registers its descriptor" % cls, "never")
    # 3. the registration itself
    f = prog.one(adds)
    for rd, wr in ((1, 0), (0, 1), (1, 1)):
        E = O.engine(prog)
        seen = []

        def at_sys(E_, s, fr, i, name, args, res, sign):
            if name == "epoll_ctl" and sign >= 0:
                ev = E_.const_of(s, E_.load(s, args[3], 4, "i32"))
                dp = E_.load(s, P(args[3][1], args[3][2] + 4), 8, "p")
                seen.append((args, ev, dp, i, path_of(prog, s)))
        E.sys_hook = at_sys
        r = E.run(f, [O.THIS, S(("arg", 1), 32), P(("*", ("arg", 2)), 0), rd, wr], O.proto_state(prog, LOOP))
        rep.engine(E, r)
        for args, ev, dp, i, pth in seen:
            want = (EPIN if rd else 0) | (EPOUT if wr else 0) | EPET
            rep.ob("edge-triggered for the asked directions", ev is not None and ev & ~(EPRDHUP | EPPRI | EPERR | EPHUP) == want and args[1] == 1, f.dm,
                   prog.loc(i), "registers event mask %s (operation %r) for read=%d write=%d" % (ev if ev is None else hex(ev), args[1], rd, wr),
                   "mask%d%d" % (rd, wr), pth)
            rep.ob("kernel gets the descriptor and the callable", args[2] == S(("arg", 1), 32) and dp == P(("*", ("arg", 2)), 0), f.dm, prog.loc(i),
                   "registers %r with %r" % (args[2], dp), "what", pth)
        if not seen:
            rep.ob("edge-triggered for the asked directions", False, f.dm, fwhere(prog, f), "descriptor not registered", "none%d%d" % (rd, wr))
        for k, v, s in r:
            failed = [e for e in sysc(s, "epoll_ctl") if e[5] in (-1, mask(32))]
            if failed:
                rep.ob("failed registration is reported", k == "exc", f.dm, where(prog, s, f), "failure is ignored", "fail", path_of(prog, s))
    # 4. the kernel's answer: every event in every position of the answer
    step = prog.one(LOOP + "::step")
    noff = node_off(prog)
    words = [b for b in range(1, 32)]
    bits = (EPIN, EPOUT, EPERR, EPHUP, EPRDHUP)
    for n, sel in [(1, [w]) for w in words] + [(3, [3, 4, 2]), (2, [2, 8]), (2, [16, 1])]:
        evs = [sum(b for k, b in enumerate(bits) if w >> k & 1) for w in sel]
        for init in (0, 1):
            E = O.engine(prog)
            E.unroll = 8
            objs = [P(("*", ("callable", k)), 0) for k in range(n)]
            E.apart = {o[1] for o in objs} | {O.THIS[1]}
            st = set_current(prog, E, O.proto_state(prog, LOOP), O.THIS)
            for o in objs:
                for nm in ("can_read", "can_write"):
                    E.store(st, P(o[1], prog.foff(CALLABLE, nm)), 1, init)
            st.g[("armed",)] = 0

            def at_sys(E_, s, fr, i, name, args, res, sign):
                if name == "epoll_wait" and sign > 0:
                    cap = E_.const_of(s, args[2])
                    rep.ob("kernel is given room for its events", is_ptr(args[1]) and cap is not None and cap >= 1, step.dm, prog.loc(i), "room for %r" % (args[2],), "cap")
                    s.cons[res] = ((n, n),)
                    s.g[("armed",)] = 1
                    for k in range(n):
                        E_.store(s, P(args[1][1], args[1][2] + 12 * k), 4, evs[k])
                        E_.store(s, P(args[1][1], args[1][2] + 12 * k + 4), 8, objs[k])
            E.sys_hook = at_sys
            r = E.run(step, [O.THIS, S(("arg", 1), 32)], st)
            rep.engine(E, r)
            ok_paths = 0
            for k, v, s in r:
                if s.g.get(("armed",)) != 1:
                    continue
                ok_paths += 1
                pth, w = path_of(prog, s), where(prog, s, step)
                rep.ob("handling kernel events never throws", k == "ret", step.dm, w, "exception", "exc", pth)
                for j, o in enumerate(objs):
                    d = "event %#x at position %d of %d" % (evs[j], j + 1, n)
                    rep.ob("event queues the handler", s.g.get(("in", P(o[1], noff))) == 1, step.dm, w, "%s: handler not queued" % d, "queue", pth)
                    for nm, need in (("can_read", evs[j] & (EPIN | EPERR | EPHUP | EPRDHUP)), ("can_write", evs[j] & EPOUT)):
                        x = E.load(s, P(o[1], prog.foff(CALLABLE, nm)), 1, "i8")
                        on = E.decide(s, E.icmp(s, "ne", x, 0, 8))
                        if need or init:
                            rep.ob("event makes its direction usable", on is True, step.dm, w, "%s: %s is not set" % (d, nm), nm, pth)
            if not ok_paths:
                raise AnalysisError("C05: no path of RunLoop::step handles events")
    # 5. the acceptor's retry timer asks the user to accept again
    cb = [x for x in deep_callbacks(prog, "crab::TCPAcceptor")]
    if not cb:
        rep.ob("a retry is arranged", False, "crab::TCPAcceptor", None, "no retry callback", "cb")
    for name, off, inv in cb:
        E = O.engine(prog)
        coarse(E)
        r = O.run_callback(prog, E, "crab::TCPAcceptor", off, inv)
        for k, v, s in r:
            if k == "ret":
                rep.ob("a retry is arranged", any(e[0] == "user" for e in s.trace()), inv.dm, where(prog, s, inv), "retry timer does not call the handler", "cbuser")
    rep.need("'would block' ends the attempts", 8)
    rep.need("given up only on 'would block' or close", 20)
    rep.need("event makes its direction usable", 60)
    rep.need("a retry is arranged", 2)


def retry_rule(prog, rep, E, f, name):
    """before a repeated accept(): the error before it must not be one that leaves the connection in the backlog"""
    orig = E.models[name] if name in E.models else None
    if orig is None:
        return

    def m(E2, st, fr, i, args, fn):
        prev = [e for e in sysc(st, "accept", "accept4")][-1:]
        if prev and prev[0][5] in (-1, mask(32)):
            lim = [E2.decide(st, E2.icmp(st, "eq", prev[0][6], n, 32)) for n in LIMITS]
            rep.ob("limit errors are not retried at once", all(x is False for x in lim), f.dm, prog.loc(i),
                   "accept() is repeated immediately although the error may be a system limit", "limit", path_of(prog, st))
        return orig(E2, st, fr, i, args, fn)
    E.models[name] = m


def callgraph_reaches(prog, f, q):
    g = getattr(prog, "_cg", None)
    if g is None:
        g = prog._cg = callgraph.CallGraph(prog)
    return any(prog.fn[n].qual == q for n in g.reach([f], stop=callgraph.is_function_call))


# ------------------------------------------------------------------ C07: descriptors

FDCLS = NETCLS + (LOOP,)


def fd_cells(prog, E, s, objs):
    """current values of every FileDescriptor inside the given objects"""
    return [(E.load(s, P(p[1], p[2] + o), 4, "i32"), nm) for p, fl in objs for o, nm in fl]


def params_of(dm):
    """parameter types of a demangled function name"""
    d, cur, out = 0, "", []
    if not dm.endswith(")"):
        dm = dm[:dm.rindex(")") + 1]
    j = len(dm) - 1
    k = j
    while k >= 0:
        if dm[k] == ")":
            d += 1
        elif dm[k] == "(":
            d -= 1
            if d == 0:
                break
        k -= 1
    d = 0
    for c in dm[k + 1:j]:
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def arg_objects(prog, f, this):
    """objects of descriptor-holding classes the function is given by reference"""
    out = []
    ps = params_of(f.dm)
    base = len(f.args) - len(ps)
    for k, a in enumerate(f.args):
        if k < base or a["t"] != "p" or a.get("sret"):
            continue
        for cls in FDCLS:
            if ps[k - base] == cls + "&":
                out.append((P(("*", ("arg", k)), 0), the_fd(prog, cls)))
    return out


def fd_engine(prog, rep):
    E = O.engine(prog, buffers=True)
    E.exit_limit, E.loop_limit = 600, 80
    adds = LOOP + "::impl_add_callable_fd"

    def reg(E2, s, fr, i, args, fn):
        s.log(("register", i, tuple(args[1:]), fr.fn))
        E2.emit_ev(s, fr, i, "register", args[1], args[2:], None)
        b = s.copy()
        return [("ret", None, s), ("exc", Exc("std::runtime_error", P(("exo", "std::runtime_error"), 0)), b)]
    E.models[adds] = reg
    return E


def fd_entries(prog):
    for cls in FDCLS:
        fl = the_fd(prog, cls)
        for f in O.ctor_calls_all(prog, cls):
            if "(%s " % cls not in f.dm and "(%s&" % cls not in f.dm:
                yield cls, fl, f, "ctor"
        for f in O.methods(prog, cls):
            yield cls, fl, f, "method"
        yield cls, fl, O.dtor(prog, cls), "dtor"


def C07(prog, rep):
    seen_new = set()
    for cls, fl, f, kind in fd_entries(prog):
        E = fd_engine(prog, rep)
        if cls == LOOP:
            coarse(E, 30)
            step_border(prog, E)
            E.user_havoc = False
            if f.base == "run":
                continue
            if f.qual != adds_name(prog):
                pass
        others = arg_objects(prog, f, O.THIS)
        E.apart = {O.THIS[1]} | {("*", ("arg", k)) for k in range(1, 8)}
        st = State() if kind == "ctor" else O.proto_state(prog, cls)
        objs = ([] if kind == "ctor" else [(O.THIS, fl)]) + others
        old = fd_cells(prog, E, st, objs)
        for v, _ in old:
            st.cons[v] = ((0, (1 << 31) - 1), (mask(32), mask(32)))
        live = []

        def at_sys(E_, s, fr, i, name, args, res, sign):
            if name in NEWFD and sign > 0:
                seen_new.add((fr.fn.qual, name))
        E.sys_hook = at_sys
        r = run_method(prog, E, f, cls, st=st)
        rep.engine(E, r)
        for k, v, s in r:
            pth, w = path_of(prog, s), where(prog, s, f)
            gone = kind == "dtor" or kind == "ctor" and k == "exc"
            now = fd_cells(prog, E, s, ([] if gone else [(O.THIS, fl)]) + others)
            if gone and kind == "ctor":
                pass
            new = []
            for e in sysc(s, *NEWFD):
                if e[5] not in (-1, mask(32)) and e[5] not in [x for x, _, _ in new]:
                    new.append((e[5], e[2], e[1]))
            for x, what, i in new + [(v0, nm, None) for v0, nm in old]:
                at = prog.loc(i) if i is not None else w
                ncl = closed_by(E, s, x)
                hold = sum(1 for v1, _ in now if v1 == x or E.const_of(s, v1) is not None and E.const_of(s, v1) == E.const_of(s, x))
                if E.decide(s, E.icmp(s, "sge", x, 0, 32)) is False:
                    rep.ob("no descriptor is closed that is not open", ncl == 0, f.dm, at, "%s: closes an invalid descriptor" % what, what, pth)
                    continue
                if k == "exc" and kind == "method" or kind != "ctor" or k == "ret" or True:
                    rep.ob("each descriptor has one owner or is closed once", ncl + hold == 1, f.dm, at,
                           "descriptor of %s: closed %d times, owned by %d objects when %s %s" % (what, ncl, hold, f.base, "throws" if k == "exc" else "returns"),
                           "%s/%s" % (what, k), pth)
            # every close() on the path is of a descriptor we know
            known = {repr(x) for x, _, _ in new} | {repr(v0) for v0, _ in old}
            for e in sysc(s, "close"):
                rep.ob("only own descriptors are closed", repr(e[4][0]) in known, f.dm, prog.loc(e[1]), "closes %r" % (e[4][0],), "alien", pth)
    # every place that obtains a descriptor was analysed
    for g in prog.fn.values():
        if g.bb is None or not prog.in_repo(g):
            continue
        for i, callee in prog.calls(g):
            n = callee.name if callee is not None else None
            if n in NEWFD:
                rep.ob("every acquisition is analysed", (g.qual, n) in seen_new, g.dm, prog.loc(i), "%s() obtains a descriptor outside the analysed classes" % n, n)
            if n == "close":
                rep.ob("descriptors are closed by their owner only", g.qual.startswith(FD + "::"), g.dm, prog.loc(i), "close() outside FileDescriptor", n)
    for t in ("FileDescriptor", "TCPSocket"):
        rep.ob("descriptor owners cannot be copied", not prog.witness("copyable_" + t), "crab::" + t, None, "%s can be copied" % t, t)
    rep.need("each descriptor has one owner or is closed once", 60)
    rep.need("every acquisition is analysed", 6)


def adds_name(prog):
    return LOOP + "::impl_add_callable_fd"


# ------------------------------------------------------------------ C08: non-blocking, no SIGPIPE

NONBLOCK, NOSIGNAL = 0x800, 0x4000
BLOCKING = {"sleep", "usleep", "nanosleep", "clock_nanosleep", "poll", "ppoll", "select", "pselect", "epoll_wait", "epoll_pwait", "getaddrinfo", "gethostbyname",
            "gethostbyaddr", "getnameinfo", "pthread_join", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "sem_wait", "system", "popen",
            "wait", "waitpid", "fgets", "getline", "getchar", "fread", "flock", "lockf", "sigwait", "sigwaitinfo", "pause", "sendfile", "fsync"}
BLOCKING_STD = ("std::thread::join", "std::condition_variable::wait", "std::this_thread::sleep_for", "std::this_thread::sleep_until", "std::future",
                "std::getline")


def has_bits(t, bits):
    if isinstance(t, int):
        return t & bits == bits
    if t[0] == "op" and t[1] == "or":
        return has_bits(t[3], bits) or has_bits(t[4], bits)
    if t[0] in ("zx", "sx", "tr"):
        return has_bits(t[1], bits)
    return False


def C08(prog, rep):
    io = XFER_IN + XFER_OUT + ("connect", "accept", "accept4", "eventfd_read", "eventfd_write")
    flagpos = {"send": 3, "sendto": 3, "sendmsg": 2}
    for cls, fl, f, kind in fd_entries(prog):
        if kind == "dtor" or cls == LOOP and f.base == "run":
            continue
        E = fd_engine(prog, rep)
        if cls == LOOP:
            coarse(E, 30)
        others = arg_objects(prog, f, O.THIS)
        E.apart = {O.THIS[1]} | {("*", ("arg", k)) for k in range(1, 8)}
        st = State() if kind == "ctor" else O.proto_state(prog, cls)
        old = fd_cells(prog, E, st, ([] if kind == "ctor" else [(O.THIS, fl)]) + others)
        ok0 = {repr(v) for v, _ in old}

        def nb(s, x):
            return repr(x) in ok0 or s.g.get(("nb", x)) == 1

        def at_sys(E_, s, fr, i, name, args, res, sign, f=f):
            pth = None
            if name == "fcntl" and sign >= 0 and E_.const_of(s, args[1]) == 4:
                s.g[("nb", args[0])] = 1 if has_bits(args[2], NONBLOCK) else 0
            elif name == "accept4" and sign > 0:
                s.g[("nb", res)] = 1 if has_bits(args[3], NONBLOCK) else 0
            elif name == "socket" and sign > 0:
                s.g[("nb", res)] = 1 if has_bits(args[1], NONBLOCK) else 0
            elif name == "eventfd" and sign > 0:
                s.g[("nb", res)] = 1 if has_bits(args[1], NONBLOCK) else 0
            elif name == "signalfd" and sign > 0:
                s.g[("nb", res)] = 1 if has_bits(args[2], NONBLOCK) else 0
            elif name in ("epoll_create1", "epoll_create") and sign > 0:
                s.g[("ep", res)] = 1
            if name in io:
                rep.ob("I/O only on non-blocking descriptors", nb(s, args[0]), f.dm, prog.loc(i), "%s() on a descriptor that may block" % name, name, path_of(prog, s))
            if name in XFER_OUT:
                k = flagpos.get(name)
                rep.ob("sends never raise SIGPIPE", k is not None and has_bits(args[k], NOSIGNAL), f.dm, prog.loc(i), "%s() without MSG_NOSIGNAL" % name, name,
                       path_of(prog, s))
            if name == "epoll_ctl" and E_.const_of(s, args[1]) == 1 and fr.fn.qual != adds_name(prog):
                rep.ob("I/O only on non-blocking descriptors", nb(s, args[2]), f.dm, prog.loc(i), "registers a descriptor that may block", "reg", path_of(prog, s))
        E.sys_hook = at_sys

        def reg(E2, s, fr, i, k, fd, rest, c, f=f):
            rep.ob("registered descriptors are non-blocking", nb(s, fd), f.dm, prog.loc(i), "registers a descriptor that may block", "reg", path_of(prog, s))
        E.on("register", reg)
        r = run_method(prog, E, f, cls, st=st)
        rep.engine(E, r)
        for k, v, s in r:
            if k != "ret":
                continue
            for x, nm in fd_cells(prog, E, s, [(O.THIS, fl)] + others):
                if E.decide(s, E.icmp(s, "sge", x, 0, 32)) is False or s.g.get(("ep", x)):
                    continue
                rep.ob("kept descriptors are non-blocking", nb(s, x), f.dm, where(prog, s, f), "%s keeps a descriptor that may block" % nm, nm, path_of(prog, s))
    # internal callbacks that do I/O themselves
    for cls in FDCLS:
        for name, off, inv in deep_callbacks(prog, cls):
            E = fd_engine(prog, rep)
            coarse(E, 30)
            st = O.proto_state(prog, cls)
            ok0 = {repr(v) for v, _ in fd_cells(prog, E, st, [(O.THIS, the_fd(prog, cls))])}

            def at_sys(E_, s, fr, i, name, args, res, sign, inv=inv):
                if name in io:
                    rep.ob("I/O only on non-blocking descriptors", repr(args[0]) in ok0, inv.dm, prog.loc(i), "%s() on an unknown descriptor" % name, name, path_of(prog, s))
            E.sys_hook = at_sys
            E.user_havoc = False
            rep.engine(E, O.run_callback(prog, E, cls, off, inv, st=st))
    # nothing that blocks is reachable from the loop thread's code
    g = callgraph.CallGraph(prog)
    stop = callgraph.is_function_call
    roots = {}
    for cls in OWNERS + ("crab::http::Server", LOOP, "crab::http::ServerConnection"):
        for f in public_entries(prog, cls):
            if f.base.startswith("sync_"):
                continue
            roots[f.name] = f
        try:
            for name, off, inv in O.callbacks(prog, cls):
                roots[inv.name] = inv
        except AnalysisError:
            pass
    for lam in prog.fn.values():     # every closure of the library bound to an event
        if lam.bb is not None and prog.in_repo(lam) and lam.base == "operator()" and not lam.qual.startswith("crab::Thread::") and callback_shape(lam):
            roots[lam.name] = lam
    for name, f in sorted(roots.items()):
        par = g.reach([f], stop=stop)
        rep.fns |= set(par)
        for n in par:
            h = prog.fn[n]
            if not (n in BLOCKING or any(h.qual.startswith(b) for b in BLOCKING_STD)):
                continue
            caller, i = par[n] if par[n] else (h, None)
            if n == "epoll_wait" and caller.qual == LOOP + "::step":
                continue
            chain = g.path(par, n)
            # the process-wide DNS worker is joined when the process ends, a Thread by its own destructor
            if f.qual.startswith("crab::Thread::~"):
                continue
            if any("sync_resolve" in c for c in chain) and f.base.startswith("sync_"):
                continue
            rep.ob("no blocking call from the loop thread", False, f.dm, prog.loc(i) if i else None, "reaches %s: %s" % (n, " ; ".join(chain[-3:])), n, chain)
        rep.ob("no blocking call from the loop thread", True, f.dm, fwhere(prog, f))
    # who waits in epoll_wait: only the loop
    w = prog.one(LOOP + "::step")
    for h in prog.fn.values():
        if h.bb is not None and prog.in_repo(h):
            for i, callee in prog.calls(h):
                if callee is w:
                    rep.ob("only the loop itself waits", h.qual == LOOP + "::run" or h.scope == LOOP, h.dm, prog.loc(i), "%s waits for events" % h.qual, h.qual)
    rep.need("sends never raise SIGPIPE", 4)
    rep.need("registered descriptors are non-blocking", 4)
    rep.need("no blocking call from the loop thread", 100)
    rep.need("I/O only on non-blocking descriptors", 10)


def callback_shape(f):
    return f.scope.startswith("crab::") and len(f.args) <= 3
