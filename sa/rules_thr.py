"""Rules for threads and loop dispatch (C09-C14)."""
from absint import State, P, S, Exc, is_ptr, mask
from model import AnalysisError
import objects as O
import repo_models, callgraph
import std_models as sm
from fw import path_of
from rules_net import (where, fwhere, DNS, LOOP, LOOPP, TIMER, OTHER, BLOCKING, BLOCKING_STD, CALLABLE, member_dtor, set_current, step_border, coarse,
                       worker, typed_offsets, node_off, NODE, sysc, run_method, has_bits, closed_resolver_split, split_request, resolver_bases)

WATCHER = "crab::Watcher"
LINKS = "crab::details::RunLoopLinks"
WORKER = "crab::details::DNSWorker"
THREAD = "crab::Thread"
CUR = P(("*", ("current loop",)), 0)
RES = P(("*", ("request",)), 0)
HELD = ("held",)


def only(prog, cls, tq, what):
    o = typed_offsets(prog, cls, tq)
    if len(o) != 1:
        raise AnalysisError("%s: expected one %s, found %d" % (cls, what, len(o)))
    return o[0][0]


def mutex_off(prog, cls):
    return only(prog, cls, "std::mutex", "mutex")


def list_off(prog, cls, elem):
    r = []
    for n, o, sz, ty in prog.members(prog.type(cls)):
        if ty and ty.get("q", "").startswith("crab::IntrusiveList<%s," % elem):
            r.append(o)
    if len(r) != 1:
        raise AnalysisError("%s: expected one list of %s" % (cls, elem))
    return r[0]


def links_off(prog):
    return only(prog, LOOP, LINKS, "links member")


def held(s):
    return s.g.get(HELD, ())


def track_locks(E, on_lock=None, on_unlock=None, on_wait=None):
    def lock(E2, st, fr, i, kind, a, args, c):
        h = held(st)
        E2.emit_ev(st, fr, i, "locking", a, h, None)
        st.g[HELD] = tuple(sorted(set(h) | {a}, key=repr))
        if on_lock:
            on_lock(E2, st, fr, i, a)

    def unlock(E2, st, fr, i, kind, a, args, c):
        if on_unlock:
            on_unlock(E2, st, fr, i, a)
        st.g[HELD] = tuple(x for x in held(st) if x != a)

    def wait(E2, st, fr, i, kind, a, args, c):
        if on_wait:
            on_wait(E2, st, fr, i, a)
    E.on("lock", lock)
    E.on("trylock", lock)
    E.on("unlock", unlock)
    E.on("cv.wait", wait)


class Ctx:
    """offsets used throughout"""

    def __init__(self, prog):
        self.lo = links_off(prog)
        self.lm = mutex_off(prog, LINKS)
        self.fired = list_off(prog, LINKS, WATCHER)
        self.trig = list_off(prog, LINKS, CALLABLE)
        self.idle = list_off(prog, LOOP, "crab::Idle")
        self.wm = mutex_off(prog, WORKER)
        self.wq = list_off(prog, WORKER, DNS)
        self.wfields = {}
        for n, o, sz, ty in prog.members(prog.type(WORKER)):
            q = (ty or {}).get("q", "")
            if q in ("std::mutex", "std::condition_variable", "std::thread"):
                continue
            self.wfields[n] = (o, sz)
        self.wex = prog.foff(WORKER, "executing_request")
        self.wquit = prog.field(WORKER, "quit")[:2]
        self.tm = mutex_off(prog, THREAD)
        self.tfields = {}
        for n, o, sz, ty in prog.members(prog.type(THREAD)):
            if (ty or {}).get("q", "") not in ("std::mutex", "std::condition_variable", "std::thread"):
                self.tfields[n] = (o, sz)
        self.wloop = only(prog, WATCHER, LOOP + "*", "loop pointer") if typed_offsets(prog, WATCHER, LOOP + "*") else prog.foff(WATCHER, "loop")
        self.wnode = prog.foff(WATCHER, "fired_objects_node")
        self.quit = prog.foff(LINKS, "quit")
        self.links_mutex = P(LOOPP[1], LOOPP[2] + self.lo + self.lm)
        self.fired_list = P(LOOPP[1], LOOPP[2] + self.lo + self.fired)


def thr_engine(prog, rep, timers=True):
    E = O.engine(prog, timers=timers)
    E.exit_limit = 200
    return E


def worker_fields(prog, C):
    return dict(C.wfields)


def thread_starts(prog, ctor, this):
    """[(Fn, args, state)] of the functions the constructor starts in a new thread"""
    E = O.engine(prog)
    out = []

    def start(E2, st, fr, i, kind, a, args, c):
        callee = prog.fn[i["f"][1]]
        body = None
        a0 = args[0]
        s0 = State()
        ta = repo_models.tmpl_args(callee.qual[callee.qual.index("<"):])
        if ta[0].startswith("void (") and is_ptr(a0):
            f = E2.load(st, a0, 8, "p")
            if isinstance(f, tuple) and f[0] == "fn":
                body, margs = prog.fn[f[1]], [this]
        else:
            fs = prog.find(ta[0] + "::operator()")
            if len(fs) == 1 and is_ptr(a0):
                body, margs = fs[0], [P(("*", ("closure",)), 0)]
                reg = s0.wregion(("*", ("closure",)))
                for o, c2 in st.region(a0[1]).cells.items():
                    if isinstance(o, int) and o >= a0[2]:
                        reg.cells[o - a0[2]] = c2
        if body is None:
            raise AnalysisError("cannot tell which function %s starts" % callee.dm)
        out.append((body, margs, s0))
    E.on("thread.start", start)
    track_locks(E, on_wait=lambda E2, st, fr, i, a: E2.store_havoc(st, this, prog.type(ctor.scope)["sz"]))
    E.run(ctor, O.sym_args(prog, ctor, this), State())
    if not out:
        raise AnalysisError("%s starts no thread" % ctor.dm)
    return out[:1]


def ctor_of(prog, cls):
    base = cls.rsplit("::", 1)[1]
    fs = [f for f in prog.by_qual.get(cls + "::" + base, ()) if f.bb is not None]
    fs = [f for f in fs if "(%s" % cls not in f.dm.replace("&&", "").replace(" const&", "")]
    fs.sort(key=lambda f: f.name.endswith("C2Ev") or "C2E" in f.name, reverse=True)
    if not fs:
        raise AnalysisError("no constructor of " + cls)
    return fs[0]


def api_entries(prog):
    """(class, fn, kind) of what the loop thread and other threads may call, by class"""
    out = []
    for cls in (WATCHER, DNS, LOOP, THREAD):
        for f in O.methods(prog, cls):
            if not f.args or f.args[0]["t"] != "p" or f.base == "current" or f.base.startswith("sync_") or f.base == "get_impl":
                continue
            out.append((cls, f, "method"))
        d = member_dtor(prog, cls)
        if d is not None:
            out.append((cls, d, "dtor"))
    for cls in (LOOP, DNS):
        for name, off, inv in O.callbacks(prog, cls):
            out.append((cls, (name, off, inv), "callback"))
    return out


def entry_states(prog, E, cls, kind, C):
    """states to start from: the object's own loop is LOOPP, the current loop is another one"""
    this = LOOPP if cls == LOOP else O.THIS
    st = O.proto_state(prog, cls, this)
    E.apart = {O.THIS[1], LOOPP[1], CUR[1], OTHER[1]} | {("*", ("arg", k)) for k in range(1, 6)}
    set_current(prog, E, st, LOOPP if cls == LOOP else CUR)
    for o, p in ([(0, "")] if cls == WATCHER else typed_offsets(prog, cls, WATCHER) if cls != LOOP else []):
        E.store(st, P(this[1], this[2] + o + C.wloop), 8, LOOPP)
    sts = [st]
    if cls == DNS:
        sts = [x for y in closed_resolver_split(prog, E, st, this, cls) for x in split_request(prog, E, y, this, cls)]
        if kind == "callback":
            # the watcher was called by the worker, which forgot the request before it let go of the mutex, and every later
            # resolve() takes the watcher's notifications back first (both decided in C14)
            sts = [x for x in sts if x.g.get(("request",)) != this]
            for x in sts:
                x.g[("in", P(this[1], this[2] + prog.foff(DNS, "work_queue_node")))] = 0
    return this, sts


def run_entry(prog, E, cls, f, kind, this, st):
    if kind == "callback":
        name, off, inv = f
        return inv, O.run_callback(prog, E, cls, off, inv, st=st, this=this)
    return f, E.run(f, O.sym_args(prog, f, this), st)


def overlaps(off, size, lo, sz):
    return not isinstance(off, int) or off < lo + sz and lo < off + (size if isinstance(size, int) else 1)


def is_ctor_frame(fr, E, classes):
    for f in list(E.stack) + [fr.fn]:
        b = f.qual.rsplit("::", 1)
        if len(b) == 2 and f.scope in classes and f.base == f.scope.rsplit("::", 1)[1]:
            return True
    return False


def names_elem(fn, elem):
    return fn.qual.startswith(("crab::IntrusiveNode<%s>" % elem, "crab::IntrusiveList<%s," % elem))


def is_structor(fn):
    return fn.base.startswith("~") or fn.base in ("IntrusiveNode", "IntrusiveList")


# ------------------------------------------------------------------ C09

def C09(prog, rep):
    C = Ctx(prog)
    ty = [t for n, o, sz, t in prog.members(prog.type(LINKS)) if o == C.quit][0]
    rep.ob("the loop's stop flag is atomic", (ty or {}).get("q", "").startswith("std::atomic"), LINKS, None, "quit is a plain %s" % (ty or {}).get("q"), "quit")

    def watch_common(E, f, who):
        """accesses guarded wherever they happen"""
        wp = worker(prog, O.engine(prog), State())
        dns_mutex = P(wp[1], wp[2] + C.wm)

        def model(E2, st, fr, i, fn, args):
            if not args or not is_ptr(args[0]):
                return
            if names_elem(fn, WATCHER) and not is_structor(fn):
                rep.ob("queue of called watchers only under the loop's mutex", C.links_mutex in held(st), who, prog.loc(i),
                       "%s without the mutex of the watcher's loop" % fn.qual.rsplit("::", 1)[1], fn.base, path_of(prog, st))
                if fn.qual.startswith("crab::IntrusiveList<"):
                    rep.ob("called watchers go to their own loop's queue", args[0] == C.fired_list, who, prog.loc(i), "another loop's queue is used", fn.base,
                           path_of(prog, st))
            if names_elem(fn, DNS) and not is_structor(fn) and not is_ctor_frame(fr, E2, (WORKER,)):
                rep.ob("DNS work queue only under its mutex", dns_mutex in held(st), who, prog.loc(i),
                       "%s without the worker's mutex" % fn.qual.rsplit("::", 1)[1], fn.base, path_of(prog, st))

        def mem(E2, st, fr, i, p, size, store, v):
            if not is_ptr(p):
                return
            if p[1] == wp[1] and not is_ctor_frame(fr, E2, (WORKER,)):
                for n, (o, sz) in C.wfields.items():
                    if overlaps(p[2], size, wp[2] + o, sz):
                        rep.ob("DNS worker state only under its mutex", dns_mutex in held(st), who, prog.loc(i),
                               "%s is %s without the worker's mutex" % (n, "written" if store else "read"), n, path_of(prog, st))
        E.model_hook = model
        return mem, dns_mutex

    # what the worker thread touches of a resolver
    touched = []           # (offset, size, store)
    E = thr_engine(prog, rep)
    (body, margs, st0), E, r = run_worker(prog, rep, C, watch_common, touched)
    rep.engine(E, r)
    if not touched:
        raise AnalysisError("the DNS worker never touches a resolver")
    rep.sample("worker thread touches resolver bytes %s" % sorted({(o, n) for o, n, s in touched if isinstance(o, int)}))
    # API side
    ab = [o for o, p in typed_offsets(prog, DNS, WATCHER)]
    absz = prog.type(WATCHER)["sz"]
    for cls, f, kind in api_entries(prog):
        if cls == THREAD:
            continue
        E = thr_engine(prog, rep)
        fn0 = f[2] if kind == "callback" else f
        if cls == LOOP and fn0.base == "run":
            coarse(E, 4)
            step_border(prog, E)
        this, sts = entry_states(prog, E, cls, kind, C)
        track_locks(E)
        mem0, dns_mutex = watch_common(E, f, fn0.dm)
        wp = worker(prog, E, State())

        def mem(E2, st, fr, i, p, size, store, v, cls=cls, kind=kind, mem0=mem0, who=fn0.dm, dns_mutex=dns_mutex, this=this):
            mem0(E2, st, fr, i, p, size, store, v)
            if cls == DNS and is_ptr(p) and p[1] == this[1] and isinstance(p[2], int):
                o = p[2] - this[2]
                node = P(this[1], this[2] + prog.foff(DNS, "work_queue_node"))
                for to, tn, ts in touched:
                    if (ts or store) and overlaps(o, size, to, tn):
                        if E2.stack and any(x.base.startswith("~") and x.scope == DNS for x in list(E2.stack) + [fr.fn]) and not store:
                            pass
                        ex = E2.load(st, P(wp[1], wp[2] + C.wex), 8, "p")
                        free = st.g.get(("in", node)) == 0 and ex != this and (is_ptr(ex) or ex == 0)
                        if st.g.get(("idle-resolver", this)) == 1:
                            free = True if st.g.get(("in", node)) == 0 else free
                        rep.ob("request data is not touched while the worker may use it", free or dns_mutex in held(st), who, prog.loc(i),
                               "byte %d of the resolver is %s without the worker's mutex while the worker may use it" % (o, "written" if store else "read"),
                               "res%d" % o, path_of(prog, st))
                        break
        E.mem_hook = mem

        def cell(E2, st, p, v, mem=mem, who=fn0.dm):
            # standard-library members (strings, vectors) change
            class F:
                fn = fn0
            if cls == DNS and is_ptr(p) and p[1] == this[1] and E2.stack:
                mem(E2, st, F, {"l": None}, p, 8, True, v)
        E.cell_hook = cell

        def user(E2, st, fr, i, fp, args, who=fn0.dm, cls=cls, this=this):
            if cls == DNS:
                for a in args:
                    if is_ptr(a):
                        tgt = a
                        inside = tgt[1] == this[1] and any(overlaps(tgt[2] - this[2], 1, to, tn) and ts for to, tn, ts in touched)
                        if not inside:
                            # a reference may be passed through a pointer cell
                            x = E2.load(st.copy(), a, 8, "p") if a[1][0] == "al" else None
                            inside = is_ptr(x) and x[1] == this[1] and any(overlaps(x[2] - this[2], 1, to, tn) and ts for to, tn, ts in touched)
                        rep.ob("handler gets results the worker cannot change any more", not inside, who, prog.loc(i),
                               "the handler is given a reference to memory the worker writes for the next request", "names", path_of(prog, st))
            return NotImplemented
        E.user_hook = user
        for st in sts:
            fn, r = run_entry(prog, E, cls, f, kind, this, st)
            rep.engine(E, r)
            for k, v, s in r:
                rep.ob("no lock kept", not held(s), fn.dm, where(prog, s, fn), "mutex still held when the function ends", "exit", path_of(prog, s))
    # functions documented as callable from other threads
    for cls, name in ((WATCHER, "call"), (LOOP, "cancel")):
        f = prog.one(cls + "::" + name)
        E = thr_engine(prog, rep)
        E.models.pop("crab::PerformanceStats::push_record", None)
        this, sts = entry_states(prog, E, cls, "method", C)
        track_locks(E, on_unlock=lambda E2, st, fr, i, a: st.g.__setitem__(("gone",), 1) if st.g.get(("published",)) else None)
        E.on("list.push", lambda E2, st, fr, i, k, l, x, c: st.g.__setitem__(("published",), 1) if l == C.fired_list else None)
        allowed_read = [(prog.foff(LOOP, "wake_fd"), prog.field(LOOP, "wake_fd")[1], "wake_fd")]
        qo = LOOPP[2] + C.lo + C.quit
        mo = C.links_mutex[2]
        muts = prog.type("std::mutex")["sz"] if prog.type("std::mutex") else 40

        def acc(E2, st, fr, i, p, size, store, f=f, cls=cls):
            if not is_ptr(p) or p[1][0] in ("al", "bv", "sd", "exo"):
                return
            if p[1][0] == "glob":
                g = prog.globals.get(p[1][1])
                if g is not None and not g.get("const"):
                    rep.ob("cross-thread calls use no per-thread or unguarded globals", "wake" in p[1][1] and False, f.dm, prog.loc(i),
                           "uses global %s" % p[1][1], str(p[1][1]), path_of(prog, st))
                return
            if p[1] == LOOPP[1]:
                o = p[2]
                ok = any(not store and overlaps(o, size, a, n) for a, n, _ in allowed_read) or o == qo or isinstance(o, int) and mo <= o < mo + muts
                ok = ok or C.links_mutex in held(st) and o == C.fired_list[2]
                rep.ob("cross-thread calls touch only shared state", ok, f.dm, prog.loc(i), "touches byte %s of the loop" % o, "loop%s" % o, path_of(prog, st))
            elif cls == WATCHER and p[1] == O.THIS[1]:
                o = p[2]
                okw = overlaps(o, size, C.wloop, 8) and not store or overlaps(o, size, C.wnode, 16) and C.links_mutex in held(st)
                rep.ob("cross-thread calls touch only shared state", okw, f.dm, prog.loc(i), "touches byte %s of the watcher" % o, "w%s" % o, path_of(prog, st))
                rep.ob("a called watcher is not touched after it was queued", st.g.get(("gone",)) != 1, f.dm, prog.loc(i),
                       "the watcher's handler may already have destroyed it", "gone", path_of(prog, st))
        E.mem_hook = lambda E2, st, fr, i, p, size, store, v: acc(E2, st, fr, i, p, size, store)

        def model(E2, st, fr, i, fn, args):
            for a in args[:1]:
                if is_ptr(a) and not fn.qual.startswith(("std::mutex", "llvm.")):
                    acc(E2, st, fr, i, a, 1, not fn.qual.startswith("std::atomic"))
        E.model_hook = model
        for st in sts:
            r = E.run(f, O.sym_args(prog, f, this), st)
            rep.engine(E, r)
            for k, v, s in r:
                rep.ob("no lock kept", not held(s), f.dm, where(prog, s, f), "mutex still held when the function ends", "exit", path_of(prog, s))
    # thread wrapper
    thread_rules(prog, rep, C, "C09")
    rep.need("queue of called watchers only under the loop's mutex", 6)
    rep.need("DNS work queue only under its mutex", 6)
    rep.need("DNS worker state only under its mutex", 10)
    rep.need("request data is not touched while the worker may use it", 6)
    rep.need("cross-thread calls touch only shared state", 4)
    rep.need("thread handshake state only under its mutex", 5)


def run_worker(prog, rep, C, watch, touched, extra=None):
    """interpret the DNS worker's thread function; other threads may change anything guarded whenever it takes the mutex"""
    ctor = ctor_of(prog, WORKER)
    E0 = O.engine(prog)
    wp = worker(prog, E0, State())
    body, margs, s0 = thread_starts(prog, ctor, wp)[0]
    E = thr_engine(prog, rep)
    E.exit_limit = 60
    E.loop_limit = 60
    st = s0
    E.apart = {RES[1], wp[1]}
    st.cons[S(RES[1][1], 64)] = ((8, mask(64)),)
    dns_mutex = P(wp[1], wp[2] + C.wm)
    EX = P(wp[1], wp[2] + C.wex)
    Q = P(wp[1], wp[2] + C.wquit[0])
    wql = P(wp[1], wp[2] + C.wq)
    rnode = P(RES[1], RES[2] + prog.foff(DNS, "work_queue_node"))
    mem0, _ = watch(E, None, body.dm)
    for o, p in typed_offsets(prog, DNS, WATCHER):
        E.store(st, P(RES[1], RES[2] + o + C.wloop), 8, LOOPP)
    E.store(st, EX, 8, 0)

    def relock(E2, s, fr, i, a):
        if a == dns_mutex:
            for k in ("ne", "fr"):
                s.g.pop((k, wql), None)
            for n, (o, sz) in C.wfields.items():
                if n != "executing_request" and o != C.wq:
                    E2.store_havoc(s, P(wp[1], wp[2] + o), sz)
    # the lock model returns two states: the request is still wanted, or somebody cancelled it
    lockm = E.models["std::mutex::lock"]

    def lock(E2, s, fr, i, args, fn):
        lockm(E2, s, fr, i, args, fn)
        if args[0] != dns_mutex:
            return None
        ex = E2.load(s, EX, 8, "p")
        out = [s]
        s.g[("own",)] = 1 if ex == RES else 0        # nobody else can touch the request until the mutex is released
        if ex != 0:
            s2 = s.copy()
            s2.g[("own",)] = 0
            E2.store(s2, EX, 8, 0)
            s2.g[("wasex",)] = 0
            s2.g[("exv",)] = 0
            out.append(s2)
        return quits(E2, out)
    E.models["std::mutex::lock"] = lock
    unlockm = E.models["std::mutex::unlock"]

    def unlock(E2, s, fr, i, args, fn):
        if args[0] == dns_mutex:
            s.g.pop(("own",), None)
        return unlockm(E2, s, fr, i, args, fn)
    E.models["std::mutex::unlock"] = unlock

    def quits(E2, l):
        out = []
        for x in l:
            y = x.copy()
            for z, q in ((x, 0), (y, 1)):
                E2.store(z, Q, C.wquit[1], q)
                z.g[("qv",)] = q
                out.append(("ret", None, z))
        return out
    waitm = E.models["std::condition_variable::wait"]

    def cvwait(E2, s, fr, i, args, fn):
        waitm(E2, s, fr, i, args, fn)
        s.g.pop(("own",), None)
        return quits(E2, [s])
    E.models["std::condition_variable::wait"] = cvwait
    track_locks(E, on_lock=relock, on_wait=lambda E2, s, fr, i, a: (extra and extra.get("wait") and extra["wait"](E2, s, fr, i), relock(E2, s, fr, i, dns_mutex), s.log(("waited", i, a, fr.fn))),
                on_unlock=None)

    def front(E2, s, fr, i, kind, l, x, q):
        pass
    fm = repo_models.m_list_front

    def m_front(E2, s, fr, i, args, fn):
        if args[0] == wql:
            if s.g.get(("fr", wql)) != rnode:      # some request, about which nothing is known
                E2.store_havoc(s, P(RES[1], 0), None)
                for o, p in typed_offsets(prog, DNS, WATCHER):
                    E2.store(s, P(RES[1], RES[2] + o + C.wloop), 8, LOOPP)
                s.g.pop(("host0",), None)
            s.g[("fr", wql)] = rnode
        return fm(E2, s, fr, i, args, fn)
    E.pats.insert(0, (lambda q, dm: q.startswith("crab::IntrusiveList<%s," % DNS) and q.endswith("::front"), m_front))

    def sync(E2, s, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        E2.emit_ev(s, fr, i, "resolve", a, fn, None)
        s.log(("resolve", i, None, fr.fn))
        E2.store_havoc(s, sret, 24)
        return None
    E.models[DNS + "::sync_resolve"] = sync

    def mem(E2, s, fr, i, p, size, store, v):
        mem0(E2, s, fr, i, p, size, store, v)
        if store and p == Q:
            s.g[("qv",)] = v if isinstance(v, int) else None
        if store and p == EX:
            s.g[("exv",)] = 1 if v == RES else 0 if v == 0 else None
        if is_ptr(p) and p[1] == RES[1]:
            o = p[2] - RES[2] if isinstance(p[2], int) else p[2]
            inside_watcher = any(isinstance(o, int) and a + C.wloop <= o < a + C.wloop + 8 for a, _ in typed_offsets(prog, DNS, WATCHER))
            touched.append((o, size if isinstance(size, int) else 8, store))
            rep.ob("worker touches a request only under its mutex", dns_mutex in held(s), body.dm, prog.loc(i),
                   "byte %s of the request is %s without the worker's mutex" % (o, "written" if store else "read"), "req%s" % o, path_of(prog, s))
            ex = E2.load(s, EX, 8, "p")
            rep.ob("worker uses only the request it is executing", ex == RES or s.g.get(("own",)) == 1 or s.g.get(("fr", wql)) == rnode, body.dm, prog.loc(i),
                   "uses a request that may have been cancelled and destroyed", "ex%s" % o, path_of(prog, s))
            if extra and "mem" in extra:
                extra["mem"](E2, s, fr, i, p, size, store, v, EX)
    E.mem_hook = mem

    def cell(E2, s, p, v):
        if is_ptr(p) and p[1] == RES[1] and E2.stack:
            class F:
                fn = body
            mem(E2, s, F, {"l": None}, p, v and (24 if v[0] == "vec" else 32) or 8, True, v)
    E.cell_hook = cell
    if extra and "setup" in extra:
        extra["setup"](E, EX, wp, dns_mutex, wql, rnode)
    r = E.run(body, margs, st)
    return (body, margs, st), E, r


def thread_rules(prog, rep, C, prop):
    """obligations about crab::Thread; each property keeps its own"""
    ctor = ctor_of(prog, THREAD)
    this = O.THIS
    mu = P(this[1], this[2] + C.tm)
    RP = "run_loop_ptr"
    po = P(this[1], this[2] + prog.foff(THREAD, RP))
    tho = only(prog, THREAD, "std::thread", "thread")
    thsz = prog.type("std::thread")["sz"] if prog.type("std::thread") else 8
    ob = rep.ob if prop is not None else (lambda *a, **k: True)

    def mine(p, rule, *a, **k):
        if prop == p:
            rep.ob(rule, *a, **k)

    def guard(E, who, exempt):
        def mem(E2, st, fr, i, p, size, store, v):
            if not is_ptr(p) or p[1] != this[1] or exempt(st):
                return
            for n, (o, sz) in C.tfields.items():
                if overlaps(p[2] - this[2] if isinstance(p[2], int) else p[2], size, o, sz):
                    mine("C09", "thread handshake state only under its mutex", mu in held(st), who, prog.loc(i),
                         "%s is %s without the mutex" % (n, "written" if store else "read"), n, path_of(prog, st))
        return mem
    # --- thread body
    body, margs, s0 = thread_starts(prog, ctor, this)[0]
    E = thr_engine(prog, rep)
    E.apart = {this[1], ("*", ("closure",))}
    finals = []
    for o, sz in C.tfields.values():
        E.store(s0, P(this[1], this[2] + o), sz, 0)
    waitfields = []
    LC, LD = LOOP + "::RunLoop", LOOP + "::~RunLoop"

    def loop_ctor(E2, st, fr, i, args, fn):
        st.g[("loop",)] = args[0]
        st.log(("loop.ctor", i, None, fr.fn))
        s2 = st.copy()
        s2.g.pop(("loop",))
        return [("ret", None, st), ("exc", Exc("std::runtime_error", P(("exo", "std::runtime_error"), 0)), s2)]

    def loop_dtor(E2, st, fr, i, args, fn):
        st.log(("loop.dtor", i, None, fr.fn))
        v = E2.load(st, po, 8, "p")
        mine("C12", "pointer withdrawn before the loop is destroyed", v == 0, body.dm, prog.loc(i), "another thread can still reach the loop while it is destroyed",
             "dtor", path_of(prog, st))
        st.g.pop(("loop",), None)
        return None
    E.models[LC], E.models[LD] = loop_ctor, loop_dtor

    def on_unlock(E2, st, fr, i, a):
        if a != mu:
            return
        if st.g.get(("opened",)) == 1 and not st.g.get(("passed",)):
            st.g[("passed",)] = 1
            v = E2.load(st, po, 8, "p")
            mine("C12", "loop published before the constructor may return", st.g.get(("loop",)) is not None and v == st.g.get(("loop",)), body.dm, prog.loc(i),
                 "the constructor may return before its loop can be reached", "publish", path_of(prog, st))
    track_locks(E, on_unlock=on_unlock)
    g0 = guard(E, body.dm, lambda st: False)

    def mem(E2, st, fr, i, p, size, store, v):
        g0(E2, st, fr, i, p, size, store, v)
        if store and is_ptr(p) and p[1] == this[1]:
            if p == po and v != 0:
                mine("C12", "only a constructed loop is published", st.g.get(("loop",)) is not None and v == st.g.get(("loop",)), body.dm, prog.loc(i),
                     "a loop pointer is published that does not refer to a constructed loop", "ptr", path_of(prog, st))
            for n, (o, sz) in C.tfields.items():
                if p == P(this[1], this[2] + o):
                    if v != 0:
                        st.g[("opened",)] = 1
                    if v != 0:
                        st.g[("changed",)] = 1
    E.mem_hook = mem
    E.on("cv.notify", lambda E2, st, fr, i, k, a, args, c: st.g.__setitem__(("changed",), 0))

    def user(E2, st, fr, i, fp, args):
        mine("C12", "thread function runs only after the loop was published", st.g.get(("opened",)) == 1, body.dm, prog.loc(i),
             "the constructor waits until the thread function ends", "early", path_of(prog, st))
        mine("C10", "a changed condition is notified before anything that may take long", st.g.get(("changed",)) == 0, body.dm, prog.loc(i),
             "the constructor is not woken before the thread function runs", "notify", path_of(prog, st))
        mine("C10", "no user code under a lock", not held(st), body.dm, prog.loc(i), "thread function runs with a mutex held", "user", path_of(prog, st))
        st.g[("ran",)] = 1
        s2 = st.copy()
        s2.g[("threw",)] = 1
        return [("ret", None, st), ("exc", Exc(None, P(("exo", "user"), 0)), s2)]
    E.user_hook = user
    r = E.run(body, margs, s0)
    rep.engine(E, r)
    seen = set()
    for k, v, s in r:
        mine("C10", "no lock kept", not held(s), body.dm, where(prog, s, body), "mutex held when the thread ends", "exit", path_of(prog, s))
        mine("C09", "no lock kept", not held(s), body.dm, where(prog, s, body), "mutex held when the thread ends", "exit", path_of(prog, s))
        if s.g.get(("ran",)):
            seen.add(k)
            finals.append(s)
            mine("C12", "the loop is destroyed when the thread function ends", s.g.get(("loop",)) is None, body.dm, where(prog, s, body), "loop still there", "gone",
                 path_of(prog, s))
    if "ret" not in seen:
        raise AnalysisError("thread body never returns")
    if "exc" not in seen:
        rep.notes.append("the thread function's exceptions do not leave the thread body")
    # --- constructor
    nstart = []
    for fin in [None] + finals:
        E = thr_engine(prog, rep)
        E.apart = {this[1], ("*", ("arg", 1))}

        def start(E2, st, fr, i, kind, a, args, c, fin=fin):
            nstart.append(1)
            st.g[("started",)] = 1
            for n, (o, sz) in C.tfields.items():
                v = E2.load(st, P(this[1], this[2] + o), sz, "i%d" % (8 * sz))
                mine("C12", "everything is initialised before the thread starts", E2.const_of(st, v) == 0, ctor.dm, prog.loc(i),
                     "%s is not initialised when the thread starts" % n, n, path_of(prog, st))
                if fin is None:
                    E2.store_havoc(st, P(this[1], this[2] + o), sz)
                else:
                    E2.store(st, P(this[1], this[2] + o), sz, E2.load(fin.copy(), P(this[1], this[2] + o), sz, "i%d" % (8 * sz)))
        E.on("thread.start", start)

        def wait(E2, st, fr, i, a, fin=fin):
            mine("C10", "every wait is on a condition that stays true", fin is None, ctor.dm, prog.loc(i),
                 "waits although the thread has already been through: nobody will notify again", "missed", path_of(prog, st))
            mine("C10", "waits hold the mutex of their condition", mu in held(st), ctor.dm, prog.loc(i), "wait without the mutex", "mutex", path_of(prog, st))
            st.g[("waited",)] = 1
            for n, (o, sz) in C.tfields.items():
                if fin is None:
                    E2.store_havoc(st, P(this[1], this[2] + o), sz)
        def unl(E2, st, fr, i, a):
            mine("C10", "every wait re-checks its condition", st.g.get(("waited",)) != 1, ctor.dm, prog.loc(i), "the condition is not checked after waiting", "recheck",
                 path_of(prog, st))
        track_locks(E, on_wait=wait, on_unlock=unl)
        g1 = guard(E, ctor.dm, lambda st: st.g.get(("started",)) != 1)

        def mem(E2, st, fr, i, p, size, store, v, g1=g1):
            if is_ptr(p) and p[1] == this[1] and st.g.get(("started",)) == 1 and isinstance(p[2], int):
                o = p[2] - this[2]
                if not store and any(overlaps(o, size, a, n) for a, n in C.tfields.values()):
                    st.g[("waited",)] = 0
                if store and not (tho <= o < tho + thsz):
                    mine("C12", "everything is initialised before the thread starts", mu in held(st), ctor.dm, prog.loc(i),
                         "byte %d is initialised after the thread was started" % o, "late%d" % o, path_of(prog, st))
            g1(E2, st, fr, i, p, size, store, v)
        E.mem_hook = mem

        def model(E2, st, fr, i, fn, args):
            if st.g.get(("started",)) == 1 and args and is_ptr(args[0]) and args[0][1] == this[1] and fn.scope and \
                    fn.base == fn.scope.rsplit("::", 1)[1].split("<")[0] and not tho <= args[0][2] - this[2] < tho + thsz:
                mine("C12", "everything is initialised before the thread starts", False, ctor.dm, prog.loc(i), "%s runs after the thread was started" % fn.qual,
                     fn.qual, path_of(prog, st))
        E.model_hook = model
        r = E.run(ctor, O.sym_args(prog, ctor, this), State())
        rep.engine(E, r)
        rets = [s for k, v, s in r if k == "ret"]
        mine("C10", "the constructor returns once the thread is through", bool(rets), ctor.dm, fwhere(prog, ctor), "waits for ever", "never")
        for s in rets:
            mine("C09", "no lock kept", not held(s), ctor.dm, where(prog, s, ctor), "mutex held", "exit", path_of(prog, s))
            mine("C10", "no lock kept", not held(s), ctor.dm, where(prog, s, ctor), "mutex held", "exit", path_of(prog, s))
            if fin is None:
                # what must be true on return is established only by the body's publication
                ok = published_implied(prog, E, s, C, this)
                mine("C12", "the constructor returns only after the loop exists", ok, ctor.dm, where(prog, s, ctor), "may return before the loop exists", "ret",
                     path_of(prog, s))
    if not nstart:
        raise AnalysisError("no thread started")
    # --- cancel
    f = prog.one(THREAD + "::cancel")
    for val in (0, LOOPP):
        E = thr_engine(prog, rep)
        E.apart = {this[1], LOOPP[1]}
        st = State()
        E.store(st, po, 8, val)
        st.cons[S(LOOPP[1][1], 64)] = ((1, mask(64)),)
        track_locks(E)
        g2 = guard(E, f.dm, lambda st: False)
        E.mem_hook = g2

        def lc(E2, st, fr, i, args, fn):
            st.log(("loop.cancel", i, args[0], fr.fn))
            mine("C12", "the loop is reached only while it cannot be destroyed", mu in held(st), f.dm, prog.loc(i), "loop used without the mutex", "mutex",
                 path_of(prog, st))
            mine("C12", "the loop is reached only while it cannot be destroyed", args[0] == LOOPP and val != 0, f.dm, prog.loc(i), "a loop that is gone is used", "gone",
                 path_of(prog, st))
            return None
        E.models[LOOP + "::cancel"] = lc
        r = E.run(f, [this], st)
        rep.engine(E, r)
        for k, v, s in r:
            n = len([e for e in s.trace() if e[0] == "loop.cancel"])
            mine("C12", "cancel reaches the loop while it exists", n == (1 if val != 0 else 0) or n > 1 and val != 0, f.dm, where(prog, s, f),
                 "cancels %d loops" % n, "n", path_of(prog, s))
            for p in ("C09", "C10"):
                mine(p, "no lock kept", not held(s), f.dm, where(prog, s, f), "mutex held", "exit", path_of(prog, s))
    # --- destructor
    d = member_dtor(prog, THREAD)
    for val in (0, LOOPP):
        E = thr_engine(prog, rep)
        E.apart = {this[1], LOOPP[1]}
        st = State()
        E.store(st, po, 8, val)
        st.cons[S(LOOPP[1][1], 64)] = ((1, mask(64)),)
        track_locks(E)
        E.mem_hook = guard(E, d.dm, lambda st: st.g.get(("joined",)) == 1)
        E.models[LOOP + "::cancel"] = lambda E2, st, fr, i, args, fn: st.log(("loop.cancel", i, args[0], fr.fn))

        def join(E2, st, fr, i, kind, a, args, c):
            st.g[("joined",)] = 1
            mine("C10", "no waiting for a thread under a lock", not held(st), d.dm, prog.loc(i), "joins a thread with a mutex held", "join", path_of(prog, st))
            n = len([e for e in st.trace() if e[0] == "loop.cancel"])
            mine("C12", "the loop is cancelled before the thread is joined", n > 0 or val == 0, d.dm, prog.loc(i), "joins a thread nobody told to stop", "cancel",
                 path_of(prog, st))
        E.on("thread.join", join)
        r = E.run(d, [this], st)
        rep.engine(E, r)
        for k, v, s in r:
            j = [e for e in s.trace() if e[0] == "thread.join"]
            unj = any(x[0] == "s" and "joinable" in repr(x[1]) and E.const_of(s, x) == 0 for x in s.cons if isinstance(x, tuple))
            mine("C12", "destruction joins the thread", len(j) == 1 or unj and not j, d.dm, where(prog, s, d), "%d joins" % len(j), "join", path_of(prog, s))
            for p in ("C09", "C10"):
                mine(p, "no lock kept", not held(s), d.dm, where(prog, s, d), "mutex held", "exit", path_of(prog, s))


def published_implied(prog, E, s, C, this):
    """some handshake field is known to be set when the constructor returns"""
    for n, (o, sz) in C.tfields.items():
        v = E.load(s, P(this[1], this[2] + o), sz, "i%d" % (8 * sz))
        if is_ptr(v):
            v = E.ptr2int(v)
        if E.decide(s, E.icmp(s, "ne", v, 0, 8 * sz)) is True:
            return True
    return False


# ------------------------------------------------------------------ C10

def lock_functions(prog):
    """every function that takes a mutex itself, for the count in the evidence"""
    return [f for f in prog.fn.values() if f.bb is not None and prog.in_repo(f) and
            any(c is not None and c.qual.startswith(("std::mutex::lock", "std::unique_lock<", "std::lock_guard<")) and c.base in ("lock", "unique_lock", "lock_guard")
                for i, c in prog.calls(f))]


def C10(prog, rep):
    C = Ctx(prog)
    edges = {}
    covered = set()

    def kindname(p, wp):
        if p == C.links_mutex or isinstance(p[2], int) and (p[2] - C.lo - C.lm) == 0:
            return "loop mutex"
        if p[1] == wp[1]:
            return "DNS worker mutex"
        return "thread mutex" if p[1] == O.THIS[1] else repr(p)

    def install(E, who, wp):
        def locking(E2, st, fr, i, kind, a, h, c):
            covered.update(f.name for f in list(E2.stack) + [fr.fn])
            rep.ob("no mutex is locked twice", a not in h, who, prog.loc(i), "locks a mutex it already holds", kindname(a, wp), path_of(prog, st))
            for x in h:
                if x != a:
                    edges.setdefault((kindname(x, wp), kindname(a, wp)), (who, prog.loc(i), path_of(prog, st)))
        E.on("locking", locking)

        def sysh(E2, st, fr, i, name, args, res, sign):
            if held(st):
                rep.ob("no blocking call under a lock", name not in BLOCKING and name not in ("recv", "recvmsg", "recvfrom", "connect", "accept", "accept4"), who,
                       prog.loc(i), "%s() while a mutex is held" % name, name, path_of(prog, st))
        E.sys_hook = sysh

        def model(E2, st, fr, i, fn, args):
            if held(st) and (any(fn.qual.startswith(b) and not fn.qual.startswith("std::condition_variable") for b in BLOCKING_STD) or fn.name in BLOCKING):
                rep.ob("no blocking call under a lock", False, who, prog.loc(i), "%s while a mutex is held" % fn.qual, fn.qual, path_of(prog, st))
        E.model_hook = model
        E.on("thread.join", lambda E2, st, fr, i, k, a, args, c: rep.ob("no waiting for a thread under a lock", not held(st), who, prog.loc(i),
                                                                        "joins a thread with a mutex held", "join", path_of(prog, st)))

        def resolve(E2, st, fr, i, k, a, args, c):
            rep.ob("no blocking call under a lock", not held(st), who, prog.loc(i), "resolves a name with a mutex held", "resolve", path_of(prog, st))
        E.on("resolve", resolve)

        def user(E2, st, fr, i, fp, args):
            rep.ob("no user code under a lock", not held(st), who, prog.loc(i), "a user handler runs with a mutex held", "user", path_of(prog, st))
            h = held(st)
            E2.havoc_world(st)
            st.g[HELD] = h
            s2 = st.copy()
            return [("ret", E2.topt(st, fr, i), st), ("exc", Exc(None, P(("exo", "user"))), s2)]
        E.user_hook = user

    def notify_rules(E, who, wp, fields, base, mutex):
        """the condition changes under the mutex and is announced afterwards"""
        def changed(st):
            st.g[("changed",)] = 1
        E.on("cv.notify", lambda E2, st, fr, i, k, a, args, c: st.g.__setitem__(("changed",), 0) if a[1] == base[1] else None)
        return changed
    for cls, f, kind in api_entries(prog):
        if cls == THREAD:
            continue
        E = thr_engine(prog, rep)
        fn0 = f[2] if kind == "callback" else f
        if cls == LOOP and fn0.base == "run":
            coarse(E, 4)
            step_border(prog, E)
        this, sts = entry_states(prog, E, cls, kind, C)
        wp = worker(prog, E, State())
        dns_mutex = P(wp[1], wp[2] + C.wm)
        wql = P(wp[1], wp[2] + C.wq)
        track_locks(E)
        install(E, fn0.dm, wp)
        changed = notify_rules(E, fn0.dm, wp, C.wfields, wp, dns_mutex)
        E.on("list.push", lambda E2, st, fr, i, k, l, x, c: changed(st) if l == wql else None)
        for st in sts:
            fn, r = run_entry(prog, E, cls, f, kind, this, st)
            rep.engine(E, r)
            for k, v, s in r:
                rep.ob("no lock kept", not held(s), fn.dm, where(prog, s, fn), "mutex still held when the function ends", "exit", path_of(prog, s))
                rep.ob("a changed condition is notified", s.g.get(("changed",), 0) == 0, fn.dm, where(prog, s, fn), "the DNS worker is not woken", "notify",
                       path_of(prog, s))
    # the worker itself and its destructor
    def setup(E, EX, wp, dns_mutex, wql, rnode):
        install(E, "DNS worker thread", wp)
        old = E.mem_hook

        def mem(E2, s, fr, i, p, size, store, v):
            old(E2, s, fr, i, p, size, store, v)
            if not store and is_ptr(p) and p[1] == wp[1] and any(overlaps(p[2], size, wp[2] + o, sz) for n, (o, sz) in C.wfields.items() if n != "executing_request"):
                s.g[("waited",)] = s.g.get(("waited",), 0) & 2 and 0
        E.mem_hook = mem

        def wait(E2, s, fr, i):
            rep.ob("waits hold the mutex of their condition", dns_mutex in held(s), "DNS worker thread", prog.loc(i), "waits without the mutex", "mutex", path_of(prog, s))
            # everything a notifier may have changed was looked at since the mutex was taken
            rep.ob("nothing is missed before waiting", s.g.get(("ne", wql)) == 0, "DNS worker thread", prog.loc(i), "waits although the queue may not be empty", "queue",
                   path_of(prog, s))
            q = E2.load(s, P(wp[1], wp[2] + C.wquit[0]), C.wquit[1], "i8")
            rep.ob("nothing is missed before waiting", E2.decide(s, E2.icmp(s, "eq", q, 0, 8)) is True, "DNS worker thread", prog.loc(i),
                   "waits although it may have been told to quit", "quit", path_of(prog, s))
            s.g[("waited",)] = 1
        extra["wait"] = wait
        E.on("list.empty", lambda E2, s, fr, i, k, l, was, c: s.g.__setitem__(("waited",), 0) if l == wql else None)
        E.on("list.front", lambda E2, s, fr, i, k, l, was, c: rep.ob("every wait re-checks its condition", s.g.get(("waited",), 0) == 0 and s.g.get(("ne", wql)) == 1,
                                                                     "DNS worker thread", prog.loc(i), "takes work without checking that there is any",
                                                                     "front", path_of(prog, s)) if l == wql else None)
    # order matters: the waited ghost is set after run_worker's own wait handling
    extra = {"setup": setup}

    def no_watch(E, f, who):
        return (lambda *a: None), None
    (body, margs, st0), E, r = run_worker(prog, Silent(rep), C, no_watch, [], extra)
    rep.engine(E, r)
    for k, v, s in r:
        rep.ob("no lock kept", not held(s), body.dm, where(prog, s, body), "mutex held when the thread ends", "exit", path_of(prog, s))
    d = member_dtor(prog, WORKER)
    E = thr_engine(prog, rep)
    wp = worker(prog, E, State())
    dns_mutex = P(wp[1], wp[2] + C.wm)
    track_locks(E)
    install(E, d.dm, wp)
    st = State()
    qp = P(wp[1], wp[2] + C.wquit[0])

    def mem(E2, s, fr, i, p, size, store, v):
        if store and p == qp and v != 0:
            rep.ob("conditions change under their mutex", dns_mutex in held(s), d.dm, prog.loc(i), "quit is set without the mutex", "quit", path_of(prog, s))
            s.g[("changed",)] = 1
    E.mem_hook = mem
    E.on("cv.notify", lambda E2, s, fr, i, k, a, args, c: s.g.__setitem__(("changed",), 0))
    E.on("thread.join", lambda E2, s, fr, i, k, a, args, c: rep.ob("a changed condition is notified", s.g.get(("changed",)) == 0, d.dm, prog.loc(i),
                                                                  "joins a thread that was not told to stop", "quit", path_of(prog, s)))
    r = E.run(d, [wp], st)
    rep.engine(E, r)
    for k, v, s in r:
        rep.ob("no lock kept", not held(s), d.dm, where(prog, s, d), "mutex held", "exit", path_of(prog, s))
    thread_rules(prog, rep, C, "C10")
    # consistent order
    for (a, b), (who, loc, pth) in sorted(edges.items()):
        rep.ob("mutexes are taken in one order", (b, a) not in edges, who, loc, "%s is taken while %s is held, elsewhere the other way round" % (b, a), a + ">" + b, pth)
        rep.sample("lock order: %s before %s (%s)" % (a, b, loc))
    # cycles longer than two
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)

    def reach(x, y, seen):
        return any(n == y or n not in seen and not seen.add(n) and reach(n, y, seen) for n in g.get(x, ()))
    for a in g:
        rep.ob("mutexes are taken in one order", not reach(a, a, set()), None, None, "cycle through %s" % a, "cycle " + a)
    # every function that takes a lock was reached
    missed = [f for f in lock_functions(prog) if f.name not in covered and f.scope not in (THREAD, WORKER) and THREAD not in f.qual]
    for f in missed:
        raise AnalysisError("%s takes a mutex but is not reached from any entry point" % f.dm)
    rep.count("functions_taking_a_mutex", len(lock_functions(prog)))
    rep.need("no mutex is locked twice", 8)
    rep.need("mutexes are taken in one order", 1)
    rep.need("every wait re-checks its condition", 2)
    rep.need("nothing is missed before waiting", 2)


class Silent:
    """a report that keeps no obligations: for analyses whose obligations belong to another property"""

    def __init__(self, rep):
        self.fns = rep.fns

    def ob(self, *a, **k):
        return True

    def __getattr__(self, n):
        return lambda *a, **k: None


# ------------------------------------------------------------------ C11

WAKES = ("eventfd_write", "write", "send")


def C11(prog, rep):
    C = Ctx(prog)
    # Watcher::call: recorded, then woken
    f = prog.one(WATCHER + "::call")
    E = thr_engine(prog, rep)
    this, sts = entry_states(prog, E, WATCHER, "method", C)
    wfd = prog.foff(LOOP, "wake_fd")
    node = P(this[1], this[2] + C.wnode)
    wakefd = lambda E2, s: E2.load(s, P(LOOPP[1], LOOPP[2] + wfd), 4, "i32")
    qp = P(LOOPP[1], LOOPP[2] + C.lo + C.quit)

    def woken(E2, s, after):
        fd = wakefd(E2, s.copy())
        return [e for k, e in enumerate(s.trace()) if k > after and e[0] == "sys" and e[2] in WAKES and e[4][0] == fd]
    for st in sts:
        r = E.run(f, [this], st)
        rep.engine(E, r)
        n = 0
        for k, v, s in r:
            if k != "ret":
                continue
            n += 1
            t = s.trace()
            push = [j for j, e in enumerate(t) if e[0] == "list.push" and e[2] == (C.fired_list, node)]
            rep.ob("a called watcher is recorded", bool(push), f.dm, where(prog, s, f), "the call is not recorded in the queue of the watcher's loop", "push", path_of(prog, s))
            if push:
                last = [e for e in t[push[-1]:] if e[0] == "node.unlink" and e[2] == node]
                rep.ob("a called watcher is recorded", not last, f.dm, where(prog, s, f), "taken out of the queue again", "unlink", path_of(prog, s))
                rep.ob("the loop is woken after the notification was recorded", bool(woken(E, s, push[-1])), f.dm, where(prog, s, f),
                       "the loop is not woken after the watcher was queued", "wake", path_of(prog, s))
        if not n:
            raise AnalysisError("Watcher::call never returns")
    # RunLoop::cancel
    f = prog.one(LOOP + "::cancel")
    E = thr_engine(prog, rep)
    this, sts = entry_states(prog, E, LOOP, "method", C)

    def quit_store(E2, st, fr, i, v):
        st.log(("quit.store", i, v, fr.fn))
    watch_quit(E, qp, quit_store, None)
    for st in sts:
        r = E.run(f, [this], st)
        rep.engine(E, r)
        for k, v, s in r:
            if k != "ret":
                continue
            t = s.trace()
            q = [j for j, e in enumerate(t) if e[0] == "quit.store"]
            rep.ob("cancel sets the stop flag", bool(q) and const_true(E, s, t[q[-1]][2]), f.dm, where(prog, s, f), "the stop flag is not set", "quit", path_of(prog, s))
            if q:
                rep.ob("the loop is woken after the stop flag was set", bool(woken(E, s, q[-1])), f.dm, where(prog, s, f), "the loop is not woken after the flag was set",
                       "wake", path_of(prog, s))
    # wake handler
    cbs = [x for x in O.callbacks(prog, LOOP)]
    wc = prog.foff(LOOP, "wake_callable")
    csz = prog.type(CALLABLE)["sz"]
    hs = [x for x in cbs if wc <= x[1] < wc + csz]
    if len(hs) != 1:
        raise AnalysisError("no handler is bound to the wake-up descriptor")
    name, off, inv = hs[0]
    E = thr_engine(prog, rep)
    this, sts = entry_states(prog, E, LOOP, "callback", C)
    trig = P(LOOPP[1], LOOPP[2] + C.lo + C.trig)
    hoff = only(prog, WATCHER, CALLABLE, "handler")
    noff = hoff + node_off(prog)

    def looked(E2, st, fr, i, what):
        rep.ob("the wake-up is re-armed before notifications are looked for", st.g.get(("rearmed",)) == 1, inv.dm, prog.loc(i),
               "notifications recorded after this look and before the wake-up is re-armed are lost", what, path_of(prog, st))

    def sysh(E2, st, fr, i, nm, args, res, sign):
        if nm in ("eventfd_read", "read", "recv") and args[0] == wakefd(E2, st):
            st.g[("rearmed",)] = 1
    E.sys_hook = sysh
    E.on("list.empty", lambda E2, st, fr, i, k, l, was, c: looked(E2, st, fr, i, "empty") if l == C.fired_list else None)
    E.on("list.front", lambda E2, st, fr, i, k, l, was, c: looked(E2, st, fr, i, "front") if l == C.fired_list else None)

    def unl(E2, st, fr, i, k, n, was, q):
        if is_ptr(n) and q.startswith("crab::IntrusiveNode<%s>" % WATCHER):
            rep.ob("every recorded notification is passed on", st.g.get(("pend",)) is None, inv.dm, prog.loc(i), "a taken notification is dropped", "drop",
                   path_of(prog, st))
            if st.g.get(("pre", n[1])) == 1:
                st.g.pop(("pre", n[1]))
            else:
                st.g[("pend",)] = n[1]
    E.on("node.unlink", unl)

    def push(E2, st, fr, i, k, l, x, q):
        nd = x[0]
        if l == trig:
            ok = is_ptr(nd) and nd[2] == noff and (st.g.get(("pend",)) in (None, nd[1]))
            rep.ob("every recorded notification is passed on", ok, inv.dm, prog.loc(i), "another object's handler is queued", "wrong", path_of(prog, st))
            if st.g.get(("pend",)) == nd[1]:
                st.g.pop(("pend",))
            else:
                st.g[("pre", nd[1])] = 1
    E.on("list.push", push)
    track_locks(E)
    for st in sts:
        r = O.run_callback(prog, E, LOOP, off, inv, st=st, this=this)
        rep.engine(E, r)
        n = 0
        for k, v, s in r:
            rep.ob("the wake-up handler never fails", k == "ret", inv.dm, where(prog, s, inv), "exception", "exc", path_of(prog, s))
            n += 1
            rep.ob("all recorded notifications are taken", s.g.get(("ne", C.fired_list)) == 0, inv.dm, where(prog, s, inv),
                   "notifications may be left in the queue although the wake-up was consumed", "rest", path_of(prog, s))
            rep.ob("every recorded notification is passed on", s.g.get(("pend",)) is None, inv.dm, where(prog, s, inv), "a taken notification is dropped", "dropend",
                   path_of(prog, s))
            rep.ob("the wake-up is re-armed", s.g.get(("rearmed",)) == 1, inv.dm, where(prog, s, inv), "the wake-up descriptor is not read", "read", path_of(prog, s))
        if not n:
            raise AnalysisError("wake handler never returns")
    # the wake-up descriptor is watched
    ctor = ctor_of(prog, LOOP)
    E = thr_engine(prog, rep)
    regs = {}

    def atreg(E2, st, fr, i, nm, args, res, sign):
        if nm == "epoll_ctl" and E2.const_of(st, args[1]) == 1 and is_ptr(args[3]) and sign >= 0:
            fdv = args[2]
            ev = E2.load(st.copy(), args[3], 4, "i32")
            ptr = E2.load(st.copy(), P(args[3][1], args[3][2] + 4), 8, "p")
            st.g[("reg", repr(fdv))] = (has_bits(ev, 1), ptr == P(O.THIS[1], O.THIS[2] + wc))
    E.sys_hook = atreg
    r = E.run(ctor, O.sym_args(prog, ctor, O.THIS), State())
    rep.engine(E, r)
    nr = 0
    for k, v, s in r:
        if k != "ret":
            continue
        nr += 1
        fd = E.load(s.copy(), P(O.THIS[1], O.THIS[2] + wfd), 4, "i32")
        rep.ob("the wake-up descriptor is watched", s.g.get(("reg", repr(fd))) == (True, True), ctor.dm, where(prog, s, ctor),
               "the wake-up descriptor is not registered for reading with the wake-up handler", "reg", path_of(prog, s))
    if not nr:
        raise AnalysisError("RunLoop cannot be constructed")
    # run()
    run = prog.one(LOOP + "::run")
    E = thr_engine(prog, rep)
    coarse(E, 12)
    step_border(prog, E)
    this, sts = entry_states(prog, E, LOOP, "method", C)

    def chk(E2, st, fr, i, what):
        v = st.g.get(("qload",))
        ok = v is not None and E2.decide(st, E2.icmp(st, "eq", v, 0, 64 if isinstance(v, int) else v[2] if v[0] == "s" else 8)) is True
        rep.ob("the stop flag is checked before %s" % what, ok, run.dm, prog.loc(i), "the stop flag was not checked since the last handler or wait", what,
               path_of(prog, st))

    def qs(E2, st, fr, i, v):
        rep.ob("run() does not forget an earlier cancel", st.g.get(("qany",)) == 1, run.dm, prog.loc(i), "the stop flag is overwritten before it was looked at", "reset",
               path_of(prog, st))
        st.g[("qcleared",)] = 1

    def ql(E2, st, fr, i, v):
        st.g[("qany",)] = 1
        st.g[("qload",)] = v
    watch_quit(E, qp, qs, ql)

    def wait(E2, st, fr, i, kind, a, args, c):
        chk(E2, st, fr, i, "waiting")
        rep.ob("a set stop flag is not cleared while running", st.g.get(("qcleared",)) != 1, run.dm, prog.loc(i), "goes on after clearing the stop flag", "clear", path_of(prog, st))
        st.g.pop(("qload",), None)
    E.on("step", wait)

    def user(E2, st, fr, i, fp, args):
        rep.ob("run() returns at once when cancelled before", st.g.get(("qany",)) == 1, run.dm, prog.loc(i), "a handler runs before the stop flag is looked at", "first",
               path_of(prog, st))
        st.g.pop(("qload",), None)
        E2.havoc_world(st)
        set_current(prog, E2, st, LOOPP)
        return [("ret", None, st)]
    E.user_hook = user
    n = 0
    for st in sts:
        r = E.run(run, [this], st)
        rep.engine(E, r)
        for k, v, s in r:
            if k == "ret":
                n += 1
                q = s.g.get(("qseen",))
                rep.ob("run() ends only when cancelled", s.g.get(("qany",)) == 1, run.dm, where(prog, s, run), "returns without looking at the stop flag", "end", path_of(prog, s))
    if not n:
        raise AnalysisError("run() never returns")
    rep.need("the stop flag is checked before waiting", 2)
    rep.need("every recorded notification is passed on", 2)
    rep.need("the wake-up is re-armed before notifications are looked for", 1)


def const_true(E, s, v):
    if isinstance(v, int):
        return v != 0
    w = v[2] if v[0] == "s" else v[-1] if v[0] in ("zx", "sx", "tr", "lin") else 8
    return E.decide(s, E.icmp(s, "ne", v, 0, w)) is True


def watch_quit(E, qp, on_store, on_load):
    """accesses of the stop flag, atomic or not"""
    def st_(E2, st, fr, i, kind, a, v, c):
        if a == qp and on_store:
            on_store(E2, st, fr, i, v)
    E.on("atomic.store", st_)
    old = E.models.get("$atomic")
    pr = [k for k, (p, m) in enumerate(E.pats) if p("std::atomic<bool>::load", "")]
    if not pr:
        raise AnalysisError("no model of std::atomic")
    base = E.pats[pr[0]][1]

    def m(E2, st, fr, i, args, fn):
        r = base(E2, st, fr, i, args, fn)
        meth = sm.method_of(fn.qual)
        if args and args[0] == qp and on_load and (meth == "load" or meth.startswith("operator") and meth.endswith("bool")):
            on_load(E2, st, fr, i, r)
        return r
    E.pats.insert(0, (lambda q, dm: q.startswith(("std::atomic<", "std::__atomic_base<")), m))
    oldm = E.mem_hook

    def mem(E2, st, fr, i, p, size, store, v):
        if oldm:
            oldm(E2, st, fr, i, p, size, store, v)
        if p == qp and size == 1:
            if store and on_store:
                on_store(E2, st, fr, i, v)
            elif not store and on_load:
                on_load(E2, st, fr, i, E2.load(st, p, 1, "i8"))
    E.mem_hook = mem


def C12(prog, rep):
    C = Ctx(prog)
    thread_rules(prog, rep, C, "C12")
    rep.need("everything is initialised before the thread starts", 2)
    rep.need("pointer withdrawn before the loop is destroyed", 2)
    rep.need("the loop is reached only while it cannot be destroyed", 1)
    rep.need("destruction joins the thread", 2)
    rep.need("the constructor returns only after the loop exists", 1)


# ------------------------------------------------------------------ C13: dispatch order of RunLoop::run

def C13(prog, rep):
    C = Ctx(prog)
    run = prog.one(LOOP + "::run")
    E = thr_engine(prog, rep)
    coarse(E, 40)
    step_border(prog, E)
    this, sts = entry_states(prog, E, LOOP, "method", C)
    trig = P(LOOPP[1], LOOPP[2] + C.lo + C.trig)
    idle = P(LOOPP[1], LOOPP[2] + C.idle)
    ihoff = prog.foff("crab::Idle", "a_handler")
    inoff = prog.foff("crab::Idle", "idle_node")
    cn = node_off(prog)
    choff = prog.foff(CALLABLE, "handler")
    pt = prog.one(LINKS + "::process_timer")

    def settle(st):
        for k in [k for k in st.g if k[0] in ("polled", "timers", "pend", "rot", "unl")]:
            st.g.pop(k)

    def ptimer(E2, st, fr, i, args, fn):
        st.log(("timers", i, None, fr.fn))
        no_pending(E2, st, i)
        a = st.copy()
        repo_models.forget_lists(a)
        E2.havoc_world(a)
        set_current(prog, E2, a, LOOPP)
        settle(a)
        b = st
        b.g[("timers",)] = 1
        tv = S(("timeout", fr.ctx), 32)
        b2 = st.copy()
        E2.store(b2, args[1], 4, tv)
        b2.cons[tv] = ((1, 1 << 30),)
        return [("ret", 1, a), ("ret", 0, b), ("ret", 0, b2)]
    E.models[pt.qual] = ptimer

    def no_pending(E2, st, i):
        rep.ob("each event taken off the queue is delivered", st.g.get(("pend",)) is None, run.dm, prog.loc(i), "an event was taken off the queue without running its handler",
               "drop", path_of(prog, st))

    def unl(E2, st, fr, i, k, n, was, q):
        if not is_ptr(n):
            return
        if q.startswith("crab::IntrusiveNode<%s>" % CALLABLE):
            no_pending(E2, st, i)
            st.g[("pend",)] = P(n[1], n[2] - cn)
        elif q.startswith("crab::IntrusiveNode<crab::Idle>"):
            st.g[("unl",)] = n
    E.on("node.unlink", unl)

    def push(E2, st, fr, i, k, l, x, q):
        if l == idle:
            nd = x[0]
            back = q.endswith("::push_back")
            if st.g.get(("unl",)) == nd and back:
                st.g[("rot",)] = nd
        if l == trig:
            rep.ob("the loop queues no events itself", False, run.dm, prog.loc(i), "an event is queued by the dispatcher", "push", path_of(prog, st))
    E.on("list.push", push)

    def step(E2, st, fr, i, k, a, args, c):
        no_pending(E2, st, i)
        t = args[0] if args else None
        tc = E2.const_of(st, t) if t is not None else None
        rep.ob("never waits with an event queued", st.g.get(("ne", trig)) == 0 or tc == 0, run.dm, prog.loc(i), "may sleep although an event is queued", "queued", path_of(prog, st))
        rep.ob("never sleeps while an idle handler is active", st.g.get(("ne", idle)) == 0 or tc == 0, run.dm, prog.loc(i), "may sleep although an idle handler is active",
               "idle", path_of(prog, st))
        rep.ob("timers are served before waiting", st.g.get(("timers",)) == 1 or tc == 0, run.dm, prog.loc(i), "waits without having looked at the timers", "timers",
               path_of(prog, st))
        st.g[("polled",)] = 1
        st.g.pop(("unl",), None)
        st.g.pop(("rot",), None)
    E.on("step", step)

    def user(E2, st, fr, i, fp, args):
        # fp: the std::function object
        who = None
        if is_ptr(fp) and isinstance(fp[2], int):
            pend = st.g.get(("pend",))
            if pend is not None and fp[1] == pend[1]:
                who = "event"
                rep.ob("an event is off the queue while its handler runs", st.g.get(("in", P(pend[1], pend[2] + cn))) == 0, run.dm, prog.loc(i), "handler runs while queued",
                       "queued", path_of(prog, st))
                rep.ob("the handler of the event taken is the one that runs", fp == P(pend[1], pend[2] + choff), run.dm, prog.loc(i), "another handler runs", "which",
                       path_of(prog, st))
        if who is None:
            fid = st.g.get(("fr", idle))
            nd = P(fp[1], fp[2] - ihoff + inoff) if is_ptr(fp) and isinstance(fp[2], int) else None
            if nd is not None and (st.g.get(("rot",)) == nd or fid == nd or st.g.get(("unl",)) == nd):
                who = "idle"
                rep.ob("events first: an idle handler runs only when a poll found nothing", st.g.get(("polled",)) == 1 and st.g.get(("ne", trig)) == 0, run.dm, prog.loc(i),
                       "an idle handler runs although events may be queued", "events", path_of(prog, st))
                rep.ob("timers first: an idle handler runs only when no timer was ready", st.g.get(("timers",)) == 1, run.dm, prog.loc(i),
                       "an idle handler runs although a timer may be ready", "timers", path_of(prog, st))
                rep.ob("idle handlers take turns", st.g.get(("rot",)) == nd, run.dm, prog.loc(i), "an idle handler runs without going to the back of the queue first",
                       "rotate", path_of(prog, st))
                rep.ob("an event is not lost when an idle handler runs", st.g.get(("pend",)) is None, run.dm, prog.loc(i), "event dropped", "drop", path_of(prog, st))
        if who is None:
            rep.ob("only handlers taken from the queues run", False, run.dm, prog.loc(i), "runs a handler that was not taken off the event queue", "who", path_of(prog, st))
        rep.count("handler_calls_" + (who or "other"))
        E2.havoc_world(st)
        settle(st)
        set_current(prog, E2, st, LOOPP)
        return [("ret", None, st)]
    E.user_hook = user
    for st in sts:
        r = E.run(run, [this], st)
        rep.engine(E, r)
        for k, v, s in r:
            if k == "ret":
                rep.ob("each event taken off the queue is delivered", s.g.get(("pend",)) is None, run.dm, where(prog, s, run), "event dropped at the end", "end", path_of(prog, s))
    # queuing: a signal made pending reaches the queue of the current loop, as the very callable
    f = prog.one(CALLABLE + "::add_pending_callable")
    E = thr_engine(prog, rep)
    st = State()
    E.apart = {O.THIS[1], LOOPP[1]}
    set_current(prog, E, st, LOOPP)
    r = E.run(f, O.sym_args(prog, f, O.THIS), st)
    rep.engine(E, r)
    for k, v, s in r:
        p = [e for e in s.trace() if e[0] == "list.push"]
        rep.ob("a pending event is queued once, at the end", k == "ret" and len(p) == 1 and p[0][2] == (trig, P(O.THIS[1], O.THIS[2] + cn)), f.dm, where(prog, s, f),
               "%d insertions" % len(p), "push", path_of(prog, s))
    if rep.cover.get("handler_calls_event", 0) < 1 or rep.cover.get("handler_calls_idle", 0) < 1:
        if not rep.viol:
            raise AnalysisError("run() never calls event or idle handlers")
    # Idle::set_active
    for act in (1, 0):
        f = prog.one("crab::Idle::set_active")
        E = thr_engine(prog, rep)
        st = State()
        E.apart = {O.THIS[1], LOOPP[1]}
        set_current(prog, E, st, LOOPP)
        r = E.run(f, [O.THIS, act], st)
        rep.engine(E, r)
        nd = P(O.THIS[1], O.THIS[2] + inoff)
        for k, v, s in r:
            rep.ob("an idle handler is in the loop exactly while active", k == "ret" and s.g.get(("in", nd)) == act, f.dm, where(prog, s, f), "wrong after set_active(%d)" % act,
                   "active", path_of(prog, s))
            if act:
                p = [e for e in s.trace() if e[0] == "list.push"]
                rep.ob("an idle handler is in the loop exactly while active", any(e[2] == (idle, nd) for e in p), f.dm, where(prog, s, f), "not in the current loop's list",
                       "list", path_of(prog, s))
    rep.need("an event is off the queue while its handler runs", 1)
    rep.need("events first: an idle handler runs only when a poll found nothing", 1)
    rep.need("never waits with an event queued", 2)


# ------------------------------------------------------------------ C14: DNS

def C14(prog, rep):
    C = Ctx(prog)
    wnode = prog.foff(DNS, "work_queue_node")
    ab = only(prog, DNS, WATCHER, "watcher")
    hoff = only(prog, WATCHER, CALLABLE, "handler")
    # ---- API
    f = prog.one(DNS + "::resolve")
    E = thr_engine(prog, rep)
    this, sts = entry_states(prog, E, DNS, "method", C)
    wp = worker(prog, E, State())
    wql = P(wp[1], wp[2] + C.wq)
    node = P(this[1], this[2] + wnode)
    EX = P(wp[1], wp[2] + C.wex)
    anodes = [P(this[1], this[2] + ab + C.wnode), P(this[1], this[2] + ab + hoff + node_off(prog))]
    params = [a for a in f.args[1:]]
    names = ["host_name", "port", "ipv4", "ipv6"]

    def stored(E2, s):
        """parameters in the object equal the arguments"""
        bad = []
        h = sm.gs(E2, s, P(this[1], this[2] + prog.foff(DNS, "host_name")))
        a = sm.gs(E2, s, P(("*", ("arg", 1)), 0))
        if h != a:
            bad.append("host_name")
        for k, n in enumerate(names[1:], 2):
            o, sz, _ = prog.field(DNS, n)
            v = E2.load(s, P(this[1], this[2] + o), sz, "i%d" % (8 * sz))
            arg = S(("arg", k), int(f.args[k]["t"][1:]))
            aw = arg if arg[2] == 8 * sz else ("zx", arg, 8 * sz)
            if v != aw and v != arg:
                bad.append(n)
        return bad

    def push(E2, st, fr, i, k, l, x, q):
        if l != wql:
            return
        rep.ob("the request itself is queued", x[0] == node, f.dm, prog.loc(i), "another object is queued", "who", path_of(prog, st))
        rep.ob("an earlier request is withdrawn first", E2.load(st, EX, 8, "p") != this, f.dm, prog.loc(i), "the worker may still execute the earlier request", "exec",
               path_of(prog, st))
        for n in anodes:
            rep.ob("an earlier answer is withdrawn first", st.g.get(("in", n)) == 0, f.dm, prog.loc(i), "an answer to the earlier request may still be delivered", "answer",
                   path_of(prog, st))
        st.g[("queued",)] = 1
    E.on("list.push", push)
    bad_at = []

    def unl(E2, st, fr, i, a):
        if a == P(wp[1], wp[2] + C.wm) and st.g.get(("in", node)) == 1:
            b = stored(E2, st.copy())
            rep.ob("the request carries the caller's parameters", not b, f.dm, prog.loc(i), "%s not stored before the worker can see it" % ", ".join(b), ",".join(b),
                   path_of(prog, st))
            st.g[("seen",)] = 1
    track_locks(E, on_unlock=unl)
    n = 0
    for st in sts:
        # once resolve() was called in this state an answer notification can be in flight: nothing is known about the watcher
        if st.g.get(("idle-resolver", this)) != 1:
            for x in anodes:
                st.g.pop(("in", x), None)
        r = E.run(f, O.sym_args(prog, f, this), st)
        rep.engine(E, r)
        for k, v, s in r:
            if k != "ret":
                continue
            n += 1
            rep.ob("a request is queued exactly once", s.g.get(("in", node)) == 1 and s.g.get(("queued",)) == 1 and s.g.get(("seen",)) == 1, f.dm, where(prog, s, f),
                   "request not handed to the worker", "queued", path_of(prog, s))
            for k2, v2, s2 in E.run(prog.one(DNS + "::is_open"), [this], s.copy()):
                rep.ob("a resolving resolver says so", E.decide(s2, E.icmp(s2, "ne", v2, 0, 1)) is True, f.dm, where(prog, s, f), "is_open() is false after resolve()", "open",
                       path_of(prog, s))
    if not n:
        raise AnalysisError("resolve never returns")
    # the answer is delivered once; the resolver is idle while the handler runs
    hfun = prog.foff(DNS, "dns_handler")
    for name, off, inv in O.callbacks(prog, DNS):
        E = thr_engine(prog, rep)
        this, sts = entry_states(prog, E, DNS, "callback", C)

        def user(E2, st, fr, i, fp, args, inv=inv):
            st.g[("answers",)] = st.g.get(("answers",), 0) + 1
            for k2, v2, s2 in E2.run(prog.one(DNS + "::is_open"), [this], st.copy()):
                rep.ob("the resolver is idle again when the handler runs", E2.const_of(s2, v2) == 0, inv.dm, prog.loc(i), "is_open() while the handler runs: the handler's own"
                       " resolve() would be forgotten", "idle", path_of(prog, st))
            rep.ob("the user's handler is the one called", fp == P(this[1], this[2] + hfun), inv.dm, prog.loc(i), "another handler", "fp", path_of(prog, st))
            ok = False
            if args and is_ptr(args[-1]):
                src = st.g.get(("names0",))
                cur = E2.load(st, args[-1], 8, "p") if False else sm.getcell(E2, st.copy(), args[-1], "vec", 24)
                ok = src is None or cur == src
            rep.ob("the handler gets the names found", ok, inv.dm, prog.loc(i), "the handler is not given the result", "names", path_of(prog, st))
            a = st.g.get(("answers",))
            E2.havoc_world(st)
            st.g[("answers",)] = a
            return [("ret", None, st)]
        E.user_hook = user
        for st in sts:
            r = O.run_callback(prog, E, DNS, off, inv, st=st, this=this)
            rep.engine(E, r)
            for k, v, s in r:
                if k == "exc" and not s.g.get(("answers",)):
                    continue       # the user gave an empty std::function
                rep.ob("one notification, one answer", s.g.get(("answers",), 0) == 1, inv.dm, where(prog, s, inv), "%d handler calls" % s.g.get(("answers",), 0), "n",
                       path_of(prog, s))
    # ---- worker
    w = {}

    def no_watch(E, f, who):
        return (lambda *a: None), None

    def setup(E, EX, wp, dns_mutex, wql, rnode):
        flds = {}
        w["EX"] = EX
        reg0 = State()
        for nme in names[1:]:
            o, sz, _ = prog.field(DNS, nme)
            flds[nme] = (o, sz)

        def resolve(E2, s, fr, i, kind, a, fn, c):
            who = "DNS worker thread"
            rep.ob("a request is taken off the queue before it is executed", s.g.get(("in", rnode)) == 0, who, prog.loc(i), "executes a request that is still queued", "queue",
                   path_of(prog, s))
            rep.ob("the request being executed can be cancelled", E2.load(s, EX, 8, "p") == RES, who, prog.loc(i), "the request is executed without being recorded as executing",
                   "record", path_of(prog, s))
            rep.ob("a request is executed once", s.g.get(("executed",)) != 1, who, prog.loc(i), "executes a request again", "again", path_of(prog, s))
            host = sm.gs(E2, s, a[0]) if is_ptr(a[0]) else None
            rep.ob("the worker uses the request's own parameters", host == s.g.get(("host0",)), who, prog.loc(i), "another host name is resolved", "host", path_of(prog, s))
            for k, nme in enumerate(names[1:], 1):
                o, sz = flds[nme]
                want = E2.load(s.copy(), P(RES[1], RES[2] + o), sz, "i%d" % (8 * sz))
                got = a[k]
                ok = same_value(E2, s, got, want)
                rep.ob("the worker uses the request's own parameters", ok, who, prog.loc(i), "%s is not the request's: %r, %r" % (nme, got, want), nme, path_of(prog, s))
            s.g[("executed",)] = 1
            s.g.pop(("answered",), None)
        E.on("resolve", resolve)

        def front(E2, s, fr, i, kind, l, x, q):
            if l == wql:
                s.g.pop(("executed",), None)
                s.g.pop(("answered",), None)
                ex = E2.load(s, EX, 8, "p")
                rep.ob("the worker has finished with the previous request", ex == 0, "DNS worker thread", prog.loc(i), "still refers to the previous request", "prev",
                       path_of(prog, s))
                if ("host0",) not in s.g or True:
                    s.g[("host0",)] = sm.gs(E2, s, P(RES[1], RES[2] + prog.foff(DNS, "host_name")))
        E.on("list.front", front)

        def call(E2, s, fr, i, args, fn):
            who = "DNS worker thread"
            rep.ob("the answer goes to the resolver that asked", args[0] == P(RES[1], RES[2] + ab), who, prog.loc(i), "another watcher is called", "who", path_of(prog, s))
            rep.ob("an answer is given only to a request that was not cancelled", E2.load(s, EX, 8, "p") == RES and dns_mutex in held(s) or
                   s.g.get(("wasex",)) == 1 and dns_mutex in held(s), who, prog.loc(i),
                   "the request may have been cancelled", "cancelled", path_of(prog, s))
            rep.ob("a request is answered once", s.g.get(("answered",)) != 1 and s.g.get(("executed",)) == 1, who, prog.loc(i), "answers again", "again", path_of(prog, s))
            rep.ob("the names are stored before the answer", s.g.get(("stored",)) == 1, who, prog.loc(i), "answers before storing the names", "stored", path_of(prog, s))
            s.g[("answered",)] = 1
            return None
        E.models[WATCHER + "::call"] = call
        old_cell = E.cell_hook
        nmo = prog.foff(DNS, "names")

        def cell(E2, s, p, v):
            if p == P(RES[1], RES[2] + nmo):
                s.g[("stored",)] = 1
        E.cell_hook = cell

        def onlock(E2, s, fr, i, k, a, args, c):
            if a == dns_mutex:
                s.g[("wasex",)] = 1 if E2.load(s, EX, 8, "p") == RES else 0
        E.on("lock", onlock)

        def unl(E2, s, fr, i, k, a, args, c):
            if a != dns_mutex:
                return
            ex = E2.load(s, EX, 8, "p")
            who = "DNS worker thread"
            if s.g.get(("answered",)) == 1 and s.g.get(("executed",)) == 1:
                rep.ob("the worker forgets an answered request before letting go", ex == 0, who, prog.loc(i), "still refers to an answered request", "forget", path_of(prog, s))
            elif s.g.get(("executed",)) == 1 and s.g.get(("wasex",)) == 1:
                rep.ob("an executed request is answered", False, who, prog.loc(i), "the request is dropped without an answer", "dropped", path_of(prog, s))
            rep.ob("a taken request is recorded before letting go", s.g.get(("fr", wql)) != rnode or s.g.get(("in", rnode)) != 0 or ex == RES or s.g.get(("executed",)) == 1,
                   who, prog.loc(i), "a request was taken off the queue but cannot be found by cancel()", "taken", path_of(prog, s))
            s.g.pop(("wasex",), None)
            s.g.pop(("stored",), None)
            if s.g.get(("executed",)) == 1:
                s.g.pop(("executed",), None)
                s.g.pop(("answered",), None)
                s.g.pop(("fr", wql), None)
        E.on("unlock", unl)
    touched = []
    sil = Silent(rep)
    keep = {"worker uses only the request it is executing", "worker touches a request only under its mutex"}

    class Part(Silent):
        def ob(self, rule, *a, **k):
            if rule in keep:
                return rep.ob(rule, *a, **k)
            return True
    (body, margs, st0), E, r = run_worker(prog, Part(rep), C, no_watch, touched, {"setup": setup})
    rep.engine(E, r)
    wp = worker(prog, O.engine(prog), State())
    for k, v, s in r:
        rep.ob("the worker never dies of an exception", k == "ret", body.dm, where(prog, s, body), "exception ends the worker thread", "exc", path_of(prog, s))
        if k == "ret":
            q = E.load(s, P(wp[1], wp[2] + C.wquit[0]), C.wquit[1], "i8")
            rep.ob("the worker stops only at process exit", E.decide(s, E.icmp(s, "ne", q, 0, 8)) is True, body.dm, where(prog, s, body), "the worker ends although nobody told it to",
                   "end", path_of(prog, s))
    # resolving itself must not throw
    f = prog.one(DNS + "::sync_resolve")
    E = thr_engine(prog, rep)
    r = E.run(f, O.sym_args(prog, f, None), State())
    rep.engine(E, r)
    for k, v, s in r:
        rep.ob("the worker never dies of an exception", k == "ret", f.dm, where(prog, s, f), "resolving may throw, which ends the worker thread", "exc", path_of(prog, s))
    rep.need("a request is answered once", 1)
    rep.need("the worker uses the request's own parameters", 4)
    rep.need("an earlier answer is withdrawn first", 2)
    rep.need("one notification, one answer", 1)
    rep.need("the worker forgets an answered request before letting go", 1)


def same_value(E, s, a, b):
    """equal, or both the truth value of the same byte"""
    from absint import leaves
    if a == b:
        return True
    la, lb = leaves(a), leaves(b)
    return bool(la) and la == lb and E.decide(s, E.icmp(s, "ne", a, b, 8)) is not True
