"""C27: BufferedTCPSocket hands every accepted byte to its socket once and in order, and half-closes after the last one."""
import re
from absint import State, P, S, is_ptr, add, neg, mask
from model import AnalysisError
import std_models as sm
import objects
import fw
from conn import SOCK, THIS, OUT, fn1
from rules_net import fwhere, yes, set_current

ORDER = "bytes reach the socket in call order, each once"
TOTAL = "buffered size is exact"
CLOSED = "nothing is accepted after a shutdown request"
FIN = "half-close is sent once, after the last byte"
PROMPT = "half-close is not forgotten"
TIMEOUT = "a peer that never finishes is disconnected"
EMPTY = "queue is not read when empty"
KEEP = "state between calls is consistent"
CHUNK = "crab::StringStream"
DATAP = ("*", ("data",))
STRP = ("*", ("str",))
N, L = S(("n",), 64), S(("strlen",), 64)


def is0(t):
    return t == 0


class Sock:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.E = E = objects.engine(prog, http=False, timers=False)
        E.apart = {THIS[1], DATAP, STRP, ("*", ("loop",))} | {("*", ("chunk", k)) for k in range(8)}
        E.exit_limit = E.loop_limit = E.merge_limit = 600
        E.unroll = 16
        E.term_depth = 24
        self.mem = list(prog.members(prog.type(SOCK)))
        self.o_q = self.by(lambda q: re.match(r"std::(?:__cxx11::)?(deque|list|vector)<crab::StringStream,", q), "queue")
        self.o_sock = self.by(lambda q: q.startswith("crab::TCPSocket"), "socket")
        self.o_timer = self.by(lambda q: q == "crab::Timer", "timer")
        self.o_total = self.by(lambda q: q in ("unsigned long", "size_t", "std::size_t", "uint64_t"), "buffered size")
        self.qtype = [t["q"].split(",")[0] for n, o, s, t in self.mem if o == self.o_q][0]
        self.flags()
        self.proto = objects.proto_state(prog, CHUNK, P(("*", ("chunk", 0)), 0))
        self.install()

    def by(self, pred, what):
        r = [o for n, o, s, t in self.mem if t is not None and t.get("q") and pred(t["q"])]
        if len(r) != 1:
            raise AnalysisError("%s: expected one %s, found %d" % (SOCK, what, len(r)))
        return r[0]

    def flags(self):
        """the flags 'shutdown requested' and 'half-close sent', told apart by what write_shutdown() does when bytes are pending"""
        bs = [o for n, o, s, t in self.mem if t is not None and t.get("q") == "bool"]
        if len(bs) != 2:
            raise AnalysisError("%s: expected two flags, found %d" % (SOCK, len(bs)))
        self.bs = bs
        self.o_asked, self.o_sent = bs

    # ---------------------------------------------------------------- models
    def out(self, st, *x):
        st.g[OUT] = st.g.get(OUT, ()) + (x,)

    def mine(self, p):
        return is_ptr(p) and p[1] == THIS[1] and isinstance(p[2], int) and self.o_sock <= p[2] < self.o_timer

    def install(self):
        E = self.E
        E.pats.insert(0, (lambda q, dm: q.startswith(self.qtype + ","), self.m_queue))
        for q in list(self.prog.by_qual):
            sc = q.split("[")[0].rsplit("::", 1)
            if q.startswith(("crab::TCPSocket::", "crab::TCPSocketTLS::")) and sc[0] in ("crab::TCPSocket", "crab::TCPSocketTLS"):
                if sc[1].startswith("~") or sc[1] in ("TCPSocket", "TCPSocketTLS"):
                    continue
                E.models[q] = self.m_tcp
            if q.startswith("crab::Timer::") and q.split("::")[2] not in ("Timer", "~Timer"):
                E.models[q] = self.m_timer
        for q in ("crab::IFiniteStream::size", "crab::IFiniteStream::empty", "crab::IFiniteStream::write_to", "crab::IStringStream::size", "crab::IStringStream::write_to",
                  "crab::OStream::write", "crab::OStringStream::write_some", "crab::OStream::write_some"):
            if q in self.prog.by_qual or q in ("crab::IFiniteStream::size",):
                E.models[q] = self.m_chunk

        def user(E2, s, fr, i, fp, args):
            self.out(s, "user")
            return [("ret", E2.topt(s, fr, i), s)]
        E.user_hook = user

    def m_timer(self, E, st, fr, i, args, fn):
        if is_ptr(args[0]) and args[0][1] == THIS[1]:
            if fn.base in ("once", "once_at"):
                self.out(st, "timer", args[0][2])
            elif fn.base == "cancel":
                self.out(st, "untimer", args[0][2])
        return E.topt(st, fr, i) if i.get("t", "v") != "v" else None

    def m_tcp(self, E, st, fr, i, args, fn):
        if not self.mine(args[0]):
            return NotImplemented
        b = fn.base
        if b == "is_open":
            return st.g["#open"]
        if b == "can_write":
            c = st.g.get("#cw")
            if c is not None:
                return c
            s2 = st.copy()
            st.g["#cw"], s2.g["#cw"] = 0, 1
            return [("ret", 0, st), ("ret", 1, s2)]
        if b == "write_some":
            if len(args) != 3 or "char" in fn.dm and "unsigned char" not in fn.dm:
                return NotImplemented
            return self.send(E, st, fr, i, args[2], lambda a, b2: ((("PT", args[1][1]), add(args[1][2], a, 64), add(args[1][2], b2, 64)),) if is_ptr(args[1]) else (("?", repr(args[1])),))
        if b == "read_some":
            self.out(st, "read", args[1], args[2])
            r = E.fresh(st, ("rd", fr.ctx, i["d"]), 64)
            return r
        if b in ("write_shutdown", "close", "accept"):
            self.out(st, b)
            if b == "write_shutdown":
                st.g["#fin"] = (self.pending(st), st.g.get("#cw"))
            if b == "close":
                st.g["#open"] = 0
            if b == "accept":
                st.g["#open"] = 1
            return None
        if b in ("connect", "connect_tls"):
            self.out(st, "connect")
            s2 = st.copy()
            st.g["#open"], s2.g["#open"] = 0, 1
            return [("ret", 0, st), ("ret", 1, s2)]
        self.out(st, b)
        return E.topt(st, fr, i) if i.get("t", "v") != "v" else None

    def send(self, E, st, fr, i, n, seg):
        """the socket takes some of n bytes"""
        out = []
        if st.g["#open"] == 0 or yes(E, st, "eq", n, 0):
            return [("ret", 0, st)]
        if st.g.get("#cw") == 0:
            return [("ret", 0, st)]
        for s0 in E.assume(st.copy(), E.icmp(st, "eq", n, 0, 64), True):
            out.append(("ret", 0, s0))
        for s0 in E.assume(st.copy(), E.icmp(st, "eq", n, 0, 64), False):
            # all
            s = s0.copy()
            s.g["#sent"] = s.g.get("#sent", ()) + seg(0, n)
            out.append(("ret", n, s))
            # a part, leaving r > 0
            s = s0.copy()
            r = E.fresh(s, ("left", fr.ctx, i.get("d", 0), len(s.g.get("#sent", ()))), 64)
            s.cons[r] = ((1, 1 << 40),)
            w = add(n, neg(r, 64), 64)
            s.g["#sent"] = s.g.get("#sent", ()) + seg(0, w)
            s.g["#cw"] = 0
            for s1 in E.assume(s, E.icmp(s, "ule", r, n, 64), True):
                out.append(("ret", w, s1))
            # the connection breaks
            s = s0.copy()
            s.g["#open"] = 0
            s.g["#broke"] = 1
            out.append(("ret", 0, s))
        return out

    def seg_of(self, E, st, p, n):
        if not is_ptr(p):
            return (("?", repr(p)),)
        if p[1][0] == "sd":
            return self.seg_cid(p[1][1], p[2], n)
        return ((("PT", p[1]), p[2], add(p[2], n, 64)),)

    def seg_cid(self, cid, at, n):
        if isinstance(cid, tuple) and cid and cid[0] == "buf" and is_ptr(cid[1]):
            o = add(cid[1][2], at, 64)
            return ((("PT", cid[1][1]), o, add(o, n, 64)),)
        return ((("CT", cid), at, add(at, n, 64)),)

    def norm(self, segs):
        out = []
        for s in segs:
            if s[0] != "?" and s[1] == s[2]:
                continue
            if out and s[0] != "?" and out[-1][0] == s[0] and out[-1][2] == s[1]:
                out[-1] = (s[0], out[-1][1], s[2])
            else:
                out.append(s)
        return tuple(out)

    def pending(self, st):
        return self.norm([x for c in st.g["#q"] for x in st.g[("#c", c)][1]])

    # ---------------------------------------------------------------- the queue
    def chunk_of(self, p):
        return p[1][1][1] if is_ptr(p) and p[1][0] == "*" and p[1][1][0] == "chunk" else None

    def new_chunk(self, st, size, segs):
        k = 0
        while ("#c", k) in st.g:
            k += 1
        st.g[("#c", k)] = (size, tuple(segs))
        root = ("*", ("chunk", k))
        for r, reg in self.proto.mem.items():
            nr = st.wregion(root if r == ("*", ("chunk", 0)) else r)
            for off, (sz, v) in reg.cells.items():
                nr.cells[off] = (sz, objects.rebase(v, P(root, 0)) if r == ("*", ("chunk", 0)) else v)
        st.cons[S(("chunk", k), 64)] = ((1, mask(64)),)
        return k

    def m_queue(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        if not (is_ptr(a[0]) and a[0][1] == THIS[1] and a[0][2] == self.o_q):
            return NotImplemented
        meth = sm.method_of(fn.qual)
        q = st.g["#q"]
        if meth == "empty":
            return int(not q)
        if meth == "size":
            return len(q)
        if meth in ("front", "back", "pop_front", "pop_back"):
            if not q:
                self.rep.ob(EMPTY, False, fn.qual, fwhere(self.prog, fr.fn), "%s() of the empty queue" % meth, meth)
                return []
            self.rep.ob(EMPTY, True)
            k = q[0] if "front" in meth else q[-1]
            if meth in ("front", "back"):
                return P(("*", ("chunk", k)), 0)
            st.g["#q"] = q[1:] if meth == "pop_front" else q[:-1]
            sz = st.g[("#c", k)][0]
            if not yes(E, st, "eq", sz, 0):
                st.g["#lost"] = 1
            return None
        if meth == "clear":
            st.g["#q"] = ()
            return None
        if meth.startswith(("emplace_back", "push_back", "emplace_front", "push_front")):
            x = a[1] if len(a) > 1 else None
            c = self.chunk_of(x)
            if len(a) == 1:
                k = self.new_chunk(st, 0, ())
            elif c is not None:
                k = self.new_chunk(st, *st.g[("#c", c)])
            elif is_ptr(x) and ("StringStream" in fn.dm.rsplit("(", 1)[1]):
                at = [o for n, o, sz, t in self.prog.members(self.prog.type(CHUNK)) if sz == 32]
                w = sm.gs(E, st, P(x[1], add(x[2], at[-1], 64)))
                k = self.new_chunk(st, w[1], self.seg_cid(w[2], 0, w[1]))
            elif is_ptr(x):
                w = sm.gs(E, st, x)
                k = self.new_chunk(st, w[1], self.seg_cid(w[2], 0, w[1]))
                if "&&" in fn.dm:
                    sm.ps(E, st, x, 0, ("k", b""))
            else:
                return NotImplemented
            st.g["#q"] = st.g["#q"] + (k,) if "back" in meth else (k,) + st.g["#q"]
            p = P(("*", ("chunk", k)), 0)
            return p if i.get("t", "v") != "v" else None
        if meth.startswith("~") or meth == "deque":
            return None
        raise AnalysisError("queue operation %s of the buffered socket is not modelled" % meth)

    def m_chunk(self, E, st, fr, i, args, fn):
        c = self.chunk_of(args[0])
        if c is None:
            return NotImplemented
        size, segs = st.g[("#c", c)]
        b = fn.base
        if b == "size":
            return size
        if b == "empty":
            return E.icmp(st, "eq", size, 0, 64)
        if b in ("write", "write_some"):
            n = args[2]
            st.g[("#c", c)] = (add(size, n, 64), segs + self.seg_of(E, st, args[1], n))
            return n if b == "write_some" else None
        if b == "write_to":
            if not self.mine(args[1]):
                raise AnalysisError("queued bytes are written to something unknown")
            if len(args) > 2 and args[2] != mask(64):
                raise AnalysisError("queued bytes are written in part")
            if len(segs) > 1:
                # pieces of one chunk go together: sent in order, a part of some piece last
                out = []
                self.send_chunk(E, st, fr, i, c, segs, size, 0, out)
                return out
            out = []
            for k, v, s in self.send(E, st, fr, i, size, lambda x, y: self.cut(segs, x, y)):
                if v == 0:
                    pass
                elif v == size:
                    s.g[("#c", c)] = (0, ())
                else:
                    s.g[("#c", c)] = (add(size, neg(v, 64), 64), self.cut(segs, v, size))
                out.append((k, v, s))
            return out
        raise AnalysisError("chunk operation %s" % b)

    def cut(self, segs, x, y):
        if len(segs) != 1:
            return segs if x == 0 else (("?", "part"),)
        s, a, b = segs[0]
        return ((s, add(a, x, 64), add(a, y, 64)),)

    def send_chunk(self, E, st, fr, i, c, segs, size, done, out):
        """a chunk of several pieces"""
        if not segs:
            s = st.copy()
            s.g[("#c", c)] = (0, ())
            out.append(("ret", done, s))
            return
        sg, rest = segs[0], segs[1:]
        n = add(sg[2], neg(sg[1], 64), 64)
        for k, v, s in self.send(E, st, fr, dict(i, d=(i.get("d", 0), len(rest))), n, lambda x, y: self.cut((sg,), x, y)):
            if v == n:
                self.send_chunk(E, s, fr, i, c, rest, size, add(done, n, 64), out)
            else:
                d = add(done, v, 64)
                s.g[("#c", c)] = (add(size, neg(d, 64), 64), ((self.cut((sg,), v, n)) if v != 0 else (sg,)) + rest)
                out.append(("ret", d, s))

    # ---------------------------------------------------------------- states
    def start(self, sizes, asked, sent, opened):
        st = State()
        set_current(self.prog, self.E, st, P(("*", ("loop",)), 0))
        st.cons[S(("loop",), 64)] = ((1, mask(64)),)
        st.cons[S(THIS[1][1], 64)] = ((1, mask(64)),)
        objects.proto_state(self.prog, SOCK, THIS, st)
        st.g["#q"] = ()
        st.g["#open"] = opened
        total = 0
        for k, big in enumerate(sizes):
            n = S(("size", k), 64)
            st.cons[n] = ((1, 1023),) if not big else ((1024, 1 << 40),)
            c = self.new_chunk(st, n, ((("CT", ("chunk", k)), 0, n),))
            st.g["#q"] += (c,)
            total = add(total, n, 64)
        rg = st.wregion(THIS[1])
        rg.cells[self.o_total] = (8, total)
        rg.cells[self.o_asked] = (1, asked)
        rg.cells[self.o_sent] = (1, sent)
        # arguments
        st.cons[S(DATAP[1], 64)] = ((1, mask(64)),)
        st.cons[S(STRP[1], 64)] = ((1, mask(64)),)
        st.tr = None
        return st, total

    def tell_flags(self):
        """which flag means what: write_shutdown() with bytes pending records the request only"""
        f = fn1(self.prog, SOCK + "::write_shutdown")
        st, t = self.start([0, 0, 0], 0, 0, 1)
        got = set()
        for k, v, s in self.E.run(f, [THIS], st):
            if k == "ret":
                got.add(tuple(self.val(s, o, 1) for o in self.bs))
        if got == {(0, 1)}:
            self.o_sent, self.o_asked = self.bs
        elif got != {(1, 0)}:
            raise AnalysisError("flags of %s not recognised (%s)" % (SOCK, sorted(map(str, got))))

    def val(self, s, o, size):
        v = self.E.load(s, P(THIS[1], o), size, "i%d" % (8 * size))
        c = v if isinstance(v, int) else self.E.const_of(s, v)
        return v if c is None else c

    def states(self):
        for sizes in ([], [0], [1], [0, 0], [1, 0], [0, 1], [0, 0, 0]):
            for asked, sent in ((0, 0), (1, 0), (1, 1)):
                if sent and sizes:
                    continue
                for opened in (0, 1):
                    yield sizes, asked, sent, opened

    def ob(self, rule, ok, f, detail, msg, s):
        return self.rep.ob(rule, ok, f.qual, fwhere(self.prog, f), msg, detail, fw.path_of(self.prog, s))

    def calls(self, f, st):
        """[(arguments, accepted segments, length)]"""
        ps = f.args[1:]
        names = f.dm[f.dm.rindex("(") + 1:] if "std::function" not in f.dm else ""
        if f.base == "set_handler":
            return
        pts = [k for k, a in enumerate(ps) if a["t"] == "p"]
        isdata = f.base in ("write", "buffer", "write_some") and len(ps) >= 2 and ps[0]["t"] == "p" and ps[1]["t"] == "i64"
        isstr = len(ps) >= 1 and "basic_string<char" in f.dm and ps[0]["t"] == "p" and f.base in ("write", "buffer") and not isdata
        if isdata:
            for n in (0, 1, 2):
                s = st.copy()
                if n:
                    s.cons[N] = ((1, 1023),) if n == 1 else ((1024, 1 << 40),)
                a = [P(DATAP, 0), N if n else 0]
                for bo in ((0, 1) if len(ps) > 2 else (None,)):
                    yield s.copy(), a + ([bo] if bo is not None else []), ((("PT", DATAP), 0, a[1]),), a[1]
        elif isstr:
            for n in (0, 1, 2):
                s = st.copy()
                if n:
                    s.cons[L] = ((1, 1023),) if n == 1 else ((1024, 1 << 40),)
                l = L if n else 0
                sm.ps(self.E, s, P(STRP, 0), l, ("text",) if n else ("k", b""))
                for bo in ((0, 1) if len(ps) > 1 else (None,)):
                    yield s.copy(), [P(STRP, 0)] + ([bo] if bo is not None else []), ((("CT", ("text",)), 0, l),), l
        else:
            a = []
            for k, x in enumerate(ps):
                a.append(P(("*", ("arg", k)), 0) if x["t"] == "p" else S(("arg", k), int(x["t"][1:])))
            yield st.copy(), a, None, 0

    def explore(self):
        prog, rep, E = self.prog, self.rep, self.E
        self.tell_flags()
        fns = [f for f in prog.fn.values() if f.bb is not None and f.scope == SOCK and not f.art and not f.base.startswith("~") and f.base != SOCK.split("::")[1]]
        pub = [f for f in fns if f.acc == 3]
        cbs = objects.callbacks(prog, SOCK)
        n = 0
        for sizes, asked, sent, opened in self.states():
            st, total = self.start(sizes, asked, sent, opened)
            pre = self.pending(st)
            what = "%s%s%s%s" % ("/".join("<>"[b] for b in sizes), " asked" * asked, " sent" * sent, "" if opened else " broken")
            for f in sorted(pub, key=lambda f: f.dm):
                for s0, args, acc, ln in self.calls(f, st):
                    if asked and not sent and not sizes:
                        s0.g["#cw"] = 0
                    for k, v, s in E.run(f, [THIS] + args, s0):
                        n += 1
                        if k != "ret" and "bad_function_call" in v.tname:
                            continue
                        if k != "ret":
                            self.ob(KEEP, False, f, "exc " + what, "%s throws" % f.base, s)
                            continue
                        self.after(f, what, pre, total, asked, sent, opened, acc, ln, v, s)
            for name, off, inv in cbs:
                if len(inv.args) != 1:
                    continue
                for k, v, s in objects.run_callback(prog, E, SOCK, off, inv, st.copy()):
                    n += 1
                    if k != "ret" and "bad_function_call" in v.tname:
                        continue
                    if k != "ret":
                        self.ob(KEEP, False, inv, "exc " + what, "event handling throws", s)
                        continue
                    istimer = self.o_timer <= off < self.o_timer + 56
                    evs = [x[0] for x in s.g.get(OUT, ())]
                    if istimer:
                        self.ob(TIMEOUT, "close" in evs and s.g["#open"] == 0, inv, "timer " + what, "when the time for shutting down is over the socket is not closed", s)
                        self.ob(TIMEOUT, "user" in evs and evs.index("user") > evs.index("close") if "close" in evs else False, inv, "told " + what, "the user does not learn that the connection was closed", s)
                    else:
                        self.ob(KEEP, "user" in evs, inv, "told " + what, "a socket event is not passed on", s)
                        if not opened:
                            self.ob(KEEP, "close" in evs, inv, "left " + what, "a broken connection is not closed", s)
                    self.after(inv, what, pre, total, asked, sent, opened, None, 0, None, s, event=True)
        rep.count("socket_runs", n)
        rep.engine(E)

    def after(self, f, what, pre, total, asked, sent, opened, acc, ln, v, s, event=False):
        E = self.E
        evs = s.g.get(OUT, ())
        ev = [x[0] for x in evs]
        closed = "close" in ev
        a2, s2 = self.val(s, self.o_asked, 1), self.val(s, self.o_sent, 1)
        t2 = self.val(s, self.o_total, 8)
        post = self.pending(s)
        sentb = self.norm(s.g.get("#sent", ()))
        d = "%s %s" % (f.dm.split("crab::")[-1][-60:], what)
        qsum = 0
        for c in s.g["#q"]:
            qsum = add(qsum, s.g[("#c", c)][0], 64)
        self.ob(TOTAL, t2 == qsum or not isinstance(t2, int) and yes(E, s, "eq", t2, qsum), f, d, "the reported size is not the number of bytes buffered", s)
        self.ob(KEEP, a2 in (0, 1) and s2 in (0, 1) and not (s2 and not a2) and not (s2 and s.g["#q"]), f, "flags " + d, "the shutdown flags do not fit what is buffered", s)
        self.ob(KEEP, not any(yes(E, s, "eq", s.g[("#c", c)][0], 0) for c in s.g["#q"]), f, "empty " + d, "an empty piece is left in the queue", s)
        if closed:
            self.ob(KEEP, not s.g["#q"] and a2 == 0 and s2 == 0, f, "reset " + d, "something is kept after close()", s)
            self.ob(KEEP, s.g["#open"] == 1 or ("untimer", self.o_timer) in evs, f, "timer " + d, "close() leaves the shutdown timer set", s)
            return
        broke = s.g.get("#broke")
        if acc is not None and f.base == "write_some":
            r = v if v is not None else 0
            acc2 = tuple((x[0], x[1], add(x[1], r, 64)) for x in acc)
            if pre or asked:
                self.ob(ORDER, sentb == () and r == 0, f, "over " + d, "new bytes overtake buffered ones or follow a shutdown request", s)
            want = self.norm(pre + acc2)
            self.ob(ORDER, self.norm(sentb + post) == want, f, d, "bytes taken are not those passed, once and in order", s)
        elif acc is not None:
            take = opened and not asked
            want = self.norm(pre + (acc if take else ()))
            if take and broke:
                # the rest is lost with the connection, in order
                got = self.norm(sentb + post)
                self.ob(ORDER, got == want or got == pre or got == self.norm(sentb + pre), f, d, "bytes passed are reordered when the connection breaks", s)
            else:
                rule = ORDER if take else CLOSED
                self.ob(rule, self.norm(sentb + post) == want, f, d, "what was sent and what is buffered is not what was buffered and passed, once and in order" if take else
                        "bytes are accepted although the connection is shut down or closed", s)
        else:
            self.ob(ORDER, self.norm(sentb + post) == pre, f, d, "sending buffered bytes loses, repeats or reorders them", s)
        # shutdown
        fins = ev.count("write_shutdown")
        if fins:
            self.ob(FIN, fins == 1 and not sent and s2 == 1 and a2 == 1, f, "once " + d, "the half-close is sent more than once, or unasked", s)
            fq, fcw = s.g["#fin"]
            self.ob(FIN, fq == () and post == (), f, "last " + d, "the half-close overtakes buffered bytes", s)
            self.ob(FIN, fcw == 1, f, "lost " + d, "the half-close is requested while the socket cannot take it", s)
            self.ob(TIMEOUT, ("timer", self.o_timer) in evs, f, "armed " + d, "the half-close is sent without limiting the time to wait for the peer", s)
        else:
            self.ob(FIN, s2 == sent, f, "claim " + d, "the half-close counts as sent but is not", s)
            if a2 and not s2 and s.g["#open"] == 1 and not broke:
                self.ob(PROMPT, bool(s.g["#q"]) or s.g.get("#cw") == 0, f, d, "everything is sent but the half-close is not", s)
        if f.base == "write_shutdown":
            self.ob(CLOSED, a2 == (1 if opened else asked), f, d, "the request to shut down is not recorded", s)
        else:
            self.ob(CLOSED, a2 == asked, f, "flag " + d, "the shutdown request appears or disappears", s)
        # progress: what is buffered and can be sent is sent
        if event and opened and not broke and pre:
            self.ob(ORDER, sentb != () or s.g.get("#cw") == 0, f, "progress " + d, "buffered bytes are not sent when the socket can take them", s)
        if f.base == "read_some" and asked:
            self.ob(CLOSED, v == 0 and "read" not in ev, f, "read " + d, "received bytes are delivered after the shutdown request", s)
        if f.base == "read_some" and not asked and len(f.args) == 3:
            self.ob(ORDER, ev.count("read") == 1 if not closed else True, f, "read " + d, "reading does not reach the socket", s)


def c27(prog, rep):
    K = Sock(prog, rep)
    K.explore()
    for r, k in ((ORDER, 200), (TOTAL, 200), (CLOSED, 100), (FIN, 100), (PROMPT, 10), (TIMEOUT, 10), (KEEP, 100)):
        rep.need(r, k)


C27 = c27
