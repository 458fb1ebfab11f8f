"""Client and server connections: what they hand to their socket, and one round of their reading loop.

The socket, the read buffer and the parsers are cut off at their interfaces (their own properties decide them); everything between is
interpreted.  Members are found by type, not by name."""
from absint import State, P, S, Exc, is_ptr, add, neg, mask, iset_iter, leaves
from model import AnalysisError
import std_models as sm
import objects
import fw
from parsers import THIS
from rules_net import fwhere, yes, set_current
from bits import Bits

CC, SC = "crab::http::ClientConnection", "crab::http::ServerConnection"
SOCK = "crab::BufferedTCPSocket"
HDR, BODY = "crab::http::WebMessageHeaderParser", "crab::http::WebMessageBodyParser"
HBODY, REQP, RESP = "crab::http::BodyParser", "crab::http::RequestParser", "crab::http::ResponseParser"
MSG = "crab::http::WebMessage"
OUT = ("#out",)
SARG = ("*", ("arg",))
DATA_OPS, CTRL_OPS = (1, 2), (8, 9, 10)
OPS = {1: "TEXT", 2: "BINARY", 8: "CLOSE", 9: "PING", 10: "PONG", 0: "continuation"}


def fn1(prog, q, n=None, has=""):
    fs = [f for f in prog.by_qual.get(q, []) if f.bb and (n is None or len(f.args) == n) and has in f.dm]
    if len(fs) != 1:
        raise AnalysisError("anchor not found: %s%s (%d)" % (q, " " + has if has else "", len(fs)))
    return fs[0]


class Conn:
    def __init__(self, prog, rep, cls):
        self.prog, self.rep, self.cls = prog, rep, cls
        self.E = E = objects.engine(prog, http=False)
        E.apart = {THIS[1], SARG, ("*", ("loop",)), ("*", ("data",))}
        E.exit_limit = E.loop_limit = E.merge_limit = 600
        E.unroll = 16
        E.term_depth = 20
        self.ty = prog.type(cls)
        self.mem = list(prog.members(self.ty))
        self.offs = {}
        self.o_state, _, self.t_state = self.by_type(lambda t: t.get("k") == "enumeration_type", "state")
        self.o_hdr = self.by_type(lambda t: t.get("q") == HDR, "frame header parser")[0]
        self.o_bdy = self.by_type(lambda t: t.get("q") == BODY, "frame payload parser")[0]
        self.o_msg = self.by_type(lambda t: t.get("q") == "crab::optional<%s>" % MSG, "message")[0]
        self.o_sock = self.by_type(lambda t: t.get("q") == SOCK, "socket")[0]
        self.o_hb = self.by_type(lambda t: t.get("q") == HBODY, "body parser")[0]
        self.o_buf = self.by_type(lambda t: t.get("q") == "crab::Buffer", "read buffer")[0]
        self.o_par = self.by_type(lambda t: t.get("q") == (RESP if cls == CC else REQP), "header parser")[0]
        if cls == SC:
            self.o_writing = self.by_type(lambda t: t.get("q") == "bool", "streaming flag")[0]
            self.o_rem = self.by_type(lambda t: t.get("q") == "crab::optional<unsigned long>", "outstanding body length")[0]
        self.states = {m[1]: m[2] for m in self.t_state["m"] if m[0] == "e"}
        mf = lambda p: prog.field(MSG, p)[0]
        self.m_op, self.m_body, self.m_code = mf("opcode"), mf("body"), mf("close_code")
        self.m_valid = prog.field("crab::optional<%s>" % MSG, "valid")[0]
        self.m_impl = prog.field("crab::optional<%s>" % MSG, "impl")[0]
        self.install()
        self.advance = fn1(prog, cls + "::advance_state")
        self.parse_models([(f, o) for o in DATA_OPS + (0,) for f in (0, 1)] + [(1, o) for o in CTRL_OPS])

    def by_type(self, pred, what):
        r = [(o, s, t) for n, o, s, t in self.mem if t is not None and pred(t)]
        if len(r) != 1:
            raise AnalysisError("%s: expected one %s, found %d" % (self.cls, what, len(r)))
        return r[0]

    # ---------------------------------------------------------------- models
    def out(self, st, *x):
        st.g[OUT] = st.g.get(OUT, ()) + tuple(x)

    def install(self):
        E = self.E
        for f in [f for q, l in self.prog.by_qual.items() if q.startswith(SOCK + "::") for f in l]:
            E.models[f.qual] = self.m_sock
        E.models[HDR + "::mask_data"] = self.m_mask
        E.models["crab::is_valid_utf8"] = self.m_utf8
        E.pats.insert(0, (lambda q, dm: q.startswith("crab::Random::"), self.m_random))
        for q, l in self.prog.by_qual.items():
            if q.startswith("crab::RunLoop::") and q.split("::")[2] not in ("current",):
                E.models.setdefault(q, self.m_loop)

    def m_loop(self, E, st, fr, i, args, fn):
        if i.get("t", "v") == "v":
            return None
        return E.topt(st, fr, i)

    def m_random(self, E, st, fr, i, args, fn):
        if fn.base.startswith("pod"):
            k = 0
            while S(("rnd", k), 32) in st.g.get("#rnd", ()):
                k += 1
            t = i.get("t", "v")
            s = S(("rnd", k), int(t[1:]) if t[0] == "i" else 64)
            st.g["#rnd"] = st.g.get("#rnd", ()) + (S(("rnd", k), 32),)
            return s
        if len(args) == 3 and isinstance(args[2], int):
            E.store_havoc(st, args[1], args[2])
        return E.topt(st, fr, i) if i.get("t", "v") != "v" else None

    def m_mask(self, E, st, fr, i, args, fn):
        sh, p, n, key = args
        if is_ptr(p) and p[1][0] == "sd":
            k = ("#masked", p[1][1])
            st.g[k] = st.g.get(k, ()) + ((sh, p[2], n, key),)
        else:
            E.store_havoc(st, p, None)
            k = ("#masked", p if is_ptr(p) else None)
            st.g[k] = st.g.get(k, ()) + ((sh, 0, n, key),)
        return None

    def m_utf8(self, E, st, fr, i, args, fn):
        cid = None
        if len(args) == 1 and is_ptr(args[0]):
            cid = sm.gs(E, st, args[0])[2]
        elif is_ptr(args[0]) and args[0][1][0] == "sd" and args[0][2] == 0:
            cid = args[0][1][1]
        if cid is None:
            return E.topt(st, fr, i)
        s = S(("utf8", cid), 1)
        st.cons.setdefault(s, ((0, 1),))
        return s

    def m_sock(self, E, st, fr, i, args, fn):
        b, n = fn.base, len(args)
        if b == "is_open":
            return st.g.get(("#open",), 1)
        if b == "get_total_buffer_size":
            s = st.g.get(("#buffered",))
            if s is None:
                s = st.g[("#buffered",)] = E.fresh(st, ("buffered", fr.ctx, i["d"]), 64)
                st.cons[s] = ((0, 1 << 40),)
            return s
        if b in ("buffer", "write") and n in (3, 4) and not (b == "write" and n == 3):
            self.out_range(E, st, args[1], args[2])
            if b == "write" and args[-1] == 0:
                self.out(st, ("flush",))
            st.g.pop(("#buffered",), None)
            return None
        if b in ("buffer", "write") and n in (2, 3):
            w = sm.gs(E, st, args[1])
            self.out(st, ("str", w[1], w[2], st.g.get(("#masked", w[2]))))
            sm.ps(E, st, args[1], 0, ("k", b""))
            if b == "write" and args[-1] == 0:
                self.out(st, ("flush",))
            st.g.pop(("#buffered",), None)
            return None
        if b == "write_shutdown":
            self.out(st, ("shutdown",))
            return None
        if b == "close":
            self.out(st, ("close",))
            st.g[("#open",)] = 0
            return None
        if b == "accept":
            self.out(st, ("accept",))
            st.g[("#open",)] = 1
            return None
        self.out(st, ("sock", b))
        if i.get("t", "v") == "v":
            return None
        return E.topt(st, fr, i)

    def out_range(self, E, st, p, n):
        """bytes [p, p+n) go to the socket"""
        n = n if isinstance(n, int) else (E.const_of(st, n) if E.const_of(st, n) is not None else n)
        if isinstance(n, int) and n <= 64 and is_ptr(p):
            for k in range(n):
                self.out(st, ("b", E.load(st, P(p[1], add(p[2], k, 64)), 1, "i8")))
        elif st.g.get("$sprintf") is not None and len(st.g["$sprintf"]) == 4 and self.same(E, st, st.g["$sprintf"][3], n) and st.g["$sprintf"][0] == p:
            self.out(st, ("str", n, sm.formatted(st.g["$sprintf"]), None))
        elif is_ptr(p) and p[1][0] == "sd" and p[2] == 0:
            cid = p[1][1]
            self.out(st, ("str", n, cid if yes(E, st, "eq", n, E.sdlen.get(p[1], -1)) else ("sub", cid, 0, n), st.g.get(("#masked", cid))))
        else:
            self.out(st, ("ext", n, p))

    def same(self, E, st, r, n):
        """is n the (positive) result r, extended or not"""
        return n == r or isinstance(n, tuple) and n[0] in ("sx", "zx") and n[1] == r

    # ---------------------------------------------------------------- states
    def fresh_state(self, state=None):
        st = State()
        set_current(self.prog, self.E, st, P(("*", ("loop",)), 0))
        st.cons[S(("loop",), 64)] = ((1, mask(64)),)
        st.cons[S(THIS[1][1], 64)] = ((1, mask(64)),)
        if state is not None:
            st.wregion(THIS[1]).cells[self.o_state] = (4, self.states[state] if isinstance(state, str) else state)
        if self.cls == CC:
            # the resolver does not take part once connected
            pass
        st.tr = None
        return st

    def message_arg(self, st, op, lens, root=SARG):
        """a WebMessage argument with opcode op, text length in lens"""
        rg = st.wregion(root)
        rg.cells[self.m_op] = (4, op)
        n = S(("L",), 64)
        st.cons[n] = (lens,)
        sm.ps(self.E, st, P(root, self.m_body), n, ("text",))
        code = S(("code",), 16)
        rg = st.wregion(root)
        rg.cells[self.m_code] = (2, code)
        return n

    def handler(self, st, cls):
        """the user's handlers are user code"""
        E = self.E

        def user(E2, s, fr, i, fp, args):
            self.out(s, ("user",))
            return [("ret", E2.topt(s, fr, i), s)]
        E.user_hook = user
        return st

    def bind(self, st):
        """vtables and library-bound handlers of the object, as its constructor leaves them"""
        p = objects.proto_state(self.prog, self.cls, THIS)
        rg = st.wregion(THIS[1])
        for o, c in p.mem[THIS[1]].cells.items():
            rg.cells.setdefault(o, c)
        return st

    # ---------------------------------------------------------------- frames
    def frames(self, s, items):
        """decode socket output into frames [(fin, op, length term, masked, key bits, payload items)]; returns (frames, error)"""
        E = self.E
        B = Bits(E, s)
        out = []
        items = [x for x in items if x[0] in ("b", "str", "ext")]
        exp = []
        for x in items:
            # texts with known bytes
            if x[0] == "str" and x[3] is None and x[2][0] in ("k", "cat") and all(y[0] in ("k", "b") for y in sm.pieces(x[2])):
                for y in sm.pieces(x[2]):
                    exp += [("b", c) for c in y[1]] if y[0] == "k" else [("b", y[1])]
            else:
                exp.append(x)
        zero = lambda x: x[0] in ("str", "ext") and (x[1] == 0 or not isinstance(x[1], int) and yes(E, s, "eq", x[1], 0))
        items, i = [x for x in exp if not zero(x)], 0
        bit = lambda t: [(t >> j) & 1 for j in range(8)] if isinstance(t, int) else B.of(t, 8)
        while i < len(items):
            hd = []
            while i + len(hd) < len(items) and items[i + len(hd)][0] == "b" and len(hd) < 14:
                hd.append(bit(items[i + len(hd)][1]))
            if len(hd) < 2 or hd[0] is None or hd[1] is None:
                return out, "something that is not a frame is sent"
            if any(b not in (0, 1) for b in hd[0]):
                return out, "first byte of a frame is unknown"
            fin, rsv, op = hd[0][7], hd[0][4:7], sum(hd[0][j] << j for j in range(4))
            if any(rsv):
                return out, "reserved bits are set"
            mk = hd[1][7]
            if mk not in (0, 1):
                return out, "it depends on something whether a frame is masked"
            l7 = hd[1][:7]
            c7 = sum(l7[j] << j for j in range(7)) if all(b in (0, 1) for b in l7) else None
            ext = 2 if c7 == 126 else 8 if c7 == 127 else 0
            size = 2 + ext + 4 * mk
            if len(hd) < size:
                return out, "a frame header is cut short"
            if any(x is None for x in hd[:size]):
                return out, "the length or key of a frame is not known"
            if ext:
                ln = [b for x in reversed(hd[2:2 + ext]) for b in x]
            else:
                ln = l7
            key = [b for x in reversed(hd[2 + ext:size]) for b in x] if mk else None
            i += size
            pay, total = [], 0
            while True:
                tb = [(total >> j) & 1 for j in range(64)] if isinstance(total, int) else B.of(total, 64)
                if tb is not None and tb[:len(ln)] == ln and self.top(s, total, len(ln)):
                    break
                if i >= len(items):
                    return out, "the announced length is not the length of the payload"
                x = items[i]
                i += 1
                pay.append(x)
                total = add(total, 1 if x[0] == "b" else x[1], 64)
            out.append((fin, op, total, mk, key, pay))
        return out, None

    def top(self, s, t, bits):
        if isinstance(t, int):
            return t < (1 << bits) if bits > 7 else t < 126
        r = self.E.ranges(s, t)
        return r[-1][1] < ((1 << bits) if bits > 7 else 126)

    def cell(self, s, o, size):
        v = self.E.load(s, P(THIS[1], o), size, "i%d" % (8 * size))
        c = self.E.const_of(s, v) if not isinstance(v, int) else v
        return v if c is None else c

    # ---------------------------------------------------------------- parsers, cut off at parse()
    def pinfo(self, cls):
        """what a parser object looks like when fresh, and which private state means complete"""
        E = self.E
        if cls in self.parsers:
            return self.parsers[cls]
        prog = self.prog
        T = P(("*", ("tmp",)), 0)
        base = cls.rsplit("::", 1)[1]
        cs = [f for f in prog.find(cls + "::" + base) if len(f.args) == 1]
        if not cs:
            raise AnalysisError("no default constructor of %s" % cls)
        rets = [s for k, v, s in E.run(cs[0], [T], State()) if k == "ret"]
        if len(rets) != 1:
            raise AnalysisError("constructor of %s" % cls)
        fresh = {o: c for o, c in rets[0].mem[T[1]].cells.items()}
        leaf = {}
        m = LeafWalk(prog)
        m.leaf = leaf
        m._leaves(prog.type(cls), 0, "")
        pub = [f for f in prog.find(cls + "::is_good") if f.bb]
        if len(pub) != 1:
            raise AnalysisError("is_good of %s" % cls)
        en = [(o, x) for o, x in leaf.items() if x[2] == "enum" and "." not in x[0]]
        got = None
        for o, x in en:
            vals = [y[2] for y in x[3]["m"] if y[0] == "e"]
            res = {}
            for v in vals:
                st = rets[0].copy()
                st.wregion(T[1]).cells[o] = (x[1], v)
                res[v] = {E.const_of(s, r) if not isinstance(r, int) else r for k, r, s in E.run(pub[0], [T], st)}
            good = [v for v in vals if res[v] == {1}]
            bad = [v for v in vals if res[v] == {0}]
            if len(good) == 1 and len(bad) == len(vals) - 1:
                got = (o, x[1], good[0], bad)
        if got is None:
            raise AnalysisError("completion state of %s not recognised" % cls)
        self.parsers[cls] = (leaf, fresh, got)
        return self.parsers[cls]

    def pset(self, st, p, cls, fields, good, tag):
        """all data of a parser object: given fields, rest unknown under names (tag, field)"""
        leaf, fresh, (oe, sz, g, bad) = self.pinfo(cls)
        E = self.E
        for o, (n, s, k, t) in leaf.items():
            q = P(p[1], add(p[2], o, 64))
            if o == oe:
                v = g
                if not good:
                    v = S((tag, n), 8 * s)
                    st.cons[v] = tuple((b, b) for b in sorted(bad))
            elif n in fields:
                v = fields[n]
                if k == "str":
                    sm.ps(E, st, q, v[0], v[1])
                    continue
            elif k == "str":
                ln = S((tag, n, "len"), 64)
                st.cons[ln] = ((0, 1 << 40),)
                sm.ps(E, st, q, ln, (tag, n))
                continue
            elif k == "vec":
                st.wregion(q[1]).cells.pop(q[2], None)
                ln = S((tag, n, "cnt"), 64)
                st.cons[ln] = ((0, 1 << 40),)
                sm.putcell(E, st, q, 24, ("vec", ln, (tag, n)))
                continue
            elif k in ("int", "bool", "enum"):
                c = fresh.get(o)
                if n.startswith("max_") and c is not None and isinstance(c[1], int):
                    v = c[1]
                else:
                    v = S((tag, n), 8 * s)
                    if k == "bool":
                        st.cons[v] = ((0, 1),)
            else:
                c = fresh.get(o)
                if c is None:
                    continue
                v = c[1]
            E.store(st, q, s, v)

    def pfresh(self, st, p, cls):
        leaf, fresh, (oe, sz, g, bad) = self.pinfo(cls)
        E = self.E
        for o, (n, s, k, t) in leaf.items():
            q = P(p[1], add(p[2], o, 64))
            c = fresh.get(o)
            if k == "str":
                sm.ps(E, st, q, 0, ("k", b""))
            elif k == "vec":
                sm.putcell(E, st, q, 24, ("vec", 0, ("zero",)))
            elif c is not None:
                E.store(st, q, s, c[1])

    def pcells(self, st, p, cls):
        """values of all data of a parser object"""
        leaf, fresh, ge = self.pinfo(cls)
        E = self.E
        out = {}
        for o, (n, s, k, t) in leaf.items():
            q = P(p[1], add(p[2], o, 64))
            if k == "str":
                out[n] = sm.gs(E, st, q)[1:]
                if out[n][0] == 0:
                    out[n] = (0,)
            elif k == "vec":
                c = sm.getcell(E, st, q, "vec", 24)
                out[n] = (0,) if c[1] == 0 else c
            elif k in ("int", "bool", "enum"):
                v = E.load(st, q, s, "i%d" % (8 * s))
                c = E.const_of(st, v) if not isinstance(v, int) else v
                out[n] = v if c is None else c
        return out

    def isfresh(self, st, p, cls, skip=()):
        leaf, fresh, ge = self.pinfo(cls)
        for o, (n, s, k, t) in leaf.items():
            if n in skip:
                continue
            q = P(p[1], add(p[2], o, 64))
            if k == "str":
                if sm.gs(self.E, st, q)[1] != 0:
                    return n
            elif k == "vec":
                if sm.getcell(self.E, st, q, "vec", 24)[1] != 0:
                    return n
            elif k in ("int", "bool", "enum"):
                c = fresh.get(o)
                v = self.E.load(st, q, s, "i%d" % (8 * s))
                # a value under an unset optional does not count
                if n.endswith(".impl") and n[:-5] + ".valid" in [x[0] for x in leaf.values()]:
                    continue
                if c is not None and v != c[1] and self.E.const_of(st, v) != c[1]:
                    return n
        return None

    def goodness(self, st, p, cls):
        leaf, fresh, (oe, sz, g, bad) = self.pinfo(cls)
        v = self.E.load(st, P(p[1], add(p[2], oe, 64)), sz, "i%d" % (8 * sz))
        d = self.E.decide(st, self.E.icmp(st, "eq", v, g, 8 * sz))
        return d

    def parse_models(self, header_cases):
        """header_cases: [(fin, opcode)] frames to consider"""
        E = self.E
        self.parsers = {}
        for c in (HDR, BODY, HBODY, RESP if self.cls == CC else REQP):
            self.pinfo(c)
        E.models["crab::Buffer::read_from"] = self.m_read_from
        E.models["crab::Buffer::clear"] = self.m_buf_clear
        E.models["crab::Buffer::size"] = E.models["crab::IFiniteStream::empty"] = self.m_buf_empty
        self.header_cases = header_cases
        for c in (HDR, BODY, HBODY, RESP if self.cls == CC else REQP):
            fs = [f for f in self.prog.by_qual.get(c + "::parse", []) if f.bb and len(f.args) == 2]
            if len(fs) != 1:
                raise AnalysisError("parse(Buffer &) of %s not found" % c)
            E.models[c + "::parse"] = lambda E2, st, fr, i, args, fn, c=c: self.m_parse(E2, st, fr, i, args, fn, c)
        for c in (BODY, HBODY):
            q = c + "::" + c.rsplit("::", 1)[1]
            self.ctors = getattr(self, "ctors", {})
            f = [x for x in self.prog.by_qual.get(q, []) if x.bb and len(x.args) == 3 and "(unsigned long" in x.dm or x.bb and len(x.args) == 3 and "optional" in x.dm]
            if len(f) != 1:
                raise AnalysisError("constructor of %s from its header not found" % c)
            self.ctors[c] = f[0]
            E.models[q] = lambda E2, st, fr, i, args, fn, c=c: self.m_pctor(E2, st, fr, i, args, fn, c)
        for q in list(self.prog.by_qual):
            b = q.split("[")[0]
            if b in ("crab::http::ResponseHeader::to_string", "crab::http::RequestHeader::to_string"):
                E.models[q] = self.m_to_string
            elif b == "crab::http::ResponseHeader::generate_sec_websocket_accept":
                E.models[q] = self.m_accept
        for q in list(self.prog.by_qual):
            if q.startswith("crab::DNSResolver::"):
                E.models[q] = self.m_dns
        E.head_hook = self.head

    def watch_timers(self):
        """note timers of the object set and cancelled"""
        for q in ("crab::Timer::once", "crab::Timer::once_at"):
            self.E.models[q] = lambda E, st, fr, i, args, fn: self.m_timer(st, args, "timer")
        self.E.models["crab::Timer::cancel"] = lambda E, st, fr, i, args, fn: self.m_timer(st, args, "untimer")

    def m_timer(self, st, args, what):
        if is_ptr(args[0]) and args[0][1] == THIS[1]:
            self.out(st, (what, args[0][2]))
        return None

    def m_dns(self, E, st, fr, i, args, fn):
        if fn.base == "is_open":
            return st.g.get(("#dns",), 0)
        self.out(st, ("dns", fn.base))
        if fn.base == "cancel":
            st.g[("#dns",)] = 0
        return E.topt(st, fr, i) if i.get("t", "v") != "v" else None

    def m_read_from(self, E, st, fr, i, args, fn):
        self.out(st, ("read",))
        r = E.fresh(st, ("got", fr.ctx, i["d"]), 64)
        st.cons[r] = ((0, 1 << 30),)
        st.g[("#rb",)] = None
        return r

    def m_buf_clear(self, E, st, fr, i, args, fn):
        self.out(st, ("discard",))
        st.g[("#rb",)] = 0
        return None

    def m_buf_empty(self, E, st, fr, i, args, fn):
        if not (is_ptr(args[0]) and args[0][1] == THIS[1] and isinstance(args[0][2], int) and self.o_buf <= args[0][2] < self.o_buf + 64):
            return NotImplemented
        if fn.base == "size":
            r = E.fresh(st, ("rbsize", fr.ctx, i["d"]), 64)
            st.cons[r] = ((0, 0),) if st.g.get(("#rb",)) == 0 else ((0, 1 << 30),)
            return r
        if st.g.get(("#rb",)) == 0:
            return 1
        return E.topt(st, fr, i)

    def m_pctor(self, E, st, fr, i, args, fn, cls):
        f = self.ctors[cls]
        if fn is not f and fn.dm != f.dm:
            return NotImplemented
        if cls == BODY:
            tag = ("wm", args[1], E.load(st, P(args[2][1], add(args[2][2], self.prog.field("crab::optional<unsigned int>", "valid")[0], 64)), 1, "i8"),
                   E.load(st, P(args[2][1], add(args[2][2], self.prog.field("crab::optional<unsigned int>", "impl")[0], 64)), 4, "i32"))
        else:
            tag = ("hb", E.load(st, P(args[1][1], add(args[1][2], self.prog.field("crab::optional<unsigned long>", "valid")[0], 64)), 1, "i8"),
                   E.load(st, P(args[1][1], add(args[1][2], self.prog.field("crab::optional<unsigned long>", "impl")[0], 64)), 8, "i64"), args[2])
        leaf, fresh, ge = self.pinfo(cls)
        out = []
        for k, v, s in E.run(f, args, st, E.ctx(fr.ctx, ("pctor", id(i))), fr.depth + 1):
            if k == "ret":
                for o, (n, sz, kk, t) in leaf.items():
                    if kk == "str":
                        sm.ps(E, s, P(args[0][1], add(args[0][2], o, 64)), 0, tag)
            out.append((k, v, s))
        return out

    def m_parse(self, E, st, fr, i, args, fn, cls):
        p = args[0]
        out = []
        for g in (True, False):
            gd = self.goodness(st, p, cls)
            if gd is not None and gd != g:
                continue
            s0 = st.copy()
            if g:
                s0.g[("#stale",)] = s0.g.get(("#stale",), ()) + (cls,)
                out.append(("ret", None, s0))
                continue
            out += self.parse_cases(E, s0, p, cls)
        return out

    def parse_cases(self, E, st, p, cls):
        out = []
        leaf, fresh, ge = self.pinfo(cls)
        st.g[("#parsed", cls)] = 1
        s = st.copy()
        tag = ("part", cls.rsplit("::", 1)[1])
        old = {n: sm.gs(E, s, P(p[1], add(p[2], o, 64)))[2] for o, (n, sz, k, t) in leaf.items() if k == "str" and n.startswith("body.")}
        prov = {n: c[1] if c[0] == "part of" else c for n, c in old.items()}
        part = {}
        for n, c in prov.items():
            ln = S((tag, n, "len"), 64)
            s.cons[ln] = ((0, 1 << 40),)
            part[n] = (ln, ("part of", c))
        self.pset(s, p, cls, part, False, tag)
        s.g[("#rb",)] = 0
        out.append(("ret", None, s))
        if cls != BODY:
            for t in self.throws:
                s = st.copy()
                s.g[("#threw",)] = cls
                out.append(("exc", Exc(t, P(("exo", t), 0)), s))
        tag = ("good", cls.rsplit("::", 1)[1])
        if cls == HDR:
            for fin, op in self.header_cases:
                s = st.copy()
                ln = S(("frame len",), 64)
                s.cons[ln] = ((0, 125),) if op >= 8 else ((0, (1 << 63) - 1),)
                self.pset(s, p, cls, {"fin": fin, "opcode": op, "payload_len": ln}, True, tag)
                s.g[("#frame",)] = (fin, op)
                s.g[("#rb",)] = None
                out.append(("ret", None, s))
            return out
        for fields in self.good.get(cls, [{}]):
            s = st.copy()
            self.whole(s, p, cls, prov, tag, fields)
            out.append(("ret", None, s))
        return out

    throws = ("std::runtime_error",)
    good = {}           # class: header fields to consider when parsing succeeds

    def whole(self, s, p, cls, prov, tag, fields):
        done = dict(fields)
        for n, c in prov.items():
            ln = c[1] if c[0] == "wm" else S((tag, n, "len"), 64)
            if not isinstance(ln, int):
                s.cons.setdefault(ln, ((0, 1 << 40),))
            done[n] = (ln, ("whole", c))
        self.pset(s, p, cls, done, True, tag)
        s.g[("#rb",)] = None

    HFIELDS = ("content_length.valid", "content_length.impl", "transfer_encoding_chunked", "keep_alive", "http_version_major", "http_version_minor", "status",
               "connection_upgrade", "upgrade_websocket", "sec_websocket_accept", "sec_websocket_key", "sec_websocket_version", "method", "host")

    def hdr_fields(self, st, p, cls):
        E, d = self.E, {}
        w = LeafWalk(self.prog)
        w.leaf = {}
        w._leaves(self.prog.type(cls), 0, "")
        for o, (n, s, k, t) in w.leaf.items():
            if n not in self.HFIELDS:
                continue
            q = P(p[1], add(p[2], o, 64))
            if k == "str":
                d[n] = sm.gs(E, st, q)[1:]
            else:
                v = E.load(st, q, s, "i%d" % (8 * s))
                c = E.const_of(st, v) if not isinstance(v, int) else v
                d[n] = v if c is None else c
        return d

    def m_to_string(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        d = self.hdr_fields(st, a[0], fn.scope)
        n = E.fresh(st, ("hdrlen", fr.ctx, i.get("d", 0)), 64)
        st.cons[n] = ((1, 1 << 40),)
        sm.ps(E, st, sret, n, ("http", tuple(sorted(d.items()))))
        return None

    def m_accept(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        w = sm.gs(E, st, a[0])
        sm.ps(E, st, sret, 28, ("acceptof", w[2]))
        return None

    # ---------------------------------------------------------------- one round of the reading loop
    def head(self, E, fr, b, env, st):
        if not fr.fn.qual.startswith((CC, SC)) or not self.loopfn(fr.fn):
            return None
        at = st.g.get(("#head",))
        if at is None:
            if self.stop_at_head:
                self.rounds.append(st)
                return []
            st.g[("#head",)] = (fr.ctx, b)
            return [(env, st)]
        if at != (fr.ctx, b):
            return None
        self.rounds.append(st)
        return []

    def loopfn(self, fn):
        """the loop over the read buffer: it calls the parsers"""
        if fn not in self._lf:
            self._lf[fn] = any(q == HDR + "::parse" for q in self.reach(fn))
        return self._lf[fn]

    _lf = {}

    def reach(self, fn):
        seen, work, out = {fn.name}, [fn], set()
        while work:
            f = work.pop()
            for i, g in self.prog.calls(f):
                if g is None or g.name in seen:
                    continue
                seen.add(g.name)
                out.add(g.qual)
                if g.bb and g.qual.startswith((CC, SC, "std::")):
                    work.append(g)
        return out

    def round(self, st, f=None, stop=False, args=None):
        """[(kind, value, state)] kind: round, ret, exc"""
        st = st.copy()
        st.tr = None
        self.rounds = []
        self.stop_at_head = stop
        f = f or self.advance
        res = self.E.run(f, args or [THIS], st)
        return [("round", None, s) for s in self.rounds] + list(res)


class LeafWalk:
    def __init__(self, prog):
        self.prog = prog
    from parsers import Machine as _M
    _leaves = _M._leaves
