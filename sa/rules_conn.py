"""C22-C25: responses are framed as announced, connections carry nothing over, malformed input is contained, upgrades are verified."""
from absint import State, P, S, Exc, is_ptr, add, neg, mask
from model import AnalysisError
import std_models as sm
import objects
import fw
import conn
from conn import Conn, CC, SC, OUT, SARG, THIS, HDR, BODY, HBODY, REQP, RESP, fn1
from rules_net import fwhere, yes, no

DATAP = ("*", ("data",))
CNT, REM = S(("count",), 64), S(("remaining",), 64)


class Base:
    def __init__(self, C):
        self.C, self.E, self.rep, self.prog = C, C.E, C.rep, C.prog
        self.inv = {v: k for k, v in C.states.items()}

    def ob(self, rule, ok, f, detail, msg, s):
        return self.rep.ob(rule, ok, f.qual, fwhere(self.prog, f), msg, detail, fw.path_of(self.prog, s))

    def phase(self, s):
        v = self.C.cell(s, self.C.o_state, 4)
        return self.inv.get(v) if isinstance(v, int) else None

    def text(self, s):
        """what was sent: [("k", bytes) | ("b", term) | ("x"|"n", term) | ("r", content, length) | ("http", fields)] and what else happened"""
        E, out = self.E, []

        def k(b):
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + b)
            elif b:
                out.append(("k", b))
        for x in s.g.get(OUT, ()):
            if x[0] == "b":
                v = x[1] if isinstance(x[1], int) else E.const_of(s, x[1])
                if v is not None:
                    k(bytes([v & 255]))
                else:
                    out.append(x)
            elif x[0] in ("str", "ext"):
                n = x[1] if isinstance(x[1], int) else E.const_of(s, x[1])
                if n == 0 or n is None and yes(E, s, "eq", x[1], 0):
                    continue
                if x[0] == "ext":
                    out.append(("r", x[2], x[1]))
                    continue
                if x[3]:
                    out.append(("masked",))
                if x[2][0] == "http":
                    out.append(x[2])
                    continue
                ps = sm.pieces(x[2])
                for y in ps:
                    if y[0] == "k":
                        k(y[1])
                    elif y[0] == "r":
                        out.append(("r", y[1], x[1] if len(ps) == 1 else None))
                    else:
                        out.append(y)
        return out

    def did(self, s, what):
        return any(x[0] == what for x in s.g.get(OUT, ()))


    def anyarg(self, st, g, j):
        t = g.args[j].get("t", "p") if isinstance(g.args[j], dict) else g.args[j]
        x = ("arg%d" % j,)
        if "p" in str(t)[:1]:
            st.cons[S(x, 64)] = ((1, mask(64)),)
            return P(("*", x), 0)
        return S(x, int(str(t)[1:])) if str(t)[0] == "i" else S(x, 64)

    def toff(self, o):
        """the timer object whose handler lies at offset o"""
        for n, off, sz, t in self.C.mem:
            if off <= o < off + sz:
                return off
        return None


# ------------------------------------------------------------------ C22

HEAD = "a response header announces how the body is sent"
BODYR = "the body has the announced length"
OVER = "more than announced is refused before it is sent"
CHUNK = "chunks are well formed"
FIN = "a finished response ends the exchange as the request asked"
FLUSH = "a finished response is not left in the buffer"
KEEP = "the request's wish about the connection is kept"


class Responses(Base):
    def __init__(self, C):
        Base.__init__(self, C)
        self.pp = P(THIS[1], C.o_par)
        leaf = C.pinfo(REQP)[0]
        self.preq = "req."
        prog = self.prog
        self.o_keep = C.o_par + self.leaf(REQP, "keep_alive")[0]
        self.o_maj, self.o_min = (C.o_par + self.leaf(REQP, x)[0] for x in ("http_version_major", "http_version_minor"))
        C.watch_timers()

    def leaf(self, cls, name):
        r = [(o, x) for o, x in self.C.pinfo(cls)[0].items() if x[0].split(".")[-1] == name]
        if len(r) != 1:
            raise AnalysisError("%s of %s not found" % (name, cls))
        return r[0]

    def state(self, name, valid=None, keep=None, writing=0, rem=REM):
        C = self.C
        st = C.fresh_state(name)
        rg = st.wregion(THIS[1])
        rg.cells[C.o_writing] = (1, writing)
        if valid is not None:
            vo, io = (self.prog.field("crab::optional<unsigned long>", x)[0] for x in ("valid", "impl"))
            rg.cells[C.o_rem + vo] = (1, valid)
            if valid:
                rg.cells[C.o_rem + io] = (8, rem)
        C.pset(st, self.pp, REQP, {"req.keep_alive": keep} if keep is not None else {}, True, ("asked",))
        C.bind(st)
        return st

    def remaining(self, s):
        C = self.C
        vo, io = (self.prog.field("crab::optional<unsigned long>", x)[0] for x in ("valid", "impl"))
        return C.cell(s, C.o_rem + vo, 1), C.cell(s, C.o_rem + io, 8)

    def untouched(self, s, name, valid, rem=REM):
        v, r = self.remaining(s)
        return self.phase(s) == name and v == valid and (not valid or r == rem) and not self.text(s) and not self.did(s, "shutdown") and not self.did(s, "close")

    def finished(self, f, s, keep, what):
        C = self.C
        out = [x[0] for x in s.g.get(OUT, ())]
        ok = self.phase(s) == "REQUEST_HEADER" and C.isfresh(s, self.pp, REQP) is None
        self.ob(FIN, ok, f, "next " + what, "%s: after the response the next request's header is not awaited afresh" % what, s)
        if keep:
            again = any(x[0] == "read" or x[0] == "timer" and self.reads_on(x[1]) for x in s.g.get(OUT, ()))
            self.ob(FIN, "shutdown" not in out and "close" not in out, f, "keep " + what, "%s: the connection is closed though the request did not ask for it" % what, s)
            self.ob(FIN, again, f, "resume " + what, "%s: input that is already there is not looked at again" % what, s)
        else:
            last = max([k for k, x in enumerate(out) if x in ("str", "b", "ext")] + [-1])
            ok = "shutdown" in out and out.index("shutdown") > last or "close" in out and False
            self.ob(FIN, ok, f, "shut " + what, "%s: the connection is not half-closed after the response though the request asked for it" % what, s)

    def reads_on(self, off):
        """does the timer at this offset lead to the reading loop"""
        for name, o, inv in objects.callbacks(self.prog, self.C.cls):
            t = self.toff(o)
            if t == off:
                return HDR + "::parse" in self.C.reach(inv)
        return False

    def flushed(self, f, s, what):
        out = [x[0] for x in s.g.get(OUT, ())]
        data = [k for k, x in enumerate(out) if x in ("str", "b", "ext")]
        fl = [k for k, x in enumerate(out) if x == "flush"]
        self.ob(FLUSH, not data or fl and fl[-1] > data[-1], f, "flush " + what, "%s: what is written stays in the buffer" % what, s)

    # -------------------------------------------------- headers
    def headers(self):
        C, E, prog = self.C, self.E, self.prog
        f = fn1(prog, SC + "::write", None, "ResponseHeader&")
        n = 0
        for name in C.states:
            for chunked in (0, 1):
                for clv in (0, 1):
                    for bo, keep in ((0, 0), (0, 1), (1, 0), (1, 1)):
                        st = self.state(name, valid=1, keep=keep)
                        self.header_arg(st, SARG, chunked, clv)
                        for k, v, s in E.run(f, [THIS, P(SARG, 0), bo], st):
                            n += 1
                            what = "in phase %s" % name
                            if k == "exc" or name != "RESPONSE_HEADER" or not (chunked or clv):
                                legal = name == "RESPONSE_HEADER" and (chunked or clv)
                                self.ob(HEAD, k == "exc" and self.untouched(s, name, 1) and (not legal or self.upgradelike(s)), f, "refuse " + what,
                                        "%s: %s" % (what, "the header is refused" if legal else "a header is written, or something is left changed"), s)
                                continue
                            t = self.text(s)
                            if not self.ob(HEAD, len(t) == 1 and t[0][0] == "http", f, "one", "something other than one header is sent", s):
                                continue
                            d = dict(t[0][1])
                            v, r = self.remaining(s)
                            ok = bool(d["content_length.valid"]) != bool(d["transfer_encoding_chunked"]) and v == d["content_length.valid"] and \
                                (not v or r == d["content_length.impl"] == S(("announced",), 64))
                            self.ob(HEAD, ok, f, "announce", "the length that will be enforced is not the one announced", s)
                            if chunked:
                                self.ob(HEAD, d["transfer_encoding_chunked"] == 1, f, "chunked", "chunked coding is asked for and not announced", s)
                            self.ob(HEAD, self.phase(s) == "RESPONSE_BODY", f, "phase", "after the header the body is not awaited", s)
                            self.ob(KEEP, d["keep_alive"] == keep, f, "keep", "the header does not repeat the request's wish about the connection", s)
                            if bo == 0:
                                self.flushed(f, s, "header")
        self.rep.count("header_writes", n)

    def upgradelike(self, s):
        """is this path possible only for a header that is an upgrade"""
        if not hasattr(self, "_up"):
            self._up = [self.E.load(s, P(SARG, self.prog.field("crab::http::ResponseHeader", "status")[0]), 4, "i32")]
        return self.E.const_of(s, self.E.load(s, P(SARG, self.prog.field("crab::http::ResponseHeader", "status")[0]), 4, "i32")) == 101

    def header_arg(self, st, root, chunked, clv, at=0):
        w = conn.LeafWalk(self.prog)
        w.leaf = {}
        w._leaves(self.prog.type("crab::http::ResponseHeader"), 0, "")
        st.cons[S(root[1], 64)] = ((1, mask(64)),)
        rg = st.wregion(root)
        for o, (n, sz, k, t) in w.leaf.items():
            if n == "transfer_encoding_chunked":
                rg.cells[at + o] = (1, chunked)
            elif n == "content_length.valid":
                rg.cells[at + o] = (1, clv)
            elif n == "content_length.impl":
                rg.cells[at + o] = (8, S(("announced",), 64))

    # -------------------------------------------------- bodies
    def bodies(self):
        C, E, prog = self.C, self.E, self.prog
        fp = fn1(prog, SC + "::write", 4, "unsigned char const*")
        fs = fn1(prog, SC + "::write", 3, "basic_string")
        fl = fn1(prog, SC + "::write_last_chunk")
        n = 0
        for kind, f in (("ptr", fp), ("text", fs), ("last", fl)):
            for name in C.states:
                for valid in (0, 1):
                    for keep in (0, 1):
                        for bo in (0, 1):
                            for lens in (((0, 0), (1, 1 << 62)) if kind != "last" else (None,)):
                                st = self.state(name, valid, keep)
                                st.cons[S(DATAP[1], 64)] = ((1, mask(64)),)
                                st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
                                st.cons[REM] = ((0, mask(64)),)
                                if lens:
                                    st.cons[CNT] = (lens,)
                                    sm.ps(E, st, P(SARG, 0), CNT, ("text",))
                                a = {"ptr": [P(DATAP, 0), CNT, bo], "text": [P(SARG, 0), bo], "last": [bo]}[kind]
                                for k, v, s in E.run(f, [THIS] + a, st):
                                    n += 1
                                    self.body(f, k, s, kind, name, valid, keep, bo, lens)
        self.rep.count("body_writes", n)
        self.rep.engine(E)

    def body(self, f, k, s, kind, name, valid, keep, bo, lens):
        E = self.E
        what = "%s of the body" % ("the end" if kind == "last" else "part")
        if name != "RESPONSE_BODY":
            self.ob(OVER, k == "exc" and self.untouched(s, name, valid), f, "phase", "%s is accepted in phase %s" % (what, name), s)
            return
        t = self.text(s)
        if kind == "last":
            if valid:
                self.ob(CHUNK, k == "exc" and self.untouched(s, name, 1), f, "last refused", "a final chunk is accepted though a length was announced", s)
                return
            if self.ob(CHUNK, k == "ret" and t == [("k", b"0\r\n\r\n")], f, "last", "the body is not closed by the final chunk", s):
                self.finished(f, s, keep, "final chunk")
                if bo == 0:
                    self.flushed(f, s, "final chunk")
            return
        if valid:
            if k == "exc":
                self.ob(OVER, no(E, s, "ule", CNT, REM) and self.untouched(s, name, 1), f, "refuse", "a part that fits is refused, or something is sent or changed before the refusal", s)
                return
            self.ob(OVER, yes(E, s, "ule", CNT, REM), f, "over", "a part longer than what is left is sent", s)
            ok = t == [] and yes(E, s, "eq", CNT, 0) or len(t) == 1 and self.isdata(s, t[0])
            self.ob(BODYR, ok, f, "data", "what is sent is not the part given", s)
            v, r = self.remaining(s)
            left = add(REM, neg(CNT, 64), 64)
            if yes(E, s, "eq", CNT, REM):
                self.finished(f, s, keep, "body")
            else:
                ok = no(E, s, "eq", CNT, REM) and self.phase(s) == name and v == 1 and yes(E, s, "eq", r, left) and not self.did(s, "shutdown")
                self.ob(BODYR, ok, f, "left", "what is left to send is not what was announced less what was sent", s)
        else:
            if not self.ob(CHUNK, k == "ret", f, "refused", "a part of a chunked body is refused", s):
                return
            v, r = self.remaining(s)
            self.ob(CHUNK, self.phase(s) == name and v == 0 and not self.did(s, "shutdown"), f, "open", "a part of a chunked body ends the response", s)
            if lens == (0, 0):
                self.ob(CHUNK, t == [], f, "empty", "an empty part is sent as a chunk, which ends the body", s)
            else:
                self.ob(CHUNK, self.ischunk(s, t), f, "chunk", "a part is not sent as a chunk of its size", s)
        if bo == 0:
            self.flushed(f, s, "part")

    def isdata(self, s, x):
        return x[0] == "r" and x[1] in (P(DATAP, 0), ("text",)) and (x[2] is None or yes(self.E, s, "eq", x[2], CNT))

    def ischunk(self, s, t):
        E = self.E
        return len(t) == 4 and t[0][0] == "x" and yes(E, s, "eq", t[0][1], CNT) and t[1] == ("k", b"\r\n") and self.isdata(s, t[2]) and t[3] == ("k", b"\r\n")

    # -------------------------------------------------- whole responses
    def whole(self):
        C, E, prog = self.C, self.E, self.prog
        f = fn1(prog, SC + "::write", 2, "Response&&")
        off_h, off_b = prog.field("crab::http::Response", "header")[0], prog.field("crab::http::Response", "body")[0]
        ANN = S(("announced",), 64)
        n = 0
        for chunked in (0, 1):
            for clv in (0, 1):
                for keep in (0, 1):
                    for lens in ((0, 0), (1, 1 << 62)):
                        st = self.state("RESPONSE_HEADER", None, keep)
                        self.header_arg(st, SARG, chunked, clv, off_h)
                        st.cons[CNT] = (lens,)
                        sm.ps(E, st, P(SARG, off_b), CNT, ("text",))
                        for k, v, s in E.run(f, [THIS, P(SARG, 0)], st):
                            n += 1
                            t = self.text(s)
                            if not chunked and not clv:
                                self.ob(HEAD, k == "exc" and not t, f, "unframed", "a response without announced length is sent", s)
                                continue
                            if k == "exc":
                                ok = not chunked and no(E, s, "ule", CNT, ANN) and len(t) <= 1 or not t
                                self.ob(OVER, ok, f, "refuse", "a response is refused though its body fits, or some of it is sent", s)
                                continue
                            if not self.ob(HEAD, len(t) >= 1 and t[0][0] == "http", f, "head", "a response does not start with its header", s):
                                continue
                            t = t[1:]
                            if chunked:
                                ok = t[-1:] == [("k", b"0\r\n\r\n")] and lens == (0, 0) and len(t) == 1 or \
                                    len(t) == 4 and t[3] == ("k", b"\r\n0\r\n\r\n") and self.ischunk(s, t[:3] + [("k", b"\r\n")])
                                if self.ob(CHUNK, ok, f, "whole", "a chunked response is not its body and the final chunk", s):
                                    self.finished(f, s, keep, "response")
                                    self.flushed(f, s, "response")
                                continue
                            ok = t == [] and lens == (0, 0) or len(t) == 1 and self.isdata(s, t[0])
                            self.ob(BODYR, ok, f, "whole", "the body sent is not the response's", s)
                            if yes(E, s, "eq", CNT, ANN):
                                self.finished(f, s, keep, "response")
                                self.flushed(f, s, "response")
                            else:
                                ok = yes(E, s, "ule", CNT, ANN) and no(E, s, "eq", CNT, ANN) and self.phase(s) == "RESPONSE_BODY"
                                self.ob(BODYR, ok, f, "short", "a body shorter or longer than announced ends the response", s)
        self.rep.count("responses", n)

    # -------------------------------------------------- what the request asked for
    def asked(self):
        C, E, prog = self.C, self.E, self.prog
        f = fn1(prog, SC + "::read_next", 2, "Request&")
        n = 0
        for name, keep in [(x, y) for x in C.states for y in (0, 1)]:
            st = self.state(name, 1, keep)
            st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
            maj, mn = (E.load(st, P(THIS[1], o), self.leaf(REQP, x)[1][1], "i32") for o, x in ((self.o_maj, "http_version_major"), (self.o_min, "http_version_minor")))
            for k, v, s in C.round(st, f, True, [THIS, P(SARG, 0)]):
                n += 1
                took = self.phase(s) != name
                if k == "exc":
                    self.ob(KEEP, False, f, "exc", "reading a request throws", s)
                    continue
                if name != "REQUEST_READY":
                    self.ob(KEEP, not took and (k == "round" or v == 0), f, "early", "a request is read in phase %s" % name, s)
                    continue
                ok = self.phase(s) == "RESPONSE_HEADER" and C.cell(s, self.o_keep, 1) == keep
                ok = ok and (C.cell(s, self.o_maj, 4), C.cell(s, self.o_min, 4)) == (maj, mn)
                self.ob(KEEP, ok, f, "kept", "after a request was read its version or its wish about the connection is lost", s)
        self.rep.count("requests_read", n)


def c22(prog, rep):
    R = Responses(Conn(prog, rep, SC))
    R.headers()
    R.bodies()
    R.whole()
    R.asked()
    for r, k in ((HEAD, 30), (BODYR, 10), (OVER, 20), (CHUNK, 20), (FIN, 20), (FLUSH, 10), (KEEP, 5)):
        rep.need(r, k)


C22 = c22


# ------------------------------------------------------------------ C25

ENTER = "WebSocket framing begins only after a verified upgrade"
VALID = "an upgrade is what the standard says"
ASK = "an upgrade is asked for with a fresh key and the key is remembered"
UNASKED = "an upgrade response nobody asked for is refused"
ANSWER = "a server switches for a valid request and proves it"
ACC = "the accept value is the digest of key and fixed text"
GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
KEYC = ("key",)
WSTATES = ("WEB_MESSAGE_HEADER", "WEB_MESSAGE_BODY", "WEB_MESSAGE_READY")


def hdr_leaf(prog, cls):
    w = conn.LeafWalk(prog)
    w.leaf = {}
    w._leaves(prog.type(cls), 0, "")
    return w.leaf


def put_header(prog, E, st, p, cls, fields):
    """a header object with these fields (rest: unknown)"""
    leaf = hdr_leaf(prog, cls)
    done = set()
    for o, (n, sz, k, t) in leaf.items():
        if n in fields:
            done.add(n)
            q = P(p[1], add(p[2], o, 64))
            if k == "str":
                v = fields[n]
                if isinstance(v, bytes):
                    v = (len(v), ("k", v))
                sm.ps(E, st, q, v[0], v[1])
            else:
                E.store(st, q, sz, fields[n])
    if done != set(fields):
        raise AnalysisError("%s has no %s" % (cls, sorted(set(fields) - done)))


REQ_UP = {"method": b"GET", "http_version_major": 1, "http_version_minor": 1, "connection_upgrade": 1, "upgrade_websocket": 1,
          "sec_websocket_key": (24, KEYC), "sec_websocket_version": b"13", "keep_alive": 1}
REQ_BAD = {"method": b"POST", "http_version_major": 2, "http_version_minor": 0, "connection_upgrade": 0, "upgrade_websocket": 0,
           "sec_websocket_key": b"", "sec_websocket_version": b"8", "keep_alive": 0}
RSP_UP = {"status": 101, "connection_upgrade": 1, "upgrade_websocket": 1, "sec_websocket_accept": (28, ("acceptof", KEYC))}
RSP_BAD = {"status": 200, "connection_upgrade": 0, "upgrade_websocket": 0, "sec_websocket_accept": b""}
PLAIN = {"content_length.valid": 0, "transfer_encoding_chunked": 0}


class Upgrade(Base):
    def __init__(self, C):
        Base.__init__(self, C)
        C.good = {}
        self.E.models["crab::Random::bytes"] = self.m_bytes
        for q in self.prog.by_qual:
            if q.split("[")[0] == "crab::base64::encode":
                self.E.models[q] = self.m_b64
        self.hp, self.bp, self.pp = P(THIS[1], C.o_hdr), P(THIS[1], C.o_bdy), P(THIS[1], C.o_par)

    def variants(self, good, bad):
        yield dict(good), None
        for k in good:
            d = dict(good)
            d[k] = bad[k]
            yield d, k

    def prefixed(self, d):
        return {"req." + k: ((len(v), ("k", v)) if isinstance(v, bytes) else v) for k, v in d.items()}

    def predicates(self):
        """is_websocket_upgrade of both headers"""
        E, prog = self.E, self.prog
        for cls, good, bad in (("crab::http::RequestHeader", REQ_UP, REQ_BAD), ("crab::http::ResponseHeader", RSP_UP, RSP_BAD)):
            f = fn1(prog, cls + "::is_websocket_upgrade")
            for d, k in self.variants(good, bad):
                st = self.C.fresh_state()
                st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
                put_header(prog, E, st, P(SARG, 0), cls, d)
                res = E.run(f, [P(SARG, 0)], st)
                for kind, v, s in res:
                    c = v if isinstance(v, int) else E.const_of(s, v)
                    self.ob(VALID, kind == "ret" and c == int(k is None), f, "%s %s" % (cls, k),
                            "a %s %s is%s taken for an upgrade" % (cls.split("::")[-1], "with a wrong " + k if k else "that is right", "" if c else " not"), s)

    def accept(self):
        """generate_sec_websocket_accept, with the digest and base64 as opaque functions of the bytes fed to them"""
        E, prog, C = self.E, self.prog, self.C
        f = [x for q, l in prog.by_qual.items() if q.split("[")[0] == "crab::http::ResponseHeader::generate_sec_websocket_accept" for x in l if x.bb]
        if len(f) != 1:
            raise AnalysisError("generate_sec_websocket_accept not found")
        f = f[0]
        saved = dict(E.models)

        def m_ctor(E2, st, fr, i, args, fn):
            st.g[("sha", args[0])] = ("k", b"")
            return None

        def m_add(E2, st, fr, i, args, fn):
            p, n = args[1], args[2]
            cid = None
            if is_ptr(p) and p[1][0] == "sd" and p[2] == 0:
                cid = p[1][1] if yes(E, st, "eq", n, E.sdlen.get(p[1], -1)) else ("sub", p[1][1], 0, n)
            elif is_ptr(p) and p[1][0] == "glob" and isinstance(n, int):
                b = prog.global_bytes(p[1][1])
                cid = ("k", b[p[2]:p[2] + n]) if b is not None and isinstance(p[2], int) else None
            if cid is None:
                cid = ("unknown", fr.ctx, i.get("d"))
            st.g[("sha", args[0])] = sm.cat(st.g.get(("sha", args[0]), ("none",)), cid)
            return args[0]

        def m_fin(E2, st, fr, i, args, fn):
            E.store_havoc(st, args[1], 20)
            st.g[("digest", args[1])] = st.g.get(("sha", args[0]))
            return None

        def m_enc(E2, st, fr, i, args, fn):
            sret, a = sm.sretargs(args, fn)
            sm.ps(E, st, sret, 28, ("b64", st.g.get(("digest", a[0])), a[1]))
            return None
        for q in prog.by_qual:
            b = q.split("[")[0]
            if b == "crab::sha1::sha1":
                E.models[q] = m_ctor
            elif b == "crab::sha1::add":
                E.models[q] = m_add
            elif b == "crab::sha1::finalize":
                E.models[q] = m_fin
            elif b == "crab::base64::encode":
                E.models[q] = m_enc
            elif b == "crab::sha1::~sha1":
                E.models[q] = lambda *a: None
        E.models.pop(f.qual, None)
        st = C.fresh_state()
        ln = S(("klen",), 64)
        st.cons[ln] = ((1, 1 << 40),)
        sret, arg = P(("*", ("ret",)), 0), P(SARG, 0)
        for x in (SARG[1], ("ret",)):
            st.cons[S(x, 64)] = ((1, mask(64)),)
        sm.ps(E, st, arg, ln, KEYC)
        n = 0
        for kind, v, s in E.run(f, [sret, arg], st):
            n += 1
            w = sm.gs(E, s, sret) if kind == "ret" else None
            ok = w is not None and w[2][0] == "b64" and w[2][2] == 20 and w[2][1] == ("cat", (("r", KEYC), ("k", GUID)))
            self.ob(ACC, ok, f, "accept", "the accept value is not base64 of SHA-1 of the key followed by the fixed text", s)
        E.models.clear()
        E.models.update(saved)

    # ---------------------------------------------------------- client
    def client(self):
        C, E, prog = self.C, self.E, self.prog
        fw_ = fn1(prog, CC + "::write", 2, "Request&&")
        off = prog.field("crab::http::Request", "header")[0]
        after = []
        for name in C.states:
            for d, k in self.variants(REQ_UP, REQ_BAD):
                st = C.fresh_state(name)
                st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
                d = dict(d, path=b"/x", **PLAIN)
                put_header(prog, E, st, P(SARG, off), "crab::http::RequestHeader", d)
                for kind, v, s in E.run(fw_, [THIS, P(SARG, 0)], st):
                    ph = self.phase(s)
                    up = ph == "WEB_UPGRADE_RESPONSE_HEADER" and name != ph
                    self.ob(ENTER, ph not in WSTATES or ph == name, fw_, "write " + name, "writing a request in phase %s leads to WebSocket framing" % name, s)
                    if up:
                        self.ob(ASK, k is None and name == "WAITING_WRITE_REQUEST", fw_, "asked %s" % k, "a request that is no upgrade is treated as one (%s)" % k, s)
                        self.ob(ASK, C.isfresh(s, self.pp, RESP) is None, fw_, "fresh", "the response to an upgrade is read with an old header", s)
                        after.append(s)
                    elif name == "WAITING_WRITE_REQUEST" and kind == "ret" and k is None:
                        self.ob(ASK, False, fw_, "treated", "an upgrade request is not treated as one", s)
        self.rep.need(ASK, 1)
        if not after:
            self.rep.ob(ASK, False, fw_.qual, fwhere(prog, fw_), "no upgrade can be asked for", "none")
        # the answer
        n = 0
        cases = []
        for d, k in self.variants(RSP_UP, RSP_BAD):
            cases.append((dict(d, **PLAIN), k))
        base = dict(RSP_UP, **PLAIN)
        cases += [(dict(base, sec_websocket_accept=(27, ("other",))), "accept"), (dict(base, sec_websocket_accept=(28, ("other",))), "compared"),
                  (dict(base, sec_websocket_accept=(28, ("acceptof", ("otherkey",)))), "compared"),
                  (dict(base, **{"content_length.valid": 1, "content_length.impl": 5}), "length"), (dict(base, transfer_encoding_chunked=1), "chunked body")]
        f = C.advance
        for s0 in after:
            for d, k in cases:
                C.good = {RESP: [self.prefixed(d)]}
                st = s0.copy()
                st.g.pop(OUT, None)
                got = 0
                for kind, v, s in C.round(st):
                    n += 1
                    ph = self.phase(s)
                    if kind == "exc":
                        continue            # C24
                    if ph in WSTATES:
                        ok = k is None or k == "compared" and self.compared(s)
                        self.ob(ENTER, ok, f, "answer %s" % k, "a response with a wrong %s is accepted as upgrade" % k, s)
                        fr = C.isfresh(s, self.hp, HDR) or C.isfresh(s, self.bp, BODY)
                        self.ob(ENTER, ph == "WEB_MESSAGE_HEADER" and fr is None, f, "start", "the first frame is not awaited afresh (%s)" % fr, s)
                        got = 1
                    elif s.g.get(("#parsed", RESP)) and C.goodness(s, self.pp, RESP) is True:
                        self.ob(ENTER, self.did(s, "shutdown") or self.did(s, "close"), f, "refuse %s" % k, "a response with a wrong %s is not refused" % k, s)
                        self.ob(ENTER, ph != "RESPONSE_READY", f, "deliver %s" % k, "a response with a wrong %s is delivered" % k, s)
                if k is None:
                    self.ob(ENTER, got == 1, f, "right", "a right upgrade response is not accepted", s0)
        # a response nobody asked for
        for d, k in cases:
            C.good = {RESP: [self.prefixed(d)]}
            for name in C.states:
                if name in WSTATES or name == "WEB_UPGRADE_RESPONSE_HEADER":
                    continue
                st = C.fresh_state(name)
                C.pset(st, self.pp, RESP, self.prefixed(d) if name in ("RESPONSE_BODY", "RESPONSE_READY") else {}, name in ("RESPONSE_BODY", "RESPONSE_READY"), ("entry",))
                if name in ("RESPONSE_BODY", "RESPONSE_READY") and k not in RSP_UP:
                    continue                # cannot be there: refused with the header
                for kind, v, s in C.round(st):
                    n += 1
                    ph = self.phase(s)
                    self.ob(ENTER, ph not in WSTATES, f, "from " + name, "WebSocket framing begins in phase %s" % name, s)
                    if name == "RESPONSE_HEADER" and s.g.get(("#parsed", RESP)) and C.goodness(s, self.pp, RESP) is True and (k is None or k not in RSP_UP):
                        self.ob(UNASKED, ph not in ("RESPONSE_BODY", "RESPONSE_READY") and self.did(s, "shutdown"), f, "unasked", "an upgrade response nobody asked for is taken as a response", s)
        C.good = {}
        # no other way in
        for g in objects.methods(prog, CC):
            if g.base in ("advance_state", "write", "read_next", "sock_handler", CC.rsplit("::")[-1]) or g is f:
                continue
            if len(g.args) != len([a for a in g.args]) or g.base.startswith("~"):
                continue
            for name in C.states:
                if name in WSTATES:
                    continue
                st = C.fresh_state(name)
                C.handler(st, CC)
                C.bind(st)
                try:
                    args = [THIS] + [self.anyarg(st, g, j) for j in range(1, len(g.args))]
                    res = E.run(g, args, st)
                except AnalysisError as e:
                    raise AnalysisError("%s: %s" % (g.dm, e))
                for kind, v, s in res:
                    n += 1
                    ph = self.phase(s)
                    if kind == "ret":
                        self.ob(ENTER, ph is None and False or ph not in WSTATES, g, "other " + name, "%s leads to WebSocket framing" % g.base, s)
        self.rep.count("client_answers", n)
        self.asking()

    def compared(self, s):
        """does the path know that the accept value sent equals the one computed"""
        for x, r in s.cons.items():
            if x[0] == "s" and isinstance(x[1], tuple) and (x[1][:1] in (("memcmp",), ("strcmp",)) and r == ((0, 0),) or x[1][:1] == ("streq",) and r == ((1, 1),)):
                cs = [c for c in x[1][1:3]]
                if any("acceptof" in str(c) for c in cs) and str(KEYC) in str(cs):
                    return True
        return False

    def frames_before(self):
        """no frame is sent before the upgrade"""
        C, E, prog = self.C, self.E, self.prog
        for f in prog.by_qual.get(C.cls + "::write", []):
            if not f.bb or "WebMessage" not in f.dm.split("(", 1)[1]:
                continue
            for name in C.states:
                if name in WSTATES or name == "WEB_UPGRADE_RESPONSE_HEADER":
                    continue
                for op in (1, 2, 8, 9, 10):
                    st = C.fresh_state(name)
                    C.bind(st)
                    if C.cls == SC:
                        st.wregion(THIS[1]).cells[C.o_writing] = (1, 0)
                    C.message_arg(st, op, (0, 125))
                    st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
                    a = [op] if "WebMessageOpcode" in f.dm else [P(SARG, 0)]
                    a += [0] * (len(f.args) - 1 - len(a))
                    for kind, v, s in E.run(f, [THIS] + a, st):
                        self.ob(ENTER, kind == "exc" and not self.text(s) and not self.did(s, "shutdown") and self.phase(s) == name, f, "frame in " + name,
                                "a frame is sent in phase %s" % name, s)

    def asking(self):
        """web_socket_upgrade: what is asked for"""
        C, E, prog = self.C, self.E, self.prog
        f = fn1(prog, CC + "::web_socket_upgrade")
        st = C.fresh_state("WAITING_WRITE_REQUEST")
        st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
        put_header(prog, E, st, P(SARG, 0), "crab::http::RequestHeader", dict(PLAIN, path=b"/x", keep_alive=1))
        n = 0
        for kind, v, s in E.run(f, [THIS, P(SARG, 0)], st):
            t = self.text(s)
            if kind == "exc":
                continue
            n += 1
            d = dict(t[0][1]) if t and t[0][0] == "http" else {}
            ok = all(d.get(k) == w for k, w in (("http_version_major", 1), ("http_version_minor", 1), ("connection_upgrade", 1), ("upgrade_websocket", 1), ("keep_alive", 1)))
            ok = ok and d.get("method") == (3, ("k", b"GET")) and d.get("sec_websocket_version") == (2, ("k", b"13"))
            self.ob(ASK, ok, f, "request", "what is sent is not an upgrade request", s)
            k = d.get("sec_websocket_key")
            self.ob(ASK, k is not None and k[1][0] == "b64" and k[1][1] == "random" and k[1][2] == 16, f, "key", "the key is not 16 fresh random bytes in base64", s)
            self.ob(ASK, self.phase(s) == "WEB_UPGRADE_RESPONSE_HEADER", f, "phase", "after asking for an upgrade the answer is not awaited", s)
        if not n:
            self.rep.ob(ASK, False, f.qual, fwhere(prog, f), "no upgrade is ever asked for", "none")

    def m_bytes(self, E, st, fr, i, args, fn):
        E.store_havoc(st, args[1], args[2] if isinstance(args[2], int) else None)
        st.g[("#random", args[1])] = args[2]
        return None

    def m_b64(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        n = st.g.get(("#random", a[0]))
        ln = E.fresh(st, ("b64len", fr.ctx, i.get("d", 0)), 64)
        st.cons[ln] = ((1, 1 << 40),)
        sm.ps(E, st, sret, ln, ("b64", "random" if n is not None and n == a[1] else "other", a[1]))
        return None

    # ---------------------------------------------------------- server
    def server(self):
        C, E, prog = self.C, self.E, self.prog
        fr_ = fn1(prog, SC + "::read_next", 2, "Request&")
        fu = fn1(prog, SC + "::web_socket_upgrade")
        n = 0
        for d, k in self.variants(REQ_UP, REQ_BAD):
            st = C.fresh_state("REQUEST_READY")
            st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
            C.bind(st)
            C.pset(st, self.pp, REQP, self.prefixed(dict(d, **PLAIN)), True, ("asked",))
            for kind, v, s in C.round(st, fr_, True, [THIS, P(SARG, 0)]):
                if self.phase(s) != "RESPONSE_HEADER":
                    continue
                s = s.copy()
                s.g.pop(OUT, None)
                s.g.pop(("#head",), None)
                n += self.upgrade(fu, s, d, k)
        if not n:
            self.rep.ob(ANSWER, False, fu.qual, fwhere(prog, fu), "no request can be read and upgraded", "none")
        for name in C.states:
            if name == "RESPONSE_HEADER":
                continue
            st = C.fresh_state(name)
            C.bind(st)
            C.pset(st, self.pp, REQP, self.prefixed(dict(REQ_UP, **PLAIN)), True, ("asked",))
            for kind, v, s in E.run(fu, [THIS], st):
                self.ob(ANSWER, kind == "exc" and not self.text(s) and self.phase(s) == name, fu, "phase " + name, "an upgrade is answered in phase %s" % name, s)
        # reading never switches
        for name in C.states:
            if name in WSTATES:
                continue
            st = C.fresh_state(name)
            C.bind(st)
            for kind, v, s in C.round(st):
                n += 1
                self.ob(ANSWER, self.phase(s) not in WSTATES, C.advance, "reading " + name, "WebSocket framing begins by reading in phase %s" % name, s)
        # an upgrade cannot be answered as an ordinary response
        f = fn1(prog, SC + "::write", None, "ResponseHeader&")
        st = C.fresh_state("RESPONSE_HEADER")
        st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
        put_header(prog, E, st, P(SARG, 0), "crab::http::ResponseHeader", dict(RSP_UP, **{"content_length.valid": 1, "content_length.impl": 0, "transfer_encoding_chunked": 0}))
        for kind, v, s in E.run(f, [THIS, P(SARG, 0), 0], st):
            self.ob(ANSWER, kind == "exc" and not self.text(s), f, "plain", "an upgrade is answered without being verified", s)
        self.rep.count("server_upgrades", n)

    def upgrade(self, f, st, d, k):
        E, C = self.E, self.C
        n = 0
        for kind, v, s in E.run(f, [THIS], st):
            n += 1
            t = self.text(s)
            if k is not None:
                self.ob(ANSWER, kind == "exc" and not t and self.phase(s) == "RESPONSE_HEADER", f, "bad " + k, "a request with a wrong %s is upgraded" % k, s)
                continue
            if not self.ob(ANSWER, kind == "ret" and len(t) == 1 and t[0][0] == "http", f, "right", "a right upgrade request is not answered by one header", s):
                continue
            h = dict(t[0][1])
            ok = h.get("status") == 101 and h.get("connection_upgrade") == 1 and h.get("upgrade_websocket") == 1 and h.get("http_version_major") == 1 and h.get("http_version_minor") == 1 \
                and h.get("keep_alive") == 1 and not h.get("content_length.valid") and not h.get("transfer_encoding_chunked")
            self.ob(ANSWER, ok, f, "header", "the answer is not an upgrade response", s)
            self.ob(ANSWER, h.get("sec_websocket_accept", (0, 0))[1] == ("acceptof", KEYC), f, "accept", "the accept value is not made from the request's key", s)
            fr = C.isfresh(s, self.hp, HDR) or C.isfresh(s, self.bp, BODY)
            self.ob(ANSWER, self.phase(s) == "WEB_MESSAGE_HEADER" and fr is None, f, "start", "after the answer the first frame is not awaited afresh", s)
        return n


def c25(prog, rep):
    U = Upgrade(Conn(prog, rep, CC))
    U.predicates()
    U.client()
    U.frames_before()
    Upgrade(Conn(prog, rep, CC)).accept()
    U = Upgrade(Conn(prog, rep, SC))
    U.server()
    U.frames_before()
    for r, k in ((ENTER, 30), (VALID, 10), (ASK, 5), (UNASKED, 1), (ANSWER, 20), (ACC, 1)):
        rep.need(r, k)


C25 = c25


# ------------------------------------------------------------------ C24

ESC = "no exception leaves a connection"
DERIVED = "parsers throw exceptions that are caught"
CONTAIN = "input that cannot be parsed is dropped and the connection half-closed"
ISO = "a connection changes nothing but itself"


def thrown(prog, E, roots):
    """names of exception types thrown by anything reachable from these functions: {type: function}"""
    import callgraph
    cg = callgraph.CallGraph(prog)
    seen, work, out = set(), list(roots), {}
    while work:
        f = work.pop()
        if f.name in seen or not f.bb:
            continue
        seen.add(f.name)
        for _, _, i in prog.insts(f):
            if i["o"] in ("call", "invoke") and isinstance(i["f"], list) and i["f"][0] == "f" and i["f"][1] == "__cxa_throw":
                a = i["a"][1]
                t = prog.globals[a[1]].get("dm", a[1]).replace("typeinfo for ", "") if isinstance(a, list) and a[0] == "g" else "?"
                out.setdefault(t, f)
        for i, g in cg.edges(f):
            if g.qual.startswith("std::__throw_"):
                t = g.base[len("__throw_"):].split("<")[0]
                t = {"out_of_range_fmt": "out_of_range", "with_nested_impl": "exception", "system_error": "system_error"}.get(t, t)
                out.setdefault("std::" + t, f)
            elif g.name not in seen:
                work.append(g)
    return out, len(seen)


class Contain(Base):
    def types(self):
        C, E, prog, rep = self.C, self.E, self.prog, self.rep
        roots = []
        for cls in (HDR, BODY, HBODY, RESP if C.cls == CC else REQP):
            roots += [f for f in prog.by_qual.get(cls + "::parse", []) if f.bb and len(f.args) == 2]
        ts, n = thrown(prog, E, roots)
        rep.count("parser_functions", n)
        for t, f in sorted(ts.items()):
            rep.ob(DERIVED, E.is_a(t, "std::exception"), f.qual, fwhere(prog, f), "parsing can throw %s, which is no std::exception" % t, t)
        # one per way of catching: the most general types do
        C.throws = tuple(sorted(t for t in ts if E.is_a(t, "std::exception"))) or ("std::runtime_error",)
        rep.count("exception_types", len(C.throws))

    def starts(self):
        """states of the object with a handler bound, in every phase"""
        import rules_msg
        C = self.C
        pp, hb = P(THIS[1], C.o_par), P(THIS[1], C.o_hb)
        for entry, st in rules_msg.entries(C):
            if entry[0] == "B" and entry[2] is not None and entry[2][1] in (2, 10):
                continue                    # as opcodes 1 and 9
            yield "%s %s" % (entry[0], entry[2]), st
        for name in C.states:
            if name in ("WEB_MESSAGE_HEADER", "WEB_MESSAGE_BODY"):
                continue
            for good in (0, 1):
                st = C.fresh_state(name)
                C.pset(st, pp, RESP if C.cls == CC else REQP, {}, bool(good), ("entry",))
                C.pset(st, hb, HBODY, {}, False, ("entry", "hb"))
                if name == "WEB_MESSAGE_READY":
                    rules_msg.put_message(C, st, 1)
                yield name, st

    def explore(self):
        C, E, prog, rep = self.C, self.E, self.prog, self.rep
        self.types()
        fns = [fn1(prog, C.cls + "::sock_handler")] + [f for q in ("read_next",) for f in prog.by_qual.get(C.cls + "::" + q, []) if f.bb and len(f.args) == 2]
        cbs = [x for x in objects.callbacks(prog, C.cls) if len(x[2].args) == 1]
        C.watch_timers()
        E.mem_hook = self.touch
        n = 0
        cbs, timed = [x for x in cbs if not self.is_timer(x)], [x for x in cbs if self.is_timer(x)]
        self.edges = set()
        for what, st in self.starts():
            if C.cls == SC:
                for w in (0, 1):
                    s1 = st.copy()
                    s1.wregion(THIS[1]).cells[C.o_writing] = (1, w)
                    n += self.runs(fns, cbs, what, s1)
            else:
                n += self.runs(fns, cbs, what, st)
        E.mem_hook = None
        # timers fire only in phases in which they can be set
        armed = self.armed()
        E.mem_hook = self.touch
        for what, st in self.starts():
            for w in ((0, 1) if C.cls == SC else (None,)):
                s1 = st.copy()
                if w is not None:
                    s1.wregion(THIS[1]).cells[C.o_writing] = (1, w)
                ph = self.node(s1)
                for x in timed:
                    if (self.toff(x[1]), ph) in armed:
                        n += self.runs([], [x], what, s1)
        E.mem_hook = None
        rep.ob(ISO, True)
        rep.count("contained_runs", n)
        rep.engine(E)

    def is_timer(self, cb):
        o = self.toff(cb[1])
        return any(off == o and t is not None and t.get("q") == "crab::Timer" for n, off, sz, t in self.C.mem)

    def node(self, s):
        return self.phase(s), (self.C.cell(s, self.C.o_writing, 1) if self.C.cls == SC else None)

    def edge(self, p, s):
        q = self.node(s)
        up, down = set(), set()
        for x in s.g.get(OUT, ()):
            if x[0] == "timer":
                up.add(x[1])
                down.discard(x[1])
            elif x[0] == "untimer":
                down.add(x[1])
                up.discard(x[1])
        self.edges.add((p, q, frozenset(up), frozenset(down)))

    def armed(self):
        """{(timer, phase)}: phases in which a timer may be set; every public method from every phase, and the reading loop"""
        C, E, prog = self.C, self.E, self.prog
        for g in objects.methods(prog, C.cls):
            if g.base.startswith("~") or g.base == C.cls.split("::")[-1] or len(g.args) == 0:
                continue
            for name in C.states:
                for w in ((0, 1) if C.cls == SC else (None,)):
                    st = C.fresh_state(name)
                    C.handler(st, C.cls)
                    C.bind(st)
                    if w is not None:
                        st.wregion(THIS[1]).cells[C.o_writing] = (1, w)
                    args = [THIS] + [self.anyarg(st, g, j) for j in range(1, len(g.args))]
                    for k, v, s in C.round(st, g, True, args):
                        self.edge((name, w), s)
        nodes = [(x, w) for x in C.states for w in ((0, 1) if C.cls == SC else (None,))]
        f, res = objects.ctor_states(prog, C.cls, objects.engine(prog, http=False))
        # the constructor's phase: before connect() or accept()
        have, live = set(), set()
        for k, v, s in res:
            if k == "ret":
                n = self.node(s)
                live |= {m for m in nodes if (n[0] is None or m[0] == n[0]) and (n[1] not in (0, 1) or m[1] == n[1])}
        while True:
            new, nl = set(have), set(live)
            for p, q, up, down in self.edges:
                if p not in live:
                    continue
                for q1 in [m for m in nodes if (q[0] is None or m[0] == q[0]) and (q[1] not in (0, 1) or m[1] == q[1])]:
                    nl.add(q1)
                    new |= {(t, q1) for t in up}
                    new |= {(t, q1) for t, p1 in have if p1 == p and t not in down}
            if new == have and nl == live:
                self.rep.count("reachable_phases", len(live))
                return have
            have, live = new, nl

    def touch(self, E, st, fr, i, p, size, store, v):
        if not store or not is_ptr(p):
            return
        r = p[1]
        if r[0] in ("al", "sd", "heap", "exo") or r == THIS[1] or r == SARG or r == ("*", ("loop",)):
            return
        f = fr.fn
        self.rep.ob(ISO, False, f.qual, fwhere(self.prog, f), "handling input stores outside the connection (%s)" % (r[0] if r[0] != "glob" else r[1]), "%s" % (r,))

    def runs(self, fns, cbs, what, st):
        C, E = self.C, self.E
        n = 0
        C.handler(st, C.cls)
        C.bind(st)
        st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
        res = []
        for f in fns:
            args = [THIS, P(SARG, 0)] if f.base == "read_next" else None
            res += [(f, k, v, s) for k, v, s in C.round(st, f, False, args)]
        for name, off, inv in cbs:
            s0 = st.copy()
            C.rounds, C.stop_at_head = [], False
            s0.tr = None
            r = objects.run_callback(self.prog, E, C.cls, off, inv, s0)
            res += [(inv, k, v, s) for k, v, s in r + [("round", None, x) for x in C.rounds]]
        p0 = self.node(st)
        for f, k, v, s in res:
            n += 1
            self.edge(p0, s)
            if k == "exc":
                self.ob(ESC, "bad_function_call" in str(v.tname), f, "escape " + what, "an exception (%s) leaves %s" % (v.tname, f.base), s)
                continue
            self.rep.ob(ESC, True)
            if s.g.get(("#threw",)):
                out = [x[0] for x in s.g.get(OUT, ())]
                self.ob(CONTAIN, "shutdown" in out or "close" in out, f, "open " + what, "after input that cannot be parsed the connection stays open for writing", s)
                self.ob(CONTAIN, "discard" in out or "close" in out, f, "keep " + what, "input that cannot be parsed is kept", s)
                ph = self.phase(s)
                if not what.endswith("_READY"):
                    self.ob(CONTAIN, not (ph or "").endswith("_READY"), f, "deliver " + what, "something is delivered from input that cannot be parsed", s)
                self.ob(CONTAIN, k == "ret", f, "loop " + what, "reading goes on after input that cannot be parsed", s)
        return n


def c24(prog, rep):
    for cls in (CC, SC):
        Contain(Conn(prog, rep, cls)).explore()
    for r, k in ((ESC, 100), (DERIVED, 3), (CONTAIN, 50), (ISO, 1)):
        rep.need(r, k)


C24 = c24
