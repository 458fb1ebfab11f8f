"""C18: written headers, piece by piece.

to_string() of both headers is interpreted with unknown field contents on every path; what it writes into its string stream is kept as a
sequence of literal texts, whole fields and printed numbers.  The sequence is split at CRLF and compared with the lines the fields demand,
under the names the parsers read (whose side of the table C16 decides)."""
from absint import State, P, S, is_ptr, add, mask
from model import AnalysisError
import std_models as sm
import objects
import fw
from parsers import Machine
from rules_net import fwhere, yes, no

OBJ = ("*", ("hdr",))
RES = ("*", ("res",))
R_START = "the start line is well formed"
R_PATH = "the path is written encoded"
R_LINES = "every field set is written once, under the name the parser reads"
R_END = "lines end in CRLF, one empty line ends the header"
R_KEEP = "writing changes nothing"

FIELDS = {
    "crab::http::RequestHeader": [("host", "host", b""), ("origin", "origin", b""), ("authorization", "basic_authorization", b"basic "),
                                  ("sec-websocket-key", "sec_websocket_key", b""), ("sec-websocket-version", "sec_websocket_version", b"")],
    "crab::http::ResponseHeader": [("date", "date", b""), ("server", "server", b""), ("sec-websocket-accept", "sec_websocket_accept", b"")],
}


class Header(Machine):
    def __init__(self, prog, rep, cls):
        self.prog, self.rep, self.cls = prog, rep, cls
        self.E = E = objects.engine(prog, http=False)
        E.streams = True
        E.apart = {OBJ, RES}
        E.exit_limit = E.loop_limit = E.merge_limit = 1 << 20
        E.max_states = 1 << 20
        E.unroll = 16
        self.ty = prog.type(cls)
        self.leaf = {}
        self._leaves(self.ty, 0, "")
        fs = [f for q in (cls + "::to_string[abi:cxx11]", cls + "::to_string") for f in prog.by_qual.get(q, []) if f.bb]
        if len(fs) != 1:
            raise AnalysisError("%s::to_string not found" % cls)
        self.f = fs[0]
        for q in ("crab::http::status_to_string[abi:cxx11]", "crab::http::status_to_string"):
            E.models[q] = self.m_status
        for q in ("crab::url_encode[abi:cxx11]", "crab::url_encode", "crab::http::url_encode[abi:cxx11]"):
            E.models[q] = self.m_urlenc
        self.runs = 0

    def m_status(self, E, st, fr, i, args, fn):
        p = P(("*", ("st", args[0])), 0)
        n = S(("stlen",), 64)
        st.cons.setdefault(n, ((1, 64),))
        sm.ps(E, st, p, n, ("statustext", args[0]))
        return p

    def m_urlenc(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        v = sm.gs(E, st, a[0])
        n = S(("uelen", v[2]), 64)
        st.cons.setdefault(n, sm.HUGE)
        sm.ps(E, st, sret, n, ("urlenc", v[2], a[1] if len(a) > 1 else None))
        return None

    def entry(self, te, hd, pins):
        st = State()
        rg = st.wregion(OBJ)
        E = self.E
        for o, (p, s, k, t) in self.leaf.items():
            q = P(OBJ, o)
            if k == "str":
                if pins.get(p) == "":
                    sm.ps(E, st, q, 0, ("k", b""))
                else:
                    n = S(("len", p), 64)
                    st.cons[n] = ((1, 1 << 40),) if pins.get(p) == "set" else ((0, 1 << 40),)
                    sm.ps(E, st, q, n, ("field", p))
            elif k == "vec":
                n = {"transfer_encodings": te, "headers": hd}.get(p)
                if n is None:
                    raise AnalysisError("unexpected vector %s" % p)
                rg = st.wregion(OBJ)
                rg.cells[o] = (24, ("vec", n, ("v", p)))
                er = ("vd", ("v", p))
                st.wregion(er)
                for j in range(n):
                    for w, oo in ((("", 0),) if p != "headers" else (("n", 0), ("v", 32))):
                        ln = S(("elen", p, j, w), 64)
                        st.cons[ln] = ((1, 1 << 40),)
                        sm.ps(E, st, P(er, j * (64 if p == "headers" else 32) + oo), ln, ("el", p, j, w))
            else:
                rg = st.wregion(OBJ)
                sy = S(("f", p), 8 * s)
                if k == "bool":
                    st.cons[sy] = ((0, 1),)
                rg.cells[o] = (s, pins.get(p, sy))
        return st

    def viol(self, rule, detail, msg, s):
        self.rep.ob(rule, False, self.f.qual, fwhere(self.prog, self.f), msg, detail, fw.path_of(self.prog, s))

    def bools(self, s, p, truth=None):
        v = self.E.load(s, P(OBJ, self.off(p)), 1, "i8")
        d = self.E.decide(s, self.E.icmp(s, "ne", v, 0, 8)) if not isinstance(v, int) else bool(v)
        return d

    def split(self, s):
        """paths on which a fact matters that the code did not ask for are split"""
        E = self.E
        work = [s]
        conds = []
        for o, (p, sz, k, t) in self.leaf.items():
            if k == "str":
                conds.append((P(OBJ, o), "str", None))
            elif k == "bool":
                conds.append((P(OBJ, o), "bool", None))
            elif p in ("http_version_major", "http_version_minor"):
                conds.append((P(OBJ, o), "int", (0, 1)))
        for q, k, c in conds:
            nw = []
            for x in work:
                if k == "str":
                    v = sm.gs(E, x, q)[1]
                    tests = [E.icmp(x, "eq", v, 0, 64)]
                elif k == "bool":
                    tests = [E.icmp(x, "eq", E.load(x, q, 1, "i8"), 0, 8)]
                else:
                    v = E.load(x, q, 4, "i32")
                    tests = [E.icmp(x, "eq", v, cc, 32) for cc in c]
                cur = [x]
                for t in tests:
                    n2 = []
                    for y in cur:
                        if E.decide(y, t) is not None:
                            n2.append(y)
                        else:
                            for tr in (True, False):
                                n2 += E.assume(y.copy(), t, tr)
                    cur = n2
                nw += cur
            work = nw
        return work

    def run(self, te, hd, pins):
        E, rep = self.E, self.rep
        st = self.entry(te, hd, pins)
        st.tr = None
        res = E.run(self.f, [P(RES, 0), P(OBJ, 0)], st)
        self.runs += len(res)
        for k, v, s in res:
            if k != "ret":
                self.viol(R_LINES, "throws", "writing a header throws", s)
                continue
            out = sm.gs(E, s, P(RES, 0))
            lines, rest = self.lines(out[2])
            if lines is None:
                self.viol(R_END, "unknown", "what is written cannot be followed: %s" % (rest,), s)
                continue
            same = all(st.mem[OBJ].cells.get(o, (0, None))[1] == s.mem[OBJ].cells.get(o, (0, None))[1] for o in self.leaf)
            rep.ob(R_KEEP, same, self.f.qual, fwhere(self.prog, self.f), "writing a header changes it", "keep", fw.path_of(self.prog, s))
            rep.ob(R_END, rest == () and len(lines) >= 2 and lines[-1] == () and all(l != () for l in lines[:-1]), self.f.qual, fwhere(self.prog, self.f),
                   "the header does not end with exactly one empty line", "end", fw.path_of(self.prog, s))
            for x in self.split(s):
                self.check(x, [l for l in lines if l != ()], te, hd)

    def lines(self, cid):
        """pieces split at CRLF; None if anything is not known"""
        lines, cur = [], ()
        for x in sm.pieces(cid):
            if x[0] == "k":
                b = x[1]
                while True:
                    p = b.find(b"\r\n")
                    if p < 0:
                        break
                    if b"\n" in b[:p] or b"\r" in b[:p]:
                        return None, "bare CR or LF"
                    if p:
                        cur += (("k", b[:p]),)
                    lines.append(cur)
                    cur, b = (), b[p + 2:]
                if b"\n" in b or b"\r" in b:
                    return None, "bare CR or LF"
                if b:
                    cur += (("k", b),)
            elif x[0] == "r":
                if x[1][0] not in ("field", "el", "statustext", "urlenc"):
                    return None, repr(x[1])[:80]
                cur += (x,)
            else:
                cur += (x,)
        return lines, cur

    def str_set(self, s, p):
        v = sm.gs(self.E, s, P(OBJ, self.off(p)))
        return not yes(self.E, s, "eq", v[1], 0)

    def fnum(self, s, p, sz=32):
        return self.E.load(s, P(OBJ, self.off(p)), sz // 8, "i%d" % sz)

    def check(self, s, lines, te, hd):
        E, rep = self.E, self.rep
        fld = lambda p: ("r", ("field", p))
        want = []
        for name, p, pre in FIELDS[self.cls]:
            if self.str_set(s, p):
                want.append((name, ((("k", pre),) if pre else ()) + (fld(p),)))
        if self.str_set(s, "content_type_mime"):
            want.append(("content-type", (fld("content_type_mime"),) + ((("k", b"; "), fld("content_type_suffix")) if self.str_set(s, "content_type_suffix") else ())))
        if self.bools(s, "content_length.valid"):
            want.append(("content-length", (("n", S(("f", "content_length.impl"), 64)),)))
        ch = self.bools(s, "transfer_encoding_chunked")
        codings = [("r", ("el", "transfer_encodings", j, "")) for j in range(te)] + ([("k", b"chunked")] if ch else [])
        for j in range(hd):
            want.append((("el", "headers", j, "n"), (("r", ("el", "headers", j, "v")),)))
        mj, mn = self.fnum(s, "http_version_major"), self.fnum(s, "http_version_minor")
        v11 = yes(E, s, "eq", mj, 1, ) and yes(E, s, "eq", mn, 1)
        v10 = yes(E, s, "eq", mj, 1) and yes(E, s, "eq", mn, 0)
        keep = self.bools(s, "keep_alive")
        up, ws = self.bools(s, "connection_upgrade"), self.bools(s, "upgrade_websocket")
        start, lines = lines[0] if lines else (), lines[1:]
        self.start(s, start, mj, mn)
        have, tokens, ups, tes = [], [], [], []
        for l in lines:
            if l[0][0] == "k":
                b = l[0][1]
                p = b.find(b":")
                name = b[:p] if p >= 0 else None
                val = (("k", b[p + 1:]),) + l[1:] if p >= 0 else ()
            elif l[0][0] == "r" and len(l) >= 2 and l[1][0] == "k" and l[1][1][:1] == b":":
                name, val = l[0][1], (("k", l[1][1][1:]),) + l[2:]
            else:
                name, val = None, ()
            if name is None:
                self.viol(R_LINES, "line", "a line that is no header field: %r" % (l,), s)
                return
            # white space around the value means nothing
            if val and val[0][0] == "k":
                b = val[0][1].lstrip(b" \t")
                val = ((("k", b),) if b else ()) + val[1:]
            if isinstance(name, bytes):
                try:
                    name = name.decode()
                except UnicodeDecodeError:
                    name = repr(name)
            if name in ("connection", "upgrade", "transfer-encoding"):
                cur = []
                dst = {"connection": tokens, "upgrade": ups, "transfer-encoding": tes}[name]
                for x in val:
                    if x[0] == "k":
                        bs = x[1].split(b",")
                        for n, t in enumerate(bs):
                            if n:
                                dst.append(tuple(cur))
                                cur = []
                            t = t.strip(b" \t")
                            if t:
                                cur.append(("k", t))
                    else:
                        cur.append(x)
                dst.append(tuple(cur))
            else:
                have.append((name, val))
        where = fwhere(self.prog, self.f)
        path = fw.path_of(self.prog, s)
        for w in want:
            n = have.count(w)
            rep.ob(R_LINES, n == 1, self.f.qual, where, "field %s is written %d times as specified" % (w[0] if isinstance(w[0], str) else "headers[]", n),
                   "field %s" % (w[0] if isinstance(w[0], str) else "headers"), path)
        for h in have:
            if h not in want:
                rep.ob(R_LINES, False, self.f.qual, where, "a line %r is written that no field asks for" % (h[0],), "extra %s" % (h[0] if isinstance(h[0], str) else "headers"), path)
        # custom headers keep their order
        order = [n for n, v in have if not isinstance(n, str)]
        rep.ob(R_LINES, order == sorted(order), self.f.qual, where, "custom headers change their order", "order", path)
        rep.ob(R_LINES, tes == [(c,) for c in codings], self.f.qual, where, "transfer codings written are not those set", "transfer-encoding", path)
        tk = [t[0][1] if len(t) == 1 and t[0][0] == "k" else repr(t) for t in tokens]
        must = [b"close"] if v11 and not keep else [b"keep-alive"] if v10 and keep else []
        may = set(must)
        wsreq = v11 and keep and up and ws
        if wsreq:
            must.append(b"upgrade")
        if up:
            may.add(b"upgrade")
        if not v10:
            may.add(b"keep-alive") if keep else may.add(b"close")
        elif not keep:
            may.add(b"close")
        ok = all(tk.count(m) == 1 for m in must) and all(t in may or t in must for t in tk) and len(set(tk)) == len(tk)
        rep.ob(R_LINES, ok, self.f.qual, where, "connection options %s, expected %s" % (tk, must), "connection", path)
        uk = [t[0][1].lower() if len(t) == 1 and t[0][0] == "k" else repr(t) for t in ups]
        ok = uk == [b"websocket"] if wsreq else uk in ([], [b"websocket"]) and (not uk or ws)
        rep.ob(R_LINES, ok, self.f.qual, where, "upgrade protocols %s" % uk, "upgrade", path)

    @staticmethod
    def merge(l):
        out = []
        for x in l:
            if x[0] == "n" and isinstance(x[1], int):
                x = ("k", b"%d" % x[1])
            if x[0] == "k" and out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + x[1])
            else:
                out.append(x)
        return tuple(out)

    def start(self, s, l, mj, mn):
        E, rep = self.E, self.rep
        where, path = fwhere(self.prog, self.f), fw.path_of(self.prog, s)
        ver = (("k", b"HTTP/"), ("n", mj), ("k", b"."), ("n", mn))
        if self.cls.endswith("RequestHeader"):
            tail = self.merge((("k", b" HTTP/"),) + ver[1:])
            ok = len(l) >= 2 + len(tail) and l[0] == ("r", ("field", "method")) and l[1] == ("k", b" ") and l[-len(tail):] == tail
            rep.ob(R_START, ok, self.f.qual, where, "the request line is not 'method target HTTP/major.minor'", "request line", path)
            if not ok:
                return
            target = l[2:-len(tail)]
            enc = target[0] if target else None
            if enc is not None and enc[0] == "r" and enc[1][0] == "urlenc":
                rep.ob(R_PATH, enc[1][1] == ("field", "path"), self.f.qual, where, "the path written is not the path set", "path", path)
            else:
                verb = enc == ("r", ("field", "path"))
                rep.ob(R_PATH, False, self.f.qual, where, "the path is written without URL encoding" if verb else "the path is not written", "verbatim" if verb else "path", path)
            q = target[1:]
            wantq = (("k", b"?"), ("r", ("field", "query_string"))) if self.str_set(s, "query_string") else ()
            rep.ob(R_START, q == wantq, self.f.qual, where, "the query is not written after the path", "query", path)
        else:
            st = self.fnum(s, "status")
            text = ("r", ("field", "status_text")) if self.str_set(s, "status_text") else ("r", ("statustext", st))
            ok = l == self.merge(ver + (("k", b" "), ("n", st), ("k", b" "), text))
            rep.ob(R_START, ok, self.f.qual, where, "the status line is not 'HTTP/major.minor status text'", "status line", path)


def c18(prog, rep):
    for cls in FIELDS:
        h = Header(prog, rep, cls)
        own = {p for n, p, x in FIELDS[cls]} | ({"query_string", "method", "path"} if cls.endswith("RequestHeader") else {"status_text"})
        common = {p: 1 for o, (p, sz, k, t) in h.leaf.items() if k == "bool"}
        common.update(connection_upgrade=0, content_type_mime="set", content_type_suffix="set", http_version_major=1, http_version_minor=1)
        # the fields of this kind of header in all combinations, then the common ones
        h.run(2, 2, {**common, "method": "set", "path": "set"})
        h.run(2, 2, {p: "set" for p in own})
        for te, hd in ((0, 0), (0, 1), (1, 0), (3, 3)):
            h.run(te, hd, {p: "set" if p in ("method", "path") else "" for p in own})
            h.run(te, hd, {**common, **{p: "set" for p in own}})
        rep.count("paths_through_to_string", h.runs)
        rep.engine(h.E)
    for r in (R_START, R_PATH, R_LINES, R_END, R_KEEP):
        rep.need(r, 20)


C18 = c18
