"""C29: UTF-8 validation, hexadecimal, base64 and URL codecs.

The validator is explored as the product of its loop with the standard's automaton, for texts of any length: at the loop head every variable
that depends on the bytes just read is split into its possible values, and the specification state is carried along.  The codecs are
interpreted on symbolic texts of every length up to a bound; each output byte is compared, bit by bit, with the specified function of the input."""
from absint import State, P, S, mask, leaves, evalt, is_ptr, add, iset_from, iset_iter, iset_count, iset_and, width
from model import AnalysisError
import std_models as sm
import objects
import fw
from bits import Bits

IN = ("inbuf",)
RES = ("*", ("res",))
TXT = ("*", ("txt",))
R_UTF = "a text is valid exactly if the standard's automaton accepts it"
R_ORD = "every byte is looked at once, in order"
R_ENC = "encoders write the specified bytes"
R_DEC = "decoders accept exactly the specified texts"
R_VAL = "decoders return the specified bytes"
N = S(("n",), 64)


def fwhere(prog, f):
    return "%s:%s" % (f.file, f.line)


def find(prog, q, args=None, has=""):
    fs = [f for x in (q, q + "[abi:cxx11]") for f in prog.by_qual.get(x, []) if f.bb and (args is None or len(f.args) == args) and has in f.dm]
    if len(fs) != 1:
        raise AnalysisError("anchor not found: function %s (%d)" % (q, len(fs)))
    return fs[0]


# ------------------------------------------------------------------ UTF-8

def utf8_step(q, b):
    """RFC 3629 section 4"""
    if q == "ok":
        if b <= 0x7F:
            return "ok"
        if 0xC2 <= b <= 0xDF:
            return "1"
        if b == 0xE0:
            return "E0"
        if b == 0xED:
            return "ED"
        if 0xE1 <= b <= 0xEF:
            return "2"
        if b == 0xF0:
            return "F0"
        if b == 0xF4:
            return "F4"
        if 0xF1 <= b <= 0xF3:
            return "3"
        return "dead"
    lo, hi, nxt = {"1": (0x80, 0xBF, "ok"), "2": (0x80, 0xBF, "1"), "3": (0x80, 0xBF, "2"), "E0": (0xA0, 0xBF, "1"), "ED": (0x80, 0x9F, "1"),
                   "F0": (0x90, 0xBF, "2"), "F4": (0x80, 0x8F, "2"), "dead": (1, 0, "dead")}[q]
    return nxt if lo <= b <= hi else "dead"


class Scan:
    def __init__(self, prog, rep, f, step, init, accept):
        self.prog, self.rep, self.f, self.step, self.init, self.accept = prog, rep, f, step, init, accept
        self.E = E = objects.engine(prog, http=False)
        E.unroll = 1
        E.head_hook = self.head
        E.mem_hook = self.mem
        E.loop_limit = 4000
        E.exit_limit = 4000
        self.heads = 0
        self.seen = set()

    def mem(self, E, st, fr, i, ptr, size, is_store, value):
        if not is_ptr(ptr) or ptr[1] != IN:
            return
        off = ptr[2]
        exp = st.g[("#exp",)]
        pend = st.g[("#rd",)]
        if is_store or size != 1:
            self.rep.ob(R_ORD, False, fr.fn.qual, self.prog.loc(i), "the text is not read byte by byte", "size")
            return
        if any(o == off for o, s in pend):
            return
        ok = E.decide(st, E.icmp(st, "eq", off, exp, 64)) is True
        self.rep.ob(R_ORD, ok, fr.fn.qual, self.prog.loc(i), "a byte other than the next one is looked at", "order", fw.path_of(self.prog, st))
        if ok:
            st.g[("#rd",)] = pend + ((off, E.load(st, ptr, 1, "i8")),)
            st.g[("#exp",)] = add(exp, 1, 64)

    def flush(self, st, terms):
        """split a state by the values the bytes just read give to the terms, and advance the specification;
        yields (state, {key: value}); bytes are forgotten"""
        E = self.E
        work = [(st, {})]
        for off, sy in st.g[("#rd",)]:
            nw = []
            for s, known in work:
                if isinstance(sy, int):
                    s.g[("#q",)] = self.step(s.g[("#q",)], sy)
                    nw.append((s, known))
                    continue
                vals = [v for v in iset_iter(E.ranges(s, sy))]
                cols = {}
                for k, t in terms.items():
                    if leaves(t) == {sy}:
                        try:
                            col = [evalt(t, {sy: v}, self.prog) for v in vals]
                        except KeyError:
                            continue
                        if len(set(col)) <= 24:
                            cols[k] = col
                groups = {}
                q = s.g[("#q",)]
                for n, v in enumerate(vals):
                    groups.setdefault((self.step(q, v), tuple((k, c[n]) for k, c in cols.items())), []).append(v)
                for (q2, kv), bs in groups.items():
                    s2 = s.copy()
                    s2.cons[sy] = iset_from(bs)
                    s2.g[("#q",)] = q2
                    nw.append((s2, {**known, **dict(kv)}))
            work = nw
        for s, known in work:
            s.g[("#rd",)] = ()
        return work

    def head(self, E, fr, b, env, st):
        if fr.fn is not self.f:
            return None
        self.heads += 1
        terms = {}
        for d, v in env.items():
            if isinstance(v, tuple) and v and v[0] in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or"):
                terms[("e", d)] = v
        for root, rg in st.mem.items():
            if root[0] in ("al", "bv") and root[1] == fr.ctx:
                for o, c in rg.cells.items():
                    v = c[1]
                    if isinstance(v, tuple) and v and v[0] in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or"):
                        terms[("m", root, o)] = v
        out = []
        for s, known in self.flush(st, terms):
            e2 = dict(env)
            for k, v in known.items():
                if k[0] == "e":
                    e2[k[1]] = v
                else:
                    rg = s.wregion(k[1])
                    rg.cells[k[2]] = (rg.cells[k[2]][0], v)
            exp = s.g[("#exp",)]
            anch = [d for d, v in e2.items() if v == exp or is_ptr(v) and v == P(IN, exp)]
            anchm = [(root, o) for root, rg in s.mem.items() if root[0] == "al" and root[1] == fr.ctx
                     for o, c in rg.cells.items() if c[1] == exp or is_ptr(c[1]) and c[1] == P(IN, exp)]
            if not anch and not anchm:
                raise AnalysisError("no variable of %s follows the position in the text" % self.f.qual)
            s.nf += 1
            E.widen(fr, b, e2, s)
            for k, v in known.items():
                if k[0] == "e":
                    e2[k[1]] = v
                else:
                    rg = s.wregion(k[1])
                    rg.cells[k[2]] = (rg.cells[k[2]][0], v)
            v = e2[anch[0]] if anch else s.mem[anchm[0][0]].cells[anchm[0][1]][1]
            s.g[("#exp",)] = v[2] if is_ptr(v) else v
            self.seen.add((b, s.g[("#q",)], tuple(sorted((repr(k), v) for k, v in known.items()))))
            out.append((e2, s))
        return out

    def run(self, args):
        E, rep, f = self.E, self.rep, self.f
        st = State()
        st.cons[N] = ((0, 1 << 62),)
        st.g[("#exp",)] = 0
        st.g[("#rd",)] = ()
        st.g[("#q",)] = self.init
        E.apart = {IN}
        res = E.run(f, args, st)
        rep.engine(E, res)
        for k, v, s in res:
            for s2, known in self.flush(s, {"ret": v} if isinstance(v, tuple) else {}):
                r = known.get("ret", v)
                if not isinstance(r, int):
                    r = E.const_of(s2, r)
                q = s2.g[("#q",)]
                whole = E.decide(s2, E.icmp(s2, "eq", s2.g[("#exp",)], N, 64)) is True
                if k != "ret" or r not in (0, 1):
                    rep.ob(R_UTF, False, f.qual, fwhere(self.prog, f), "no verdict", "verdict")
                elif whole:
                    rep.ob(R_UTF, bool(r) == (q == self.accept), f.qual, fwhere(self.prog, f), "a text ending in state '%s' of the standard's automaton is %s" % (q, "accepted" if r else "refused"),
                           "%s %d" % (q, r), fw.path_of(self.prog, s2))
                else:
                    rep.ob(R_UTF, r == 0 and q == "dead", f.qual, fwhere(self.prog, f), "%s before the end of the text (state '%s')" % ("accepted" if r else "refused", q),
                           "early %s %d" % (q, r), fw.path_of(self.prog, s2))
        if not self.heads:
            raise AnalysisError("no loop in %s" % f.qual)
        rep.count("product_states", len(self.seen))


def utf8(prog, rep):
    f = find(prog, "crab::is_valid_utf8", 2, "unsigned char")
    Scan(prog, rep, f, utf8_step, "ok", "ok").run([P(IN, 0), N])


# ------------------------------------------------------------------ codecs

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
HEX = b"0123456789abcdef"
B64 = {c: n for n, c in enumerate(ALPHA)}
HEXV = {**{c: n for n, c in enumerate(HEX)}, **{c: n + 10 for n, c in enumerate(b"ABCDEF")}}


class Codec:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.E = E = objects.engine(prog, http=False)
        E.unroll = 64
        E.loop_limit = 100000
        E.exit_limit = 100000
        E.apart = {IN, RES, TXT}
        self.R, self.T = P(RES, 0), P(TXT, 0)

    def ins(self, n):
        return [S(("in", k), 8) for k in range(n)]

    def buffer(self, n, cons=()):
        st = State()
        rg = st.wregion(IN)
        for k, x in enumerate(self.ins(n)):
            rg.cells[k] = (1, x)
            if k < len(cons):
                st.cons[x] = cons[k]
        return st

    def text(self, n, cons=()):
        st = State()
        for k, c in enumerate(cons):
            st.cons[S(("in", k), 8)] = c
        sm.ps(self.E, st, self.T, n, sm.cat(("cat", tuple(("b", x) for x in self.ins(n)))) if n else ("k", b""))
        return st

    def string(self, s, p):
        """bytes of a string, or None"""
        v = sm.gs(self.E, s, p)
        n = v[1] if isinstance(v[1], int) else self.E.const_of(s, v[1])
        if n is None:
            return None
        rg = s.mem.get(("sd", v[2]))
        out = []
        for x in sm.pieces(v[2]) if v[2][0] in ("cat", "k") else ():
            if x[0] == "k":
                out += list(x[1])
            elif x[0] == "b":
                out.append(x[1])
            else:
                out = []
                break
        if len(out) < n:
            out += [None] * (n - len(out))
        for k in range(n):
            c = rg.cells.get(k) if rg is not None else None
            if c is not None and c[0] == 1:
                out[k] = c[1]
            elif out[k] is None and v[2][0] == "fill":
                out[k] = v[2][2]
        return out[:n] if all(x is not None for x in out[:n]) else None

    def vector(self, s, p):
        v = sm.getcell(self.E, s, p, "vec", 24)
        n = v[1] if isinstance(v[1], int) else self.E.const_of(s, v[1])
        if n is None:
            return None
        out = []
        for k in range(n):
            out.append(self.E.load(s, P(("vd", v[2]), k), 1, "i8"))
        return out

    def same(self, s, got, want):
        """got: terms; want: functions giving bit lists"""
        if got is None or len(got) != len(want):
            return False
        B = Bits(self.E, s)
        for g, w in zip(got, want):
            if isinstance(w, int):
                c = g if isinstance(g, int) else self.E.const_of(s, g)
                if c != w:
                    return False
                continue
            b = B.of(g, 8)
            if b is None or b != w(B):
                if b is None or not self.table(B, b, w):
                    return False
        return True

    def table(self, B, b, w):
        """b is a table lookup: the table's entries and the index must be those of the specified lookup"""
        x = w(B)
        if isinstance(x, tuple) and x and x[0] == "lookup" and all(isinstance(y, tuple) and y[0] == "t" for y in b):
            names = {y[1] for y in b}
            ix = {y[3] for y in b}
            if len(names) != 1 or len(ix) != 1 or [y[2] for y in b] != list(range(8)):
                return False
            data = self.prog.global_bytes(names.pop())
            i = list(ix.pop())
            want = list(x[2])
            while want and want[-1] == 0:
                want.pop()
            return i == want and data is not None and all(k < len(data) and data[k] == x[1][k] for k in range(1 << len(want)))
        return False


def hex_rules(prog, rep):
    c = Codec(prog, rep)
    E = c.E
    f = find(prog, "crab::to_hex", 3, "(unsigned char const*")
    deep = rep.tier == "thorough"
    for n in range(0, 9 if deep else 6):
        st = c.buffer(n)
        res = E.run(f, [c.R, P(IN, 0), n], st)
        rep.engine(E, res)
        for k, v, s in res:
            want = []
            for x in c.ins(n):
                want += [lambda B, x=x: B.fn(x, lambda b: HEX[b >> 4], 8), lambda B, x=x: B.fn(x, lambda b: HEX[b & 15], 8)]
            rep.ob(R_ENC, k == "ret" and c.same(s, c.string(s, c.R), want), f.qual, fwhere(prog, f), "hexadecimal text of %d bytes is wrong" % n, "hex", fw.path_of(prog, s))
    f = find(prog, "crab::from_hex", 2)
    for n in range(0, 7 if deep else 5):
        st = c.text(n)
        old = sm.getcell(E, st, c.R, "vec", 24)
        decode(c, f, [c.R, c.T], st, n, lambda s, cs: hex_spec(c, cs), old, "hexadecimal")


def hex_spec(c, cs):
    """cs: class per byte ('h' hex digit, 'x' other) -> None or wanted bytes"""
    if len(cs) % 2 or any(k != "h" for k in cs):
        return None
    out = []
    for k in range(0, len(cs), 2):
        out.append(lambda B, k=k: B.fn(S(("in", k + 1), 8), lambda b: HEXV[b], 8)[:4] + B.fn(S(("in", k), 8), lambda b: HEXV[b], 8)[:4])
    return out


HCL = [("h", iset_from(HEXV)), ("x", iset_from(set(range(256)) - set(HEXV)))]
BCL = [("a", iset_from(B64)), ("=", ((61, 61),)), ("x", iset_from(set(range(256)) - set(B64) - {61}))]


def classes(E, s, xs, cls):
    import itertools
    return itertools.product(*[[c for c, r in cls if iset_and(E.ranges(s, x), r)] for x in xs])


def decode(c, f, args, st, n, spec, old, what, cls=HCL):
    E, rep, prog = c.E, c.rep, c.prog
    res = E.run(f, args, st)
    rep.engine(E, res)
    cl = dict(cls)
    for k, v, s in res:
        r = v if isinstance(v, int) else E.const_of(s, v) if k == "ret" else None
        if k != "ret" or r not in (0, 1):
            rep.ob(R_DEC, False, f.qual, fwhere(prog, f), "no verdict for %d bytes" % n, what, fw.path_of(prog, s))
            continue
        for cs in classes(E, s, c.ins(n), cls):
            w = spec(s, cs)
            ok = bool(r) == (w is not None)
            rep.ob(R_DEC, ok, f.qual, fwhere(prog, f), "%s text of the form '%s' is %s" % (what, "".join(cs), "accepted" if r else "refused"), what, fw.path_of(prog, s))
            if not ok:
                return
            s2 = s.copy()
            for x, k2 in zip(c.ins(n), cs):
                s2.cons[x] = iset_and(E.ranges(s2, x), cl[k2])
            if w is None:
                now = sm.getcell(E, s2, c.R, "vec", 24)
                rep.ob(R_VAL, now == old, f.qual, fwhere(prog, f), "a refused %s text changes the result" % what, what + " refused", fw.path_of(prog, s))
            else:
                rep.ob(R_VAL, c.same(s2, c.vector(s2, c.R), w), f.qual, fwhere(prog, f), "%s text '%s' is decoded to other bytes" % (what, "".join(cs)), what, fw.path_of(prog, s))


def base64_rules(prog, rep):
    c = Codec(prog, rep)
    E = c.E
    deep = rep.tier == "thorough"
    f = find(prog, "crab::base64::encode", 3)
    for n in range(0, 10 if deep else 8):
        res = E.run(f, [c.R, P(IN, 0), n], c.buffer(n))
        rep.engine(E, res)
        x = c.ins(n)
        want = []
        for g in range(0, n, 3):
            h = x[g:g + 3]
            for j in range(4):
                if j > len(h):
                    want.append(ord("="))
                else:
                    def w(B, h=h, j=j):
                        b = [0] * (8 * (3 - len(h))) + sum([B.of(y) for y in reversed(h)], [])
                        ix = b[18 - 6 * j:24 - 6 * j]
                        return B.lookup(ALPHA, ix) or ("lookup", ALPHA, ix)
                    want.append(w)
        for k, v, s in res:
            rep.ob(R_ENC, k == "ret" and c.same(s, c.string(s, c.R), want), f.qual, fwhere(prog, f), "base64 text of %d bytes is wrong" % n, "base64", fw.path_of(prog, s))
    f = find(prog, "crab::base64::decode", 2)
    for n in range(0, 10 if deep else 9):
        if n > 6:
            st = c.text(n, [iset_from(B64)] * 2 + [iset_from(set(B64) | {61})] * 2)
        else:
            st = c.text(n)
        old = sm.getcell(E, st, c.R, "vec", 24)
        decode(c, f, [c.R, c.T], st, n, lambda s, cs: b64_spec(cs), old, "base64", BCL)


def b64_spec(cs):
    out = []
    n = len(cs)
    for g in range(0, n, 4):
        h = list(cs[g:g + 4])
        if len(h) == 4 and h[3] == "=":
            h.pop()
            if h[2] == "=":
                h.pop()
        if len(h) == 1 or any(k != "a" for k in h):
            return None

        for j in range(len(h) - 1):
            def w(B, g=g, h=tuple(h), j=j):
                b = []
                for q in reversed(range(4)):
                    b += B.fn(S(("in", g + q), 8), lambda v: B64[v], 6) if q < len(h) else [0] * 6
                return b[16 - 8 * j:24 - 8 * j]
            out.append(w)
    return out


def url_rules(prog, rep):
    c = Codec(prog, rep)
    E = c.E
    deep = rep.tier == "thorough"
    f = find(prog, "crab::http::url_encode", 3)
    g = find(prog, "crab::http::url_decode", 2)
    # what a byte is encoded to: itself or %XX; the bytes left alone must not be '%'
    for path in (0, 1):
        for n in range(0, 3 if deep else 3):
            res = E.run(f, [c.R, c.T, path], c.text(n))
            rep.engine(E, res)
            for k, v, s in res:
                out = c.string(s, c.R)
                ok = k == "ret" and out is not None and url_parse(c, s, out, n, path)
                rep.ob(R_ENC, ok, f.qual, fwhere(prog, f), "the URL encoding of %d bytes cannot be decoded to them" % n, "url %d" % path, fw.path_of(prog, s))
    for n in range(0, 6 if deep else 5):
        res = E.run(g, [c.R, c.T], c.text(n))
        rep.engine(E, res)
        cls = [("%", ((37, 37),)), ("h", iset_from(HEXV)), ("x", iset_from(set(range(256)) - set(HEXV) - {37}))]
        cl = dict(cls)
        for k, v, s in res:
            out = c.string(s, c.R) if k == "ret" else None
            for cs in classes(E, s, c.ins(n), cls):
                s2 = s.copy()
                for x, k2 in zip(c.ins(n), cs):
                    s2.cons[x] = iset_and(E.ranges(s2, x), cl[k2])
                want, j = [], 0
                while j < n:
                    if cs[j] == "%" and j + 2 < n and cs[j + 1] == "h" and cs[j + 2] == "h":
                        want.append(lambda B, j=j: B.fn(S(("in", j + 2), 8), lambda b: HEXV[b], 8)[:4] + B.fn(S(("in", j + 1), 8), lambda b: HEXV[b], 8)[:4])
                        j += 3
                    else:
                        want.append(lambda B, j=j: B.of(S(("in", j), 8)))
                        j += 1
                ok = c.same(s2, out, want)
                rep.ob(R_VAL, ok, g.qual, fwhere(prog, g), "URL text of the form '%s' is decoded to other bytes" % "".join(cs), "url", fw.path_of(prog, s))
                if not ok:
                    break


def url_parse(c, s, out, n, path):
    """out is n pieces, each the byte itself (not '%') or its %XX form"""
    j = 0
    B = Bits(c.E, s)
    for k in range(n):
        x = S(("in", k), 8)
        if j >= len(out):
            return False
        head = out[j] if isinstance(out[j], int) else c.E.const_of(s, out[j])
        if head == 37:
            if j + 3 > len(out):
                return False
            for h, sh in ((out[j + 1], 4), (out[j + 2], 0)):
                b = B.of(h, 8)
                if b is None:
                    return False
                vs = B.values(x)
                lo = B.fn(x, lambda v: HEX[v >> sh & 15], 8)
                up = B.fn(x, lambda v: HEX.upper()[v >> sh & 15], 8)
                if b != lo and b != up:
                    return False
            j += 3
        else:
            if B.of(out[j], 8) != B.of(x) or iset_and(c.E.ranges(s, x), ((37, 37),)):
                return False
            j += 1
    return j == len(out)


def C29(prog, rep):
    utf8(prog, rep)
    hex_rules(prog, rep)
    base64_rules(prog, rep)
    url_rules(prog, rep)
    rep.need(R_UTF, 8)
    rep.need(R_ORD, 2)
    rep.need(R_ENC, 20)
    rep.need(R_DEC, 40)
    rep.need(R_VAL, 40)
