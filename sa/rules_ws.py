"""C19: WebSocket frame headers and masking against the layout of RFC 6455 section 5.2.

Writer and reader are interpreted with symbolic opcode, length and key; every byte written and every field read is compared bit by bit with
the layout.  The masking function is interpreted for every alignment and shift on texts up to a bound."""
from absint import State, P, S, is_ptr, add, neg, mask, iset_iter, iset_from
from model import AnalysisError
import std_models as sm
import objects
import fw
from parsers import Machine, THIS, IN
from rules_net import fwhere, yes
from rules_parse import buffer_rule
from rules_body import Body
from bits import Bits

SAVER = "crab::http::WebMessageHeaderSaver"
PARSER = "crab::http::WebMessageHeaderParser"
BODY = "crab::http::WebMessageBodyParser"
KEYP = ("*", ("key",))
R_W = "the header written has the standard layout"
R_R = "the reader recovers what the bytes say"
R_BAD = "invalid headers are refused"
R_GOOD = "valid headers are read to their end and not further"
R_MASK = "byte i of the payload is combined with byte i mod 4 of the key"
R_PAY = "a payload byte is taken exactly if it is outstanding"
OPCODES = (0, 1, 2, 8, 9, 10)
L = S(("L",), 64)
N = S(("n",), 64)
K = S(("K",), 32)


def one(prog, q, n=None, has=""):
    fs = [f for f in prog.by_qual.get(q, []) if f.bb and (n is None or len(f.args) == n) and has in f.dm]
    if len(fs) != 1:
        raise AnalysisError("anchor not found: %s" % q)
    return fs[0]


def key_arg(prog, st, has):
    rg = st.wregion(KEYP)
    o, s, t = prog.field("crab::optional<unsigned int>", "impl")
    rg.cells[o] = (4, K)
    o, s, t = prog.field("crab::optional<unsigned int>", "valid")
    rg.cells[o] = (1, has)


def be(B, t, w):
    """the bytes of a big-endian number, as bits"""
    b = B.of(t, w)
    return [b[8 * k:8 * k + 8] for k in reversed(range(w // 8))]


def writer(prog, rep):
    f = one(prog, SAVER + "::WebMessageHeaderSaver", 5)
    fd, fs = one(prog, SAVER + "::data"), one(prog, SAVER + "::size")
    E = objects.engine(prog, http=False)
    E.unroll = 32
    E.apart = {THIS[1], KEYP}
    OP = S(("op",), 32)
    n = 0
    for fin in (0, 1):
        for has in (0, 1):
            for lo, hi, ext, code in ((0, 125, 0, None), (126, 65535, 2, 126), (65536, (1 << 63) - 1, 8, 127)):
                st = State()
                key_arg(prog, st, has)
                st.cons[OP] = tuple((o, o) for o in OPCODES)
                st.cons[L] = ((lo, hi),)
                st.tr = None
                res = E.run(f, [THIS, fin, OP, L, P(KEYP, 0)], st)
                for k, v, s in res:
                    n += 1
                    what = "%s length class %d%s" % ("final," if fin else "not final,", ext, ", masked" if has else "")
                    if k != "ret":
                        rep.ob(R_W, False, f.qual, fwhere(prog, f), "no header for %s" % what, "exc", fw.path_of(prog, s))
                        continue
                    dat = [v2 for k2, v2, s2 in E.run(fd, [THIS], s.copy())]
                    siz = [v2 for k2, v2, s2 in E.run(fs, [THIS], s.copy())]
                    total = 2 + ext + 4 * has
                    ok = len(siz) == 1 and siz[0] == total and len(dat) == 1 and is_ptr(dat[0])
                    rep.ob(R_W, ok, f.qual, fwhere(prog, f), "%s: the header has %s bytes, not %d" % (what, siz, total), "size", fw.path_of(prog, s))
                    if not ok:
                        continue
                    B = Bits(E, s)
                    want = [B.fn(OP, lambda o: o | fin << 7, 8)]
                    want.append([((code >> j) & 1) for j in range(7)] + [has] if code else B.of(L, 64)[:7] + [has])
                    if ext:
                        want += be(B, L, 64)[-ext:]
                    if has:
                        want += be(B, K, 32)
                    for j, w in enumerate(want):
                        t = E.load(s, P(dat[0][1], add(dat[0][2], j, 64)), 1, "i8")
                        h = [(t >> x) & 1 for x in range(8)] if isinstance(t, int) else B.of(t, 8)
                        rep.ob(R_W, h == w, f.qual, fwhere(prog, f), "%s: byte %d of the header is wrong" % (what, j), "byte %s" % ("first" if j == 0 else "second" if j == 1 else "later"),
                               fw.path_of(prog, s))
    rep.count("writer_paths", n)
    rep.engine(E)


class Reader(Machine):
    def __init__(self, prog, rep):
        Machine.__init__(self, prog, rep, PARSER)
        self.o = {n: self.off(n) for n in ("fin", "opcode", "payload_len", "masking_key.impl", "masking_key.valid")}
        self.good_f = one(prog, PARSER + "::is_good")

    def is_good(self, s):
        r = {v if isinstance(v, int) else self.E.const_of(x, v) if k == "ret" else None for k, v, x in self.E.run(self.good_f, [THIS], s.copy())}
        return r.pop() if len(r) == 1 else None

    def explore(self):
        rep, E, prog = self.rep, self.E, self.prog
        st = self.state({o: self.init[o][1] for o in self.ctrl if o in self.init}, {o: c for o, c in self.init.items()})
        for o in self.ctrl:
            if o not in self.init or not isinstance(self.init[o][1], int):
                raise AnalysisError("%s leaves %s uninitialised" % (PARSER, self.leaf[o][0]))
        work = [(st, ())]      # state, classes of the bytes so far
        n = 0
        while work:
            st, seq = work.pop()
            need = self.total(seq)
            for cls, bs in self.classes(seq):
                s0 = st.copy()
                k = len(seq)
                s0.cons[S(("in", k), 8)] = iset_from(bs)
                bad = self.bad(seq + (cls,))
                done = need is not None and k >= need
                n += 1
                for kind, v, s in self.step(s0, 1, k):
                    where, path = fwhere(prog, self.parse), fw.path_of(prog, s)
                    if done:
                        same = kind == "ret" and v == P(IN, k) and all(self.num(s, o) == self.num(st, o) for o in self.o.values())
                        rep.ob(R_GOOD, same, PARSER, where, "bytes after the header are taken", "after", path)
                        continue
                    if kind == "exc":
                        rep.ob(R_GOOD, bad is not None, PARSER, where, "a valid header is refused at byte %d (%s)" % (k, cls,), "refused", path)
                        continue
                    full = self.total(seq + (cls,)) == k + 1
                    if v != P(IN, k + 1):
                        rep.ob(R_GOOD, False, PARSER, where, "a byte of the header is not taken", "taken", path)
                        continue
                    g = self.is_good(s)
                    if bad is not None:
                        rep.ob(R_BAD, not (g or full), PARSER, where, "accepted: %s" % bad, bad, path)
                        if g or full:
                            continue
                    rep.ob(R_GOOD, g == int(full), PARSER, where, "is_good() is %s after byte %d of %s" % (g, k + 1, self.total(seq + (cls,))), "good", path)
                    if full:
                        self.fields(s, seq + (cls,))
                    if full and g and bad is None or not full and g == 0:
                        work.append((s, seq + (cls,)))
        rep.count("reader_steps", n)
        rep.engine(E)

    # bytes are classed so that the layout is the same for all bytes of a class
    def classes(self, seq):
        k = len(seq)
        need = self.total(seq)
        if need is not None and k >= need:
            return [("any", list(range(256)))]
        if k == 0:
            out = [(("b0", f, o), [f << 7 | o]) for f in (0, 1) for o in OPCODES]
            for f in (0, 1):
                out.append((("b0", f, "undefined"), [f << 7 | o for o in range(16) if o not in OPCODES]))
            out += [(("b0", f, "reserved"), [b for b in range(256) if b >> 7 == f and b & 0x70]) for f in (0, 1)]
            return out
        if k == 1:
            out = []
            for m in (0, 1):
                out += [(("b1", m, 0), [m << 7 | b for b in range(126)]), (("b1", m, 2), [m << 7 | 126]), (("b1", m, 8), [m << 7 | 127])]
            return out
        if k == 2 and seq[1][2] == 8:
            return [(("top", 0), list(range(128))), (("top", 1), list(range(128, 256)))]
        return [("any", list(range(256)))]

    def total(self, seq):
        return None if len(seq) < 2 else 2 + seq[1][2] + 4 * seq[1][1]

    def bad(self, seq):
        b0 = seq[0]
        if b0[2] in ("undefined", "reserved"):
            return b0[2] + (" opcode" if b0[2] == "undefined" else " bits")
        if b0[2] >= 8 and not b0[1]:
            return "fragmented control frame"
        if len(seq) > 1 and b0[2] >= 8 and seq[1][2]:
            return "long control frame"
        if len(seq) > 2 and seq[2] == ("top", 1):
            return "top bit of the length"
        return None

    def fields(self, s, seq):
        E, rep = self.E, self.rep
        B = Bits(E, s)
        byte = lambda k: B.of(S(("in", k), 8), 8)
        ext, m = seq[1][2], seq[1][1]
        want = {"fin": [byte(0)[7]] + [0] * 7, "opcode": byte(0)[:4] + [0] * 28, "masking_key.valid": [m] + [0] * 7}
        if ext == 0:
            want["payload_len"] = byte(1)[:7] + [0] * 57
        else:
            bs = [byte(2 + j) for j in reversed(range(ext))]
            want["payload_len"] = [b for x in bs for b in x] + [0] * (64 - 8 * ext)
        if m:
            bs = [byte(2 + ext + j) for j in reversed(range(4))]
            want["masking_key.impl"] = [b for x in bs for b in x]
        for n, w in want.items():
            v = self.num(s, self.o[n])
            h = [(v >> j) & 1 for j in range(len(w))] if isinstance(v, int) else B.of(v, len(w))
            rep.ob(R_R, h == w, PARSER, fwhere(self.prog, self.parse), "%s is not what the header's bytes say" % n, n, fw.path_of(self.prog, s))


def m_align(E, st, fr, i, args, fn):
    p = E.load(st, args[2], 8, "p")
    sp = E.load(st, args[3], 8, "i64")
    if is_ptr(p) and p[1] == IN and isinstance(p[2], int) and isinstance(sp, int) and isinstance(args[0], int) and isinstance(args[1], int):
        d = -p[2] % args[0]
        if args[1] + d > sp:
            return 0
        q = P(IN, p[2] + d)
        E.store(st, args[2], 8, q)
        E.store(st, args[3], 8, sp - d)
        return q
    return NotImplemented


def masking(prog, rep, sizes):
    f = one(prog, PARSER + "::mask_data", 4)
    E = objects.engine(prog, http=False)
    E.unroll = 200
    E.apart = {IN}
    E.models["std::align"] = m_align
    E.term_depth = 40
    runs = 0
    for al in range(8):
        for sh in (0, 1, 2, 3, 6, (1 << 32) + 1, (1 << 64) - 1):
            for n in sizes:
                if sh > 3 and n > 12:
                    continue
                st = State()
                st.cons[S(IN[1], 64)] = ((1, mask(64)),)
                rg = st.wregion(IN)
                for k in range(al, al + n):
                    rg.cells[k] = (1, S(("in", k), 8))
                st.tr = None
                for k, v, s in E.run(f, [sh, P(IN, al), n, K], st):
                    runs += 1
                    bad = None
                    if k == "ret":
                        B = Bits(E, s)
                        kb = B.of(K, 32)
                        for j in range(n):
                            t = E.load(s, P(IN, al + j), 1, "i8")
                            h = [(t >> x) & 1 for x in range(8)] if isinstance(t, int) else B.of(t, 8)
                            kk = 24 - 8 * ((sh + j) % 4)
                            d = B.of(S(("in", al + j), 8), 8)
                            if h is None or h != [B.op2("xor", d[x], kb[kk + x]) for x in range(8)]:
                                bad = j
                                break
                        out = [o for o, c in s.mem[IN].cells.items() if isinstance(o, int) and not (al <= o and o + c[0] <= al + n)]
                        if out:
                            bad = "outside"
                    else:
                        bad = k
                    rep.ob(R_MASK, bad is None, f.qual, fwhere(prog, f), "alignment %d, shift %d, %d bytes: byte %s is wrong" % (al, sh, n, bad), "mask", fw.path_of(prog, s))
    rep.count("masking_runs", runs)
    rep.engine(E)


class Payload(Body):
    """the payload of one frame: exactly the announced bytes, unmasked with the announced key"""

    def __init__(self, prog, rep):
        self.prog, self.rep, self.cls = prog, rep, BODY
        self.E = E = objects.engine(prog, http=False)
        E.apart = {IN, THIS[1], KEYP}
        E.exit_limit = E.loop_limit = 400
        self.ty = prog.type(BODY)
        self.parse, self.ctor = one(prog, BODY + "::parse", 3), one(prog, BODY + "::WebMessageBodyParser", 3)
        self.good_f = one(prog, BODY + "::is_good")
        self.leaf = {}
        self._leaves(self.ty, 0, "")
        self.ctrl = sorted(o for o, (p, s, k, t) in self.leaf.items() if k in ("enum", "bool") and not self.public(p))
        self.runs = 0
        self.o_text, = [o for o, (p, s, k, t) in self.leaf.items() if k == "str" and p.startswith("body.")]
        E.head_hook = self.head
        E.models[PARSER + "::mask_data"] = self.m_mask

    def m_mask(self, E, st, fr, i, args, fn):
        k = 0
        while ("#mask", k) in st.g:
            k += 1
        st.g[("#mask", k)] = (args[0], args[1], args[2], args[3], sm.gs(E, st, P(THIS[1], self.o_text))[2])
        return None

    def isgood(self, s):
        r = {v if isinstance(v, int) else self.E.const_of(x, v) if k == "ret" else None for k, v, x in self.E.run(self.good_f, [THIS], s.copy())}
        return r.pop() if len(r) == 1 else None

    def ob(self, rule, ok, detail, msg, s):
        self.rep.ob(rule, ok, BODY, fwhere(self.prog, self.parse), msg, detail, fw.path_of(self.prog, s))
        return ok

    def explore(self):
        E, prog, rep = self.E, self.prog, self.rep
        R, SH = S(("R",), 64), S(("SH",), 64)
        ints = [o for o, (p, s, k, t) in self.leaf.items() if k == "int" and "." not in p]
        entries = {}
        for has in (0, 1):
            for zero in (True, False):
                st = State()
                key_arg(prog, st, has)
                st.cons[L] = ((0, 0),) if zero else ((1, (1 << 63) - 1),)
                for k, v, s in E.run(self.ctor, [THIS, L, P(KEYP, 0)], st):
                    if not self.ob(R_PAY, k == "ret" and self.isgood(s) == int(zero), "ctor", "a frame with %s payload is %s" % ("no" if zero else "a", "not complete at once" if zero else "complete at once"), s):
                        continue
                    self.ob(R_PAY, sm.gs(E, s, P(THIS[1], self.o_text))[1] == 0, "ctor text", "a fresh payload is not empty", s)
                    if zero:
                        continue
                    rem = [o for o in ints if self.leaf[o][1] == 8 and self.num(s, o) == L]
                    zeros = [o for o in ints if self.leaf[o][1] == 8 and self.num(s, o) == 0]
                    if not self.ob(R_PAY, len(rem) == 1 and len(zeros) == 1, "ctor length", "the outstanding bytes are not the payload length", s):
                        return
                    for x in self.split_ctrl(s):
                        entries[has] = (x, rem[0], zeros[0])
        for has, (x0, o_rem, o_sh) in sorted(entries.items()):
            for small in (True, False):
                for nokey in ((False,) if not has else (False, True)):
                    st = x0.copy()
                    rg = st.wregion(THIS[1])
                    rg.cells[o_rem] = (8, R)
                    rg.cells[o_sh] = (8, SH)
                    n0 = S(("n0",), 64)
                    st.cons[n0] = ((0, 1 << 40),)
                    sm.ps(E, st, P(THIS[1], self.o_text), n0, ("sofar",))
                    st.cons[R] = ((1, (1 << 63) - 1),)
                    st.cons[N] = ((1, 1 << 40),)
                    st.cons[K] = ((0, 0),) if nokey else ((1, mask(32)),)
                    st.cons[SH] = ((0, 1 << 40),)
                    for s in E.assume(st, E.icmp(st, "ule", N, R, 64), small):
                        self.take(s, has and not nokey, N if small else R, R, SH, o_rem, o_sh, n0)
        # nothing after the end
        st = self.entry_good(R, o_rem) if entries else None
        if st is not None:
            for k, pos, s in self.round(st, N):
                self.ob(R_PAY, k == "ret" and pos == 0 and sm.gs(E, s, P(THIS[1], self.o_text))[2] == ("sofar",), "after", "bytes after the payload are taken", s)
        rep.count("payload_rounds", self.runs)
        rep.engine(E)

    def entry_good(self, R, o_rem):
        E = self.E
        st = State()
        key_arg(self.prog, st, 1)
        for k, v, s in E.run(self.ctor, [THIS, 0, P(KEYP, 0)], st):
            for x in self.split_ctrl(s):
                x.wregion(THIS[1]).cells[o_rem] = (8, R)
                sm.ps(E, x, P(THIS[1], self.o_text), 0, ("sofar",))
                x.cons[N] = ((1, 1 << 62),)
                return x

    def take(self, st, masked, full, R, SH, o_rem, o_sh, n0):
        E = self.E
        for k, pos, s in self.round(st, N):
            if not self.ob(R_PAY, k != "exc", "exc", "payload bytes are refused", s):
                continue
            t = sm.gs(E, s, P(THIS[1], self.o_text))
            ps = sm.pieces(t[2])
            ok = len(ps) == 2 and ps[0] == ("r", ("sofar",)) and ps[1][0] == "r" and ps[1][1][0] == "buf" and ps[1][1][1] == P(IN, 0) \
                and yes(E, s, "eq", ps[1][1][2], full) and pos is not None and yes(E, s, "eq", pos, full)
            self.ob(R_PAY, ok, "take", "the payload does not grow by exactly the bytes taken", s)
            left = add(R, neg(full, 64), 64)
            d = E.decide(s, E.icmp(s, "eq", left, 0, 64))
            alts = [(d, s)] if d is not None else [(e, x) for e in (True, False) for x in E.assume(s.copy(), E.icmp(s, "eq", left, 0, 64), e)]
            for end, x in alts:
                self.ob(R_PAY, self.isgood(x) == int(end), "end", "is_good() is %s with %s bytes outstanding" % (self.isgood(x), "no" if end else "some"), x)
                if not end:
                    self.ob(R_PAY, yes(E, x, "eq", self.num(x, o_rem), left), "left", "the outstanding bytes are not reduced by the bytes taken", x)
            ms = [v for kk, v in sorted(s.g.items(), key=repr) if isinstance(kk, tuple) and kk[0] == "#mask"]
            if not masked:
                self.ob(R_MASK, all(m[3] == 0 or yes(E, s, "eq", m[3], 0, 32) for m in ms), "unasked", "an unmasked payload is masked", s)
                continue
            if not self.ob(R_MASK, len(ms) == 1, "once", "masked %d times" % len(ms), s):
                continue
            sh, p, n, key, cid = ms[0]
            at = is_ptr(p) and p[1] == ("sd", cid) and cid == t[2] and yes(E, s, "eq", p[2], n0)
            self.ob(R_MASK, at and yes(E, s, "eq", n, full), "range", "not exactly the new bytes are unmasked", s)
            self.ob(R_MASK, key == K or yes(E, s, "eq", key, K, 32), "key", "not unmasked with the key of the frame", s)
            nsh = self.num(s, o_sh)
            B = Bits(E, s)
            low = lambda v: [(v >> j) & 1 for j in (0, 1)] if isinstance(v, int) else (B.of(v, 64) or [None, None])[:2]
            ok = yes(E, s, "eq", sh, SH) or low(sh) == low(SH)
            self.ob(R_MASK, ok, "shift", "unmasked with the wrong part of the key", s)
            want = add(SH, full, 64)
            self.ob(R_MASK, yes(E, s, "eq", nsh, want) or mod4(nsh) == mod4(want), "next shift", "the position in the key is not moved by the bytes taken", s)


def mod4(t):
    """t modulo 4 as a linear form"""
    if isinstance(t, int):
        return t & 3
    if t[0] == "op" and t[1] in ("and", "urem") and (t[4] == 3 if t[1] == "and" else t[4] == 4):
        return mod4(t[3])
    if t[0] == "lin":
        return ("m4", t[1] & 3, tuple((x, c & 3) for x, c in t[2] if c & 3))
    return ("m4", 0, ((t, 1),))


def payload(prog, rep):
    Payload(prog, rep).explore()
    buffer_rule(prog, rep, BODY)
    masking(prog, rep, list(range(0, 34)) if rep.tier == "thorough" else list(range(0, 20)) + [24, 27, 31])
    rep.need(R_PAY, 8)
    rep.need(R_MASK, 50)


def c19(prog, rep):
    writer(prog, rep)
    Reader(prog, rep).explore()
    buffer_rule(prog, rep, PARSER)
    for r in (R_W, R_R, R_BAD, R_GOOD):
        rep.need(r, 8)


C19 = c19
