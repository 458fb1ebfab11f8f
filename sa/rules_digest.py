"""C35: digests, checksums and the pseudo-random generator have the specified values.

Code and specification are both evaluated in the canonical bit-level value numbering of vn.py: each compression function once, for every chaining
state and block; padding, lengths and buffering for every fill of the buffer, with a symbolic number of earlier blocks and symbolic bytes; the
checksums from a symbolic register; the generator from a symbolic state.  Equal names are equal functions of the inputs."""
import math
from absint import State, P, S, is_ptr, mask
from model import AnalysisError
import std_models
import objects
import fw
from vn import VEngine, ZERO, ONE
from rules_codec import fwhere

IN, IN2 = ("inbuf",), ("inbuf2",)
RES = ("*", ("res",))
OBJ = ("*", ("obj",))
R_COMP = "the compression function maps every state and block to the specified state"
R_PAD = "the blocks compressed are the message, padded as specified, however it is split into updates"
R_OUT = "the digest is the final state in the specified byte order"
R_CRC = "a checksum is the specified polynomial remainder"
R_RND = "the generator steps and writes as specified"
R_LEN = "no byte of a long input is skipped"
MAXQ = 1 << 40


class Stop(Exception):
    pass


def engine(prog):
    E = VEngine(prog)
    std_models.install(E)
    E.gsys = True
    E.unroll = 4000
    E.max_steps *= 200
    E.exit_limit = E.loop_limit = 4000
    E.apart = {IN, IN2, RES, OBJ}
    return E


class Spec:
    """the specification, over words of the value numbering"""

    def __init__(self, V):
        self.V = V

    def k(self, c, w=32):
        return self.V.const(c, w)

    def x(self, *a):
        r = a[0]
        for b in a[1:]:
            r = self.V.binop("xor", r, b)
        return r

    def a(self, x, y):
        return self.V.binop("and", x, y)

    def o(self, x, y):
        return self.V.binop("or", x, y)

    def n(self, x):
        return self.x(x, self.k(mask(len(x)), len(x)))

    def s(self, *a):
        r = a[0]
        for b in a[1:]:
            r = self.V.add(r, b)
        return r

    def rol(self, x, n):
        w = len(x)
        return x[w - n:] + x[:w - n]

    def be(self, bs):
        r = ()
        for b in bs:
            r = b + r
        return r

    def le(self, bs):
        r = ()
        for b in bs:
            r = r + b
        return r


def sha1_block(F, H, m):
    w = [F.be(m[4 * k:4 * k + 4]) for k in range(16)]
    for t in range(16, 80):
        w.append(F.rol(F.x(w[t - 3], w[t - 8], w[t - 14], w[t - 16]), 1))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20:
            f, k = F.o(F.a(b, c), F.a(F.n(b), d)), 0x5A827999
        elif t < 40:
            f, k = F.x(b, c, d), 0x6ED9EBA1
        elif t < 60:
            f, k = F.o(F.o(F.a(b, c), F.a(b, d)), F.a(c, d)), 0x8F1BBCDC
        else:
            f, k = F.x(b, c, d), 0xCA62C1D6
        a, b, c, d, e = F.s(F.rol(a, 5), f, e, F.k(k), w[t]), a, F.rol(b, 30), c, d
    return [F.s(x, y) for x, y in zip(H, (a, b, c, d, e))]


def md5_block(F, H, m):
    X = [F.le(m[4 * k:4 * k + 4]) for k in range(16)]
    T = [int(abs(math.sin(k + 1)) * (1 << 32)) for k in range(64)]
    R = [(7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21)]
    a, b, c, d = H
    for t in range(64):
        if t < 16:
            f, g = F.o(F.a(b, c), F.a(F.n(b), d)), t
        elif t < 32:
            f, g = F.o(F.a(b, d), F.a(c, F.n(d))), (5 * t + 1) % 16
        elif t < 48:
            f, g = F.x(b, c, d), (3 * t + 5) % 16
        else:
            f, g = F.x(c, F.o(b, F.n(d))), (7 * t) % 16
        a, b, c, d = d, F.s(b, F.rol(F.s(a, f, X[g], F.k(T[t])), R[t // 16][t % 4])), b, c
    return [F.s(x, y) for x, y in zip(H, (a, b, c, d))]


class Hash:
    def __init__(self, prog, rep, cls, words, block, big):
        self.prog, self.rep, self.cls, self.words, self.block, self.big = prog, rep, cls, words, block, big
        self.E = E = engine(prog)
        self.F = Spec(E.V)
        base = cls.rsplit("::", 1)[1]
        self.name = base
        self.ctor = [f for f in prog.find(cls + "::" + base) if len(f.args) == 1]
        self.fadd = self.one("add", "(unsigned char const*, unsigned long)")
        self.ffin = self.one("finalize", "(unsigned char*)")
        fs = [f for f in prog.by_qual.get(cls + "::process_block", []) if f.bb and len(f.args) == 2]
        self.fpb = fs[0] if len(fs) == 1 else None
        self.IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0)[:words]
        self.start = self.construct()
        self.layout()

    def one(self, n, has):
        fs = [f for f in self.prog.by_qual.get(self.cls + "::" + n, []) if f.bb and has in f.dm]
        if len(fs) != 1:
            raise AnalysisError("anchor not found: %s::%s" % (self.cls, n))
        return fs[0]

    def single(self, f, args, st):
        """the only way this call can go, or None"""
        res = self.E.run(f, args, st.copy())
        self.rep.engine(self.E, res)
        rets = [s for k, v, s in res if k == "ret"]
        return rets[0] if len(res) == 1 and rets else None

    def construct(self):
        """the object as its constructor leaves it"""
        E = self.E
        st = State()
        for f in self.ctor[:1]:
            s = self.single(f, [P(OBJ, 0)], st)
            if s is None:
                raise AnalysisError("%s: construction has no single outcome" % f.qual)
            return s
        # an inline constructor without a body of its own: taken from a function that makes one
        raise AnalysisError("anchor not found: constructor of %s" % self.cls)

    def layout(self):
        """where the chaining state and the length are, from what the constructor and an update leave there"""
        E = self.E
        rg = self.start.mem.get(OBJ)
        cells = rg.cells if rg else {}
        self.so = self.zo = None
        for o, (sz, v) in cells.items():
            if isinstance(o, int) and all(E.load(self.start, P(OBJ, o + 4 * k), 4, "i32") == self.IV[k] for k in range(self.words)):
                self.so = o
                break
        st = self.start.copy()
        b = st.wregion(IN)
        for k in range(3):
            b.cells[k] = (1, S(("m", k), 8))
        s = self.single(self.fadd, [P(OBJ, 0), P(IN, 0), 3], st)
        if s is None:
            return
        z = [o for o, (sz, v) in s.mem[OBJ].cells.items() if isinstance(o, int) and sz == 8 and v == 3 and E.load(self.start, P(OBJ, o), 8, "i64") == 0]
        if len(z) == 1:
            self.zo = z[0]

    # ---------------------------------------------------------------- one block
    def compress(self):
        E, F, rep, f = self.E, self.F, self.rep, self.fpb
        V = E.V
        st = State()
        rg = st.wregion(OBJ)
        H = []
        for k in range(self.words):
            x = S(("h", k), 32)
            rg.cells[self.so + 4 * k] = (4, x)
            H.append(V.word(x, 32))
        b = st.wregion(IN)
        m = []
        for k in range(64):
            x = S(("m", k), 8)
            b.cells[k] = (1, x)
            m.append(V.word(x, 8))
        before = dict(st.mem[OBJ].cells)
        res = E.run(f, [P(OBJ, 0), P(IN, 0)], st)
        rep.engine(E, res)
        want = self.block(F, H, m)
        ok = bool(res)
        for k, v, s in res:
            path = fw.path_of(self.prog, s)
            if k != "ret":
                rep.ob(R_COMP, False, f.qual, fwhere(self.prog, f), "a block ends with an exception", self.name, path)
                continue
            for j in range(self.words):
                g = E.load(s, P(OBJ, self.so + 4 * j), 4, "i32")
                good = V.word(g, 32) == want[j]
                ok = ok and good
                rep.ob(R_COMP, good, f.qual, fwhere(self.prog, f), "word %d of the state after a block is not the specified function of state and block" % j, self.name, path)
            other = {o: c for o, c in s.mem[OBJ].cells.items() if not (isinstance(o, int) and self.so <= o < self.so + 4 * self.words) and before.get(o) != c}
            ok = ok and not other
            rep.ob(R_COMP, not other, f.qual, fwhere(self.prog, f), "a block changes more of the object than the chaining state", self.name, path)
        rep.count("compression functions", 1)
        return ok

    def model(self, E, st, fr, i, args, fn):
        """the compression function: its block is recorded, the state is a new one"""
        n = st.g.get(("#n",), 0)
        ptr = args[1]
        if not is_ptr(args[0]) or args[0] != P(OBJ, 0) or not is_ptr(ptr):
            raise AnalysisError("%s: compression of an unknown block" % self.cls)
        # the state that goes in must be the one that came out last
        for j in range(self.words):
            x = E.load(st, P(OBJ, self.so + 4 * j), 4, "i32")
            if x != self.chain(n, j):
                st.g[("#bad",)] = "the chaining state is changed between blocks"
        blk = []
        for k in range(64):
            t = ptr[2] if isinstance(ptr[2], int) else E.const_of(st, ptr[2])
            if t is None:
                raise AnalysisError("%s: block at an unknown place" % self.cls)
            blk.append(E.load(st, P(ptr[1], t + k), 1, "i8"))
        st.g[("#blk", n)] = tuple(blk)
        st.g[("#n",)] = n + 1
        for j in range(self.words):
            E.store(st, P(OBJ, self.so + 4 * j), 4, self.chain(n + 1, j))
        self.blocks += 1
        if self.limit and n >= self.limit:
            raise Stop
        return [("ret", None, st)]

    def chain(self, n, j):
        return S(("H", n, j), 32) if n else self.IV0[j]

    # ---------------------------------------------------------------- whole messages
    def message(self, parts, q, fadd=None):
        """update with each part, then finalize; q: a symbolic number of earlier blocks"""
        E, V, F, rep = self.E, self.E.V, self.F, self.rep
        total = sum(parts)
        st = self.start.copy()
        rg = st.wregion(OBJ)
        self.IV0 = self.IV
        Q = 0
        if q:
            self.IV0 = tuple(S(("h", k), 32) for k in range(self.words))
            for k in range(self.words):
                rg.cells[self.so + 4 * k] = (4, self.IV0[k])
            Q = S(("q",), 64)
            st.cons[Q] = ((1, MAXQ),)
            qw = V.mul(V.word(Q, 64), V.const(64, 64))
            rg.cells[self.zo] = (8, V.term(qw))
        b = st.wregion(IN)
        for k in range(total):
            b.cells[k] = (1, S(("m", k), 8))
        at = 0
        s = st
        self.blocks = 0
        fadd = fadd or self.fadd
        what = "%s of %s%s bytes" % (self.name, "64*q + " if q else "", " + ".join(str(x) for x in parts))
        for n in parts:
            s = self.single(fadd, [P(OBJ, 0), P(IN, at), n], s)
            if s is None:
                rep.ob(R_PAD, False, fadd.qual, fwhere(self.prog, fadd), "an update has no single normal outcome (%s)" % what, self.name)
                return
            at += n
        s.wregion(RES)
        s = self.single(self.ffin, [P(OBJ, 0), P(RES, 0)], s)
        f = self.ffin
        if s is None:
            rep.ob(R_PAD, False, f.qual, fwhere(self.prog, f), "finalize has no single normal outcome (%s)" % what, self.name)
            return
        path = fw.path_of(self.prog, s)
        msg = [V.word(S(("m", k), 8), 8) for k in range(total)] + [V.const(0x80, 8)]
        while len(msg) % 64 != 56:
            msg.append(V.const(0, 8))
        size = V.const(8 * total, 64)
        if q:
            size = V.add(size, V.mul(V.word(Q, 64), V.const(512, 64)))
        ln = [size[8 * k:8 * k + 8] for k in range(8)]
        msg += ln[::-1] if self.big else ln
        out = None
        if self.cut:
            n = s.g.get(("#n",), 0)
            rep.ob(R_PAD, n == len(msg) // 64 and ("#bad",) not in s.g, f.qual, fwhere(self.prog, f), "%d blocks for %s (%s)" % (n, what, s.g.get(("#bad",), "wrong number")), self.name, path)
            for k in range(min(n, len(msg) // 64)):
                blk = s.g[("#blk", k)]
                bad = [j for j in range(64) if V.word(blk[j], 8) != msg[64 * k + j]]
                rep.ob(R_PAD, not bad, f.qual, fwhere(self.prog, f), "byte %d of block %d of %s is wrong" % (bad[0] if bad else 0, k, what), self.name, path)
            out = [V.word(self.chain(n, j), 32) for j in range(self.words)]
        else:
            H = [V.word(x, 32) for x in self.IV0]
            for k in range(len(msg) // 64):
                H = self.block(F, H, msg[64 * k:64 * k + 64])
            out = H
        for j in range(4 * self.words):
            g = E.load(s, P(RES, j), 1, "i8")
            b = 3 - j % 4 if self.big else j % 4
            rep.ob(R_OUT, V.word(g, 8) == out[j // 4][8 * b:8 * b + 8], f.qual, fwhere(self.prog, f), "byte %d of the digest is wrong (%s)" % (j, what), self.name, path)
        rg = s.mem.get(RES)
        extra = [o for o in rg.cells if not (isinstance(o, int) and 0 <= o < 4 * self.words)] if rg else []
        rep.ob(R_OUT, not extra, f.qual, fwhere(self.prog, f), "finalize writes outside the digest", self.name, path)
        rep.count("messages", 1)

    def long(self, n, lead):
        """an update of n bytes may not end before it has used them"""
        E = self.E
        st = self.start.copy()
        self.IV0 = self.IV
        self.blocks, self.limit = 0, 150
        st.wregion(IN)
        s = st
        if lead:
            s = self.single(self.fadd, [P(OBJ, 0), P(IN, 0), lead], s)
        early = True
        try:
            res = E.run(self.fadd, [P(OBJ, 0), P(IN, lead), n], s.copy())
        except Stop:
            early = False
        self.limit = 0
        self.rep.ob(R_LEN, not early, self.fadd.qual, fwhere(self.prog, self.fadd), "an update with %d bytes ends after %d blocks" % (n, self.blocks), self.name)

    def run(self, deep):
        E = self.E
        self.limit = 0
        self.cut = False
        iv = self.so is not None
        if self.fpb is not None and iv:
            if self.compress():
                self.cut = True
                E.models[self.fpb.name] = self.model
                E.model_cache.clear()
            else:
                return          # reported; what follows would only repeat it
        if self.cut:
            idx = range(64) if deep else sorted({0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 47, 48, 63} | set(range(50, 64)))
            for i in idx:
                more = {0, 1, 55 - i, 56 - i, 57 - i, 63 - i, 64 - i, 65 - i, 119 - i, 120 - i, 121 - i, 127 - i, 128 - i, 129 - i, 192 - i, 200}
                for n in sorted(x for x in more if x >= 0):
                    if self.zo is not None:
                        self.message((i, n), True)
                    if self.zo is None or i in (0, 1, 56, 63):
                        self.message((i, n), False)
            for parts in ((), (0,), (1, 1, 1), (40, 30, 60), (64, 64), (3, 61, 0, 5), (63, 1, 63, 1)):
                self.message(parts, self.zo is not None)
            for g in self.prog.by_qual.get(self.cls + "::add", []):
                if g.bb and len(g.args) == 3 and g is not self.fadd:
                    self.message((5, 130), self.zo is not None, g)
            for n in ((1 << 32) + 5, (1 << 31) + 64, 1 << 33, 1 << 16, 20000):
                for lead in (0, 9):
                    self.long(n, lead)
        else:
            for parts in ((), (3,), (55,), (20, 36), (63, 1), (64,), (60, 60), (1, 130)):
                self.message(parts, False)


# ------------------------------------------------------------------ checksums

def crc(prog, rep, q, poly, deep):
    fs = [f for f in prog.by_qual.get(q, []) if f.bb and len(f.args) == 3]
    if len(fs) != 1:
        raise AnalysisError("anchor not found: function %s (%d)" % (q, len(fs)))
    f = fs[0]
    E = engine(prog)
    V = E.V
    F = Spec(V)
    for n in list(range(0, 20 if deep else 13)) + [32, 65]:
        st = State()
        b = st.wregion(IN)
        for k in range(n):
            b.cells[k] = (1, S(("m", k), 8))
        c0 = S(("crc",), 32)
        res = E.run(f, [c0, P(IN, 0), n], st)
        rep.engine(E, res)
        w = F.n(V.word(c0, 32))
        for k in range(n):
            w = F.x(w, V.word(S(("m", k), 8), 8) + (ZERO,) * 24)
            for j in range(8):
                low = w[0]
                w = w[1:] + (ZERO,)
                w = tuple(x ^ V.bmul(low, ONE if poly >> t & 1 else ZERO) for t, x in enumerate(w))
        w = F.n(w)
        for k, v, s in res:
            rep.ob(R_CRC, k == "ret" and V.word(v, 32) == w, f.qual, fwhere(prog, f), "checksum of %d bytes is not the specified remainder" % n, q, fw.path_of(prog, s))
        rep.ob(R_CRC, bool(res), f.qual, fwhere(prog, f), "no outcome", q)
        rep.count("checksums", 1)
    for n in ((1 << 32) + 1, (1 << 16) + 2, 300):
        seen = set()

        def hook(E, st, fr, i, ptr, size, is_store, value):
            if is_ptr(ptr) and ptr[1] == IN and isinstance(ptr[2], int):
                seen.update(range(ptr[2], ptr[2] + size))
                if len(seen) >= 290:
                    raise Stop
        E.mem_hook = hook
        E.V.binop = lambda op, a, b: E.V.atom(("cut", op), len(a)) if len(a) == 32 and len(seen) > 2 and op == "xor" else E.V._binop(op, a, b)
        early = True
        try:
            st = State()
            st.wregion(IN)
            E.run(f, [7, P(IN, 0), n], st)
        except Stop:
            early = False
        E.mem_hook = None
        rep.ob(R_LEN, not early, f.qual, fwhere(prog, f), "the checksum of %d bytes is returned after %d" % (n, len(seen)), q)


# ------------------------------------------------------------------ generator

MUL = 6364136223846793005


def rnd(prog, rep, deep):
    """the generator: one step for every state (split by the rotation), construction, and what is made of the outputs"""
    cs = [f for f in prog.find("crab::Random::Random") if f.bb and len(f.args) == 2 and "long" in f.dm]
    by = [f for f in prog.by_qual.get("crab::Random::bytes", []) if f.bb and "unsigned char*" in f.dm]
    st1 = [f for f in prog.by_qual.get("crab::Random::pcg32_random_r", []) if f.bb and len(f.args) == 1]
    if not cs or len(by) != 1:
        raise AnalysisError("anchor not found: crab::Random")
    E = engine(prog)
    V = E.V
    F = Spec(V)

    def advance(state, inc):
        return V.add(V.mul(state, V.const(MUL, 64)), inc)

    def out(state, r):
        x = V.shift("lshr", F.x(V.shift("lshr", state, 18), state), 27)[:32]
        return x[r:] + x[:r]
    seed = S(("seed",), 64)
    res = E.run(cs[0], [P(OBJ, 0), seed], State())
    rep.engine(E, res)
    inc0 = F.o(V.shift("shl", V.word(seed, 64), 1), V.const(1, 64))
    state0 = advance(advance(V.const(0, 64), inc0), inc0)
    f = cs[0]
    where = None
    for k, v, s in res:
        offs = {}
        for nm, w in (("state", state0), ("inc", inc0)):
            offs[nm] = [o for o, (sz, t) in (s.mem[OBJ].cells if OBJ in s.mem else {}).items() if isinstance(o, int) and sz == 8 and not is_ptr(t) and V.word(t, 64) == w]
        ok = k == "ret" and all(len(x) == 1 for x in offs.values())
        rep.ob(R_RND, ok, f.qual, fwhere(prog, f), "the generator does not start from the state specified for its seed", "seed", fw.path_of(prog, s))
        if ok:
            where = offs["state"][0], offs["inc"][0]
            base = s
    rep.ob(R_RND, bool(res), f.qual, fwhere(prog, f), "no outcome", "seed")
    if where is None:
        return
    so, io = where
    # one step, from every state
    g = st1[0] if st1 else by[0]
    for r in range(32):
        st = base.copy()
        low = S(("st",), 64)
        state = V.word(low, 64)[:59] + V.const(r, 5)
        inc = S(("inc",), 64)
        E.store(st, P(OBJ, so), 8, V.term(state))
        E.store(st, P(OBJ, io), 8, inc)
        st.wregion(IN2)
        res = E.run(g, [P(OBJ, 0)] if st1 else [P(OBJ, 0), P(IN2, 0), 4], st)
        rep.engine(E, res)
        want = out(state, r)
        for k, v, s in res:
            path = fw.path_of(prog, s)
            if k == "ret":
                got = V.word(v, 32) if st1 else tuple(b for t in range(4) for b in V.word(E.load(s, P(IN2, t), 1, "i8"), 8))
            ok = k == "ret"
            rep.ob(R_RND, ok and got == want, g.qual, fwhere(prog, g), "the output of a step with rotation %d is not the specified one" % r, "step", path)
            rep.ob(R_RND, ok and V.word(E.load(s, P(OBJ, so), 8, "i64"), 64) == advance(state, V.word(inc, 64)), g.qual, fwhere(prog, g), "a step does not advance the state as specified", "step", path)
            rep.ob(R_RND, ok and E.load(s, P(OBJ, io), 8, "i64") == inc, g.qual, fwhere(prog, g), "a step changes the increment", "step", path)
        rep.ob(R_RND, bool(res), g.qual, fwhere(prog, g), "no outcome", "step")
        rep.count("steps", 1)
    if not st1:
        return

    # the outputs from here on: numbered
    def model(E, st, fr, i, args, fn):
        n = st.g.get(("#n",), 0)
        st.g[("#n",)] = n + 1
        return [("ret", S(("r", n), 32), st)]
    E.models[st1[0].name] = model
    E.model_cache.clear()
    more = [f for f in prog.by_qual.get("crab::Random::bytes", []) if f.bb and len(f.args) == 3 and f is not by[0]]
    for parts in [(n,) for n in range(0, 18 if deep else 10)] + [(64,), (1, 4), (3, 5), (4, 4), None]:
        f = by[0]
        if parts is None:
            if not more:
                continue
            f, parts = more[0], (7,)
        s = base.copy()
        at = nth = 0
        for n in parts:
            s.wregion(IN2)
            r = E.run(f, [P(OBJ, 0), P(IN2, at), n], s.copy())
            rep.engine(E, r)
            if len(r) != 1 or r[0][0] != "ret":
                rep.ob(R_RND, False, f.qual, fwhere(prog, f), "no single normal outcome for %d bytes" % n, "bytes")
                break
            s = r[0][2]
            path = fw.path_of(prog, s)
            for t in range(n):
                got = V.word(E.load(s, P(IN2, at + t), 1, "i8"), 8)
                want = V.word(S(("r", nth + t // 4), 32), 32)[8 * (t % 4):8 * (t % 4) + 8]
                rep.ob(R_RND, got == want, f.qual, fwhere(prog, f), "byte %d of %s is not the specified one" % (t, parts), "bytes", path)
            nth += (n + 3) // 4
            rep.ob(R_RND, s.g.get(("#n",), 0) == nth, f.qual, fwhere(prog, f), "%d bytes take %s steps" % (n, s.g.get(("#n",), 0)), "bytes", path)
            extra = [o for o in s.mem[IN2].cells if not (isinstance(o, int) and 0 <= o < at + n)]
            rep.ob(R_RND, not extra, f.qual, fwhere(prog, f), "bytes outside the %d asked for are written" % n, "bytes", path)
            at += n
        rep.count("sequences", 1)
    for f in prog.by_qual.get("crab::Random::data", []):
        for n in (0, 1, 5) if f.bb and len(f.args) == 3 else ():
            res = E.run(f, [P(RES, 0), P(OBJ, 0), n], base.copy())
            rep.engine(E, res)
            for k, v, s in res:
                path = fw.path_of(prog, s)
                v = std_models.getcell(E, s, P(RES, 0), "vec", 24) if k == "ret" else None
                size = (v[1] if isinstance(v[1], int) else E.const_of(s, v[1])) if v else None
                rep.ob(R_RND, size == n, f.qual, fwhere(prog, f), "%s bytes made where %d were asked for" % (size, n), "data", path)
                if size == n:
                    for t in range(n):
                        g = E.load(s, P(("vd", v[2]), t), 1, "i8")
                        rep.ob(R_RND, V.word(g, 8) == V.word(S(("r", t // 4), 32), 32)[8 * (t % 4):8 * (t % 4) + 8], f.qual, fwhere(prog, f), "byte %d of %d is not the specified one" % (t, n), "data", path)
            rep.ob(R_RND, bool(res), f.qual, fwhere(prog, f), "no outcome", "data")


def C35(prog, rep):
    deep = rep.tier == "thorough"
    Hash(prog, rep, "crab::sha1", 5, sha1_block, True).run(deep)
    Hash(prog, rep, "crab::md5", 4, md5_block, False).run(deep)
    crc(prog, rep, "crab::crc32", 0xEDB88320, deep)
    crc(prog, rep, "crab::crc32c", 0x82F63B78, deep)
    rnd(prog, rep, deep)
    rep.need(R_COMP, 0)
    rep.need(R_PAD, 12)
    rep.need(R_OUT, 100)
    rep.need(R_CRC, 10)
    rep.need(R_RND, 10)
    rep.need(R_LEN, 4)
