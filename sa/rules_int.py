"""C28: integer conversions are exact or throw.

Every instantiation is interpreted with symbolic inputs.  A path's branch facts become integer inequalities over the unsigned/signed values of
the inputs; a conversion path that returns must return the mathematically equal value and one that throws must be on inputs without an equal
value.  Exactness (no wrap) of each arithmetic term is proved from intervals and one path inequality at a time, never assumed."""
import itertools
from absint import State, P, S, mask, sgn, width, leaves, iset_norm, iset_and, lin_make, add
from model import AnalysisError, program
import objects
import fw

R_CAST = "an integer cast returns the equal value or throws"
R_STR = "a number text is accepted by the grammar or refused"
R_VAL = "a parsed value is the digits' value and never wraps"
R_OVER = "checked addition and subtraction"
TYPES = [("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False), ("int", 32, True),
         ("unsigned int", 32, False), ("long", 64, True), ("unsigned long", 64, False)]
INF = 1 << 200


def lim(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def fwhere(prog, f):
    return "%s:%s" % (f.file, f.line)


class Math:
    """integer meaning of terms on one path.  Variables are the leaves, with a declared signedness (unsigned unless listed)."""

    def __init__(self, E, st, signed=()):
        self.E, self.st, self.signed = E, st, signed
        self.memo = {}
        self.bd = {}
        self._round_trips()
        self.ineq = []           # (const, {leaf: coef}) <= 0
        self._facts()

    def bounds(self, leaf):
        r = self.bd.get(leaf, 0)
        if r == 0:
            r = self.bd[leaf] = self._bounds(leaf)
        return r

    def _bounds(self, leaf):
        w = leaf[2]
        rs = self.E.ranges(self.st, leaf)
        if not rs:
            return None
        if leaf in self.signed:
            v = [x for lo, hi in rs for x in ([lo, hi] if (lo >> (w - 1)) == (hi >> (w - 1)) else [lo, hi, (1 << (w - 1)) - 1, 1 << (w - 1)])]
            v = [sgn(x, w) for x in v]
            return min(v), max(v)
        return rs[0][0], rs[-1][1]

    def ival(self, e):
        lo = hi = e[0]
        for k, c in e[1].items():
            b = self.bounds(k)
            if b is None:
                return 0, 0
            lo += min(c * b[0], c * b[1])
            hi += max(c * b[0], c * b[1])
        return lo, hi

    @staticmethod
    def comb(a, b, m=1):
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + m * v
        return (a[0] + m * b[0], {k: v for k, v in d.items() if v})

    def upper(self, e):
        """an upper bound of e: intervals, or one path inequality L <= 0 scaled (e <= e - s*L for s > 0) plus intervals"""
        best = self.ival(e)[1]
        for L in self.ineq:
            if len(L[1]) == 0 or not all(k in e[1] for k in L[1]):
                continue
            k = next(iter(L[1]))
            for s in (e[1][k] // L[1][k],):
                if s > 0 and e[1][k] % L[1][k] == 0:
                    best = min(best, self.ival(self.comb(e, L, -s))[1])
        return best

    def lower(self, e):
        return -self.upper((-e[0], {k: -v for k, v in e[1].items()}))

    def within(self, e, lo, hi):
        return self.upper(e) <= hi and self.lower(e) >= lo

    def _round_trips(self):
        """x == extended(truncated(x)) says exactly that x fits the narrow type"""
        facts = [(p, a, b) for p, a, b in self.st.facts if p in ("eq", "ne")]
        facts += [("eq" if (c[1] == "eq") == (rs == ((1, 1),)) else "ne", c[2], c[3]) for c, rs in self.st.cons.items()
                  if c[0] == "cmp" and c[1] in ("eq", "ne") and rs in (((0, 0),), ((1, 1),))]
        for p, a, b in facts:
            for u, v in ((a, b), (b, a)):
                if isinstance(u, int) or isinstance(v, int) or u[0] not in ("sx", "zx") or not isinstance(u[1], tuple) or u[1][0] != "tr":
                    continue
                x = v[1] if v[0] in ("sx", "zx") else v
                if u[1][1] != x or x[0] != "s":
                    continue
                k, w, sw = width(u[1]), width(u), x[2]
                lo, hi = lim(k, u[0] == "sx")
                if v[0] == "zx" and w > sw or v[0] == "zx" and lo == 0:
                    lo = max(lo, 0)
                if v[0] == "sx":
                    hi = min(hi, (1 << (sw - 1)) - 1)
                iv = iset_norm([(lo & mask(sw), mask(sw)), (0, hi)] if lo < 0 else [(lo, min(hi, mask(sw)))])
                if p == "ne":
                    out, at = [], 0
                    for l, h in iv:
                        if l > at:
                            out.append((at, l - 1))
                        at = h + 1
                    if at <= mask(sw):
                        out.append((at, mask(sw)))
                    iv = tuple(out)
                self.st = self.st.copy()
                self.st.cons[x] = iset_and(self.E.ranges(self.st, x), iv)

    def infeasible(self):
        """the path's facts contradict the intervals: no input takes this path"""
        return any(self.lower(L) > 0 for L in self.ineq)

    def val(self, t, s):
        """(const, {leaf: coef}) equal to the unsigned (s false) or signed value of t on this path, or None"""
        k = (t, s)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self._val(t, s)
        if r is None:
            self.memo.pop(k)      # later facts may settle it
        else:
            self.memo[k] = r
        return r

    def _val(self, t, s):
        if isinstance(t, int):
            return None           # width unknown
        w = width(t)
        lo, hi = lim(w, s)
        if t[0] == "s":
            e = (0, {t: 1})
            return self.fit(e, w, s)
        if t[0] == "zx":
            return self.fit(self.val(t[1], False), w, s)
        if t[0] == "sx":
            return self.fit(self.val(t[1], True), w, s)
        if t[0] == "tr":
            for q in (s, not s):
                r = self.fit(self.val(t[1], q), w, s)
                if r is not None:
                    return r
            return None
        if t[0] == "lin":
            for q, raw in ((True, False), (False, False), (True, True), (False, True)):
                e = (sgn(t[1], w), {})
                ok = True
                for x, c in t[2]:
                    v = self.val(x, q) or self.val(x, not q)
                    if v is None:
                        ok = False
                        break
                    e = self.comb(e, v, c if raw else sgn(c, w))
                if ok:
                    r = self.fit(e, w, s)
                    if r is not None:
                        return r
        return None

    def fit(self, e, w, s):
        """e is congruent to the value modulo 2^w: the value itself, if e plus a multiple of 2^w provably lies in the range"""
        if e is None:
            return None
        lo, hi = lim(w, s)
        u, l = self.upper(e), self.lower(e)
        for k in {-((l - lo) >> w), (hi - u) >> w}:
            x = (e[0] + (k << w), e[1])
            if self.within(x, lo, hi):
                return x
        return None

    def konst(self, v, w, s):
        v &= mask(w)
        return (sgn(v, w) if s else v, {})

    def _facts(self):
        todo = []
        for t, rs in self.st.cons.items():
            if t[0] not in ("s", "cmp", "and", "or", "not") and all(isinstance(x, tuple) and x[0] == "s" for x in leaves(t)):
                todo.append(("r", t, rs))
        for p, a, b in self.st.facts:
            todo.append(("f", p, a, b))
        for c, rs in self.st.cons.items():
            if c[0] == "cmp" and rs in (((0, 0),), ((1, 1),)):
                todo.append(("f", c[1] if rs[0][0] else {"eq": "ne", "ne": "eq"}.get(c[1], None), c[2], c[3]))
        for _ in range(4):
            left = []
            for x in todo:
                if not self._fact(x):
                    left.append(x)
            if len(left) == len(todo):
                break
            todo = left

    def _fact(self, x):
        if x[0] == "r":
            t, rs = x[1], x[2]
            w = width(t)
            done = False
            for s in (True, False):
                e = self.val(t, s)
                if e is None:
                    continue
                vals = [v for lo, hi in rs for v in ([lo, hi] if (lo >> (w - 1)) == (hi >> (w - 1)) else [lo, hi, (1 << (w - 1)) - 1, 1 << (w - 1)])]
                vals = [sgn(v, w) if s else v for v in vals]
                self.ineq.append((e[0] - max(vals), dict(e[1])))
                self.ineq.append((min(vals) - e[0], {k: -v for k, v in e[1].items()}))
                done = True
            return done
        _, p, a, b = x
        if p is None or p == "ne":
            return True
        w = width(a) if not isinstance(a, int) else width(b)
        done = False
        for s in ((True,) if p[0] == "s" else (False,) if p[0] == "u" else (True, False)):
            va = self.konst(a, w, s) if isinstance(a, int) else self.val(a, s)
            vb = self.konst(b, w, s) if isinstance(b, int) else self.val(b, s)
            if va is None or vb is None:
                continue
            done = True
            d = self.comb(va, vb, -1)          # a - b
            n = (-d[0], {k: -v for k, v in d[1].items()})
            if p == "eq" or p[1:] in ("lt", "le"):
                self.ineq.append((d[0] + (1 if p[1:] == "lt" else 0), d[1]))
            if p == "eq" or p[1:] in ("gt", "ge"):
                self.ineq.append((n[0] + (1 if p[1:] == "gt" else 0), n[1]))
        return done


def is_std_exc(E, v):
    return getattr(v, "tname", None) is not None and E.is_a(v.tname, "std::exception")


def engine(prog):
    E = objects.engine(prog, http=False)
    E.exit_limit = 4000
    E.loop_limit = 4000
    E.unroll = 64          # texts are short: loops over them are followed to the end
    return E


def fns(prog, name):
    return [f for f in prog.find(name) if f.bb]


def exact(M, v, want, w, s):
    """the returned term equals the wanted integer expression"""
    if isinstance(v, int):
        e = M.konst(v, w, s)
    else:
        e = M.val(v, s)
    if e is None:
        return False
    d = M.comb(e, want, -1)
    if not d[1] and d[0] == 0:
        return True
    return M.upper(d) == 0 == M.lower(d)


# ------------------------------------------------------------------ casts

def casts(prog, rep):
    E = engine(prog)
    for tn, tw, ts in TYPES:
        for sn, sw, ss in TYPES:
            fs = fns(prog, "crab::integer_cast<%s, %s>" % (tn, sn))
            if len(fs) != 1:
                raise AnalysisError("integer_cast<%s, %s> not found" % (tn, sn))
            f = fs[0]
            st = State()
            A = P(("*", ("arg",)), 0)
            E.apart = {A[1]}
            x = S(("x",), sw)
            st.wregion(A[1]).cells[0] = (sw // 8, x)
            tlo, thi = lim(tw, ts)
            slo, shi = lim(sw, ss)
            res = E.run(f, [A], st)
            rep.engine(E, res)
            seen = []
            for k, v, s in res:
                M = Math(E, s, {x} if ss else ())
                xv = (0, {x: 1})
                rs = E.ranges(M.st, x)
                seen += list(rs)
                if k == "ret":
                    ok = M.within(xv, tlo, thi) and exact(M, v, xv, tw, ts)
                    rep.ob(R_CAST, ok, f.qual, fwhere(prog, f), "a value that does not fit, or a different value, can be returned", "ret", fw.path_of(prog, s))
                else:
                    ints = ranges_s(rs, sw) if ss else rs
                    ok = k == "exc" and is_std_exc(E, v) and all(h < tlo or l > thi for l, h in ints)
                    rep.ob(R_CAST, ok, f.qual, fwhere(prog, f), "a value that fits is refused", "exc", fw.path_of(prog, s))
            rep.ob(R_CAST, iset_norm(seen) == ((0, mask(sw)),), f.qual, fwhere(prog, f), "some values have no outcome", "total")


def ranges_s(rs, w):
    out = []
    h = 1 << (w - 1)
    for lo, hi in rs:
        if lo < h:
            out.append((lo, min(hi, h - 1)))
        if hi >= h:
            out.append((max(lo, h) - (1 << w), hi - (1 << w)))
    return out


# ------------------------------------------------------------------ text

SP = ((9, 13), (32, 32))
CLS = [("sp", SP), ("-", ((45, 45),)), ("+", ((43, 43),)), ("0", ((48, 48),)), ("d", ((49, 57),)),
       ("x", ((0, 8), (14, 31), (33, 42), (44, 44), (46, 47), (58, 255)))]


def grammar(cs, signed):
    """(valid, negative, (first, last) of the digits) for a sequence of class names"""
    i, n = 0, len(cs)
    while i < n and cs[i] == "sp":
        i += 1
    neg = False
    if i < n and cs[i] in "+-":
        neg = cs[i] == "-"
        if neg and not signed:
            return None
        i += 1
    a = i
    while i < n and cs[i] in ("0", "d", "D"):
        i += 1
    b = i
    if a == b or (cs[a] == "0" and b - a > 1):
        return None
    while i < n and cs[i] == "sp":
        i += 1
    return (neg, a, b) if i == n else None


def digits(bs, neg):
    e = (0, {})
    for x in bs:
        e = (e[0] * 10, {k: 10 * v for k, v in e[1].items()})
        if neg:
            e = (e[0] + 48, {**e[1], x: -1})
        else:
            e = (e[0] - 48, {**e[1], x: 1})
    return e


class Text:
    def __init__(self, prog, rep, tn, tw, ts, string=False):
        self.prog, self.rep, self.tn, self.tw, self.ts = prog, rep, tn, tw, ts
        self.string = string
        self.E = engine(prog)
        name = "crab::integer_cast<%s>" % tn
        if string:
            fs = [f for q, l in prog.by_qual.items() if q.startswith("crab::integer_cast<%s, std::" % tn) and "basic_string<" in q for f in l if f.bb and len(f.args) == 1]
        else:
            fs = [f for f in fns(prog, name) if len(f.args) == 2]
        if len(fs) != 1:
            raise AnalysisError("%s from text not found" % name)
        self.f = fs[0]

    def run(self, n, cons):
        import std_models as sm
        E = self.E
        st = State()
        self.b = [S(("b", k), 8) for k in range(n)]
        for x, c in zip(self.b, cons):
            st.cons[x] = c
        A = P(("*", ("text",)), 0)
        E.apart = {A[1]}
        if self.string:
            sm.ps(E, st, A, n, sm.cat(("cat", tuple(("b", x) for x in self.b))) if n else ("k", b""))
            res = E.run(self.f, [A], st)
        else:
            rg = st.wregion(A[1])
            for k, x in enumerate(self.b):
                rg.cells[k] = (1, x)
            res = E.run(self.f, [A, n], st)
        self.rep.engine(E, res)
        for k, v, s in res:
            self.outcome(k, v, s)

    def combos(self, s):
        """class sequences a path stands for"""
        opts = []
        for x in self.b:
            rs = self.E.ranges(s, x)
            o = [c for c, r in CLS if iset_and(rs, r)]
            if "0" in o and "d" in o and opts and all(c in ("0", "d", "D") for c in opts[-1]):
                o = ["D"] + [c for c in o if c not in ("0", "d")]     # any digit after a digit
            opts.append(o)
        return itertools.product(*opts)

    def outcome(self, k, v, s):
        E, rep, f, prog = self.E, self.rep, self.f, self.prog
        lo, hi = lim(self.tw, self.ts)
        for cs in self.combos(s):
            g = grammar(cs, self.ts)
            if k == "ret":
                ok = g is not None
                rep.ob(R_STR, ok, f.qual, fwhere(prog, f), "text of the form %s is accepted" % " ".join(cs), "accepts", fw.path_of(prog, s))
                if not ok:
                    return
                s2 = self.narrow(s, cs)
                M = Math(E, s2)
                if M.infeasible():
                    rep.count("contradictory_paths")
                    continue
                e = digits(self.b[g[1]:g[2]], g[0])
                ok = M.within(e, lo, hi) and exact(M, v, e, self.tw, self.ts)
                rep.ob(R_VAL, ok, f.qual, fwhere(prog, f), "the value of %d digits%s can be wrong or wrap" % (g[2] - g[1], " after a minus" if g[0] else ""),
                       "value%s" % ("-" if g[0] else ""), fw.path_of(prog, s))
                if not ok:
                    return
            else:
                if not (k == "exc" and is_std_exc(E, v)):
                    rep.ob(R_STR, False, f.qual, fwhere(prog, f), "text of the form %s ends in %s" % (" ".join(cs), k), "throws")
                    return
                if g is None:
                    rep.ob(R_STR, True)
                    continue
                s2 = self.narrow(s, cs)
                M = Math(E, s2)
                ok = False
                for j in range(g[1] + 1, g[2] + 1):
                    e = digits(self.b[g[1]:j], g[0])
                    if (M.upper(e) < lo) if g[0] else (M.lower(e) > hi):
                        ok = True
                        break
                rep.ob(R_VAL, ok, f.qual, fwhere(prog, f), "a valid text of %d digits%s that fits is refused" % (g[2] - g[1], " after a minus" if g[0] else ""),
                       "refuses%s" % ("-" if g[0] else ""), fw.path_of(prog, s))
                if not ok:
                    return

    def narrow(self, s, cs):
        s2 = s.copy()
        cl = dict(CLS, D=((48, 57),))
        for x, c in zip(self.b, cs):
            r = iset_and(self.E.ranges(s2, x), cl[c])
            if r:
                s2.cons[x] = r
        return s2


def texts(prog, rep):
    full = ((0, 255),)
    deep = rep.tier == "thorough"
    for tn, tw, ts in TYPES:
        lo, hi = lim(tw, ts)
        md = len(str(hi))
        t = Text(prog, rep, tn, tw, ts)
        for n in range(0, 6 if deep else 5):
            t.run(n, [full] * n)
        D1, D = ((49, 57),), ((48, 57),)
        for m in range(2, md + (4 if deep else 2)):
            for sign in ((), (((43, 43),),), (((45, 45),),)):
                for tail in ((), (full,), (SP, full)):
                    if not deep and (len(tail) > 1 or tail and m not in (2, md - 1, md)):
                        continue
                    t.run(len(sign) + m + len(tail), list(sign) + [D1] + [D] * (m - 1) + list(tail))
        t = Text(prog, rep, tn, tw, ts, True)
        for n in range(0, 4 if deep else 3):
            t.run(n, [full] * n)
        for m in (2, md, md + 1):
            t.run(m, [D1] + [D] * (m - 1))


# ------------------------------------------------------------------ checked addition

def checked(prog, rep):
    E = engine(prog)
    for tn, tw, ts in TYPES:
        lo, hi = lim(tw, ts)
        for op in ("add", "sub"):
            for opt in (False, True):
                fs = fns(prog, "crab::safe_%s%s<%s>" % (op, "_opt" if opt else "", tn))
                if len(fs) != 1:
                    raise AnalysisError("safe_%s<%s> not found" % (op, tn))
                f = fs[0]
                a, b = S(("a",), tw), S(("b",), tw)
                st = State()
                args = [a, b]
                R = P(("*", ("res",)), 0)
                if opt:
                    ty = prog.type("crab::optional<%s>" % tn)
                    mem = {n: (o, s) for n, o, s, t in prog.members(ty)}
                    if "valid" not in mem or "impl" not in mem:
                        raise AnalysisError("members of optional")
                    E.apart = {R[1]}
                    args = [R, a, b]
                elif len(f.args) != 2:
                    raise AnalysisError("arguments of %s" % f.qual)
                res = E.run(f, args, st)
                rep.engine(E, res)
                for k, v, s in res:
                    M = Math(E, s, {a, b} if ts else ())
                    e = (0, {a: 1, b: 1 if op == "add" else -1})
                    have = k == "ret"
                    if opt and have:
                        fl = E.const_of(s, E.load(s, P(R[1], mem["valid"][0]), 1, "i8"))
                        if fl is None:
                            rep.ob(R_OVER, False, f.qual, fwhere(prog, f), "whether there is a value is not determined", "valid")
                            continue
                        have = bool(fl)
                        v = E.load(s, P(R[1], mem["impl"][0]), tw // 8, "i%d" % tw) if have else None
                    if have:
                        ok = M.within(e, lo, hi) and exact(M, v, e, tw, ts)
                        rep.ob(R_OVER, ok, f.qual, fwhere(prog, f), "a result that does not fit, or a wrong one, can be returned", "ret", fw.path_of(prog, s))
                    else:
                        ok = (k == "ret" if opt else k == "exc" and is_std_exc(E, v)) and (M.upper(e) < lo or M.lower(e) > hi)
                        rep.ob(R_OVER, ok, f.qual, fwhere(prog, f), "a result that fits is refused", "exc", fw.path_of(prog, s))


def C28(_, rep):
    prog = program("ints")
    casts(prog, rep)
    texts(prog, rep)
    checked(prog, rep)
    rep.need(R_CAST, 150)
    rep.need(R_STR, 1000)
    rep.need(R_VAL, 1000)
    rep.need(R_OVER, 64)
