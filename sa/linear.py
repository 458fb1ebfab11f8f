"""Linear integer reasoning over path facts (Fourier-Motzkin over the rationals).  Terms are read as integers only where they provably do not wrap."""
from fractions import Fraction
from absint import lin_parts, mask, sgn, width


class Lin:
    """facts of one path; every leaf is an unsigned integer"""

    def __init__(self, E, st, extra=()):
        self.E, self.st = E, st
        self.facts = []          # (const, {leaf: coef}) >= 0
        self.seen = set()
        self.memo = {}
        self.bad = False
        self.gather(extra)

    def copy_with(self, e, kind):
        o = Lin.__new__(Lin)
        o.E, o.st, o.seen, o.memo, o.bad = self.E, self.st, set(self.seen), {}, self.bad
        o.facts = list(self.facts)
        if kind == "eq":
            o.facts += [e, self.minus(e)]
        else:
            o.facts.append(e)
        for x in self.leaves(e):
            o.declare(x)
        return o

    # ------------------------------------------------------------ expressions
    @staticmethod
    def minus(e, m=-1):
        return (e[0] * m, {k: v * m for k, v in e[1].items()})

    @staticmethod
    def comb(a, b, m=1):
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + m * v
        return (a[0] + m * b[0], {k: v for k, v in d.items() if v})

    def ex(self, t, w=64):
        c, d = lin_parts(t, w)
        e = (sgn(c, w), {k: sgn(v & mask(w), w) for k, v in d.items()})
        if isinstance(t, int):
            return (t & mask(w), {})
        for k in e[1]:
            self.declare(k)
        return e

    @staticmethod
    def leaves(e):
        return list(e[1])

    def declare(self, k):
        if k in self.seen:
            return
        self.seen.add(k)
        r = self.E.ranges(self.st, k)
        if not r:
            self.bad = True
            return
        self.facts.append((-r[0][0], {k: 1}))
        self.facts.append((r[-1][1], {k: -1}))

    # ------------------------------------------------------------ facts
    def gather(self, extra):
        todo = list(extra)
        for p, a, b in self.st.facts:
            todo.append((p, a, b))
        inv = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
        for c, rs in self.st.cons.items():
            if c[0] == "cmp" and rs in (((0, 0),), ((1, 1),)):
                p = c[1] if rs[0][0] else inv.get(c[1])
                if p:
                    todo.append((p, c[2], c[3]))
            elif c[0] == "lin" and c[3] == 64 and rs:
                todo.append(("uge", c, rs[0][0]))
                todo.append(("ule", c, rs[-1][1]))
                if len(rs) == 2 and rs[0][0] == 0 and rs[1][1] == mask(64) and rs[0][1] + 2 == rs[1][0]:
                    todo.append(("ne", c, rs[0][1] + 1))
        for _ in range(6):
            left = [x for x in todo if not self.fact(x)]
            if len(left) == len(todo):
                break
            todo = left

    def fact(self, x):
        p, a, b = x
        if p is None or p[0] == "s":
            return True
        for t in (a, b):
            if not isinstance(t, int) and width(t) != 64:
                return True
        ea, eb = self.ex(a), self.ex(b)
        ea, eb = self.plain(ea), self.plain(eb)
        if ea is None or eb is None:
            return False
        d = self.comb(eb, ea, -1)       # b - a
        if p == "eq":
            self.facts += [d, self.minus(d)]
        elif p == "ule":
            self.facts.append(d)
        elif p == "ult":
            self.facts.append((d[0] - 1, d[1]))
        elif p == "uge":
            self.facts.append(self.minus(d))
        elif p == "ugt":
            n = self.minus(d)
            self.facts.append((n[0] - 1, n[1]))
        elif p == "ne":
            if self.nonneg(d):
                self.facts.append((d[0] - 1, d[1]))
            elif self.nonneg(self.minus(d)):
                n = self.minus(d)
                self.facts.append((n[0] - 1, n[1]))
            else:
                return False
        self.memo = {}
        return True

    def plain(self, e):
        """the value of the term as an unsigned integer: the expression, or the expression shifted by the word size where it provably wraps"""
        for k in (0, 1 << 64, -(1 << 64)):
            if self.nonneg((e[0] + k, e[1])) and self.nonneg((mask(64) - e[0] - k, {x: -v for x, v in e[1].items()})):
                return (e[0] + k, e[1])
        return None

    # ------------------------------------------------------------ proofs
    def nonneg(self, e):
        """facts imply e >= 0"""
        for k in e[1]:
            self.declare(k)
        if not e[1]:
            return e[0] >= 0 or self.infeasible()
        if e[0] >= 0 and all(v > 0 for v in e[1].values()):
            return True
        k = (e[0], frozenset(e[1].items()))
        if k not in self.memo:
            self.memo[k] = self.empty(self.facts + [(-e[0] - 1, {x: -v for x, v in e[1].items()})], set(e[1]))
        return self.memo[k]

    def infeasible(self):
        if self.bad:
            return True
        if "inf" not in self.memo:
            self.memo["inf"] = self.empty(self.facts, None)
        return self.memo["inf"]

    def zero(self, e):
        return self.nonneg(e) and self.nonneg(self.minus(e))

    def empty(self, facts, seed):
        if seed is not None:
            # only what is connected to the goal
            vs, ch = set(seed), True
            while ch:
                ch = False
                for c, d in facts:
                    if d and not vs.isdisjoint(d) and not vs.issuperset(d):
                        vs |= set(d)
                        ch = True
            facts = [f for f in facts if not f[1] or not vs.isdisjoint(f[1])]
        cur = {}
        for c, d in facts:
            if not self.addf(cur, c, d):
                return True
        while True:
            vs = {}
            for d in cur:
                for k, v in d:
                    p = vs.setdefault(k, [0, 0])
                    p[v < 0] += 1
            if not vs:
                return False
            x = min(vs, key=lambda k: (vs[k][0] * vs[k][1], repr(k)))
            pos, negs, rest = [], [], {}
            for d, c in cur.items():
                v = dict(d).get(x, 0)
                if v > 0:
                    pos.append((c, dict(d), v))
                elif v < 0:
                    negs.append((c, dict(d), -v))
                else:
                    rest[d] = c
            if len(pos) * len(negs) > 4000:
                return False
            cur = rest
            for c1, d1, v1 in pos:
                for c2, d2, v2 in negs:
                    d = {}
                    for k, v in d1.items():
                        d[k] = d.get(k, 0) + v * v2
                    for k, v in d2.items():
                        d[k] = d.get(k, 0) + v * v1
                    d = {k: v for k, v in d.items() if v}
                    if not self.addf(cur, c1 * v2 + c2 * v1, d):
                        return True

    @staticmethod
    def addf(cur, c, d):
        """add c + d >= 0; False when contradictory"""
        if not d:
            return c >= 0
        m = min(abs(v) for v in d.values())
        from math import gcd, floor
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = floor(Fraction(c, g))       # integers
        key = frozenset(d.items())
        key = tuple(sorted(key, key=repr))
        if key not in cur or cur[key] > c:
            cur[key] = c
        return True


class Segs:
    """byte ranges [(root, from, to)] compared under facts"""

    def __init__(self, L):
        self.L = L

    def same(self, a, b, prefix=False, L=None, depth=0):
        """the bytes of a are the bytes of b, in order; prefix: the shorter one begins the longer one"""
        L = L or self.L
        if L.infeasible():
            return True
        if depth > 40:
            return False
        ex = L.ex
        a, b = list(a), list(b)
        for x in (a, b):
            while x:
                r, f, t = x[0]
                d = L.comb(ex(t), ex(f), -1)
                if L.zero(d):
                    x.pop(0)
                    continue
                if L.nonneg((d[0] - 1, d[1])):
                    break
                if not L.nonneg(d):
                    return False
                return self.same(a, b, prefix, L.copy_with(d, "eq"), depth + 1) and self.same(a, b, prefix, L.copy_with((d[0] - 1, d[1]), "ge"), depth + 1)
        if not a or not b:
            return prefix or (not a and not b)
        (r1, f1, t1), (r2, f2, t2) = a[0], b[0]
        if r1 != r2 or not L.zero(L.comb(ex(f1), ex(f2), -1)):
            return False
        d = L.comb(ex(t2), ex(t1), -1)
        if L.zero(d):
            return self.same(a[1:], b[1:], prefix, L, depth + 1)
        if L.nonneg(d):
            return self.same(a[1:], [(r2, t1, t2)] + b[1:], prefix, L, depth + 1)
        if L.nonneg(L.minus(d)):
            return self.same([(r1, t2, t1)] + a[1:], b[1:], prefix, L, depth + 1)
        n = L.minus(d)
        return (self.same(a, b, prefix, L.copy_with(d, "ge"), depth + 1) and self.same(a, b, prefix, L.copy_with((n[0] - 1, n[1]), "ge"), depth + 1))

    def suffix(self, whole, end, L=None, depth=0):
        """end is the end of whole"""
        L = L or self.L
        if L.infeasible():
            return True
        if depth > 40:
            return False
        ex = L.ex
        a, b = list(whole), list(end)
        for x in (a, b):
            while x:
                r, f, t = x[-1]
                d = L.comb(ex(t), ex(f), -1)
                if L.zero(d):
                    x.pop()
                    continue
                if L.nonneg((d[0] - 1, d[1])):
                    break
                if not L.nonneg(d):
                    return False
                return self.suffix(a, b, L.copy_with(d, "eq"), depth + 1) and self.suffix(a, b, L.copy_with((d[0] - 1, d[1]), "ge"), depth + 1)
        if not b:
            return True
        if not a:
            return False
        (r1, f1, t1), (r2, f2, t2) = a[-1], b[-1]
        if r1 != r2 or not L.zero(L.comb(ex(t1), ex(t2), -1)):
            return False
        d = L.comb(ex(f2), ex(f1), -1)       # f2 - f1
        if L.zero(d):
            return self.suffix(a[:-1], b[:-1], L, depth + 1)
        if L.nonneg(d):
            return self.suffix(a[:-1] + [(r1, f1, f2)], b[:-1], L, depth + 1)
        if L.nonneg(L.minus(d)):
            return self.suffix(a[:-1], b[:-1] + [(r2, f2, f1)], L, depth + 1)
        n = L.minus(d)
        return self.suffix(a, b, L.copy_with(d, "ge"), depth + 1) and self.suffix(a, b, L.copy_with((n[0] - 1, n[1]), "ge"), depth + 1)

    def length(self, segs):
        e = (0, {})
        for r, f, t in segs:
            e = self.L.comb(e, self.L.comb(self.L.ex(t), self.L.ex(f), -1))
        return e
