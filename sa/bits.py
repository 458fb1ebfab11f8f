"""Bit provenance: what each bit of a term is, on one path.

A bit is 0, 1, (leaf, truth) - a function of one input byte, given by its value for every byte the path allows - (leaf, k) for wide leaves, or
("t", table, k, index bits) for a lookup with an index made of several inputs."""
import math
from absint import width, mask, leaves, evalt, iset_count, iset_iter


class Bits:
    def __init__(self, E, st):
        self.E, self.st, self.prog = E, st, E.prog
        self.vals = {}
        self.memo = {}

    def values(self, leaf):
        if leaf not in self.vals:
            rs = self.E.ranges(self.st, leaf)
            self.vals[leaf] = tuple(iset_iter(rs)) if iset_count(rs) <= 256 else None
        return self.vals[leaf]

    def fn(self, leaf, f, n):
        """the n bits of f(leaf)"""
        vs = [f(v) for v in self.values(leaf)]
        return [self.bit(leaf, tuple((v >> j) & 1 for v in vs)) for j in range(n)]

    @staticmethod
    def bit(leaf, tv):
        if all(x == 0 for x in tv):
            return 0
        if all(x == 1 for x in tv):
            return 1
        return (leaf, tv)

    def op2(self, op, x, y):
        f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}[op]
        if isinstance(x, int) and isinstance(y, int):
            return f(x, y)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, int):
                if op == "and":
                    return b if a else 0
                if op == "or":
                    return 1 if a else b
                if not a:
                    return b
        if x == y:
            return 0 if op == "xor" else x
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and isinstance(x[1], tuple) and isinstance(y[1], tuple):
            return self.bit(x[0], tuple(f(a, b) for a, b in zip(x[1], y[1])))
        if op == "xor":
            def xs(z):
                return set(z[1]) if isinstance(z, tuple) and z[0] == "^" else {z}
            z = xs(x) ^ xs(y)
            return 0 if not z else next(iter(z)) if len(z) == 1 else ("^", frozenset(z))
        return None

    def sum(self, t, n):
        """constant + a function of each of several bytes, whose bits do not overlap"""
        by = {}
        for x, c in t[2]:
            lv = leaves(x)
            if len(lv) != 1:
                return None
            l, = lv
            if self.values(l) is None:
                return None
            by.setdefault(l, []).append((x, c - (1 << n) if c >> (n - 1) else c))
        k = t[1]
        parts = []
        for l, xs in by.items():
            try:
                vs = [sum(c * evalt(x, {l: v}, self.prog) for x, c in xs) for v in self.values(l)]
            except KeyError:
                return None
            m = min(vs)
            k += m
            parts.append((l, [v - m for v in vs]))
        # the constant belongs to the parts: multiples of a part's step to that part, the rest to the finer ones
        parts.sort(key=lambda p: -math.gcd(*p[1]))
        k &= mask(n)
        for q, (l, vs) in enumerate(parts):
            g = math.gcd(*vs)
            if g == 0:
                continue
            m = k if q == len(parts) - 1 else k - k % g
            k -= m
            vs[:] = [v + m for v in vs]
        acc = [(k >> j) & 1 for j in range(n)]
        for l, vs in parts:
            for j in range(n):
                b = self.bit(l, tuple((v >> j) & 1 for v in vs))
                if acc[j] == 0:
                    acc[j] = b
                elif b != 0:
                    return None
        return acc

    def lookup(self, table, ix):
        """the bits of table[ix] for index bits of one byte; None if the index mixes bytes"""
        lv = {x[0] for x in ix if isinstance(x, tuple)}
        if any(not isinstance(x, int) and not isinstance(x[1], tuple) for x in ix) or len(lv) > 1:
            return None
        if not lv:
            v = table[sum(x << j for j, x in enumerate(ix))]
            return [(v >> j) & 1 for j in range(8)]
        l, = lv
        vs = []
        for n in range(len(self.values(l))):
            vs.append(table[sum((x if isinstance(x, int) else x[1][n]) << j for j, x in enumerate(ix))])
        return [self.bit(l, tuple((v >> j) & 1 for v in vs)) for j in range(8)]

    def of(self, t, w=None):
        if isinstance(t, int):
            return [(t >> k) & 1 for k in range(w)]
        if t not in self.memo:
            self.memo[t] = self._of(t)
        r = self.memo[t]
        return None if r is None else list(r)

    def _of(self, t):
        n = width(t)
        lv = leaves(t)
        if len(lv) == 1:
            l, = lv
            if self.values(l) is not None:
                try:
                    return self.fn(l, lambda v: evalt(t, {l: v}, self.prog), n)
                except KeyError:
                    pass
        k = t[0]
        if k == "s":
            rs = self.E.ranges(self.st, t)
            top = rs[-1][1].bit_length() if rs else n
            return [(t, j) if j < top else 0 for j in range(n)]
        if k == "zx":
            b = self.of(t[1])
            return b and b + [0] * (n - len(b))
        if k == "sx":
            b = self.of(t[1])
            return b and b + [b[-1]] * (n - len(b))
        if k == "tr":
            b = self.of(t[1])
            return b and b[:n]
        if k == "lin":
            r = self.sum(t, n)
            if r is not None:
                return r
            acc = self.of(t[1], n)
            for x, c in t[2]:
                if c & (c - 1):
                    return None
                b = self.of(x)
                if b is None:
                    return None
                s = c.bit_length() - 1
                b = ([0] * s + b)[:n]
                for j in range(n):
                    if acc[j] == 0:
                        acc[j] = b[j]
                    elif b[j] != 0:
                        return None
            return acc
        if k == "op":
            op = t[1]
            if op == "tbl":
                ix = self.of(t[4], 64)
                if ix is None or t[2] != 8:
                    return None
                data = self.prog.global_bytes(t[3])
                try:
                    r = self.lookup(data, ix) if data is not None else None
                except IndexError:
                    r = None
                if r is not None:
                    return r
                while ix and ix[-1] == 0:
                    ix = ix[:-1]
                return [("t", t[3], j, tuple(ix)) for j in range(8)]
            if op in ("lshr", "ashr", "shl") and isinstance(t[4], int) and t[4] < n:
                b = self.of(t[3], n)
                if b is None:
                    return None
                s = t[4]
                if op == "shl":
                    return ([0] * s + b)[:n]
                return b[s:] + [b[-1] if op == "ashr" else 0] * s
            if op in ("and", "or", "xor"):
                a, b = self.of(t[3], n), self.of(t[4], n)
                if a is None or b is None:
                    return None
                out = [self.op2(op, x, y) for x, y in zip(a, b)]
                return None if any(x is None for x in out) else out
            if op in ("bswap2", "bswap4", "bswap8"):
                b = self.of(t[3], n)
                return b and sum([b[j:j + 8] for j in range(n - 8, -1, -8)], [])
        return None
