"""Value numbering of bit-level code.  A word is a tuple of bits; a bit is a polynomial over GF(2) (algebraic normal form: a set of monomials, a
monomial a set of variables); a variable is one bit of an atom.  An atom is an input, or a sum (constant + multiples of words, modulo 2^w) in
normal form, or an operation that has no normal form here.  Both forms are canonical, so that equal names mean equal functions whatever way
the code computes them."""
from absint import Engine, S, P, is_ptr, mask, width, lin_parts, INTT
from model import AnalysisError

UNIT = frozenset()
ZERO, ONE = frozenset(), frozenset([UNIT])
LIMIT = 3000


class Big(Exception):
    pass


class VN:
    def __init__(self):
        self.atoms = {}         # key -> number
        self.keys = []
        self.names = {}         # word -> number
        self.words = []
        self.ids = {}
        self.sums = {}          # normal form of a sum -> word
        self.tops = {}          # top bit of a sum -> (word, constant, items, width)

    # ------------------------------------------------------------ words
    def const(self, c, w):
        return tuple(ONE if c >> k & 1 else ZERO for k in range(w))

    def atom(self, key, w):
        a = self.atoms.get(key)
        if a is None:
            a = self.atoms[key] = len(self.keys)
            self.keys.append((key, w))
        word = self.ids.get((a, w))
        if word is None:
            word = self.ids[(a, w)] = tuple(frozenset([frozenset([(a, k)])]) for k in range(w))
        return word

    def value(self, word):
        v = 0
        for k, b in enumerate(word):
            if b == ONE:
                v |= 1 << k
            elif b:
                return None
        return v

    def term(self, word):
        """the word as a term of the engine"""
        v = self.value(word)
        if v is not None:
            return v
        n = self.names.get(word)
        if n is None:
            n = self.names[word] = len(self.words)
            self.words.append(word)
        return S(("vn", n), len(word))

    def word(self, t, w):
        """a term of the engine as a word"""
        if isinstance(t, int):
            return self.const(t & mask(w), w)
        k = t[0]
        if k == "s":
            if isinstance(t[1], tuple) and t[1] and t[1][0] == "vn":
                x = self.words[t[1][1]]
            else:
                x = self.atom(("in", t[1]), t[2])
        elif k == "lin":
            x = self.const(t[1], t[3])
            for y, c in t[2]:
                x = self.add(x, self.mul(self.word(y, t[3]), self.const(c, t[3])))
        elif k == "zx":
            x = self.word(t[1], width(t[1]))
        elif k == "sx":
            x = self.word(t[1], width(t[1]))
            x = x + (x[-1],) * (t[2] - len(x))
        elif k == "tr":
            x = self.word(t[1], width(t[1]))[:t[2]]
        elif k == "op":
            x = self.binop(t[1], self.word(t[3], t[2]), self.word(t[4], t[2]))
        else:
            x = self.atom(("term", t), w)
        return (x + (ZERO,) * w)[:w]

    # ------------------------------------------------------------ bits
    def bmul(self, a, b):
        if not a or not b:
            return ZERO
        if a == ONE:
            return b
        if b == ONE or a == b:
            return a
        if len(a) * len(b) > LIMIT * 20:
            raise Big
        r = set()
        for x in a:
            for y in b:
                r ^= {x | y}
        if len(r) > LIMIT:
            raise Big
        return frozenset(r)

    def bor(self, a, b):
        if not a:
            return b
        if not b or a == b:
            return a
        return a ^ b ^ self.bmul(a, b)

    def mux(self, s, a, b):
        """s ? a : b"""
        return b if a == b else b ^ self.bmul(s, a ^ b)

    # ------------------------------------------------------------ operations
    def binop(self, op, a, b):
        try:
            return self._binop(op, a, b)
        except Big:
            return self.atom((op, a, b), len(a))

    def _binop(self, op, a, b):
        w = len(a)
        if op == "xor":
            return tuple(x ^ y for x, y in zip(a, b))
        if op == "and":
            return tuple(self.bmul(x, y) for x, y in zip(a, b))
        if op == "or":
            return tuple(self.bor(x, y) for x, y in zip(a, b))
        if op == "add":
            return self.add(a, b)
        if op == "sub":
            return self.add(a, self.neg(b))
        if op == "mul":
            return self.mul(a, b)
        cb = self.value(b)
        if op in ("shl", "lshr", "ashr"):
            if cb is None:
                n = max(1, (w - 1).bit_length())
                r = a
                for k in range(n):
                    s = self.shift(op, r, 1 << k)
                    r = tuple(self.mux(b[k], x, y) for x, y in zip(s, r))
                return r            # amounts of w and more are not defined
            return self.shift(op, a, cb)
        if op in ("udiv", "urem") and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return self.shift("lshr", a, k) if op == "udiv" else a[:k] + (ZERO,) * (w - k)
        return self.atom((op, a, b), w)

    def shift(self, op, a, k):
        w = len(a)
        k = min(k, w)
        if op == "shl":
            return (ZERO,) * k + a[:w - k]
        return a[k:] + ((ZERO if op == "lshr" else a[-1]),) * k

    def neg(self, a):
        c, d = self.linear(a)
        return self.from_linear(-c, {k: -v for k, v in d.items()}, len(a))

    def mul(self, a, b):
        ca, cb = self.value(a), self.value(b)
        if cb is None:
            a, b, ca, cb = b, a, cb, ca
        w = len(a)
        if cb is None:
            return self.atom(("mul", frozenset((a, b))), w)
        if cb & (cb - 1) == 0:
            return self.shift("shl", a, cb.bit_length() - 1) if cb else b
        c, d = self.linear(a)
        return self.from_linear(c * cb, {k: v * cb for k, v in d.items()}, w)

    def add(self, a, b):
        if all(not x or not y for x, y in zip(a, b)):
            return tuple(x or y for x, y in zip(a, b))
        c1, d1 = self.linear(a)
        c2, d2 = self.linear(b)
        for k, v in d2.items():
            d1[k] = d1.get(k, 0) + v
        return self.from_linear(c1 + c2, d1, len(a))

    def linear(self, a):
        """a word as (constant, {bit: coefficient}) modulo 2^len(a)"""
        w = len(a)
        c, d, top = 0, {}, w
        t = self.tops.get(a[-1])
        if t is not None and t[3] <= w and a[w - t[3]:] == t[0][:t[3]]:
            top = w - t[3]
            c = t[1] << top
            for k, v in t[2]:
                d[k] = v << top
        for k in range(top):
            b = a[k]
            if not b:
                continue
            v = 1 << k
            if UNIT in b:
                c += v
                b = b ^ ONE
                if not b:
                    continue
                v = -v
            d[b] = d.get(b, 0) + v
        return c, d

    def from_linear(self, c, d, w):
        c &= mask(w)
        d = [(k, v & mask(w)) for k, v in d.items() if v & mask(w)]
        if not d:
            return self.const(c, w)
        t = min((v & -v).bit_length() - 1 for k, v in d)
        n = w - t
        low = self.const(c & mask(t), t)
        c >>= t
        d = [(k, v >> t) for k, v in d]
        key = (c, frozenset(d), n)
        r = self.sums.get(key)
        if r is None:
            bits = []
            cj, dj, j = c, d, n
            while j:
                m = mask(j)
                cj &= m
                dj = [(k, v & m) for k, v in dj if v & m]
                # no carries: the bits themselves
                u, plain = cj, True
                for k, v in dj:
                    if v & (v - 1) or u & v:
                        plain = False
                        break
                    u |= v
                if plain:
                    x = [ONE if cj >> k & 1 else ZERO for k in range(j)]
                    for k, v in dj:
                        x[v.bit_length() - 1] = k
                    bits += x[::-1]
                    break
                kj = ("sum", cj, frozenset(dj), j)
                bits.append(self.atom(kj, 1)[0])
                j -= 1
            r = self.sums[key] = tuple(bits[::-1])
            for k in range(j + 1, n + 1):
                b = r[k - 1]
                if b not in self.tops:
                    (m,) = b
                    ((x, y),) = m
                    kk = self.keys[x][0]
                    self.tops[b] = (r, kk[1], kk[2], k)
        return low + r

    def lookup(self, table, size, off):
        """table: bytes; entries of size bytes at the byte offset off (a word)"""
        var = [k for k, b in enumerate(off) if b not in (ZERO, ONE)]
        fs = []
        for k in var:
            if off[k] not in fs:
                fs.append(off[k])
        if len(fs) > 10:
            return None
        n = len(fs)
        vals = []
        for x in range(1 << n):
            o = 0
            for k, b in enumerate(off):
                if b == ONE or b not in (ZERO, ONE) and x >> fs.index(b) & 1:
                    o |= 1 << k
            if o + size > len(table):
                return None
            vals.append(int.from_bytes(table[o:o + size], "little"))
        # Moebius transform: coefficients of the polynomial over the index bits
        for k in range(n):
            for x in range(1 << n):
                if x >> k & 1:
                    vals[x] ^= vals[x ^ 1 << k]
        out = [set() for _ in range(8 * size)]
        for x, v in enumerate(vals):
            if not v:
                continue
            p = ONE
            for k in range(n):
                if x >> k & 1:
                    p = self.bmul(p, fs[k])
            for j in range(8 * size):
                if v >> j & 1:
                    out[j] ^= p
        return tuple(frozenset(x) for x in out)


class VEngine(Engine):
    """an engine whose integer arithmetic is numbered"""

    def __init__(self, prog, **kw):
        Engine.__init__(self, prog, **kw)
        self.V = VN()

    def num(self, t):
        return isinstance(t, int) or isinstance(t, tuple) and t and t[0] in INTT and t[0] not in ("cmp", "not", "and", "or")

    def inst(self, fr, env, st, i):
        o = i["o"]
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"):
            a, b = self.val(env, i["a"][0]), self.val(env, i["a"][1])
            w = self.cast_w(i["t"])
            if not (isinstance(a, int) and isinstance(b, int)) and self.num(a) and self.num(b) and w > 1:
                env[i["d"]] = self.V.term(self.V.binop(o, self.V.word(a, w), self.V.word(b, w)))
                return
        elif o in ("zext", "sext", "trunc"):
            a = self.val(env, i["a"][0])
            wf, wt = self.cast_w(i["ot"]), self.cast_w(i["t"])
            if not isinstance(a, int) and self.num(a) and wf > 1 and wt > 1:
                x = self.V.word(a, wf)
                if o == "zext":
                    x = x + (ZERO,) * (wt - wf)
                elif o == "sext":
                    x = x + (x[-1],) * (wt - wf)
                else:
                    x = x[:wt]
                env[i["d"]] = self.V.term(x)
                return
        return Engine.inst(self, fr, env, st, i)

    def icmp(self, st, p, a, b, w):
        if not (isinstance(a, int) and isinstance(b, int)) and self.num(a) and self.num(b) and w > 1:
            x, y = self.V.word(a, w), self.V.word(b, w)
            a, b = self.V.term(x), self.V.term(y)
            if a == b:
                return int(p in ("eq", "ule", "uge", "sle", "sge"))
        return Engine.icmp(self, st, p, a, b, w)

    def load(self, st, ptr, size, ty):
        root, off = ptr[1], ptr[2]
        if not isinstance(off, int) and root[0] == "glob" and self.prog.globals.get(root[1], {}).get("const") and ty[0] == "i":
            data = self.prog.global_bytes(root[1])
            if data is not None:
                x = self.V.word(off, 64)
                try:
                    r = self.V.lookup(data, size, x)
                except Big:
                    r = self.V.atom(("tbl", root[1], size, x), 8 * size)
                if r is not None:
                    return self.V.term(r)
        v = Engine.load(self, st, ptr, size, ty)
        if not isinstance(v, int) and ty[0] == "i" and self.num(v) and v[0] != "s":
            v = self.V.term(self.V.word(v, 8 * size))
        return v
