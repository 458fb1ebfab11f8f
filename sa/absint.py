"""Abstract interpreter over the dumped IR.

Domain: trace-partitioned powerset of abstract stores.  A store maps (object, byte offset) to a term; every symbolic
leaf carries an unsigned interval set (exact for byte-sized leaves), plus a set of order facts between terms.  Calls are
interpreted in context (callee body inlined); standard-library containers, strings, std::function and system calls are
modelled (see std_models.py).  Loops converge by widening at loop headers.  No solver, no concrete inputs: a branch is
taken on both sides unless the interval/order domain refutes one side."""
import sys
from model import AnalysisError

sys.setrecursionlimit(100000)

# ------------------------------------------------------------------ terms


def width(t):
    if isinstance(t, int):
        return 64
    k = t[0]
    if k == "s":
        return t[2]
    if k in ("lin", "zx", "sx", "tr"):
        return t[-1]
    if k == "op":
        return t[2]
    if k in ("cmp", "not", "and", "or"):
        return 1
    return 64


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def S(name, w):
    return ("s", name, w)


def P(root, off=0):
    return ("p", root, off)


def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] == "p"


def lin_parts(t, w):
    if isinstance(t, int):
        return t, {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def lin_make(c, d, w):
    m = mask(w)
    c &= m
    d = {k: v & m for k, v in d.items() if v & m}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv))), w)


def add(a, b, w):
    c1, d1 = lin_parts(a, w)
    c2, d2 = lin_parts(b, w)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return lin_make(c1 + c2, d1, w)


def neg(a, w):
    c, d = lin_parts(a, w)
    return lin_make(-c, {k: -v for k, v in d.items()}, w)


def mulc(a, n, w):
    c, d = lin_parts(a, w)
    return lin_make(c * n, {k: v * n for k, v in d.items()}, w)


INTT = ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or")


def trunc_term(t, w):
    """the lower w bits"""
    if isinstance(t, int):
        return t & mask(w)
    if t[0] == "zx" and width(t[1]) == w:
        return t[1]
    if t[0] in ("zx", "tr") and width(t[1]) > w:
        return trunc_term(t[1], w)
    return ("tr", t, w)


def byte_of(v, sz, k):
    """byte k of an integer stored in sz bytes (little endian); None if it is no integer"""
    if isinstance(v, int):
        return v >> 8 * k & 255
    if not isinstance(v, tuple) or not v or v[0] not in INTT or width(v) != 8 * sz:
        return None
    return trunc_term(binop("lshr", 8 * sz, v, 8 * k) if k else v, 8)


def depth(t):
    if not isinstance(t, tuple):
        return 0
    if t[0] == "s":
        return 1
    r = 0
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    r = max(r, depth(y[0]))
            else:
                r = max(r, depth(x))
    return r + 1


def leaves(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple) and t:
        k = t[0]
        if k == "s":
            acc.add(t)
        elif k == "lin":
            for x, _ in t[2]:
                leaves(x, acc)
        elif k in ("zx", "sx", "tr", "not"):
            leaves(t[1], acc)
        elif k == "op":
            for x in t[3:]:
                leaves(x, acc)
        elif k == "cmp":
            leaves(t[2], acc)
            leaves(t[3], acc)
        elif k in ("and", "or"):
            leaves(t[1], acc)
            leaves(t[2], acc)
        elif k == "p":
            if isinstance(t[1], tuple) and t[1][0] == "*":
                acc.add(S(t[1][1], 64))
            leaves(t[2], acc)
        elif k == "agg":
            for x in t[1]:
                leaves(x, acc)
    return acc


PRED = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b, "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b,
    "slt": lambda a, b, w: sgn(a, w) < sgn(b, w), "sle": lambda a, b, w: sgn(a, w) <= sgn(b, w),
    "sgt": lambda a, b, w: sgn(a, w) > sgn(b, w), "sge": lambda a, b, w: sgn(a, w) >= sgn(b, w),
}
INV = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def binop(op, w, a, b):
    m = mask(w)
    if isinstance(a, tuple) and a[0] == "fn":
        # pointer to member function: an even address is a non-virtual function
        return 0 if op == "and" and b == 1 else ("op", op, w, S(("addr", a), 64), b)
    if isinstance(a, int) and isinstance(b, int):
        a &= m
        b &= m
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == "udiv":
            return a // b if b else 0
        if op == "urem":
            return a % b if b else 0
        if op in ("sdiv", "srem"):
            x, y = sgn(a, w), sgn(b, w)
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) & m
    if w == 1:
        if op == "xor":
            if b == 1:
                return negate(a)
            if a == 1:
                return negate(b)
            if b == 0:
                return a
            if a == 0:
                return b
        if op == "and":
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
            return ("and", a, b)
        if op == "or":
            if a == 1 or b == 1:
                return 1
            if a == 0:
                return b
            if b == 0:
                return a
            return ("or", a, b)
    if op == "add":
        return add(a, b, w)
    if op == "sub":
        return add(a, neg(b, w), w)
    if op == "mul":
        if isinstance(b, int):
            return mulc(a, b, w)
        if isinstance(a, int):
            return mulc(b, a, w)
    if op == "shl" and isinstance(b, int) and b < w:
        return mulc(a, 1 << b, w)
    if op in ("and", "or", "xor", "shl", "lshr", "ashr") and b == 0:
        return 0 if op == "and" else a
    if op in ("or", "xor") and a == 0:
        return b
    if op == "and" and a == 0:
        return 0
    if op == "and" and (b == m):
        return a
    if op == "xor" and b == m:
        return add(neg(a, w), m, w)     # ~a = -a-1
    if isinstance(a, int) and op in ("and", "or", "xor"):
        a, b = b, a
    if op in ("and", "or") and a == b:
        return a
    if op == "or":
        r = rotation(w, a, b)
        if r is not None:
            y, k = r
            r = rotation(w, y[3], y[4]) if isinstance(y, tuple) and y[0] == "op" and y[1] == "or" and y[2] == w else None
            if r is None:
                return ("op", "or", w, mulc(y, 1 << k, w), ("op", "lshr", w, y, w - k))
            y, j = r
            k = (j + k) % w
            return ("op", "or", w, mulc(y, 1 << k, w), ("op", "lshr", w, y, w - k)) if k else y
    return ("op", op, w, a, b)


def rotation(w, a, b):
    """(x, k) if a|b is x rotated left by k"""
    for l, r in ((a, b), (b, a)):
        if isinstance(l, tuple) and isinstance(r, tuple) and r[0] == "op" and r[1] == "lshr" and r[2] == w and isinstance(r[4], int) and 0 < r[4] < w:
            if l == mulc(r[3], 1 << (w - r[4]), w):
                return r[3], w - r[4]
    return None


def negate(c):
    if isinstance(c, int):
        return c ^ 1
    if c[0] == "not":
        return c[1]
    if c[0] == "cmp":
        return ("cmp", INV[c[1]], c[2], c[3])
    return ("not", c)


def evalt(t, env, prog):
    """evaluate a term under an assignment of its leaves"""
    if isinstance(t, int):
        return t
    k = t[0]
    if k == "s":
        return env[t]
    if k == "lin":
        v = t[1]
        for x, c in t[2]:
            v += c * evalt(x, env, prog)
        return v & mask(t[3])
    if k == "zx":
        return evalt(t[1], env, prog)
    if k == "sx":
        return sgn(evalt(t[1], env, prog), width(t[1])) & mask(t[2])
    if k == "tr":
        return evalt(t[1], env, prog) & mask(t[2])
    if k == "cmp":
        return int(PRED[t[1]](evalt(t[2], env, prog), evalt(t[3], env, prog), cmpw(t)))
    if k == "not":
        return evalt(t[1], env, prog) ^ 1
    if k == "and":
        return evalt(t[1], env, prog) & evalt(t[2], env, prog)
    if k == "or":
        return evalt(t[1], env, prog) | evalt(t[2], env, prog)
    if k == "op":
        if t[1] == "tbl":
            data = prog.global_bytes(t[3])
            off = evalt(t[4], env, prog)
            n = t[2] // 8
            if data is None or off + n > len(data):
                raise KeyError("tbl")
            return int.from_bytes(data[off:off + n], "little")
        if t[1] == "addr":
            raise KeyError("addr")
        if t[1][0] == "c" and t[1].startswith("ctype:"):
            return ctype_eval(t[1][6:], evalt(t[3], env, prog))
        if t[1] in ("bswap2", "bswap4"):
            nb = t[2] // 8
            return int.from_bytes((evalt(t[3], env, prog) & mask(t[2])).to_bytes(nb, "little"), "big")
        if t[1] in ("umin", "umax"):
            return (min if t[1] == "umin" else max)(evalt(t[3], env, prog), evalt(t[4], env, prog))
        r = binop(t[1], t[2], evalt(t[3], env, prog), evalt(t[4], env, prog))
        if not isinstance(r, int):
            raise KeyError("op")
        return r
    raise KeyError(k)


def ctype_eval(f, c):
    c = sgn(c & 0xffffffff, 32)
    if f == "isdigit":
        return int(48 <= c <= 57)
    if f == "isspace":
        return int(c in (9, 10, 11, 12, 13, 32))
    if f == "tolower":
        return (c + 32 if 65 <= c <= 90 else c) & 0xffffffff
    raise KeyError(f)


def cmpw(t):
    a, b = t[2], t[3]
    if not isinstance(a, int):
        return width(a)
    if not isinstance(b, int):
        return width(b)
    return 64


# ------------------------------------------------------------------ interval sets

def iset_and(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def iset_norm(l):
    l = sorted(l)
    r = []
    for lo, hi in l:
        if r and lo <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(r[-1][1], hi))
        else:
            r.append((lo, hi))
    return tuple(r)


def iset_count(s):
    return sum(h - l + 1 for l, h in s)


def iset_iter(s):
    for l, h in s:
        for v in range(l, h + 1):
            yield v


def iset_from(vals):
    return iset_norm([(v, v) for v in vals])


def pred_set(pred, c, w):
    m = mask(w)
    h = 1 << (w - 1)
    if pred == "eq":
        return ((c, c),)
    if pred == "ne":
        return tuple(x for x in ((0, c - 1), (c + 1, m)) if x[0] <= x[1])
    if pred == "ult":
        return ((0, c - 1),) if c > 0 else ()
    if pred == "ule":
        return ((0, c),)
    if pred == "ugt":
        return ((c + 1, m),) if c < m else ()
    if pred == "uge":
        return ((c, m),)
    s = sgn(c, w)

    def srange(lo, hi):   # signed inclusive
        if lo > hi:
            return ()
        r = []
        if hi >= 0:
            r.append((max(lo, 0), hi))
        if lo < 0:
            r.append((lo & m, min(hi, -1) & m))
        return iset_norm(r)
    if pred == "slt":
        return srange(-h, s - 1)
    if pred == "sle":
        return srange(-h, s)
    if pred == "sgt":
        return srange(s + 1, h - 1)
    if pred == "sge":
        return srange(s, h - 1)


# ------------------------------------------------------------------ state

class Region:
    __slots__ = ("cells", "ver", "lazy", "default", "_key")

    def __init__(self, cells=None, ver=0, lazy=(), default="sym"):
        self.cells = cells if cells is not None else {}
        self.ver = ver
        self.lazy = lazy
        self.default = default
        self._key = None

    def copy(self):
        return Region(dict(self.cells), self.ver, self.lazy, self.default)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.cells.items()), self.ver, self.lazy, self.default)
        return self._key


class State:
    __slots__ = ("mem", "cons", "facts", "g", "tr", "cnt", "lc", "nf", "owned")

    def __init__(self):
        self.mem = {}
        self.cons = {}
        self.facts = frozenset()
        self.g = {}
        self.tr = None
        self.cnt = {}
        self.lc = {}
        self.nf = 0
        self.owned = set()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = dict(self.cons)
        s.facts = self.facts
        s.g = dict(self.g)
        s.tr = self.tr
        s.cnt = dict(self.cnt)
        s.lc = dict(self.lc)
        s.nf = self.nf
        s.owned = set()
        self.owned = set()
        return s

    def region(self, root):
        r = self.mem.get(root)
        if r is None:
            r = Region()
            self.mem[root] = r
            self.owned.add(root)
        return r

    def wregion(self, root):
        r = self.mem.get(root)
        if r is None:
            r = Region()
        elif root in self.owned:
            r._key = None
            return r
        else:
            r = r.copy()
        self.mem[root] = r
        self.owned.add(root)
        r._key = None
        return r

    def log(self, e):
        self.tr = (self.tr, e)

    def trace(self):
        r = []
        t = self.tr
        while t:
            r.append(t[1])
            t = t[0]
        return r[::-1]

    def key(self):
        return (frozenset((k, r.key()) for k, r in self.mem.items() if r.cells or r.ver or r.lazy), frozenset(self.cons.items()),
                self.facts, frozenset(self.g.items()))


class Exc:
    """exceptional outcome payload"""
    __slots__ = ("tname", "obj")

    def __init__(self, tname, obj):
        self.tname = tname
        self.obj = obj

    def key(self):
        return ("exc", self.tname)


# std exception hierarchy (needed to decide which catch clause takes an exception)
STD_BASE = {
    "std::exception": None, "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
    "std::range_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::bad_alloc": "std::exception",
    "std::bad_array_new_length": "std::bad_alloc", "std::bad_function_call": "std::exception", "std::bad_cast": "std::exception", "std::bad_weak_ptr": "std::exception",
    "std::ios_base::failure": "std::system_error",
}


class Frame:
    __slots__ = ("fn", "ctx", "depth", "args")


class Engine:
    def __init__(self, prog, models=None, max_steps=3000000, unroll=3, max_depth=60):
        self.prog = prog
        self.models = dict(models or {})      # qual -> model
        self.pats = []                        # (predicate(qual,dm), model)
        self.max_steps = max_steps
        self.steps = 0
        self.unroll = unroll
        self.max_depth = max_depth
        self.ctxs = {}
        self.ctx_parent = {}
        self.mem_hook = None                  # f(engine, st, frame, inst, ptr, size, is_store, value)
        self.term_hook = None                 # std::terminate reached
        self.opaque = set()                   # quals never inlined
        self.unknown_calls = {}
        self.fns_seen = set()
        self.model_cache = {}
        self.sites = 0
        self.stack = []
        self.obj_types = {}                   # root -> type (for messages)
        self.max_states = 60000
        self.exc_base = dict(STD_BASE)
        self.cell_hook = None                 # f(engine, st, ptr, cell): a modelled object changes
        self.listeners = {}                   # event kind -> [f(engine, st, frame, inst, kind, a, b, c)]
        self.gsys = False
        self.gc_ghosts = ()                   # ghost kinds dropped for objects nothing refers to any more
        self.model_hook = None                # f(engine, st, frame, inst, fn, args): a call that is not interpreted
        self.sys_hook = None                  # f(engine, st, frame, inst, name, args, result, sign)
        self.user_hook = None                 # f(engine, st, frame, inst, fptr, args) -> outcomes
        self.virt_hook = None
        self.copy_hook = None                 # f(engine, st, dst, src, n): memcpy and memmove
        self.elem_hook = None
        self.user_havoc = True
        self.user_throws = False
        self.std_notes = {}
        self._hull = []
        self.exit_limit = 24                  # more exit states than this are joined (per result value and ghost state)
        self.exit_limits = {}
        self.loop_limit = 60                  # more states than this at a loop header are joined
        self.loop_limits = {}
        self.exit_joins = {}
        self.merge_limit = self.max_states + 1   # the same for other merge points
        self.user_calls = 0
        self.sdlen = {}         # length of the strings whose data was taken
        self.rebound = None
        self.term_depth = 10
        self.streams = False                  # follow what is written into string streams
        self.head_hook = None                 # f(engine, frame, block, env, st) -> None or [(env, st)]: replaces widening at a loop header
        self.apart = set()                    # roots known to be different objects
        self._rtti()

    # ---------------------------------------------------------------- model callbacks
    def on(self, kind, f):
        self.listeners.setdefault(kind, []).append(f)

    def emit_ev(self, st, fr, i, kind, a, b, c):
        for f in self.listeners.get(kind, ()):
            f(self, st, fr, i, kind, a, b, c)
        for f in self.listeners.get("*", ()):
            f(self, st, fr, i, kind, a, b, c)

    def ghost_sys(self, st, fr, i, name, args, r, en):
        """keep paths with different kernel outcomes apart, and what is known about result and errno alive"""
        if self.gsys:
            st.g[("#", name, fr.ctx, i.get("d", -1))] = (tuple(args), r, en)

    def sys_result(self, st, fr, i, name, args, r, sign):
        if self.sys_hook:
            self.sys_hook(self, st, fr, i, name, args, r, sign)

    def note_std(self, fn):
        self.std_notes[fn.qual] = self.std_notes.get(fn.qual, 0) + 1

    def new_elem(self, st, fr, i, fn, p):
        if self.elem_hook:
            self.elem_hook(self, st, fr, i, fn, p)

    def user_call(self, st, fr, i, fp, args):
        """a handler supplied by the user of the library runs"""
        self.user_calls += 1
        st.log(("user", i, fp, fr.fn))
        if self.user_hook:
            r = self.user_hook(self, st, fr, i, fp, args)
            if r is not NotImplemented:
                return r
        if self.user_havoc:
            self.havoc_world(st)
        out = [("ret", self.topt(st, fr, i), st)]
        if self.user_throws:
            s2 = st.copy()
            out.append(("exc", Exc(None, P(("exo", "user"))), s2))
        return out

    def havoc_world(self, st, keep=lambda root: False):
        """arbitrary code ran: forget everything except this thread's own locals"""
        for h in getattr(self, "on_havoc", ()):
            h(st)
        for root in list(st.mem):
            if root[0] in ("al", "bv", "glob", "sd") or keep(root):
                continue
            self.store_havoc(st, P(root, 0), None)

    def virtual_call(self, st, fr, i, args, v):
        if self.virt_hook:
            r = self.virt_hook(self, st, fr, i, args, v)
            if r is not NotImplemented:
                return r
        self.unknown_calls["<virtual>"] = self.unknown_calls.get("<virtual>", 0) + 1
        return [("ret", self.topt(st, fr, i), st)]

    def _rtti(self):
        for n, g in self.prog.globals.items():
            if n.startswith("_ZTI") and "init" in g:
                refs = [v for _, _, v in g["init"] if v[0] == "g" and v[1].startswith("_ZTI") and v[1] != n]
                me = g["dm"].replace("typeinfo for ", "")
                if refs:
                    b = self.prog.globals[refs[0][1]]["dm"].replace("typeinfo for ", "")
                    self.exc_base.setdefault(me, b)

    def is_a(self, t, base):
        n = 0
        while t is not None and n < 20:
            if t == base:
                return True
            t = self.exc_base.get(t)
            n += 1
        return False

    def ctx(self, parent, site):
        k = (parent, site)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
            self.ctx_parent[c] = parent
        return c

    # ---------------------------------------------------------------- symbols & constraints
    def fresh(self, st, name, w):
        n = st.cnt.get(name, 0)
        st.cnt[name] = n + 1
        s = S((name, min(n, 3)), w)
        if n >= 3:
            self.drop(st, s)
        return s

    def freshp(self, st, name):
        n = st.cnt.get(name, 0)
        s = self.fresh(st, name, 64)
        root = ("*", s[1])
        if n >= 3:
            self.forget_root(st, root)
        return P(root, 0)

    def freshp2(self, st, name):
        """like freshp, but only the last two objects of this site are told apart"""
        n = st.cnt.get(name, 0)
        st.cnt[name] = (n + 1) % 2
        root = ("*", (name, n))
        self.forget_root(st, root)
        return P(root, 0)

    def forget_root(self, st, root):
        """the name of this region now means another object"""
        st.mem.pop(root, None)

        def has(x):
            return x == root or isinstance(x, tuple) and any(has(y) for y in x if isinstance(y, tuple))
        for k in [k for k, v in st.g.items() if isinstance(k, tuple) and has(k) or isinstance(v, tuple) and has(v)]:
            del st.g[k]
        for t in [t for t in st.cons if any(has(l[1]) for l in leaves(t))]:
            del st.cons[t]
        st.facts = frozenset(f for f in st.facts if not any(has(l[1]) for x in f[1:] for l in leaves(x)))

    def drop(self, st, sym):
        if self.rebound is not None:
            self.rebound.add(sym)
        for t in [t for t in st.cons if t == sym or self.mentions(t, sym)]:
            del st.cons[t]
        st.facts = frozenset(f for f in st.facts if not self.mentions(f[1], sym) and not self.mentions(f[2], sym))

    def mentions(self, t, sym):
        for l in leaves(t):
            if l == sym or isinstance(l[1], tuple) and l[1] and l[1][0] == "ldx" and self.mentions(l[1][2], sym):
                return True
        return False

    def ranges(self, st, t):
        if isinstance(t, int):
            return ((t, t),)
        c = st.cons.get(t)
        k = t[0]
        w = width(t)
        r = None
        if k == "zx":
            r = self.ranges(st, t[1])
        elif k == "s":
            r = None
        elif k in ("cmp", "not", "and", "or"):
            d = self.decide(st, t)
            r = ((0, 1),) if d is None else ((int(d), int(d)),)
        elif k == "lin":
            if len(t[2]) == 1:
                (x, co), = t[2]
                rx = self.ranges(st, x)
                m = mask(w)
                if co == 1 and iset_count(rx) <= 4 * (1 << 62):
                    l = []
                    for lo, hi in rx:
                        a, b = lo + t[1], hi + t[1]
                        if a > m:
                            a -= m + 1
                            b -= m + 1
                        if b <= m:
                            l.append((a, b))
                        else:
                            l.append((a, m))
                            l.append((0, b - m - 1))
                    r = iset_norm(l)
                elif co == m:       # c - x
                    l = []
                    for lo, hi in rx:
                        a, b = t[1] - hi, t[1] - lo
                        if a >= 0:
                            l.append((a, b))
                        elif b < 0:
                            l.append((a & m, b & m))
                        else:
                            l.append((0, b))
                            l.append((a & m, m))
                    r = iset_norm(l)
                elif rx and rx[-1][1] * co + t[1] <= m:
                    r = ((rx[0][0] * co + t[1], rx[-1][1] * co + t[1]),)
            else:
                lo = hi = t[1]
                ok = True
                for x, co in t[2]:
                    rx = self.ranges(st, x)
                    if not rx:
                        return ()
                    if co >> (w - 1):
                        ok = False
                        break
                    lo += rx[0][0] * co
                    hi += rx[-1][1] * co
                if ok and hi <= mask(w):
                    r = ((lo, hi),)
        elif k == "op":
            op = t[1]
            if op == "and" and isinstance(t[4], int):
                r = ((0, t[4]),)
                rx = self.ranges(st, t[3])
                if rx and iset_count(rx) <= 512:
                    r = iset_from({v & t[4] for v in iset_iter(rx)})
                elif rx and rx[-1][1] < t[4] and (t[4] & (t[4] + 1)) == 0:
                    r = rx
            elif op == "lshr" and isinstance(t[4], int):
                rx = self.ranges(st, t[3])
                if rx:
                    r = ((rx[0][0] >> t[4], rx[-1][1] >> t[4]),)
            elif op == "urem" and isinstance(t[4], int) and t[4]:
                r = ((0, t[4] - 1),)
            elif op == "udiv" and isinstance(t[4], int) and t[4]:
                rx = self.ranges(st, t[3])
                if rx:
                    r = ((rx[0][0] // t[4], rx[-1][1] // t[4]),)
            elif op in ("umin", "umax"):
                ra, rb = self.ranges(st, t[3]), self.ranges(st, t[4])
                if ra and rb:
                    f = min if op == "umin" else max
                    r = ((f(ra[0][0], rb[0][0]), f(ra[-1][1], rb[-1][1])),)
            elif op == "or":
                ra, rb = self.ranges(st, t[3]), self.ranges(st, t[4])
                if ra and rb:
                    hi = ra[-1][1] | rb[-1][1]
                    r = ((max(ra[0][0], rb[0][0]), mask(hi.bit_length())),)
        elif k == "tr":
            rx = self.ranges(st, t[1])
            if rx and rx[-1][1] <= mask(w):
                r = rx
        elif k == "sx":
            rx = self.ranges(st, t[1])
            wi = width(t[1])
            if rx:
                h = 1 << (wi - 1)
                l = []
                for lo, hi in rx:
                    if hi < h:
                        l.append((lo, hi))
                    elif lo >= h:
                        l.append((sgn(lo, wi) & mask(w), sgn(hi, wi) & mask(w)))
                    else:
                        l.append((lo, h - 1))
                        l.append((sgn(h, wi) & mask(w), sgn(hi, wi) & mask(w)))
                r = iset_norm(l)
        if r is None:
            r = ((0, mask(w)),)
        if c is not None:
            r = iset_and(r, c)
        if k not in ("s", "cmp") and iset_count(r) > 1:
            lv = leaves(t)
            if len(lv) == 1:
                s, = lv
                rs = self.ranges(st, s)
                if iset_count(rs) <= 256:
                    try:
                        r2 = iset_from({evalt(t, {s: v}, self.prog) for v in iset_iter(rs)})
                        r = iset_and(r, r2)
                    except KeyError:
                        pass
        return r

    def const_of(self, st, t):
        """constant value if the domain pins it"""
        if isinstance(t, int):
            return t
        if is_ptr(t):
            return None
        if t[0] in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or"):
            r = self.ranges(st, t)
            if len(r) == 1 and r[0][0] == r[0][1]:
                return r[0][0]
        return None

    def decide(self, st, c):
        """True/False/None for an i1 term"""
        if isinstance(c, int):
            return bool(c)
        k = c[0]
        if k == "not":
            d = self.decide(st, c[1])
            return None if d is None else not d
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == "s":
            r = st.cons.get(c)
            if r and len(r) == 1 and r[0][0] == r[0][1]:
                return bool(r[0][0])
            return None
        if k == "cmp":
            p, a, b = c[1], c[2], c[3]
            w = cmpw(c)
            if a == b:
                return PRED[p](0, 0, w)
            cst = st.cons.get(c)
            if cst and len(cst) == 1 and cst[0][0] == cst[0][1]:
                return bool(cst[0][0])
            lv = leaves(c)
            if len(lv) == 1:
                s, = lv
                rs = self.ranges(st, s)
                if iset_count(rs) <= 256:
                    try:
                        vals = {evalt(c, {s: v}, self.prog) for v in iset_iter(rs)}
                        if len(vals) == 1:
                            return bool(vals.pop())
                        return None
                    except KeyError:
                        pass
            ra, rb = self.ranges(st, a), self.ranges(st, b)
            if not ra or not rb:
                return None
            if isinstance(b, int):
                ok = pred_set(p, b, w)
                i = iset_and(ra, ok)
                if not i:
                    return False
                if i == iset_norm(ra):
                    return True
            elif isinstance(a, int):
                ok = pred_set(SWAP[p], a, w)
                i = iset_and(rb, ok)
                if not i:
                    return False
                if i == iset_norm(rb):
                    return True
            else:
                if p in ("eq", "ne"):
                    if not iset_and(ra, rb):
                        return p == "ne"
                if p[0] == "s":
                    def sb(r):
                        h = 1 << (w - 1)
                        neg = [v for v in r if v[1] >= h]
                        pos = [v for v in r if v[0] < h]
                        lo = sgn(max(neg[0][0], h), w) if neg else pos[0][0]
                        hi = min(pos[-1][1], h - 1) if pos else sgn(neg[-1][1], w)
                        return lo, hi
                    x, y = (sb(ra), sb(rb)) if p[1] == "l" else (sb(rb), sb(ra))
                    strict = p in ("slt", "sgt")
                    if x[1] < y[0] or (not strict and x[1] <= y[0]):
                        return True
                    if x[0] > y[1] or (strict and x[0] >= y[1]):
                        return False
                if p in ("ult", "ule", "ugt", "uge"):
                    x, y = (ra, rb) if p[1] == "l" else (rb, ra)
                    strict = p in ("ult", "ugt")
                    if x[-1][1] < y[0][0] or (not strict and x[-1][1] <= y[0][0]):
                        return True
                    if x[0][0] > y[-1][1] or (strict and x[0][0] >= y[-1][1]):
                        return False
            return self.by_facts(st, p, a, b, w)
        return None

    def by_facts(self, st, p, a, b, w):
        F = st.facts
        if (p, a, b) in F or (SWAP[p], b, a) in F:
            return True
        ip = INV[p]
        if (ip, a, b) in F or (SWAP[ip], b, a) in F:
            return False
        if p in ("eq", "ne"):
            if self._reach(F, a, b, "u") == 2 or self._reach(F, b, a, "u") == 2 or self._reach(F, a, b, "s") == 2 or self._reach(F, b, a, "s") == 2:
                return p == "ne"
            for fam in "us":
                if self._reach(F, a, b, fam) == 1 and self._reach(F, b, a, fam) == 1:
                    return p == "eq"
            if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == "lin" or b[0] == "lin"):
                d = add(a, neg(b, w), w)        # the same sum but for one term each
                if isinstance(d, int):
                    return (d == 0) == (p == "eq")
                if d[0] == "lin" and d[1] == 0 and len(d[2]) == 2 and sorted(c for x, c in d[2]) == [1, mask(w)]:
                    x, y = d[2][0][0], d[2][1][0]
                    if (x, y) not in ((a, b), (b, a)):
                        return self.by_facts(st, p, x, y, w)
            return None
        fam = p[0]
        if p[1] == "g":
            p, a, b = SWAP[p], b, a
        # a < b or a <= b ?
        r = self._reach(F, a, b, fam)
        if r == 2 or (r == 1 and p[1:] == "le"):
            return True
        r = self._reach(F, b, a, fam)
        if r == 2 or (r == 1 and p[1:] == "lt"):
            return False
        return None

    def _reach(self, F, a, b, fam):
        """0 none, 1 a<=b, 2 a<b derivable from facts"""
        best = {a: 1}
        work = [a]
        while work:
            x = work.pop()
            for (p, l, r) in F:
                st = None
                if p == "eq":
                    if l == x:
                        y, st = r, 1
                    elif r == x:
                        y, st = l, 1
                elif p[0] == fam:
                    if p[1] == "l" and l == x:
                        y, st = r, 2 if p[2] == "t" else 1
                    elif p[1] == "g" and r == x:
                        y, st = l, 2 if p[2] == "t" else 1
                if st:
                    v = max(best[x], st)
                    if best.get(y, 0) < v:
                        best[y] = v
                        work.append(y)
        r = best.get(b, 0)
        return r if a != b else 1

    def refine(self, st, t, iset):
        """constrain term t to iset; False if empty"""
        if isinstance(t, int):
            return any(l <= t <= h for l, h in iset)
        w = width(t)
        cur = self.ranges(st, t)
        new = iset_and(cur, iset)
        if not new:
            return False
        if new == cur:
            return True
        if t[0] == "zx":
            return self.refine(st, t[1], iset_and(new, ((0, mask(width(t[1]))),)))
        lv = leaves(t)
        if t[0] != "s" and len(lv) == 1:
            s, = lv
            rs = self.ranges(st, s)
            if iset_count(rs) <= 256:
                try:
                    ok = [v for v in iset_iter(rs) if any(l <= evalt(t, {s: v}, self.prog) <= h for l, h in new)]
                    if not ok:
                        return False
                    st.cons[s] = iset_from(ok)
                    return True
                except KeyError:
                    pass
        if t[0] == "lin" and len(t[2]) == 1:
            (x, co), = t[2]
            m = mask(w)
            if co == 1:
                l = []
                for lo, hi in new:
                    a, b = lo - t[1], hi - t[1]
                    if b < 0:
                        a += m + 1
                        b += m + 1
                    if a >= 0:
                        l.append((a, b))
                    else:
                        l.append((0, b))
                        l.append((a & m, m))
                return self.refine(st, x, iset_norm(l))
            if co == m:
                l = []
                for lo, hi in new:
                    a, b = t[1] - hi, t[1] - lo
                    if a >= 0:
                        l.append((a, b))
                    elif b < 0:
                        l.append((a & m, b & m))
                    else:
                        l.append((0, b))
                        l.append((a & m, m))
                return self.refine(st, x, iset_norm(l))
        if t[0] == "sx" :
            wi = width(t[1])
            l = []
            h = 1 << (wi - 1)
            for lo, hi in new:
                if hi < h:
                    l.append((lo, hi))
                elif lo > mask(w) - h:
                    l.append((lo & mask(wi), hi & mask(wi)))
                else:
                    l = None
                    break
            if l is not None:
                return self.refine(st, t[1], iset_norm(l))
        if t[0] == "op" and isinstance(t[4], int) and t[4] and t[1] in ("lshr", "udiv"):
            # the quotient determines a range of the dividend
            d = (1 << t[4]) if t[1] == "lshr" else t[4]
            return self.refine(st, t[3], iset_norm([(lo * d, min(mask(w), hi * d + d - 1)) for lo, hi in new if lo * d <= mask(w)]))
        if t[0] == "op" and t[1] == "and" and isinstance(t[4], int) and t[4] and ((t[4] | (t[4] - 1)) == mask(w)):
            # the upper bits: multiples of the lowest mask bit
            d = t[4] & -t[4]
            return self.refine(st, t[3], iset_norm([(-(-lo // d) * d, min(mask(w), hi // d * d + d - 1)) for lo, hi in new if -(-lo // d) <= hi // d]))
        st.cons[t] = new
        return True

    def assume(self, st, c, truth):
        """list of states (0, 1 or 2) where c == truth; may mutate st"""
        if isinstance(c, int):
            return [st] if bool(c) == truth else []
        k = c[0]
        d = self.decide(st, c)
        if d is not None:
            return [st] if d == truth else []
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                r = []
                for s in self.assume(st, c[1], truth):
                    r += self.assume(s, c[2], truth)
                return r
            s2 = st.copy()
            r = self.assume(st, c[1], truth)
            for s in self.assume(s2, c[1], not truth):
                r += self.assume(s, c[2], truth)
            return r
        if k == "s":
            st.cons[c] = ((int(truth), int(truth)),)
            return [st]
        if k == "cmp":
            p, a, b = c[1], c[2], c[3]
            if not truth:
                p = INV[p]
            w = cmpw(c)
            if p in ("eq", "ne") and b == 0 and isinstance(a, tuple) and a[0] == "op" and a[1] == "and" and isinstance(a[4], int) \
                    and isinstance(a[3], tuple) and a[3][0] == "op" and a[3][1] == "or":
                # (x | y) & m: both parts are zero, or one is not
                x, y = (("cmp", "eq", binop("and", a[2], v, a[4]), 0) for v in a[3][3:5])
                if all(isinstance(v[2], tuple) for v in (x, y)):
                    return self.assume(st, ("and", x, y), p == "eq")
            lv = leaves(c)
            if len(lv) == 1:
                s, = lv
                rs = self.ranges(st, s)
                if iset_count(rs) <= 256:
                    try:
                        ok = [v for v in iset_iter(rs) if bool(evalt(c, {s: v}, self.prog)) == truth]
                        if not ok:
                            return []
                        st.cons[s] = iset_from(ok)
                        return [st]
                    except KeyError:
                        pass
            if isinstance(b, int):
                return [st] if self.refine(st, a, pred_set(p, b, w)) else []
            if isinstance(a, int):
                return [st] if self.refine(st, b, pred_set(SWAP[p], a, w)) else []
            if p == "eq":
                ra, rb = self.ranges(st, a), self.ranges(st, b)
                i = iset_and(ra, rb)
                if not i or not self.refine(st, a, i) or not self.refine(st, b, i):
                    return []
            elif p in ("ult", "ule", "ugt", "uge"):
                x, y = (a, b) if p[1] == "l" else (b, a)
                e = 1 if p[2] == "t" else 0
                rx, ry = self.ranges(st, x), self.ranges(st, y)
                if not rx or not ry:
                    return []
                if ry[-1][1] - e < 0 or not self.refine(st, x, ((0, ry[-1][1] - e),)):
                    return []
                if rx[0][0] + e > mask(w) or not self.refine(st, y, ((rx[0][0] + e, mask(w)),)):
                    return []
            st.facts = st.facts | {(p, a, b)}
            return [st]
        raise AnalysisError("assume %r" % (c,))

    # ---------------------------------------------------------------- memory
    def lazy_sym(self, reg, root, off, size, ty):
        for (do, n, sroot, soff, sver) in reg.lazy:
            if do <= off and off + size <= do + n:
                root, off, ver = sroot, soff + off - do, sver
                break
        else:
            ver = reg.ver
        name = ("ld", root, off, ver) if size in (1, 2, 4, 8) and ty != "x" else ("ld", root, off, ver, size)
        if ty == "p":
            return P(("*", name), 0)
        if ty in ("f32", "f64", "f80"):
            return ("fs", name)
        return S(name, size * 8)

    def load(self, st, ptr, size, ty):
        """abstract load; ptr is ('p',root,off)"""
        root, off = ptr[1], ptr[2]
        if not isinstance(off, int):
            c = self.const_of(st, off)
            if c is not None:
                off = c
        if not isinstance(off, int):
            if root[0] == "glob" and self.prog.globals.get(root[1], {}).get("const"):
                data = self.prog.global_bytes(root[1])
                if data is not None and ty != "p":
                    return ("op", "tbl", size * 8, root[1], off)
            reg = st.region(root)
            name = ("ldx", root, off, reg.ver, size, tuple(sorted((k for k in reg.cells), key=repr))[:8])
            return P(("*", name), 0) if ty == "p" else (("fs", name) if ty[0] == "f" else S(name, size * 8))
        if off >= 1 << 63:
            off -= 1 << 64
        reg = st.region(root)
        v = reg.cells.get(off)
        if v is not None and v[0] == size:
            v = v[1]
            if ty == "p" and isinstance(v, tuple) and v[0] == "s" and v[2] == 64:
                return P(("*", v[1]), 0)
            if ty != "p" and is_ptr(v):
                return self.ptr2int(v)
            return v
        # overlapping?
        over = [(o, c) for o, c in reg.cells.items() if isinstance(o, int) and o < off + size and off < o + c[0]]
        if over:
            # compose from constant bytes
            if ty != "p" and ty[0] != "f":
                bs = [None] * size
                for o, (sz, val) in over:
                    if isinstance(val, int):
                        b = (val & mask(8 * sz)).to_bytes(sz, "little")
                        for k in range(sz):
                            if off <= o + k < off + size:
                                bs[o + k - off] = b[k]
                if all(x is not None for x in bs):
                    return int.from_bytes(bytes(bs), "little")
                for o, (sz, val) in over:
                    for k in range(sz):
                        if off <= o + k < off + size and bs[o + k - off] is None:
                            bs[o + k - off] = byte_of(val, sz, k)
                if all(x is not None for x in bs):
                    if size == 1:
                        return bs[0]
                    r = 0
                    for k, b in enumerate(bs):
                        r = add(r, mulc(b if isinstance(b, int) else ("zx", b, 8 * size), 1 << 8 * k, 8 * size), 8 * size)
                    return r
            name = ("mix", root, off, size, tuple(sorted((o, c) for o, c in over)) if all(isinstance(c[1], int) for o, c in over) else reg.ver)
            return P(("*", name), 0) if ty == "p" else (("fs", name) if ty[0] == "f" else S(name, size * 8))
        if reg.default == "zero":
            return 0 if ty != "p" else 0
        if root[0] == "glob":
            g = self.prog.globals.get(root[1])
            if g and g.get("const") and "init" in g:
                v = self.const_load(root[1], off, size, ty)
                if v is not None:
                    return v
        return self.lazy_sym(reg, root, off, size, ty)

    def const_load(self, gname, off, size, ty):
        for o, sz, v in self.prog.global_cells(gname):
            if o == off and sz == size and v[0] in ("f", "g", "null", "c"):
                if v[0] == "f":
                    return ("fn", v[1])
                if v[0] == "g":
                    return P(("glob", v[1]), v[2])
                if v[0] == "null":
                    return 0
                return int(v[1])
        if ty != "p":
            data = self.prog.global_bytes(gname)
            if data is not None and off + size <= len(data) and off >= 0:
                return int.from_bytes(data[off:off + size], "little")
        return None

    def store(self, st, ptr, size, val):
        root, off = ptr[1], ptr[2]
        if not isinstance(off, int):
            c = self.const_of(st, off)
            if c is not None:
                off = c
        reg = st.wregion(root)
        if not isinstance(off, int):
            r = self.ranges(st, off)
            lo, hi = (r[0][0], r[-1][1] + size) if r else (0, mask(64))
            if hi - lo > 1 << 40:
                lo, hi = None, None
            for o in list(reg.cells):
                if lo is None or not isinstance(o, int) or (o < hi and lo < o + reg.cells[o][0]):
                    del reg.cells[o]
            reg.ver = ("v", hash((reg.ver, off)) & 0xffff)
            reg.lazy = ()
            return
        if off >= 1 << 63:
            off -= 1 << 64
        for o in [o for o, c in reg.cells.items() if isinstance(o, int) and o < off + size and off < o + c[0] and o != off]:
            sz, v = reg.cells.pop(o)
            # keep the bytes that survive
            for k in range(sz):
                b = byte_of(v, sz, k) if sz <= 8 else None
                if b is not None and not (off <= o + k < off + size):
                    reg.cells[o + k] = (1, b)
        old = reg.cells.get(off)
        if old and size < old[0] <= 8:
            for k in range(size, old[0]):
                b = byte_of(old[1], old[0], k)
                if b is not None:
                    reg.cells[off + k] = (1, b)
        reg.cells[off] = (size, val)

    def memcpy(self, st, dst, src, n):
        if not (is_ptr(dst) and is_ptr(src)):
            return
        do, so = dst[2], src[2]
        n_ = self.const_of(st, n) if not isinstance(n, int) else n
        if not isinstance(do, int) or not isinstance(so, int) or n_ is None:
            self.store_havoc(st, dst, None)
            return
        n = n_
        if dst[1] == src[1] and do == so:
            return
        sreg = st.region(src[1])
        items = [(o, c) for o, c in sreg.cells.items() if isinstance(o, int) and so <= o and o + c[0] <= so + n]
        g = self.prog.globals.get(src[1][1]) if src[1][0] == "glob" else None
        if g and g.get("const"):
            data = self.prog.global_bytes(src[1][1])
            if data is not None:
                items = [(o, (1, data[o])) for o in range(so, min(so + n, len(data)))]
        sver, slazy, sdef = sreg.ver, sreg.lazy, sreg.default
        reg = st.wregion(dst[1])
        for o in [o for o, c in reg.cells.items() if isinstance(o, int) and o < do + n and do < o + c[0]]:
            del reg.cells[o]
        if sdef == "zero":
            have = set()
            for o, c in items:
                have.update(range(o, o + c[0]))
            for o in range(so, so + n):
                if o not in have:
                    reg.cells[do + o - so] = (1, 0)
        else:
            nl = []
            for (d0, n0, r0, s0, v0) in slazy:
                lo, hi = max(d0, so), min(d0 + n0, so + n)
                if lo < hi:
                    nl.append((do + lo - so, hi - lo, r0, s0 + lo - d0, v0))
            nl.append((do, n, src[1], so, sver))
            reg.lazy = tuple(nl) + tuple(x for x in reg.lazy if not (do <= x[0] and x[0] + x[1] <= do + n))
        for o, c in items:
            reg.cells[do + o - so] = c

    def memset(self, st, dst, byte, n):
        if not is_ptr(dst):
            return
        c = self.const_of(st, n)
        if c is None or not isinstance(dst[2], int) or not isinstance(byte, int):
            self.store_havoc(st, dst, None)
            return
        do = dst[2]
        reg = st.wregion(dst[1])
        for o in [o for o, x in reg.cells.items() if isinstance(o, int) and o < do + c and do < o + x[0]]:
            del reg.cells[o]
        if byte == 0 and not reg.cells and do == 0 and c >= 64:
            reg.default = "zero"
            return
        k = 0
        while k < c:
            sz = 8 if (do + k) % 8 == 0 and c - k >= 8 else (4 if (do + k) % 4 == 0 and c - k >= 4 else 1)
            reg.cells[do + k] = (sz, int.from_bytes(bytes([byte & 255]) * sz, "little"))
            k += sz

    def store_havoc(self, st, ptr, size):
        """forget `size` bytes at ptr (None: whole region)"""
        if not is_ptr(ptr):
            return
        reg = st.wregion(ptr[1])
        lo = ptr[2] if isinstance(ptr[2], int) else None
        for o in list(reg.cells):
            if size is None or lo is None or not isinstance(o, int) or (o < lo + size and lo < o + reg.cells[o][0]):
                del reg.cells[o]
        n = st.cnt.get(("hv", ptr[1]), 0) + 1
        st.cnt[("hv", ptr[1])] = n
        nv = ("h", min(n, 6))
        if size is None or lo is None:
            reg.ver = nv
            reg.lazy = ()
            reg.default = "sym"
        else:
            reg.lazy = ((lo, size, ("hvr", ptr[1]), lo, nv),) + reg.lazy

    def ptr2int(self, v):
        if not is_ptr(v):
            return v
        if isinstance(v[1], tuple) and v[1][0] == "*":
            return add(S(v[1][1], 64), v[2], 64)
        return ("op", "addr", 64, S(("addr", v[1]), 64), v[2])

    def int2ptr(self, v):
        if isinstance(v, int) or v[0] == "fn":
            return v
        if v[0] == "op" and v[1] == "addr":
            return P(v[3][1][1], v[4])
        if v[0] == "s":
            return P(("*", v[1]), 0)
        if v[0] == "lin":
            big = [t for t, c in v[2] if c == 1 and t[0] == "s"]
            if len(big) == 1:
                return P(("*", big[0][1]), add(v, neg(big[0], 64), 64))
            ad = [t for t, c in v[2] if c == 1 and t[0] == "op" and t[1] == "addr"]
            if len(ad) == 1:
                return P(ad[0][3][1][1], add(add(v, neg(ad[0], 64), 64), ad[0][4], 64))
        return P(("*", ("i2p", v)), 0)

    # ---------------------------------------------------------------- operands
    def val(self, env, a):
        if isinstance(a, int):
            try:
                return env[a]
            except KeyError:
                raise AnalysisError("undefined SSA value %r" % a)
        k = a[0]
        if k == "c":
            return int(a[1])
        if k == "null" or k == "zero":
            return 0
        if k == "g":
            return P(("glob", a[1]), a[2])
        if k == "f":
            return ("fn", a[1])
        if k == "undef":
            return 0
        if k == "cf":
            return ("fc", a[1])
        if k == "agg":
            return ("agg", tuple(self.val(env, x) for x in a[1:]))
        if k in ("md", "bb", "asm"):
            return 0
        return S(("const", repr(a)), 64)

    # ---------------------------------------------------------------- execution
    def run(self, fn, args, st, ctx=0, depth=0):
        """interpret fn; returns list of (kind, value, state), kind in 'ret','exc'"""
        if fn.bb is None:
            raise AnalysisError("no body: %s" % fn.dm)
        if depth > self.max_depth:
            raise AnalysisError("call depth exceeded at %s" % fn.dm)
        self.prog.cfg(fn)
        self.fns_seen.add(fn.dm)
        fr = Frame()
        fr.fn, fr.ctx, fr.depth, fr.args = fn, ctx, depth, args
        env = {}
        for a, v in zip(fn.args, args):
            if a.get("byval") and is_ptr(v):
                root = ("bv", ctx, a["i"])
                st.mem[root] = Region()
                st.owned.add(root)
                self.memcpy(st, P(root), v, a["byval"])
                v = P(root)
            env[a["i"]] = v
        self.stack.append(fn)
        try:
            return self._run(fr, env, st)
        finally:
            self.stack.pop()

    def _run(self, fr, env0, st0):
        fn = fr.fn
        results = []
        seen_exit = set()
        seen = {}
        work = [(0, 0, -1, env0, st0)]
        joins = [len(p) > 1 for p in fn.pred]
        joined = {}

        def emit(kind, v, st):
            self.gc(fr, st, v)
            vk = v.key() if isinstance(v, Exc) else v
            k = (kind, vk, st.key())
            if k in seen_exit:
                return
            seen_exit.add(k)
            results.append((kind, v, st))

        while work:
            b, idx, prev, env, st = work.pop()
            while True:          # straight-line block chaining
                ins = fn.bb[b]
                if idx <= 0:
                    # phis
                    n = 0
                    new = []
                    while ins[n]["o"] == "phi":
                        if idx < 0:
                            n += 1
                            continue
                        i = ins[n]
                        for v, p in i["in"]:
                            if p == prev:
                                new.append((i["d"], self.val(env, v)))
                                break
                        else:
                            raise AnalysisError("phi without incoming edge in %s" % fn.dm)
                        n += 1
                    if new:
                        env = dict(env)
                        env.update(new)
                    hooked = idx < 0
                    idx = n
                    if joins[b]:
                        live = fn.live_in[b]
                        phid = {i["d"] for i in ins[:n]}
                        env = {k: v for k, v in env.items() if k in live or k in phid or k == "curexc" or k == "exc"}
                        if self.head_hook and not hooked and b in fn.heads:
                            alts = self.head_hook(self, fr, b, env, st)
                            if alts is not None:
                                work += [(b, -1, prev, e2, s2) for e2, s2 in alts]
                                break
                        if b in fn.heads and not hooked:
                            self.widen(fr, b, env, st)
                        if b in fn.heads:
                            self.gc_syms(fr, st, tuple(env.values()))
                        k = (st.key(), self.env_key(env))
                        sb = seen.setdefault(b, set())
                        if k in sb:
                            break
                        sb.add(k)
                        if len(sb) > self.join_at(fn, b):
                            gk = (b, frozenset(st.g.items()))
                            acc = joined.get(gk)
                            if acc is not None:
                                env, st = self.join(fr, ("J", fr.ctx, b), acc, (env, st))
                                k = (st.key(), self.env_key(env))
                                if k == acc[2]:
                                    break
                            joined[gk] = (dict(env), st.copy(), (st.key(), self.env_key(env)))
                        if len(sb) > self.max_states:
                            raise AnalysisError("state budget exceeded in %s" % fn.dm)
                nxt = None
                while idx < len(ins):
                    i = ins[idx]
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise AnalysisError("step budget exceeded in %s (entry %s)" % (fn.dm, self.stack[0].dm))
                    o = i["o"]
                    if o in ("call", "invoke"):
                        outs = self.call(fr, env, st, i)
                        conts = []
                        for kind, v, s2 in outs:
                            if kind == "ret":
                                conts.append((v, s2))
                            elif kind == "exc":
                                if o == "invoke":
                                    h = self.landing(fr, i["s"][1], v, s2)
                                    for (nb, v2, s3, propagate) in h:
                                        if propagate:
                                            emit("exc", v2, s3)
                                        else:
                                            e2 = dict(env)
                                            e2["exc"] = v2
                                            work.append((nb, 0, b, e2, s3))
                                else:
                                    emit("exc", v, s2)
                            elif kind == "dead":
                                pass
                        if not conts:
                            nxt = ("stop",)
                            break
                        for v, s2 in conts[1:]:
                            e2 = dict(env)
                            if "d" in i:
                                e2[i["d"]] = v
                            if o == "invoke":
                                work.append((i["s"][0], 0, b, e2, s2))
                            else:
                                work.append((b, idx + 1, prev, e2, s2))
                        v, st = conts[0]
                        if "d" in i:
                            if len(conts) > 1:
                                env = dict(env)
                            env[i["d"]] = v
                        if o == "invoke":
                            nxt = ("goto", i["s"][0])
                            break
                        idx += 1
                        continue
                    if o == "br":
                        s = i["s"]
                        if len(s) == 1 or "c" not in i:
                            nxt = ("goto", s[0])
                            break
                        c = self.val(env, i["c"])
                        d = self.decide(st, c) if not isinstance(c, int) else bool(c)
                        if d is None:
                            st.nf += 1
                            s2 = st.copy()
                            ts = self.assume(st, c, True)
                            fs = self.assume(s2, c, False)
                            lst = [(s[0], x) for x in ts] + [(s[1], x) for x in fs]
                            if not lst:
                                nxt = ("stop",)
                                break
                            for tb, x in lst[1:]:
                                x.log(("br", i, tb == s[0], fn))
                                work.append((tb, 0, b, dict(env), x))
                            st = lst[0][1]
                            st.log(("br", i, lst[0][0] == s[0], fn))
                            nxt = ("goto", lst[0][0])
                        else:
                            nxt = ("goto", s[0] if d else s[1])
                        break
                    if o == "switch":
                        c = self.val(env, i["c"])
                        cc = c if isinstance(c, int) else self.const_of(st, c)
                        if cc is not None:
                            t = i["df"]
                            for v, tb in i["cs"]:
                                if v == cc:
                                    t = tb
                                    break
                            nxt = ("goto", t)
                            break
                        w = width(c)
                        lst = []
                        st.nf += 1
                        rest = ((0, mask(w)),)
                        bycase = {}
                        for v, tb in i["cs"]:
                            bycase.setdefault(tb, []).append(v)
                            rest = iset_and(rest, pred_set("ne", v, w))
                        for tb, vs in bycase.items():
                            for v in vs:
                                s2 = st.copy()
                                if self.refine(s2, c, ((v, v),)):
                                    lst.append((tb, s2))
                        s2 = st.copy()
                        if rest and self.refine(s2, c, rest):
                            lst.append((i["df"], s2))
                        if not lst:
                            nxt = ("stop",)
                            break
                        for tb, x in lst[1:]:
                            x.log(("sw", i, tb, fn))
                            work.append((tb, 0, b, dict(env), x))
                        st = lst[0][1]
                        nxt = ("goto", lst[0][0])
                        break
                    if o == "ret":
                        v = self.val(env, i["a"][0]) if i["a"] else None
                        emit("ret", v, st)
                        nxt = ("stop",)
                        break
                    if o == "resume":
                        emit("exc", env.get("curexc", Exc(None, 0)), st)
                        nxt = ("stop",)
                        break
                    if o == "unreachable":
                        nxt = ("stop",)
                        break
                    if o == "select":
                        c = self.val(env, i["a"][0])
                        x, y = self.val(env, i["a"][1]), self.val(env, i["a"][2])
                        d = bool(c) if isinstance(c, int) else self.decide(st, c)
                        if x == y:
                            env[i["d"]] = x
                        elif d is not None:
                            env[i["d"]] = x if d else y
                        elif i["t"] == "i1":
                            env[i["d"]] = binop("or", 1, binop("and", 1, c, x), binop("and", 1, negate(c), y))
                        else:
                            st.nf += 1
                            s2 = st.copy()
                            lst = [(x, z) for z in self.assume(st, c, True)] + [(y, z) for z in self.assume(s2, c, False)]
                            if not lst:
                                nxt = ("stop",)
                                break
                            for v, z in lst[1:]:
                                e2 = dict(env)
                                e2[i["d"]] = v
                                work.append((b, idx + 1, prev, e2, z))
                            env = dict(env)
                            env[i["d"]] = lst[0][0]
                            st = lst[0][1]
                        idx += 1
                        continue
                    if o == "landingpad":
                        e = env.get("exc")
                        if e is None:
                            e = (Exc(None, 0), 0)
                        env = dict(env)
                        env.pop("exc", None)
                        env["curexc"] = e[0]
                        env[i["d"]] = ("agg", (e[0].obj if e[0].obj else 0, e[1]))
                        st.g["$curexc"] = e[0].tname
                        idx += 1
                        continue
                    self.inst(fr, env, st, i)
                    idx += 1
                if nxt is None or nxt[0] == "stop":
                    break
                prev, b, idx = b, nxt[1], 0
        if fr.depth > 0:
            results = self.join_exits(fr, results)
        return results

    # ---------------------------------------------------------------- joins
    def env_key(self, env):
        return frozenset((a, c.key() if isinstance(c, Exc) else (c[0].key(), c[1]) if a == "exc" else c) for a, c in env.items())

    def join_at(self, fn, b):
        return self.loop_limits.get(fn.qual, self.loop_limit) if b in fn.heads else self.merge_limit

    def join_exits(self, fr, results):
        lim = self.exit_limits.get(fr.fn.qual, self.exit_limit)
        if len(results) <= lim:
            return results
        groups = {}
        for kind, v, st in results:
            vk = v.key() if isinstance(v, Exc) else (v if isinstance(v, int) or v is None else "*")
            groups.setdefault((kind, vk, frozenset(st.g.items())), []).append((v, st))
        if len(groups) >= len(results):
            return results
        self.exit_joins[fr.fn.qual] = self.exit_joins.get(fr.fn.qual, 0) + 1
        out = []
        for n, ((kind, vk, g), l) in enumerate(groups.items()):
            v0, s0 = l[0]
            e = {"v": v0} if not isinstance(v0, Exc) else {}
            for v, s in l[1:]:
                e, s0 = self.join(fr, ("JX", fr.ctx, n), (e, s0), ({"v": v} if not isinstance(v, Exc) else {}, s))
            out.append((kind, e.get("v") if not isinstance(v0, Exc) else v0, s0))
        return out

    def join(self, fr, name, a, b):
        """least common abstraction of two (env, state) pairs with equal ghost state"""
        ea, sa = a[0], a[1]
        eb, sb = b[0], b[1]
        st = sb.copy()
        env = {}
        newsyms = []
        for d, v in eb.items():
            if d in ("exc", "curexc") or d not in ea:
                env[d] = v
            else:
                env[d] = self.joinval(name + (d,), ea[d], v, None, newsyms)
        roots = set(sa.mem) | set(sb.mem)
        for root in roots:
            ra, rb = sa.mem.get(root), sb.mem.get(root)
            if ra is rb:
                continue
            if ra is None:
                ra = Region()
            if rb is None:
                rb = Region()
            if ra.key() == rb.key():
                continue
            r = Region()
            same = ra.ver == rb.ver and ra.lazy == rb.lazy and ra.default == rb.default
            r.ver, r.lazy, r.default = (rb.ver, rb.lazy, rb.default) if same else (("j", name), (), "sym")
            for o in set(ra.cells) | set(rb.cells):
                ca, cb = ra.cells.get(o), rb.cells.get(o)
                if ca is not None and cb is not None and ca[0] == cb[0]:
                    r.cells[o] = (ca[0], self.joinval(name + (root, o), ca[1], cb[1], ca[0], newsyms))
                else:
                    c = ca or cb
                    if not same and c is ca and cb is None or (ca is not None and cb is not None):
                        pass
                    sz = max(ca[0] if ca else 0, cb[0] if cb else 0)
                    # value unknown: leave a symbol of its own so that the two sides are not confused with the initial content
                    v = c[1]
                    r.cells[o] = (c[0], self.widen_val(st, name + (root, o), v, c[0])) if not (isinstance(o, int) and self.overl(ra, rb, o, c[0])) else (c[0], self.widen_val(st, name + (root, o, "x"), v, c[0]))
                    newsyms.append(None)
            # overlapping cells of different shapes: drop to one symbol each is unsound to keep both, so remove them
            offs = sorted((o for o in r.cells if isinstance(o, int)))
            for x, y in zip(offs, offs[1:]):
                if x in r.cells and y in r.cells and x + r.cells[x][0] > y:
                    del r.cells[x]
                    if y in r.cells:
                        del r.cells[y]
                    r.ver = ("j", name)
            st.mem[root] = r
            st.owned.add(root)
        cons = {}
        for t, c in sb.cons.items():
            c2 = sa.cons.get(t)
            if c2 is not None:
                cons[t] = c if c == c2 else iset_norm(list(c) + list(c2))
        ns = set(x for x in newsyms if x is not None)
        if ns:
            cons = {t: c for t, c in cons.items() if not (leaves(t) & ns)}
        # hull of the joined scalars
        st.cons = cons
        st.facts = frozenset(f for f in (sa.facts & sb.facts) if not ns or not ((leaves(f[1]) | leaves(f[2])) & ns))
        for s, x, y in [n for n in self._hull]:
            rx, ry = self.ranges(sa, x), self.ranges(sb, y)
            if rx and ry:
                u = iset_norm(list(rx) + list(ry))
                if len(u) > 8:
                    u = ((u[0][0], u[-1][1]),)
                if name[0] == "JX" or (s == x and u == self.ranges(sa, x)):
                    if u != ((0, mask(width(s))),):
                        st.cons[s] = u
        self._hull.clear()
        return env, st

    def overl(self, ra, rb, o, sz):
        return False

    def joinval(self, name, a, b, size, newsyms):
        if a == b:
            return a
        ta = a[0] if isinstance(a, tuple) else None
        tb = b[0] if isinstance(b, tuple) else None
        if ta is not None and ta == tb and ta in ("str", "vec", "deq", "lst") and len(a) == len(b):
            n = self.joinval(name + ("len",), a[1], b[1], 8, newsyms)
            return (ta, n, a[2] if a[2] == b[2] else (name, "id")) + b[3:]
        if ta in ("str", "vec", "deq", "lst") or tb in ("str", "vec", "deq", "lst"):
            t = ta if ta in ("str", "vec", "deq", "lst") else tb
            return (t, self.jsym(name + ("len",), 64, newsyms), (name, "id"))
        if ta == "p" and tb == "p" and a[1] == b[1]:
            return P(a[1], self.jsym(name + ("off",), 64, newsyms))
        if ta in ("p", "fn") or tb in ("p", "fn"):
            self.jsym(name, 64, newsyms)
            return P(("*", name), 0)
        if ta in ("fs", "fc") or tb in ("fs", "fc"):
            return ("fs", name)
        if ta == "agg" and tb == "agg" and len(a[1]) == len(b[1]):
            return ("agg", tuple(self.joinval(name + (k,), x, y, None, newsyms) for k, (x, y) in enumerate(zip(a[1], b[1]))))
        w = size * 8 if size and size <= 8 else (width(b) if not isinstance(b, int) else width(a) if not isinstance(a, int) else 64)
        s = self.jsym(name, w, newsyms)
        self._hull.append((s, a, b))
        return s

    def jsym(self, name, w, newsyms):
        s = S(name, w)
        newsyms.append(s)
        return s

    def landing(self, fr, lb, exc, st):
        """which clause of the landing pad at block lb takes exc -> [(block, (exc, selector), state, propagate)]"""
        ins = fr.fn.bb[lb]
        lp = next(i for i in ins if i["o"] == "landingpad")
        out = []
        if exc.tname is not None:
            for iscatch, cl in lp["cc"]:
                if not iscatch:
                    continue
                if cl[0] == "null":
                    return [(lb, (exc, -1), st, False)]
                tn = self.prog.globals[cl[1]]["dm"].replace("typeinfo for ", "")
                if self.is_a(exc.tname, tn):
                    return [(lb, (exc, self.typeid(cl[1])), st, False)]
            if lp["cl"]:
                return [(lb, (exc, 0), st, False)]
            return [(lb, exc, st, True)]
        # unknown exception: any clause may take it
        stop = False
        for iscatch, cl in lp["cc"]:
            if not iscatch:
                continue
            s2 = st.copy()
            if cl[0] == "null":
                out.append((lb, (exc, -1), s2, False))
                stop = True
                break
            tn = self.prog.globals[cl[1]]["dm"].replace("typeinfo for ", "")
            out.append((lb, (Exc(tn, exc.obj), self.typeid(cl[1])), s2, False))
            if tn == "std::exception":
                stop = True     # user exceptions are assumed to derive from std::exception
                break
        if not stop:
            if lp["cl"]:
                out.append((lb, (exc, 0), st, False))
            else:
                out.append((lb, exc, st, True))
        return out

    def typeid(self, g):
        return 1 + (hash(g) & 0x3fffffff)

    def ccmp(self, st, p, a, b, i):
        """integer/pointer comparison"""
        pa, pb = is_ptr(a), is_ptr(b)
        if pa or pb or (isinstance(a, tuple) and a[0] == "fn") or (isinstance(b, tuple) and b[0] == "fn"):
            if a == b:
                return int(PRED[p](0, 0, 64))
            if isinstance(a, tuple) and a[0] == "fn" or isinstance(b, tuple) and b[0] == "fn":
                if p in ("eq", "ne") and not (pa and a[1][0] == "*") and not (pb and b[1][0] == "*"):
                    return int(p == "ne")
                return S(("fcmp", repr((p, a, b))), 1)
            if pa and pb:
                if a[1] == b[1]:
                    return self.icmp(st, p, a[2], b[2], 64)
                sa = a[1][0] == "*"
                sb = b[1][0] == "*"
                if p in ("eq", "ne") and not sa and not sb:
                    return int(p == "ne")
                # a pointer read from memory that existed on entry cannot equal a local of a later activation
                if p in ("eq", "ne") and self.distinct(a[1], b[1]):
                    return int(p == "ne")
                return self.icmp(st, p, self.ptr2int(a), self.ptr2int(b), 64)
            q, z = (a, b) if pa else (b, a)
            if z == 0 and p in ("eq", "ne"):
                if q[1][0] == "*" and q[2] == 0:
                    return self.icmp(st, p, S(q[1][1], 64), 0, 64)
                if q[1][0] == "*" and not isinstance(q[2], int):
                    return self.icmp(st, p, self.ptr2int(q), 0, 64)
                return int(p == "ne")
            return self.icmp(st, p, self.ptr2int(a), self.ptr2int(b), 64)
        w = int(i["ot"][1:]) if i["ot"][0] == "i" else 64
        return self.icmp(st, p, a, b, w)

    def distinct(self, ra, rb):
        if ra in self.apart and rb in self.apart and ra != rb:
            return True
        for x, y in ((ra, rb), (rb, ra)):
            if x[0] in ("al", "bv") and y[0] == "*":
                n = y[1]
                while isinstance(n, tuple):
                    if n[0] == "ld":
                        r = n[1]
                        if r[0] in ("al", "bv"):
                            return False
                        if r[0] == "*":
                            n = r[1]
                            continue
                        return True
                    return False
        return False

    def icmp(self, st, p, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return int(PRED[p](a & mask(w), b & mask(w), w))
        for t in (a, b):
            if isinstance(t, tuple) and t[0] in ("fs", "fc", "str", "agg", "fn"):
                return S(("ucmp", repr((p, a, b))), 1)
        if isinstance(a, int):
            p, a, b = SWAP[p], b, a
        # (zext i1) compared with constant
        if isinstance(b, int) and a[0] == "zx" and width(a[1]) == 1 and b in (0, 1) and p in ("eq", "ne"):
            t = a[1]
            return t if (p == "ne") == (b == 0) else negate(t)
        if isinstance(b, int) and width(a) == 1 and p in ("eq", "ne"):
            return a if (p == "ne") == (b == 0) else negate(a)
        if isinstance(b, int) and a[0] == "zx" and b <= mask(width(a[1])) and p in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            return self.icmp(st, p, a[1], b, width(a[1]))
        if not isinstance(b, int) and a[0] == "zx" and b[0] == "zx" and width(a[1]) == width(b[1]) and p in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            return self.icmp(st, p, a[1], b[1], width(a[1]))
        # x - y == 0
        if b == 0 and p in ("eq", "ne") and a[0] == "lin" and len(a[2]) == 2:
            (x, cx), (y, cy) = a[2]
            m = mask(w)
            if cx == 1 and cy == m:
                return self.icmp(st, p, x, add(y, -a[1] & m, w) if a[1] else y, w)
            if cy == 1 and cx == m:
                return self.icmp(st, p, y, add(x, -a[1] & m, w) if a[1] else x, w)
        # common linear part (no overflow reasoning needed for eq/ne)
        if p in ("eq", "ne") and not isinstance(b, int):
            d = add(a, neg(b, w), w)
            if isinstance(d, int):
                return int((d == 0) == (p == "eq"))
            if d[0] != "lin" or len(d[2]) < len(lin_parts(a, w)[1]) + len(lin_parts(b, w)[1]) - 1:
                if d[0] == "s" or (d[0] == "lin" and len(d[2]) == 1):
                    return self.icmp(st, p, d, 0, w)
        c = ("cmp", p, a, b)
        dd = self.decide(st, c)
        return c if dd is None else int(dd)

    def cast_w(self, t):
        return int(t[1:]) if t[0] == "i" else 64

    def inst(self, fr, env, st, i):
        o = i["o"]
        if o == "alloca":
            root = ("al", fr.ctx, i["d"])
            st.mem[root] = Region()
            st.owned.add(root)
            n = st.cnt.get(("hv", root), 0)
            if n:
                st.mem[root].ver = ("h", n)
            if "vt" in i:
                self.obj_types.setdefault(root, (i.get("vn"), i["vt"]))
            env[i["d"]] = P(root)
            return
        if o == "load":
            p = self.val(env, i["a"][0])
            t = i["t"]
            if not is_ptr(p):
                p = self.int2ptr(p)
                if not is_ptr(p):
                    env[i["d"]] = self.top(st, fr, i)
                    return
            if self.mem_hook:
                self.mem_hook(self, st, fr, i, p, i["sz"], False, None)
            if t[0] in "ipf" and t != "ppc":
                env[i["d"]] = self.load(st, p, i["sz"], t)
            else:
                env[i["d"]] = self.load_agg(st, p, t, i)
            return
        if o == "store":
            v = self.val(env, i["a"][0])
            p = self.val(env, i["a"][1])
            if not is_ptr(p):
                p = self.int2ptr(p)
                if not is_ptr(p):
                    return
            if self.mem_hook:
                self.mem_hook(self, st, fr, i, p, i["sz"], True, v)
            w = i["st"]
            if isinstance(v, tuple) and v[0] == "agg":
                self.store_agg(st, p, w, v)
                return
            self.store(st, p, i["sz"], v)
            return
        if o == "getelementptr":
            p = self.val(env, i["a"][0])
            off = i["off"]
            var = [(self.val(env, v), s) for v, s in i["vo"]]
            if not is_ptr(p):
                if isinstance(p, int):
                    r = p + off
                    for v, s in var:
                        r = add(r, mulc(v, s, 64), 64)
                    env[i["d"]] = r & mask(64) if isinstance(r, int) else self.int2ptr(r)
                    return
                p = self.int2ptr(p)
            r = p[2]
            if var:
                r = add(r if not isinstance(r, int) else r & mask(64), off & mask(64), 64)
                for v, s in var:
                    if is_ptr(v):
                        v = self.ptr2int(v)
                    if isinstance(v, int):
                        v &= mask(64)
                    r = add(r, mulc(v, s & mask(64), 64), 64)
                if isinstance(r, int) and r >> 63:
                    r -= 1 << 64
            elif isinstance(r, int):
                r += off
            else:
                r = add(r, off & mask(64), 64)
            if not isinstance(r, int) and depth(r) > 12:
                r = self.fresh(st, ("gep", fr.ctx, i["d"]), 64)
            env[i["d"]] = P(p[1], r)
            return
        if o == "icmp":
            a, b = self.val(env, i["a"][0]), self.val(env, i["a"][1])
            env[i["d"]] = self.ccmp(st, i["p"], a, b, i)
            return
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = self.val(env, i["a"][0]), self.val(env, i["a"][1])
            w = self.cast_w(i["t"])
            if is_ptr(a):
                a = self.ptr2int(a)
            if is_ptr(b):
                b = self.ptr2int(b)
            if isinstance(a, tuple) and a[0] == "fn" and o == "and" and b == 1:
                env[i["d"]] = 0           # pointer to a non-virtual member function
                return
            for t in (a, b):
                if isinstance(t, tuple) and t[0] not in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or"):
                    env[i["d"]] = self.top(st, fr, i)
                    return
            # pointer difference inside one object
            if op_is_diff(o, a, b):
                env[i["d"]] = add(a[4], neg(b[4], 64), 64)
                return
            r = binop(o, w, a, b)
            if not isinstance(r, int):
                if depth(r) > self.term_depth:
                    rr = self.ranges(st, r)
                    r = self.top(st, fr, i)
                    st.cons[r] = rr
            env[i["d"]] = r
            return
        if o == "zext":
            a = self.val(env, i["a"][0])
            wf = self.cast_w(i["ot"])
            env[i["d"]] = (a & mask(wf)) if isinstance(a, int) else (a[1] and ("zx", a[1], self.cast_w(i["t"])) if a[0] == "zx" else ("zx", a, self.cast_w(i["t"])))
            return
        if o == "sext":
            a = self.val(env, i["a"][0])
            wf, wt = self.cast_w(i["ot"]), self.cast_w(i["t"])
            if isinstance(a, int):
                env[i["d"]] = sgn(a & mask(wf), wf) & mask(wt)
            else:
                r = self.ranges(st, a)
                if r and r[-1][1] < 1 << (wf - 1):
                    env[i["d"]] = ("zx", a, wt)
                else:
                    env[i["d"]] = ("sx", a, wt)
            return
        if o == "trunc":
            a = self.val(env, i["a"][0])
            w = self.cast_w(i["t"])
            if isinstance(a, int):
                env[i["d"]] = a & mask(w)
                return
            if is_ptr(a) or a[0] in ("agg", "fs", "fc", "fn", "str"):
                env[i["d"]] = self.top(st, fr, i)
                return
            if a[0] == "zx":
                wi = width(a[1])
                if wi == w:
                    env[i["d"]] = a[1]
                    return
                if wi < w:
                    env[i["d"]] = ("zx", a[1], w)
                    return
                a = a[1]
            if a[0] == "sx" and width(a[1]) == w:
                env[i["d"]] = a[1]
                return
            if w == 1:
                if width(a) == 8 and a[0] == "s":
                    if not self.refine(st, a, ((0, 1),)):
                        st.cons[a] = ((0, 1),)
                    env[i["d"]] = self.icmp(st, "ne", a, 0, 8)
                    return
                env[i["d"]] = self.icmp(st, "ne", binop("and", width(a), a, 1), 0, width(a))
                return
            if a[0] == "lin":
                r = lin_make(a[1], {("tr", k, w) if not (k[0] == "zx" and width(k[1]) == w) and not (k[0] == "sx" and width(k[1]) == w) else k[1]: c for k, c in a[2]}, w)
                env[i["d"]] = r
                return
            if a[0] == "op" and a[1] in ("and", "or", "xor") :
                x, y = a[3], a[4]
                x = x & mask(w) if isinstance(x, int) else (x[1] if x[0] == "zx" and width(x[1]) == w else ("tr", x, w))
                y = y & mask(w) if isinstance(y, int) else (y[1] if y[0] == "zx" and width(y[1]) == w else ("tr", y, w))
                env[i["d"]] = binop(a[1], w, x, y)
                return
            env[i["d"]] = ("tr", a, w)
            return
        if o == "ptrtoint":
            env[i["d"]] = self.ptr2int(self.val(env, i["a"][0]))
            return
        if o == "inttoptr":
            env[i["d"]] = self.int2ptr(self.val(env, i["a"][0]))
            return
        if o in ("bitcast", "freeze", "addrspacecast"):
            env[i["d"]] = self.val(env, i["a"][0])
            return
        if o == "extractvalue":
            v = self.val(env, i["a"][0])
            for k in i["ix"]:
                if isinstance(v, tuple) and v[0] == "agg":
                    v = v[1][k] if k < len(v[1]) else 0
                elif v == 0:
                    v = 0
                else:
                    v = self.topt(st, fr, i)
            if i["t"] == "p" and isinstance(v, tuple) and v[0] == "s":
                v = P(("*", v[1]), 0)
            env[i["d"]] = v
            return
        if o == "insertvalue":
            v = self.val(env, i["a"][0])
            x = self.val(env, i["a"][1])
            k = i["ix"][0]
            l = list(v[1]) if isinstance(v, tuple) and v[0] == "agg" else []
            while len(l) <= k:
                l.append(0)
            if len(i["ix"]) == 1:
                l[k] = x
            env[i["d"]] = ("agg", tuple(l))
            return
        if o == "atomicrmw":
            p = self.val(env, i["a"][0])
            if is_ptr(p) and self.mem_hook:
                self.mem_hook(self, st, fr, i, p, 8, True, None)
            env[i["d"]] = self.top(st, fr, i)
            if is_ptr(p):
                self.store_havoc(st, p, 8)
            return
        if o == "cmpxchg":
            env[i["d"]] = ("agg", (self.top(st, fr, i), S(("cx", fr.ctx, i["d"]), 1)))
            return
        if o == "fcmp":
            a, b = self.val(env, i["a"][0]), self.val(env, i["a"][1])
            env[i["d"]] = ("cmp", "eq", S(("fcmp", i["p"], a, b), 8), 1) if False else S(("fcmp", i["p"], a, b), 1)
            return
        if o in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc", "uitofp", "sitofp", "frem"):
            env[i["d"]] = ("fs", (o,) + tuple(self.val(env, x) for x in i["a"]))
            return
        if o in ("fptosi", "fptoui"):
            env[i["d"]] = S((o, self.val(env, i["a"][0])), self.cast_w(i["t"]))
            return
        if o == "fence":
            return
        if "d" in i:
            env[i["d"]] = self.topt(st, fr, i)

    def top(self, st, fr, i):
        w = self.cast_w(i["t"]) if i["t"][0] == "i" else 64
        return self.fresh(st, ("t", fr.ctx, i["d"]), w)

    def topt(self, st, fr, i, tag="t"):
        t = i.get("t", "v")
        name = (tag, fr.ctx, i.get("d", id(i)))
        if t == "p":
            return self.freshp(st, name)
        if t[0] == "i":
            return self.fresh(st, name, int(t[1:]))
        if t in ("f32", "f64", "f80"):
            return ("fs", self.fresh(st, name, 64)[1])
        if t == "v":
            return None
        n = self.fresh(st, name, 64)[1]
        return ("agg", tuple(S((n, "f", k), 64) for k in range(4)))

    def load_agg(self, st, p, t, i):
        # struct {T0, T1} loads: treat as 8-byte fields
        n = max(1, (i["sz"] + 7) // 8)
        if not isinstance(p[2], int):
            return self.topt(st, None, i) if False else ("agg", tuple(S(("lagg", p, k), 64) for k in range(n)))
        return ("agg", tuple(self.load(st, P(p[1], p[2] + 8 * k), 8, "i64") for k in range(n)))

    def store_agg(self, st, p, w, v):
        if not isinstance(p[2], int):
            self.store_havoc(st, p, None)
            return
        for k, x in enumerate(v[1]):
            self.store(st, P(p[1], p[2] + 8 * k), 8, x)

    # ---------------------------------------------------------------- widening / gc
    def widen(self, fr, b, env, st):
        k = (fr.ctx, b)
        prev = st.lc.get(k)
        if prev is None:
            st.lc[k] = (1, st.nf, dict(st.mem), dict(env))
            st.owned = set()
            return
        cnt, nf, omem, oenv = prev
        if nf == st.nf and cnt < 600:
            st.lc[k] = (cnt if cnt >= 1 else 1, nf, dict(st.mem), dict(env))
            st.owned = set()
            return
        cnt += 1
        if cnt > self.unroll:
            self.rebound = set()
            done = set()
            for d, v in list(env.items()):
                if d in ("exc", "curexc"):
                    continue
                if oenv.get(d, v) != v:
                    env[d] = self.widen_val(st, ("w", fr.ctx, b, d), v)
                    done.add(d)
            for root, reg in list(st.mem.items()):
                oreg = omem.get(root)
                if oreg is None or oreg is reg:
                    continue
                offs = {o for o in set(reg.cells) | set(oreg.cells) if reg.cells.get(o) != oreg.cells.get(o)}
                if offs or reg.ver != oreg.ver or reg.lazy != oreg.lazy:
                    r = st.wregion(root)
                    for o in offs:
                        c = reg.cells.get(o)
                        if c is None:
                            continue
                        r.cells[o] = (c[0], self.widen_val(st, ("w", fr.ctx, b, root, o), c[1], c[0]))
                        done.add((root, o))
                    if reg.ver != oreg.ver:
                        r.ver = ("wv", fr.ctx, b)
                    if reg.lazy != oreg.lazy:
                        r.lazy = oreg.lazy if len(oreg.lazy) <= len(reg.lazy) and False else reg.lazy[:4]
            R, self.rebound = self.rebound, None
            # values that look unchanged but are expressed by a name that now stands for another value
            while R:
                self.rebound = set()
                for d, v in list(env.items()):
                    if d not in done and d not in ("exc", "curexc") and self.stale(v, R):
                        env[d] = self.widen_val(st, ("w", fr.ctx, b, d), v)
                        done.add(d)
                for root, reg in list(st.mem.items()):
                    if root[0] not in ("al", "bv"):
                        continue
                    for o, c in list(reg.cells.items()):
                        if (root, o) not in done and self.stale(c[1], R):
                            st.wregion(root).cells[o] = (c[0], self.widen_val(st, ("w", fr.ctx, b, root, o), c[1], c[0]))
                            done.add((root, o))
                R, self.rebound = self.rebound, None
        st.lc[k] = (cnt, st.nf, dict(st.mem), dict(env))
        st.owned = set()

    def stale(self, v, R):
        if not isinstance(v, tuple) or not v or v[0] not in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or", "p"):
            return False
        return any(self.mentions(v, x) for x in R)

    def widen_val(self, st, name, v, size=None):
        if isinstance(v, tuple) and v and v[0] not in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or", "p", "agg", "fs", "fc", "fn"):
            # model objects: ('str', len, id) / ('vec', len, id) ...
            if len(v) >= 3:
                s = S((name, "len"), 64)
                self.drop(st, s)
                return (v[0], s, (name, "id")) + v[3:]
            return v
        if is_ptr(v):
            s = S(name, 64)
            self.drop(st, s)
            if v[1][0] not in ("*",):
                # same object, unknown offset
                o = S((name, "off"), 64)
                self.drop(st, o)
                return P(v[1], o)
            return P(("*", name), 0)
        if isinstance(v, tuple) and v[0] in ("fs", "fc"):
            return ("fs", name)
        if isinstance(v, tuple) and v[0] == "agg":
            return ("agg", tuple(self.widen_val(st, (name, k), x) for k, x in enumerate(v[1])))
        w = width(v) if not isinstance(v, int) else (size * 8 if size else 64)
        s = S(name, w)
        self.drop(st, s)
        return s

    def gc(self, fr, st, v):
        """drop this activation's locals and the constraints on temporaries that nothing can reach any more"""
        ctx = fr.ctx
        keep = v
        for root in [r for r in st.mem if r[0] in ("al", "bv") and r[1] == ctx]:
            del st.mem[root]
        for k in [k for k in st.lc if k[0] == ctx]:
            del st.lc[k]
        self.gc_syms(fr, st, keep)

    def gc_syms(self, fr, st, keep):
        ctx = fr.ctx
        if self.gc_ghosts:
            cand = []
            for k in st.g:
                if isinstance(k, tuple) and len(k) == 2 and k[0] in self.gc_ghosts and is_ptr(k[1]) and k[1][1][0] == "*" \
                        and (self.is_local_sym(k[1][1][1], ctx) or self.is_site_name(k[1][1][1], ctx)):
                    cand.append(k)
            if cand:
                live = self.reach_syms(st, keep, False)
                liver = self.reach_roots(st, keep)
                for k in cand:
                    n = k[1][1][1]
                    if S(n, 64) not in live and k[1][1] not in liver:
                        del st.g[k]
        if len(st.cons) + len(st.facts) > 0:
            live = None
            dead = []
            for t in list(st.cons) + [x for f in st.facts for x in f[1:]]:
                for s in leaves(t):
                    n = s[1]
                    if self.is_local_sym(n, ctx):
                        if live is None:
                            live = self.reach_syms(st, keep)
                        if s not in live:
                            dead.append(s)
            for s in set(dead):
                self.drop(st, s)

    def is_local_sym(self, n, ctx):
        # fresh symbols are ((tag, ctx, ...), k); loads from dead locals are ('ld', ('al', ctx, ..)..)
        if isinstance(n, tuple) and n:
            if isinstance(n[0], tuple) and len(n) == 2 and n[0] and isinstance(n[0][0], str) and len(n[0]) > 1:
                for x in n[0][1:]:
                    if isinstance(x, int):
                        return self.desc(x, ctx)
            if n[0] in ("ld", "ldx", "mix") and isinstance(n[1], tuple) and n[1][0] in ("al", "bv"):
                return self.desc(n[1][1], ctx)
            if n[0] == "w":
                return self.desc(n[1], ctx)
        return False

    def desc(self, c, ctx):
        while c is not None:
            if c == ctx:
                return True
            c = self.ctx_parent.get(c)
        return False

    def is_site_name(self, n, ctx):
        return isinstance(n, tuple) and len(n) == 2 and isinstance(n[0], tuple) and len(n[0]) >= 2 and isinstance(n[0][1], int) and self.desc(n[0][1], ctx)

    def reach_roots(self, st, v):
        acc = set()

        def go(x):
            if isinstance(x, Exc):
                x = x.obj
            if isinstance(x, tuple):
                if is_ptr(x):
                    acc.add(x[1])
                for y in x:
                    if isinstance(y, tuple):
                        go(y)
        go(v)
        for r in st.mem.values():
            for c in r.cells.values():
                go(c[1])
        for k, x in st.g.items():
            if k[0] == "fr":
                go(x)
        return acc

    def reach_syms(self, st, v, ghosts=True):
        acc = set()
        if isinstance(v, Exc):
            v = v.obj
        self._gl(v, acc)
        for r in st.mem.values():
            for c in r.cells.values():
                x = c[1]
                if isinstance(x, tuple):
                    if x and x[0] in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or", "p", "agg"):
                        leaves(x, acc)
                    else:
                        for y in x[1:]:
                            if isinstance(y, tuple):
                                leaves(y, acc)
        if ghosts:
            for x in st.g.values():
                self._gl(x, acc)
        return acc

    def _gl(self, x, acc):
        if isinstance(x, Exc):
            x = x.obj
        if isinstance(x, tuple):
            if x and x[0] in ("s", "lin", "zx", "sx", "tr", "op", "cmp", "not", "and", "or", "p", "agg"):
                leaves(x, acc)
            else:
                for y in x:
                    self._gl(y, acc)

    # ---------------------------------------------------------------- calls
    def call(self, fr, env, st, i):
        c = i["f"]
        args = [self.val(env, a) for a in i["a"]]
        if isinstance(c, list) and c[0] == "f":
            name = c[1]
        elif isinstance(c, list):
            return [("ret", 0, st)]
        else:
            v = self.val(env, c)
            if isinstance(v, tuple) and v[0] == "fn":
                name = v[1]
            else:
                return self.indirect(fr, st, i, v, args)
        fn = self.prog.fn[name]
        return self.invoke(fr, st, i, fn, args)

    def indirect(self, fr, st, i, v, args):
        h = self.models.get("$indirect")
        if h:
            r = h(self, st, fr, i, args, v)
            if r is not NotImplemented:
                return self.norm(r, st)
        self.unknown_calls["<indirect>"] = self.unknown_calls.get("<indirect>", 0) + 1
        for a in args:
            if is_ptr(a):
                self.store_havoc(st, a, None)
        return [("ret", self.topt(st, fr, i), st)]

    def norm(self, r, st):
        if isinstance(r, list):
            return r
        return [("ret", r, st)]

    def invoke(self, fr, st, i, fn, args):
        key = fn.name
        m = self.model_cache.get(key, 0)
        if m == 0:
            m = self.models.get(fn.qual)
            if m is None:
                m = self.models.get(fn.name)
            if m is None:
                for pr, mm in self.pats:
                    if pr(fn.qual, fn.dm):
                        m = mm
                        break
            self.model_cache[key] = m
        if m is not None:
            if self.model_hook:
                self.model_hook(self, st, fr, i, fn, args)
            r = m(self, st, fr, i, args, fn)
            if r is not NotImplemented:
                self.sites += 1
                return self.norm(r, st)
        if fn.bb is not None and fn.qual not in self.opaque:
            site = (fr.fn.name, i.get("d", -1), tuple(i.get("l", ())), id(i))
            cx = self.ctx(fr.ctx, site)
            if sum(1 for f in self.stack if f is fn) > 2:
                self.unknown_calls["recursion " + fn.qual] = 1
            else:
                return self.run(fn, args, st, cx, fr.depth + 1)
        return self.unknown(fr, st, i, fn, args)

    def unknown(self, fr, st, i, fn, args):
        n = fn.name
        if n.startswith("llvm."):
            return self.intrinsic(fr, st, i, n, args)
        self.unknown_calls[fn.qual] = self.unknown_calls.get(fn.qual, 0) + 1
        if self.model_hook:
            self.model_hook(self, st, fr, i, fn, args)
        for a in args:
            if is_ptr(a) and a[1][0] != "glob":
                self.store_havoc(st, a, None)
        return [("ret", self.topt(st, fr, i), st)]

    def intrinsic(self, fr, st, i, n, args):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            if self.mem_hook:
                if is_ptr(args[1]):
                    self.mem_hook(self, st, fr, i, args[1], args[2], False, None)
                if is_ptr(args[0]):
                    self.mem_hook(self, st, fr, i, args[0], args[2], True, None)
            if self.copy_hook:
                self.copy_hook(self, st, args[0], args[1], args[2])
            self.memcpy(st, args[0], args[1], args[2])
            return [("ret", None, st)]
        if n.startswith("llvm.memset"):
            if self.mem_hook and is_ptr(args[0]):
                self.mem_hook(self, st, fr, i, args[0], args[2], True, None)
            self.memset(st, args[0], args[1], args[2])
            return [("ret", None, st)]
        if n.startswith("llvm.threadlocal.address"):
            return [("ret", args[0], st)]
        if n.startswith("llvm.eh.typeid.for"):
            v = args[0]
            return [("ret", self.typeid(v[1][1]) if is_ptr(v) else -1 & mask(32), st)]
        if n.startswith("llvm.umin") or n.startswith("llvm.umax"):
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                return [("ret", (min if "umin" in n else max)(a, b), st)]
            return [("ret", ("op", "umin" if "umin" in n else "umax", self.cast_w(i["t"]), a, b), st)]
        if ".with.overflow" in n:
            w = int(n.rsplit(".i", 1)[1])
            a, b = args
            op = "add" if "add" in n else "sub" if "sub" in n else "mul"
            sg = "llvm.s" in n
            if isinstance(a, int) and isinstance(b, int):
                x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
                r = x + y if op == "add" else x - y if op == "sub" else x * y
                ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if sg else not (0 <= r <= mask(w))
                return [("ret", ("agg", (r & mask(w), int(ov))), st)]
            r = binop(op, w, a, b)
            if op == "add" and not sg:
                ov = self.icmp(st, "ult", r, a, w)
            elif op == "sub" and not sg:
                ov = self.icmp(st, "ult", a, b, w)
            else:
                ov = S(("ovf", n, a, b), 1)
            return [("ret", ("agg", (r, ov)), st)]
        if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"):
            return []
        if "d" in i:
            return [("ret", self.topt(st, fr, i), st)]
        return [("ret", None, st)]


def op_is_diff(o, a, b):
    return o == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "op" and b[0] == "op" and a[1] == "addr" and b[1] == "addr" and a[3] == b[3]
