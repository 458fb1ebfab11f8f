"""C31: intrusive containers keep their structure.

Every operation of the heap and of the list is interpreted from every well-formed state of bounded size (heaps of any order, rings of every length and
position), for an element type and an ordering the analysis knows nothing about; what it leaves must be the specified well-formed state.  Well-formed
states are closed under all operations, so the result covers every sequence of operations within the bound."""
from absint import State, P, S, is_ptr, mask, Exc
from model import AnalysisError, program
import std_models as sm
import objects
import fw
from rules_net import fwhere

W = "crabsa_witness::"
ITEM = W + "Item"
HEAPS = {"crab::IntrusiveHeap<%s, &%s::index, %sLess, %s>" % (ITEM, ITEM, W, c): c for c in ("false", "true")}
LIST = "crab::IntrusiveList<%s, &%s::node>" % (ITEM, ITEM)
ITER = "crab::IntrusiveIterator<%s, &%s::node>" % (ITEM, ITEM)
NODE = "crab::IntrusiveNode<%s>" % ITEM
VEC = "std::vector<%s*, std::allocator<%s*>>" % (ITEM, ITEM)
HEAP, DATA, LST = P(("*", ("heap",)), 0), ("*", ("heapdata",)), P(("*", ("list",)), 0)
POS = "every element's stored position is exact"
ORD = "the heap keeps its order"
SET = "an operation changes exactly one element's membership"
RET = "operations report what they did"
INB = "storage is only used inside its bounds"
LINK = "the list's links are consistent"
UNL = "unlinking is idempotent and leaves no dangling link"
WALK = "walking the list visits its elements in order"
COPY = "linked objects cannot be copied"
LE, LT, SZ = "#le", "#lt", "#size"


def item(k):
    return P(("*", ("item", k)), 0)


class Intr:
    def __init__(self, rep):
        self.rep = rep
        self.prog = prog = program("intr")
        self.E = E = objects.engine(prog, lists=False, timers=False, stats=False, http=False)
        E.exit_limit = E.loop_limit = E.merge_limit = 4000
        E.unroll = 60
        E.max_steps *= 30
        for q, l in prog.by_qual.items():
            if q.startswith(VEC + "::") and "(" not in q:
                E.models[q] = self.m_vec
            if q == W + "Less::operator()":
                E.models[q] = self.m_less
        E.models[W + "Less::operator()"] = self.m_less
        mem = {n: (o, s) for n, o, s, t in prog.members(prog.type(ITEM))}
        self.o_node, self.o_index, self.isz = mem["node"][0], mem["index"][0], mem["between"][0]
        self.nsize = mem["node"][1]
        self.xsize = mem["index"][1]

    def fn(self, cls, name, n=None, has=""):
        l = [f for f in self.prog.by_qual.get(cls + "::" + name, []) if f.bb and (n is None or len(f.args) == n) and has in f.dm]
        if len(l) != 1:
            raise AnalysisError("%s::%s: expected one, found %d" % (cls, name, len(l)))
        return l[0]

    def ob(self, rule, ok, f, detail, msg, s):
        return self.rep.ob(rule, bool(ok), f.qual, fwhere(self.prog, f), msg, detail, fw.path_of(self.prog, s) if not ok else ())

    def start(self):
        s = State()
        s.g[LE], s.g[LT], s.g[SZ] = frozenset(), frozenset(), 0
        for r in [HEAP[1], DATA, LST[1]] + [item(k)[1] for k in range(40)]:
            s.cons[S(r[1], 64)] = ((1, mask(64)),)
        self.E.apart = {HEAP[1], DATA, LST[1]} | {item(k)[1] for k in range(40)}
        return s

    # ---------------------------------------------------------------- order
    def leq(self, s, a, b):
        """is a <= b known (a path through known facts)"""
        if a == b:
            return True
        le, seen, todo = s.g[LE], {a}, [a]
        while todo:
            x = todo.pop()
            for p, q in le:
                if p == x and q not in seen:
                    if q == b:
                        return True
                    seen.add(q)
                    todo.append(q)
        return False

    def below(self, s, a, b):
        return any(self.leq(s, a, x) and self.leq(s, y, b) for x, y in s.g[LT])

    def m_less(self, E, st, fr, i, args, fn):
        a, b = args[-2:]
        if not all(is_ptr(x) and x[2] == 0 and x[1][0] == "*" and x[1][1][0] == "item" for x in (a, b)):
            self.ob(INB, False, fr.fn, "order", "something that is not an element is compared", st)
            return 0
        a, b = a[1][1][1], b[1][1][1]
        if self.below(st, a, b):
            return 1
        if self.leq(st, b, a):
            return 0
        s = st.copy()
        st.g[LT] = st.g[LT] | {(a, b)}
        st.g[LE] = st.g[LE] | {(a, b)}
        s.g[LE] = s.g[LE] | {(b, a)}
        return [("ret", 1, st), ("ret", 0, s)]

    # ---------------------------------------------------------------- storage
    def slot(self, E, s, k):
        return E.load(s, P(DATA, 8 * k), 8, "p")

    def m_vec(self, E, st, fr, i, args, fn):
        meth = sm.method_of(fn.qual)
        sret, a = sm.sretargs(args, fn)
        n = st.g[SZ]
        num = lambda v: v if isinstance(v, int) else E.const_of(st, v)
        if meth == "vector":
            c = num(a[1]) if len(a) > 2 else 0
            for k in range(c):
                E.store(st, P(DATA, 8 * k), 8, E.load(st, a[2], 8, "p"))
            st.g[SZ] = c
            return None
        if meth in ("~vector", "reserve", "shrink_to_fit"):
            return None
        if meth == "size":
            return n
        if meth == "empty":
            return int(n == 0)
        if meth in ("operator[]", "at"):
            k = num(a[1])
            if k is None:
                raise AnalysisError("heap storage: index is not determined")
            if k > mask(63):
                k -= 1 << 64
            if not 0 <= k < n:
                if meth == "at":
                    return [("exc", Exc("std::out_of_range", P(("exo", "oor"), 0)), st)]
                self.ob(INB, False, fr.fn, "", "the storage is used outside its bounds", st)
                return []
            self.ob(INB, True, fr.fn, "", "", st)
            return P(DATA, 8 * k)
        if meth in ("front", "back", "pop_back") and n == 0:
            self.ob(INB, False, fr.fn, "", "the storage is used outside its bounds", st)
            return []
        if meth in ("begin", "cbegin", "end", "cend"):
            p = P(DATA, 0 if "begin" in meth else 8 * n)
            if sret is not None:
                E.store(st, sret, 8, p)
                return None
            return p
        if meth == "data":
            return P(DATA, 0)
        if meth == "front":
            return P(DATA, 0)
        if meth == "back":
            return P(DATA, 8 * (n - 1))
        if meth == "pop_back":
            st.g[SZ] = n - 1
            return None
        if meth.startswith(("push_back", "emplace_back")):
            st.g[SZ] = n + 1
            E.store(st, P(DATA, 8 * n), 8, E.load(st, a[1], 8, "p"))
            return P(DATA, 8 * n) if meth.startswith("emplace") else None
        if meth == "resize":
            c = num(a[1])
            for k in range(n, c):
                E.store(st, P(DATA, 8 * k), 8, 0)
            st.g[SZ] = c
            return None
        raise AnalysisError("heap storage: %s is not modelled" % fn.dm[-80:])

    # ---------------------------------------------------------------- heap
    def run(self, f, args, st):
        self.ops = getattr(self, "ops", 0) + 1
        return self.E.run(f, args, st)

    def index(self, s, k):
        return self.E.load(s, P(item(k)[1], self.o_index), self.xsize, "i%d" % (8 * self.xsize))

    def heap(self, cls):
        E = self.E
        ctor = self.fn("", "") if False else [f for f in self.prog.fn.values() if f.bb and f.qual == W + "construct<%s>" % cls]
        if len(ctor) != 1:
            raise AnalysisError("constructor of the heap not found")
        made = [s for k, v, s in self.run(ctor[0], [HEAP], self.start()) if k == "ret"]
        citem = [f for f in self.prog.fn.values() if f.bb and f.qual == W + "construct<%s>" % ITEM][0]
        for f, what in ((self.fn(cls, "empty"), "new"),):
            for s in made:
                for k, v, x in self.run(f, [HEAP], s.copy()):
                    self.ob(RET, k == "ret" and v == 1, f, "new", "a new heap is not empty", x)
        base = made[0]
        self.s0 = base.g[SZ]
        self.first = [self.slot(E, base, k) for k in range(self.s0)]
        ins = self.fn(cls, "insert")
        inh = self.fn("crab::IntrusiveHeapIndex", "in_heap")
        # how positions are stored: learned from one element alone and three in a row
        s = base.copy()
        got = []
        for n in range(3):
            l = [x for k, v, x in self.run(citem, [item(n)], s) if k == "ret"]
            s = l[0]
            if n == 0:
                for k, v, x in self.run(inh, [P(item(0)[1], self.o_index)], s.copy()):
                    self.ob(RET, k == "ret" and v in (0, False), inh, "new", "a new element counts as inserted", x)
                self.out = self.index(s, 0)
            l = [x for k, v, x in self.run(ins, [HEAP, item(n)], s) if k == "ret"]
            if not l:
                self.ob(RET, False, ins, "learn", "insertion into a small heap does not return", s)
                return
            s = l[0]
        for r in range(3):
            p = self.slot(E, s, self.s0 + r)
            got.append(self.index(s, p[1][1][1]) if is_ptr(p) and p[1][1][0] == "item" else None)
        self.at = (lambda r: r + got[0]) if isinstance(got[0], int) else None
        if self.at is None:
            raise AnalysisError("stored positions not recognised")
        for r in range(3):
            self.ob(POS, got[r] == self.at(r), ins, "learn", "positions are not stored in order", s)
        for n in range(0, self.top):
            self.step(cls, base, n)

    def valid(self, base, n):
        """every heap of n elements: its positions are known, its keys only through the order of a heap"""
        s = base.copy()
        s.tr = None
        for r in range(n):
            self.E.store(s, P(DATA, 8 * (self.s0 + r)), 8, item(r))
            self.E.store(s, P(item(r)[1], self.o_index), self.xsize, self.at(r))
        s.g[SZ] = self.s0 + n
        s.g[LE] = frozenset((r, (r - 1) // 2) for r in range(1, n))
        return s

    def check(self, f, s, want, what):
        """is s a valid heap of exactly the elements `want`"""
        E = self.E
        n = s.g[SZ] - self.s0
        got = []
        for r in range(n):
            p = self.slot(E, s, self.s0 + r)
            got.append(p[1][1][1] if is_ptr(p) and p[2] == 0 and p[1][0] == "*" and p[1][1][0] == "item" else None)
        for k in range(self.s0):
            self.ob(INB, self.slot(E, s, k) == self.first[k], f, what, "storage before the first element is changed", s)
        if not self.ob(SET, None not in got and sorted(got) == sorted(want), f, what, "the elements in the heap are not those that should be", s):
            return
        for r, x in enumerate(got):
            self.ob(POS, self.index(s, x) == self.at(r), f, what, "an element's stored position is not where it is", s)
            if r:
                self.ob(ORD, self.leq(s, x, got[(r - 1) // 2]), f, what, "an element may be larger than the one above it", s)

    def step(self, cls, base, n):
        E, prog = self.E, self.prog
        ins, era, pop, fro, emp = [self.fn(cls, m) for m in ("insert", "erase", "pop_front", "front", "empty")]
        inh = self.fn("crab::IntrusiveHeapIndex", "in_heap")
        st = self.valid(base, n)
        new = n

        def go(f, args, s, what):
            for k, v, x in self.run(f, [HEAP] + args, s):
                if k != "ret":
                    self.ob(RET, False, f, what, "an operation on a valid heap throws", x)
                    continue
                yield v, x

        def member(s, k, yes, f, what):
            for kk, v, x in self.run(inh, [P(item(k)[1], self.o_index)], s.copy()):
                self.ob(RET, kk == "ret" and v == int(yes), inh, "%s" % what, "an element %s counts as %s" % ("in the heap" if yes else "outside", "outside" if yes else "in the heap"), x)

        def away(s):
            E.store(s, P(item(new)[1], self.o_index), self.xsize, self.out)
            return s
        for v, x in go(emp, [], st.copy(), "n=%d" % n):
            self.ob(RET, v == int(n == 0), emp, "n=%d" % n, "empty() is wrong", x)
        for v, x in go(ins, [item(new)], away(st.copy()), "insert n=%d" % n):
            self.ob(RET, v == 1, ins, "new n=%d" % n, "an insertion reports that nothing was inserted", x)
            self.check(ins, x, range(n + 1), "insert n=%d" % n)
            member(x, new, True, ins, "insert")
        for v, x in go(era, [item(new)], away(st.copy()), "erase other n=%d" % n):
            self.ob(RET, v == 0, era, "other n=%d" % n, "removing an element that is not in the heap reports a removal", x)
            self.check(era, x, range(n), "erase other n=%d" % n)
        for k in range(n):
            for v, x in go(ins, [item(k)], st.copy(), "again n=%d" % n):
                self.ob(RET, v == 0, ins, "again n=%d" % n, "an element is inserted twice", x)
                self.check(ins, x, range(n), "again n=%d" % n)
            for v, x in go(era, [item(k)], st.copy(), "erase n=%d" % n):
                self.ob(RET, v == 1, era, "n=%d" % n, "a removal reports that nothing was removed", x)
                self.check(era, x, [j for j in range(n) if j != k], "erase n=%d k=%d" % (n, k))
                member(x, k, False, era, "erase")
                self.ob(POS, self.index(x, k) == self.out, era, "erase", "a removed element keeps a position", x)
        if n:
            for v, x in go(fro, [], st.copy(), "front"):
                self.ob(ORD, v == item(0), fro, "front", "the front is not the first element", x)
            for v, x in go(pop, [], st.copy(), "pop n=%d" % n):
                self.check(pop, x, range(1, n), "pop n=%d" % n)
                member(x, 0, False, pop, "pop")
                self.ob(POS, self.index(x, 0) == self.out, pop, "pop", "a removed element keeps a position", x)

    # ---------------------------------------------------------------- lists
    def node(self, k):
        return P(LST[1], 0) if k == "list" else P(("*", ("list2",)), 0) if k == "list2" else P(item(k)[1], self.o_node)

    def ring(self, s, order):
        """links the nodes of `order` in a ring"""
        for a, b in zip(order, order[1:] + order[:1]):
            x, y = self.node(a), self.node(b)
            self.E.store(s, P(x[1], x[2] + self.o_next), 8, y)
            self.E.store(s, P(y[1], y[2] + self.o_prev), 8, x)

    def alone(self, s, k):
        for o in (self.o_next, self.o_prev):
            p = self.node(k)
            self.E.store(s, P(p[1], p[2] + o), 8, 0)

    def links(self, s, k):
        p = self.node(k)
        return tuple(self.E.load(s, P(p[1], p[2] + o), 8, "p") for o in (self.o_next, self.o_prev))

    def isring(self, rule, f, s, order, what, out=(), msg="the list's links are not those of its elements"):
        ok = all(self.links(s, a)[0] == self.node(b) and self.links(s, b)[1] == self.node(a) for a, b in zip(order, order[1:] + order[:1]))
        self.ob(rule, ok, f, what, msg, s)
        for k in out:
            self.ob(rule, self.links(s, k) == (0, 0), f, what, "an element outside any list keeps links", s)

    def lists(self):
        E, prog = self.E, self.prog
        find = lambda q: self.need1([f for f in prog.fn.values() if f.bb and f.qual == q], q)
        new_l, new_i = find(W + "construct<%s>" % LIST), find(W + "construct<%s>" % ITEM)
        del_l, del_i = find(W + "destroy<%s>" % LIST), find(W + "destroy<%s>" % ITEM)
        unl, inl = self.fn(NODE, "unlink"), self.fn(NODE, "in_list")
        emp, beg, end, fro, bak = [self.fn(LIST, m) for m in ("empty", "begin", "end", "front", "back")]
        pb, pf, ins = [self.fn(LIST, m) for m in ("push_back", "push_front", "insert")]
        E.apart = E.apart | {("*", ("list2",))}

        def one(f, args, s, what):
            out = self.run(f, args, s)
            if len(out) != 1 or out[0][0] != "ret":
                self.ob(LINK, False, f, what, "an operation does not return once", out[0][2] if out else s)
                return None, None
            return out[0][1], out[0][2]
        # which link leads forward: learned from two insertions at the end
        s = self.start()
        s.cons[S(("list2",), 64)] = ((1, mask(64)),)
        _, s = one(new_l, [LST], s, "new")
        self.o_next = self.o_prev = None
        fresh = s.copy()
        for k in (0, 1):
            _, s = one(new_i, [item(k)], s, "new")
            if k == 0:
                item0 = s.copy()
            _, s = one(pb, [LST, item(k)], s, "learn")
            if s is None:
                return
        ps = [o for o in range(0, self.nsize, 8) if E.load(s, P(LST[1], o), 8, "p") == self.node(0)]
        if len(ps) != 1 or self.nsize != 16:
            self.ob(LINK, False, pb, "learn", "two insertions at the end do not make a ring", s)
            return
        self.o_next, self.o_prev = ps[0], 8 - ps[0]
        self.isring(LINK, pb, s, ["list", 0, 1], "learn")
        self.isring(LINK, new_l, fresh, ["list"], "new", msg="a new list is not a ring of its own")
        self.isring(LINK, new_i, item0, ["list"], "new", out=(0,))

        def elems(n):
            return list(range(n))

        def state(n, extra=()):
            s = fresh.copy()
            s.tr = None
            self.ring(s, ["list"] + elems(n))
            for k in extra:
                self.alone(s, k)
            return s
        for n in range(0, self.long):
            w = "n=%d" % n
            st = state(n, (n,))
            v, x = one(emp, [LST], st.copy(), w)
            self.ob(WALK, v == int(n == 0), emp, w, "empty() is wrong", x or st)
            # walking
            v, x = one(beg, [LST], st.copy(), w)
            e, x = one(end, [LST], x, w) if x else (None, None)
            if x is None:
                continue
            it = [P(("*", ("it", k)), 0) for k in range(2)]
            E.apart = E.apart | {p[1] for p in it}
            for p in it:
                x.cons[S(p[1][1], 64)] = ((1, mask(64)),)
            self.put(x, it[0], v)
            self.put(x, it[1], e)
            inc, dec = self.fn(ITER, "operator++", 1), self.fn(ITER, "operator--", 1)
            inc2, dec2 = [f for m in ("operator++", "operator--") for f in prog.by_qual.get(ITER + "::" + m, []) if f.bb and "(int)" in f.dm]
            eq, ne, der, arr = self.fn(ITER, "operator=="), self.fn(ITER, "operator!="), self.fn(ITER, "operator*"), self.fn(ITER, "operator->")
            for r in range(n + 1):
                last = r == n
                v, x1 = one(eq, [it[0], it[1]], x.copy(), w)
                self.ob(WALK, v == int(last), eq, w, "walking does not end after the last element", x)
                v, x1 = one(ne, [it[0], it[1]], x.copy(), w)
                self.ob(WALK, v == int(not last), ne, w, "walking does not end after the last element", x)
                if last:
                    break
                for f in (der, arr):
                    v, x1 = one(f, [it[0]], x.copy(), w)
                    self.ob(WALK, v == item(r), f, w, "walking does not lead to the element", x)
                y = x.copy()
                old, y = one(inc2, [it[0], 0], y, w)
                v, x = one(inc, [it[0]], x, w)
                if x is None or y is None:
                    break
                self.ob(WALK, v == it[0] and E.load(y, it[0], 8, "p") == E.load(x, it[0], 8, "p"), inc2, w, "both increments differ", y)
                before = self.get(y, old)
                self.ob(WALK, before is not None and before != E.load(y, it[0], 8, "p") , inc2, w, "an increment returns the new position", y)
            if x is not None:
                for r in reversed(range(n)):
                    y = x.copy()
                    v, x = one(dec, [it[1]], x, w)
                    v2, y = one(dec2, [it[1], 0], y, w)
                    if x is None or y is None:
                        break
                    self.ob(WALK, v == it[1] and E.load(y, it[1], 8, "p") == E.load(x, it[1], 8, "p"), dec2, w, "both decrements differ", y)
                    v, x1 = one(der, [it[1]], x.copy(), w)
                    self.ob(WALK, v == item(r), dec, w, "walking back does not lead to the element", x)
            if n:
                v, x = one(fro, [LST], st.copy(), w)
                self.ob(WALK, v == item(0), fro, w, "front() is not the first element", st)
                v, x = one(bak, [LST], st.copy(), w)
                self.ob(WALK, v == item(n - 1), bak, w, "back() is not the last element", st)
            # insertion
            for f, want in ((pb, elems(n) + [n]), (pf, [n] + elems(n))):
                v, x = one(f, [LST, item(n)], st.copy(), w)
                if x:
                    self.isring(LINK, f, x, ["list"] + want, w)
                    v, x1 = one(inl, [self.node(n)], x, w)
                    self.ob(LINK, v == 1, inl, w, "an inserted element does not count as inserted", x)
            for at in range(n + 1):
                x = st.copy()
                v, x = one(beg, [LST], x, w)
                self.put(x, it[0], v)
                x.cons[S(it[0][1][1], 64)] = ((1, mask(64)),)
                for r in range(at):
                    v, x = one(inc, [it[0]], x, w) if x else (None, None)
                if not x:
                    break
                p = E.load(x, it[0], 8, "p")
                v, x = one(ins, [LST, p, item(n)], x, w)
                if x:
                    self.isring(LINK, ins, x, ["list"] + elems(at) + [n] + elems(n)[at:], "%s at=%d" % (w, at))
            # an element of this or of another list is not inserted again
            two = st.copy()
            self.ring(two, ["list2", 30, 31])
            for k in elems(n) + [30, 31]:
                for f in (pb, pf):
                    v, x = one(f, [LST, item(k)], two.copy(), w)
                    if x:
                        self.isring(LINK, f, x, ["list"] + elems(n), "again " + w, msg="inserting an element that is in a list changes links")
                        self.isring(LINK, f, x, ["list2", 30, 31], "again " + w, msg="inserting an element that is in a list changes links")
            # unlinking and destruction
            for k in range(n):
                for f, a in ((unl, self.node(k)), (del_i, item(k))):
                    v, x = one(f, [a], st.copy(), w)
                    if not x:
                        continue
                    rest = [j for j in range(n) if j != k]
                    self.isring(UNL, f, x, ["list"] + rest, "%s k=%d" % (w, k), out=(k,) if f is unl else (), msg="the remaining elements are not linked to each other")
                    if f is unl:
                        v, y = one(inl, [self.node(k)], x.copy(), w)
                        self.ob(UNL, v == 0, inl, w, "an unlinked element counts as linked", x)
                        v, y = one(unl, [self.node(k)], x, w)
                        if y:
                            self.isring(UNL, unl, y, ["list"] + rest, "twice", out=(k,), msg="unlinking twice changes links")
            v, x = one(unl, [self.node(n)], st.copy(), w)
            if x:
                self.isring(UNL, unl, x, ["list"] + elems(n), "none", out=(n,), msg="unlinking an element that is in no list changes links")
            v, x = one(del_i, [item(n)], st.copy(), w)
            if x:
                self.isring(UNL, del_i, x, ["list"] + elems(n), "none", msg="destroying an element that is in no list changes links")
            v, x = one(del_l, [LST], st.copy(), w)
            if x:
                bad = any(is_ptr(p) and p[1] == LST[1] for k in range(n) for p in self.links(x, k))
                self.ob(UNL, not bad, del_l, w, "a destroyed list leaves links to itself", x)
                # the elements left behind can still be unlinked in any order
                for k in range(n):
                    rest = [j for j in range(n) if j != k]
                    y = x.copy()
                    for j in [k] + rest:
                        v, y = one(unl, [self.node(j)], y, w) if y else (None, None)
                    if y:
                        self.ob(UNL, all(self.links(y, j) == (0, 0) for j in range(n)), unl, "left " + w, "elements of a destroyed list stay linked", y)

    def put(self, s, p, v):
        v = v[1][0] if isinstance(v, tuple) and v and v[0] == "agg" else v
        self.E.store(s, p, 8, v)

    def get(self, s, v):
        return v if is_ptr(v) else None

    @staticmethod
    def need1(l, what):
        if len(l) != 1:
            raise AnalysisError("%s: expected one, found %d" % (what, len(l)))
        return l[0]


def c31(_, rep):
    T = Intr(rep)
    T.top, T.long = (21, 6) if rep.tier == "quick" else (34, 8)
    for cls in HEAPS:
        T.heap(cls)
    T.lists()
    for n in ("Item", "Node", "Index", "List"):
        rep.ob(COPY, not T.prog.witness("copyable_" + n), "crab::Intrusive" + n, None, "%s can be copied or moved" % n, n)
    rep.count("operations_interpreted", T.ops)
    rep.engine(T.E)
    for r, n in ((POS, 1000), (ORD, 1000), (SET, 500), (RET, 500), (INB, 1000), (LINK, 50), (UNL, 50), (WALK, 50), (COPY, 4)):
        rep.need(r, n)
