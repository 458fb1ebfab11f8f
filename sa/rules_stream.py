"""C26: streams and buffers move exactly the returned bytes, in order, within range.

Every method is interpreted from every state of its object (positions and sizes are non-negative symbols), with a partner that takes or gives all,
part or nothing of each transfer.  Bytes are tracked as ranges of memory; range equations are proved from the path's linear facts."""
import re
from absint import State, P, S, is_ptr, add, neg, mask
from model import AnalysisError
import std_models as sm
import objects
import fw
from rules_net import fwhere
from linear import Lin, Segs

THIS = P(("*", ("this",)), 0)
DATAP, OUTP, INP = ("*", ("data",)), ("*", ("outs",)), ("*", ("ins",))
MOVE = "exactly the returned bytes are moved, in order"
REST = "what remains is what was not moved"
RANGE = "transfers stay inside what is stored or free"
FLOW = "a transfer only ends early when there is nothing to do"
SHAPE = "positions stay consistent"
VIEW = "accessors describe the stored and free bytes"
REFUSE = "impossible moves are refused"
OWN = "a stream reads and writes its own bytes"
BUF = "crab::Buffer"
BIG = 1 << 40
OPS = "#ops"
NCAP = 3


def sy(name, lo=0, hi=BIG):
    return S((name,), 64), lo, hi


def fn1(prog, q, n=None, has=""):
    fs = [f for f in prog.by_qual.get(q, []) if f.bb and not f.art and (n is None or len(f.args) == n) and has in f.dm]
    if len(fs) != 1:
        raise AnalysisError("anchor not found: %s%s (%d)" % (q, " " + has if has else "", len(fs)))
    return fs[0]


class Streams:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.E = E = objects.engine(prog, http=False)
        E.exit_limit = E.loop_limit = E.merge_limit = 2000
        E.unroll = 12
        E.term_depth = 30
        E.apart = {THIS[1], DATAP, OUTP, INP} | {("*", (x,)) for x in ("A", "B", "DA", "DB", "M", "V", "arg")}
        E.copy_hook = self.copied
        E.on("vec.insert", self.inserted)
        self.pt_in = objects.proto_state(prog, "crab::IMemoryStream", P(INP, 0)).mem[INP].cells
        self.pt_out = objects.proto_state(prog, "crab::OMemoryStream", P(OUTP, 0)).mem[OUTP].cells
        for q, root, m in (("crab::IMemoryStream::read_some", INP, self.m_in), ("crab::OMemoryStream::write_some", OUTP, self.m_out)):
            E.models[q] = lambda E2, st, fr, i, args, fn, root=root, m=m: m(E2, st, fr, i, args) if is_ptr(args[0]) and args[0][1] == root else NotImplemented
        for q in prog.by_qual:
            if re.match(r"std::__copy_move<\w+, true, std::random_access_iterator_tag>::__copy_m<.*char", q):
                E.models[q] = self.m_copy
        self.snap = None

    def m_copy(self, E, st, fr, i, args, fn):
        """what std::copy of bytes comes down to"""
        if len(args) != 3 or not (is_ptr(args[0]) and is_ptr(args[1]) and is_ptr(args[2])) or args[0][1] != args[1][1]:
            return NotImplemented
        n = sm.ptrdiff(E, args[1], args[0])
        self.copied(E, st, args[2], args[0], n)
        return P(args[2][1], add(args[2][2], n, 64))

    # ---------------------------------------------------------------- events
    def op(self, st, x):
        st.g[OPS] = st.g.get(OPS, ()) + (x,)

    def copied(self, E, st, dst, src, n):
        if n == 0:
            return
        if is_ptr(dst) and is_ptr(src) and (dst[1][0] == "al" or src[1][0] == "al") and isinstance(n, int):
            return
        self.op(st, ("copy", dst, src, n))

    def inserted(self, E, st, fr, i, kind, a, b, c):
        self.op(st, ("ins", a, b, c))

    def transfer(self, E, st, fr, i, n, mk):
        """outcomes of a partner asked for n bytes: [(moved, state)]"""
        k = sum(1 for x in st.g.get(OPS, ()) if x[0] in ("in", "out") and x[2] != 0)
        L = Lin(E, st)
        if L.infeasible():
            return []
        out = []
        s = st.copy()
        s.g["#blocked"] = 1
        self.op(s, mk(0))
        out.append(("ret", 0, s))
        if k >= NCAP or L.zero(L.ex(n)):
            return out
        for s in E.assume(st.copy(), E.icmp(st, "eq", n, 0, 64), False):
            self.op(s, mk(n))
            out.append(("ret", n, s))
        s = st.copy()
        r = S(("left", k), 64)
        s.cons[r] = ((1, BIG),)
        s.g["#keep"] = s.g.get("#keep", ()) + (r,)
        for s in E.assume(s, E.icmp(s, "ult", r, n, 64), True):
            if Lin(E, s).infeasible():
                continue
            w = add(n, neg(r, 64), 64)
            self.op(s, mk(w))
            out.append(("ret", w, s))
        return out

    def m_in(self, E, st, fr, i, args):
        if self.snap:
            self.snap(st, "in", args[1], args[2], fr.fn)
        return self.transfer(E, st, fr, i, args[2], lambda w: ("in", args[1], w))

    def m_out(self, E, st, fr, i, args):
        if self.snap:
            self.snap(st, "out", args[1], args[2], fr.fn)
        return self.transfer(E, st, fr, i, args[2], lambda w: ("out", args[1], w))

    # ---------------------------------------------------------------- helpers
    def state(self):
        st = State()
        for r in (THIS[1], DATAP, OUTP, INP):
            st.cons[S(r[1], 64)] = ((1, mask(64)),)
        for root, c in ((INP, self.pt_in), (OUTP, self.pt_out)):
            st.wregion(root).cells.update(c)
        st.tr = None
        return st

    def sym(self, st, name, lo=0, hi=BIG):
        x = S((name,), 64)
        st.cons[x] = ((lo, hi),)
        st.g["#keep"] = st.g.get("#keep", ()) + (x,)
        return x

    def ob(self, rule, ok, f, detail, msg, s):
        return self.rep.ob(rule, bool(ok), f.qual, fwhere(self.prog, f), msg, "%s %s" % (f.dm[-60:], detail), fw.path_of(self.prog, s))

    def seg(self, p, n):
        if not is_ptr(p):
            return ("?", repr(p)), 0, n
        return p[1], p[2], add(p[2], n, 64)

    def run(self, f, args, st):
        """feasible results with their facts"""
        self.n = getattr(self, "n", 0)
        for k, v, s in self.E.run(f, args, st):
            L = Lin(self.E, s)
            if L.infeasible():
                continue
            self.n += 1
            yield k, v, s, L

    def val(self, s, o, size=8, root=THIS[1]):
        v = self.E.load(s, P(root, o), size, "i%d" % (8 * size))
        c = v if isinstance(v, int) else self.E.const_of(s, v)
        return v if c is None else c

    def pval(self, s, o, root=THIS[1]):
        return self.E.load(s, P(root, o), 8, "p")

    def moved(self, s, kinds):
        return [x for x in s.g.get(OPS, ()) if x[0] in kinds]

    def total(self, L, ns):
        e = (0, {})
        for n in ns:
            e = L.comb(e, L.ex(n))
        return e

    def eq(self, L, a, b):
        return L.zero(L.comb(a, b, -1))

    def stopped(self, L, s, cnt, segs):
        """more could be moved: cnt bytes are still wanted and segs are there, and the partner did not refuse"""
        if s.g.get("#blocked") or len([x for x in self.moved(s, ("in", "out")) if x[2] != 0]) >= NCAP:
            return False
        n = Segs(L).length(segs)
        M = L.copy_with((cnt[0] - 1, cnt[1]), "ge").copy_with((n[0] - 1, n[1]), "ge")
        return not M.infeasible()

    def either(self, v, s):
        """a condition's value with the states it has it in"""
        c = v if isinstance(v, int) else self.E.const_of(s, v)
        return [(c, s)] if c is not None else [(b, x) for b in (1, 0) for x in self.E.assume(s.copy(), v, bool(b))]

    # ---------------------------------------------------------------- one sided checks
    def reading(self, f, before, after, roots, st, args, detail, cnt=None, to_out=False):
        """after(s, L) -> [(L, remaining)]"""
        for k, v, s, L in self.run(f, args, st):
            if k != "ret":
                self.ob(REFUSE, False, f, detail, "%s throws" % f.base, s)
                continue
            cp = self.moved(s, ("copy",))
            outs = self.moved(s, ("out",))
            for L2, rest in after(s, L):
                G = Segs(L2)
                if to_out:
                    src = [self.seg(x[1], x[2]) for x in outs]
                    self.ob(MOVE, not cp or all(L2.zero(L2.ex(x[3])) for x in cp), f, "copy " + detail, "bytes are copied aside", s)
                    self.ob(MOVE, self.eq(L2, L2.ex(v), self.total(L2, [x[2] for x in outs])), f, "ret " + detail, "the number returned is not the number written", s)
                else:
                    src = [self.seg(x[2], x[3]) for x in cp]
                    dst = [self.seg(x[1], x[3]) for x in cp]
                    self.ob(MOVE, G.same(dst, [(DATAP, 0, v)]), f, "dst " + detail, "bytes are not put where the caller wants them, or not as many as returned", s)
                self.ob(MOVE, G.same(src + rest, before) and self.eq(L2, L2.ex(v), G.length(src)), f, "src " + detail, "bytes moved followed by what remains is not what was stored", s)
                e = L2.ex(cnt)
                d = L2.comb(e, L2.ex(v), -1)
                self.ob(RANGE, L2.nonneg(d), f, "cnt " + detail, "more bytes are moved than asked for", s)
                if to_out:
                    self.ob(FLOW, not self.stopped(L2, s, d, rest), f, detail, "writing stops although the other side takes bytes", s)
                else:
                    M = L2.copy_with(L2.ex(v), "eq").copy_with((e[0] - 1, e[1]), "ge")
                    n = G.length(before)
                    self.ob(FLOW, M.copy_with((n[0] - 1, n[1]), "ge").infeasible(), f, detail, "nothing is read although bytes are stored", s)

    # ---------------------------------------------------------------- Buffer
    def buffer_states(self):
        """(name, state, content, free, capacity)"""
        prog = self.prog
        mem = list(prog.members(prog.type(BUF)))
        vs = [o for n, o, s, t in mem if t is not None and (t.get("q") or "").startswith("std::vector<unsigned char")]
        ns = [o for n, o, s, t in mem if t is not None and t.get("q") == "unsigned long"]
        if len(vs) != 1 or len(ns) != 2:
            raise AnalysisError("layout of %s not recognised" % BUF)
        self.b_vec = vs[0]
        self.b_r, self.b_w = self.which(ns)
        for case in "ABZ":
            st = self.state()
            if case == "A":
                r, s, g = self.sym(st, "r"), self.sym(st, "s"), self.sym(st, "g", 1)
                w, C = add(r, s, 64), add(add(r, s, 64), g, 64)
                content, free = [("d", r, w)], [("d", w, C), ("d", 0, r)]
            elif case == "B":
                u, v, t = self.sym(st, "u"), self.sym(st, "v"), self.sym(st, "t", 1)
                r, C = add(u, v, 64), add(add(u, v, 64), t, 64)
                w = add(C, u, 64)
                content, free = [("d", r, C), ("d", 0, u)], [("d", u, r)]
            else:
                r = w = C = 0
                content, free = [], []
            self.root = ("vd", ("impl",))
            fix = lambda l: [(self.root, a, b) for x, a, b in l]
            objects.proto_state(prog, BUF, THIS, st)
            sm.putcell(self.E, st, P(THIS[1], self.b_vec), 24, ("vec", C, ("impl",)))
            rg = st.wregion(THIS[1])
            rg.cells[self.b_r], rg.cells[self.b_w] = (8, r), (8, w)
            yield case, st, fix(content), fix(free), C

    def which(self, ns):
        """(read position, write position): size() is their difference"""
        f = fn1(self.prog, BUF + "::size")
        st = self.state()
        a, b = self.sym(st, "a0"), self.sym(st, "b0")
        st.wregion(THIS[1]).cells.update({ns[0]: (8, a), ns[1]: (8, b)})
        sm.putcell(self.E, st, P(THIS[1], self.b_vec), 24, ("vec", self.sym(st, "c0"), ("impl",)))
        got = {v for k, v, s in self.E.run(f, [THIS], st) if k == "ret"}
        if got == {add(b, neg(a, 64), 64)}:
            return ns
        if got == {add(a, neg(b, 64), 64)}:
            return ns[1], ns[0]
        raise AnalysisError("positions of %s not recognised" % BUF)

    def shape(self, s, L, f=None, detail=""):
        """[(L, content, free)] by the fields; reports inconsistent positions"""
        r, w = self.val(s, self.b_r), self.val(s, self.b_w)
        c = sm.getcell(self.E, s, P(THIS[1], self.b_vec), "vec", 24)
        C = c[1]
        root = ("vd", c[2])
        er, ew, ec = L.ex(r), L.ex(w), L.ex(C)
        lt = L.comb(ec, er, -1)
        out = []
        d = L.comb(ew, ec, -1)              # w - C
        n = L.minus(d)
        for M, wrapped in ((L.copy_with((n[0] - 1, n[1]), "ge"), False), (L.copy_with(d, "ge"), True)):
            if M.infeasible():
                continue
            if f is not None:
                ok = M.nonneg(er) and M.nonneg(M.comb(ew, er, -1)) and M.nonneg(M.comb(M.comb(er, ec), ew, -1))
                ok = ok and (M.nonneg((lt[0] - 1, lt[1])) or M.zero(ec) and M.zero(er))
                self.ob(SHAPE, ok, f, detail, "read and write positions leave their range", s)
            if wrapped:
                out.append((M, [(root, r, C), (root, 0, add(w, neg(C, 64), 64))], [(root, add(w, neg(C, 64), 64), r)]))
            else:
                out.append((M, [(root, r, w)], [(root, w, C), (root, 0, r)]))
        return out

    def buffer(self):
        E = self.E
        fn = lambda n, has="": fn1(self.prog, BUF + "::" + n, None, has)
        for case, st, content, free, C in self.buffer_states():
            d = "state " + case
            self.views(case, st, content, free, C)

            def snap(s, kind, p, n, f):
                L = Lin(E, s)
                for M, c2, f2 in self.shape(s, L):
                    a = [self.seg(p, n)]
                    whole = c2 if kind == "out" else f2
                    ok = Segs(M).same(a, whole, prefix=True) and M.nonneg(M.comb(Segs(M).length(whole), M.ex(n), -1))
                    self.ob(RANGE, ok, f, kind + " " + d, "the other side is offered bytes that are not %s" % ("stored" if kind == "out" else "free"), s)
            self.snap = snap
            rest = lambda f: lambda s, L: [(M, c2) for M, c2, f2 in self.shape(s, L, f, d)]
            # out of the buffer
            s0 = st.copy()
            cnt = self.sym(s0, "cnt", 0, mask(64))
            f = fn("read_some", "unsigned char*")
            self.reading(f, content, rest(f), None, s0.copy(), [THIS, P(DATAP, 0), cnt], d, cnt)
            f = fn("write_to")
            self.reading(f, content, rest(f), None, s0.copy(), [THIS, P(OUTP, 0), cnt], d, cnt, to_out=True)
            # into the buffer
            f = fn("write_some", "unsigned char const*")
            for k, v, s, L in self.run(f, [THIS, P(DATAP, 0), cnt], s0.copy()):
                self.filled(f, k, v, s, L, content, free, d, cnt, [(x[1], x[2], x[3]) for x in self.moved(s, ("copy",))])
            f = fn("read_from")
            for k, v, s, L in self.run(f, [THIS, P(INP, 0)], st.copy()):
                self.filled(f, k, v, s, L, content, free, d, None, [(x[1], None, x[2]) for x in self.moved(s, ("in",))])
            # bare position changes
            for name in ("did_read", "did_write", "did_write_undo"):
                s1 = st.copy()
                n = self.sym(s1, "n")
                f = fn(name)
                for k, v, s, L in self.run(f, [THIS, n], s1):
                    limit = Segs(L).length(free if name == "did_write" else content)
                    room = L.comb(limit, L.ex(n), -1)
                    if k != "ret":
                        self.ob(REFUSE, L.copy_with(room, "ge").infeasible(), f, d, "%s refuses a possible count" % name, s)
                        continue
                    self.ob(REFUSE, L.nonneg(room), f, d, "%s takes more than there is" % name, s)
                    for M, c2, f2 in self.shape(s, L, f, d):
                        G = Segs(M)
                        l0, l1 = G.length(content), G.length(c2)
                        if name == "did_read":
                            ok = G.suffix(content, c2) and self.eq(M, M.comb(l0, M.ex(n), -1), l1)
                        elif name == "did_write":
                            ok = G.same(content, c2, prefix=True) and self.eq(M, M.comb(l0, M.ex(n)), l1) and G.suffix(c2, []) and G.same(c2, content + free, prefix=True)
                        else:
                            ok = G.same(content, c2, prefix=True) and self.eq(M, M.comb(l0, M.ex(n), -1), l1)
                        self.ob(REST, ok, f, d, "%s does not change the stored bytes by its count" % name, s)
            # look without taking
            f = fn("peek")
            for k, v, s, L in self.run(f, [THIS, P(DATAP, 0), cnt], s0.copy()):
                if k != "ret":
                    self.ob(REFUSE, False, f, d, "peek throws", s)
                    continue
                cp = self.moved(s, ("copy",))
                G = Segs(L)
                room = L.comb(G.length(content), L.ex(cnt), -1)
                if v == 0:
                    self.ob(FLOW, L.copy_with(room, "ge").infeasible() and not cp, f, "no " + d, "peek() finds no bytes although they are stored", s)
                else:
                    src, dst = [self.seg(x[2], x[3]) for x in cp], [self.seg(x[1], x[3]) for x in cp]
                    self.ob(MOVE, v == 1 and L.nonneg(room) and G.same(dst, [(DATAP, 0, cnt)]) and G.same(src, content, prefix=True), f, "yes " + d,
                            "peek() does not return the next bytes", s)
                for M, c2, f2 in self.shape(s, L, f, d):
                    self.ob(REST, Segs(M).same(c2, content), f, "keep " + d, "peek() changes what is stored", s)
            f = fn("read_enough_data")
            s1 = st.copy()
            n = self.sym(s1, "n")
            for k, v, s, L in self.run(f, [THIS, P(INP, 0), n], s1):
                ins = [(x[1], None, x[2]) for x in self.moved(s, ("in",))]
                self.filled(f, k, None, s, L, content, free, d, None, ins, flow=False)
                for M, c2, f2 in self.shape(s, L):
                    room = M.comb(Segs(M).length(c2), M.ex(n), -1)
                    for b, x in self.either(v, s):
                        M = Lin(E, x)
                        bad = M.copy_with(room, "ge") if b == 0 else M.copy_with((-room[0] - 1, {y: -z for y, z in room[1].items()}), "ge")
                        self.ob(VIEW, bad.infeasible(), f, "enough " + d, "read_enough_data() does not tell whether enough is stored", x)
            for f in [g for g in self.prog.by_qual[BUF + "::clear"] if g.bb]:
                s1 = st.copy()
                n = self.sym(s1, "n")
                for k, v, s, L in self.run(f, [THIS, n][:len(f.args)], s1):
                    for M, c2, f2 in self.shape(s, L, f, d):
                        G = Segs(M)
                        self.ob(REST, k == "ret" and M.zero(G.length(c2)) and self.eq(M, G.length(f2), M.ex(n if len(f.args) > 1 else C)), f, d, "clear() leaves bytes or space is lost", s)
            self.snap = None
        f = [g for g in self.prog.by_qual[BUF + "::Buffer"] if g.bb][0]
        s1 = self.state()
        n = self.sym(s1, "n")
        for k, v, s, L in self.run(f, [THIS, n], s1):
            if k == "ret":
                for M, c2, f2 in self.shape(s, L, f, "new"):
                    G = Segs(M)
                    self.ob(REST, M.zero(G.length(c2)) and self.eq(M, G.length(f2), M.ex(n)), f, "new", "a new buffer is not empty or not of the size asked for", s)

    def filled(self, f, k, v, s, L, content, free, d, cnt, mv, flow=True):
        if k != "ret":
            self.ob(REFUSE, False, f, d, "%s throws" % f.base, s)
            return
        for M, c2, f2 in self.shape(s, L, f, d):
            G = Segs(M)
            dst = [self.seg(p, n) for p, q, n in mv]
            self.ob(MOVE, G.same(content + dst, c2), f, "dst " + d, "bytes added do not follow what was stored", s)
            self.ob(RANGE, G.same(free, dst + f2), f, "free " + d, "bytes are put where something is stored", s)
            if v is not None:
                self.ob(MOVE, self.eq(M, M.ex(v), G.length(dst)), f, "ret " + d, "the number returned is not the number stored", s)
            if cnt is not None:
                src = [self.seg(q, n) for p, q, n in mv]
                self.ob(MOVE, G.same(src, [(DATAP, 0, v)]), f, "src " + d, "bytes stored are not the caller's, in order", s)
                self.ob(RANGE, M.nonneg(M.comb(M.ex(cnt), M.ex(v), -1)), f, "cnt " + d, "more is stored than passed", s)
                e, n = M.ex(cnt), G.length(free)
                self.ob(FLOW, M.copy_with(M.ex(v), "eq").copy_with((e[0] - 1, e[1]), "ge").copy_with((n[0] - 1, n[1]), "ge").infeasible(), f, d, "nothing is stored although there is space", s)
            elif flow:
                self.ob(FLOW, not self.stopped(M, s, (1, {}), f2), f, d, "reading stops although the other side has bytes and there is space", s)

    def views(self, case, st, content, free, C):
        """accessors against the fields"""
        d = "state " + case
        E = self.E

        def get(name):
            f = fn1(self.prog, BUF + "::" + name)
            return f, [(v, s, L) for k, v, s, L in self.run(f, [THIS], st.copy()) if k == "ret"]
        for segs, names in ((content, ("read_ptr", "read_count", "read_ptr2", "read_count2")), (free, ("write_ptr", "write_count", "write_ptr2", "write_count2"))):
            got = [get(n) for n in names]
            # paths of the four accessors are independent decisions over the same state
            for p1, s1, L1 in got[0][1]:
                for n1, s2, L2 in got[1][1]:
                    for p2, s3, L3 in got[2][1]:
                        for n2, s4, L4 in got[3][1]:
                            L = Lin(E, s1)
                            for o in (L2, L3, L4):
                                for x in o.seen:
                                    L.declare(x)
                                L.facts += o.facts
                            L.memo = {}
                            if L.infeasible():
                                continue
                            G = Segs(L)
                            a = [self.seg(p1, n1)] + [self.seg(p2, n2)]
                            f = got[0][0]
                            self.ob(VIEW, G.same(a, segs), f, d, "%s and its companions do not describe the %s bytes" % (names[0], "stored" if segs is content else "free"), s1)
                            # while there is anything, the first part is not empty
                            e, t = L.ex(n1), G.length(segs)
                            self.ob(VIEW, L.copy_with(e, "eq").copy_with((t[0] - 1, t[1]), "ge").infeasible(), got[1][0], "first " + d, "the first part is empty although there are bytes", s1)
        for name, want in (("size", Segs(Lin(E, st)).length(content)), ("capacity", None)):
            f, r = get(name)
            for v, s, L in r:
                self.ob(VIEW, self.eq(L, L.ex(v), want if want is not None else L.ex(C)), f, d, "%s() is wrong" % name, s)
        f, r = get("full")
        for v, s, L in r:
            n = Segs(L).length(free)
            for b, x in self.either(v, s):
                M = Lin(E, x)
                if M.infeasible():
                    continue
                self.ob(VIEW, M.zero(n) if b else M.copy_with(n, "eq").infeasible(), f, d, "full() is wrong", x)
        f = fn1(self.prog, "crab::IFiniteStream::empty")
        self.emptiness(f, st, content, d)

    def emptiness(self, f, st, content, d):
        E = self.E
        for k, v, s, L in self.run(f, [THIS], st.copy()):
            if k != "ret":
                self.ob(REFUSE, False, f, d, "empty() throws", s)
                continue
            for b, x in self.either(v, s):
                M = Lin(E, x)
                if M.infeasible():
                    continue
                n = Segs(M).length(content)
                self.ob(VIEW, M.zero(n) if b else M.copy_with(n, "eq").infeasible(), f, "empty " + d, "empty() is wrong", x)

    # ---------------------------------------------------------------- finite streams over memory, vectors, strings
    def fields(self, cls):
        mem = list(self.prog.members(self.prog.type(cls)))
        ps = [o for n, o, s, t in mem if not n.startswith("_vptr") and t is not None and t.get("k") == "pointer_type"]
        ns = [o for n, o, s, t in mem if t is not None and t.get("q") == "unsigned long"]
        return ps, ns

    def finite(self):
        E, prog = self.E, self.prog
        todo = []
        # IMemoryStream
        cls = "crab::IMemoryStream"
        (op,), (on,) = self.fields(cls)
        st = self.state()
        objects.proto_state(prog, cls, THIS, st)
        st.cons[S(("M",), 64)] = ((1, mask(64)),)
        n = self.sym(st, "n")
        off = self.sym(st, "off")
        st.wregion(THIS[1]).cells.update({op: (8, P(("*", ("M",)), off)), on: (8, n)})

        def mem_rest(s, op=op, on=on):
            p, m = self.pval(s, op), self.val(s, on)
            return [self.seg(p, m)]
        todo.append((cls, st, [(("*", ("M",)), off, add(off, n, 64))], mem_rest))
        for cls, owner in (("crab::IVectorStream", "vec"), ("crab::IStringStream", "str")):
            (op,), (on,) = self.fields(cls)
            st = self.state()
            objects.proto_state(prog, cls, THIS, st)
            st.cons[S(("V",), 64)] = ((1, mask(64)),)
            r, m = self.sym(st, "r"), self.sym(st, "m")
            N = add(r, m, 64)
            st.wregion(THIS[1]).cells.update({op: (8, P(("*", ("V",)), 0)), on: (8, r)})
            root = self.put(st, owner, P(("*", ("V",)), 0), N)

            def rest(s, op=op, on=on, owner=owner):
                p, a = self.pval(s, op), self.val(s, on)
                n2, root2 = self.get(s, owner, p)
                return [(root2, a, n2)]
            todo.append((cls, st, [(root, r, N)], rest))
        for cls, st, content, rest in todo:
            fn = lambda n, has="": fn1(prog, cls + "::" + n, None, has)
            self.finite_checks(cls, st, content, lambda s, L, rest=rest: [(L, rest(s))], fn)

    def finite_checks(self, cls, st, content, rest, fn):
        d = cls.split("::")[1]
        s0 = st.copy()
        cnt = self.sym(s0, "cnt", 0, mask(64))
        f = fn("size")
        for k, v, s, L in self.run(f, [THIS], st.copy()):
            self.ob(VIEW, k == "ret" and self.eq(L, L.ex(v), Segs(L).length(content)), f, d, "size() is not the number of bytes left", s)
        self.emptiness(fn1(self.prog, "crab::IFiniteStream::empty"), st, content, d)

        def snap(s, kind, p, n, f):
            L = Lin(self.E, s)
            for M, c2 in rest(s, L):
                ok = Segs(M).same([self.seg(p, n)], c2, prefix=True) and M.nonneg(M.comb(Segs(M).length(c2), M.ex(n), -1))
                self.ob(RANGE, ok, f, d, "bytes that are not left in the stream are written", s)
        self.reading(fn("read_some", "unsigned char*"), content, rest, None, s0.copy(), [THIS, P(DATAP, 0), cnt], d, cnt)
        self.snap = snap
        self.reading(fn("write_to"), content, rest, None, s0.copy(), [THIS, P(OUTP, 0), cnt], d, cnt, to_out=True)
        f = fn1(self.prog, "crab::IFiniteStream::write_to")
        self.reading(f, content, rest, None, st.copy(), [THIS, P(OUTP, 0)], "all " + d, mask(64), to_out=True)
        self.snap = None
        f = fn1(self.prog, "crab::IStream::read_some")
        self.reading(f, content, rest, None, s0.copy(), [THIS, P(DATAP, 0), cnt], "char " + d, cnt)

    def put(self, st, owner, p, n):
        if owner == "vec":
            sm.putcell(self.E, st, p, 24, ("vec", n, ("held",)))
            return ("vd", ("held",))
        sm.ps(self.E, st, p, n, ("held",))
        return ("sd", ("held",))

    def get(self, s, owner, p):
        if not is_ptr(p):
            return 0, ("?",)
        if owner == "vec":
            c = sm.getcell(self.E, s, p, "vec", 24)
            return c[1], ("vd", c[2])
        c = sm.gs(self.E, s, p)
        return c[1], ("sd", c[2])

    # ---------------------------------------------------------------- writing into memory, vectors, strings
    def writers(self):
        E, prog = self.E, self.prog
        cls = "crab::OMemoryStream"
        (op,), (on,) = self.fields(cls)
        st = self.state()
        objects.proto_state(prog, cls, THIS, st)
        st.cons[S(("M",), 64)] = ((1, mask(64)),)
        n, off = self.sym(st, "n"), self.sym(st, "off")
        cnt = self.sym(st, "cnt", 0, mask(64))
        st.wregion(THIS[1]).cells.update({op: (8, P(("*", ("M",)), off)), on: (8, n)})
        free = [(("*", ("M",)), off, add(off, n, 64))]
        f = fn1(prog, cls + "::write_some", None, "unsigned char const*")
        for k, v, s, L in self.run(f, [THIS, P(DATAP, 0), cnt], st.copy()):
            if k != "ret":
                self.ob(REFUSE, False, f, "mem", "write_some throws", s)
                continue
            cp = self.moved(s, ("copy",))
            G = Segs(L)
            dst, src = [self.seg(x[1], x[3]) for x in cp], [self.seg(x[2], x[3]) for x in cp]
            rest = [self.seg(self.pval(s, op), self.val(s, on))]
            self.ob(MOVE, G.same(src, [(DATAP, 0, v)]), f, "src", "bytes stored are not the caller's, in order", s)
            self.ob(RANGE, G.same(dst + rest, free), f, "dst", "bytes are stored outside the memory, or space is lost", s)
            self.ob(RANGE, L.nonneg(L.comb(L.ex(cnt), L.ex(v), -1)), f, "cnt", "more is stored than passed", s)
            e, m = L.ex(cnt), L.ex(n)
            self.ob(FLOW, L.copy_with(L.ex(v), "eq").copy_with((e[0] - 1, e[1]), "ge").copy_with((m[0] - 1, m[1]), "ge").infeasible(), f, "mem", "nothing is stored although there is space", s)
        for cls, owner in (("crab::OVectorStream", "vec"), ("crab::OStringStream", "str")):
            ps, ns = self.fields(cls)
            st = self.state()
            objects.proto_state(prog, cls, THIS, st)
            st.cons[S(("V",), 64)] = ((1, mask(64)),)
            N, cnt = self.sym(st, "N"), self.sym(st, "cnt")
            st.wregion(THIS[1]).cells[ps[0]] = (8, P(("*", ("V",)), 0))
            root = self.put(st, owner, P(("*", ("V",)), 0), N)
            f = fn1(prog, cls + "::write_some", None, "unsigned char const*")
            for k, v, s, L in self.run(f, [THIS, P(DATAP, 0), cnt], st.copy()):
                if k != "ret":
                    self.ob(REFUSE, False, f, owner, "write_some throws", s)
                    continue
                n2, r2 = self.get(s, owner, P(("*", ("V",)), 0))
                self.ob(MOVE, self.eq(L, L.ex(v), L.ex(cnt)) and self.eq(L, L.ex(n2), L.comb(L.ex(N), L.ex(cnt))), f, "len", "not everything passed is appended", s)
                src = None
                if owner == "str":
                    pc = sm.pieces(r2[1])
                    if pc and pc[0] == ("r", ("held",)) and all(x[0] == "r" and x[1][0] == "buf" for x in pc[1:]):
                        src = [self.seg(x[1][1], x[1][2]) for x in pc[1:]]
                    elif L.zero(L.ex(cnt)):
                        src = []
                else:
                    ev = self.moved(s, ("ins",))
                    cp = self.moved(s, ("copy",))
                    if ev and all(len(x[2]) > 4 and x[2][4] == P(("vd", x[3][2]), x[3][1]) for x in ev):
                        src = [self.seg(x[2][1], x[2][3]) for x in ev]
                    elif cp and Segs(L).same([(("end",), a, b) for r, a, b in [self.seg(x[1], x[3]) for x in cp]], [(("end",), N, add(N, cnt, 64))]):
                        src = [self.seg(x[2], x[3]) for x in cp]
                    elif L.zero(L.ex(cnt)):
                        src = []
                self.ob(MOVE, src is not None and Segs(L).same(src, [(DATAP, 0, cnt)]), f, "src", "bytes appended are not the caller's, at the end", s)

    # ---------------------------------------------------------------- whole transfers by a base class
    def loops(self):
        prog = self.prog
        for q, root, kind, has in (("crab::IStream::read", INP, "in", "unsigned char"), ("crab::OStream::write", OUTP, "out", "unsigned char"),
                                   ("crab::IStream::read", INP, "in", "(char"), ("crab::OStream::write", OUTP, "out", "(char")):
            f = fn1(prog, q, None, has)
            st = self.state()
            cnt = self.sym(st, "cnt", 0, BIG)
            for k, v, s, L in self.run(f, [P(root, 0), P(DATAP, 0), cnt], st):
                ops = self.moved(s, (kind,))
                if len([x for x in ops if x[2] != 0]) >= NCAP and k == "exc":
                    continue
                got = [self.seg(x[1], x[2]) for x in ops]
                G = Segs(L)
                if k == "ret":
                    self.ob(MOVE, G.same(got, [(DATAP, 0, cnt)]), f, has, "the bytes transferred are not the caller's whole range, in order", s)
                else:
                    self.ob(FLOW, s.g.get("#blocked") and G.same(got, [(DATAP, 0, cnt)], prefix=True), f, has, "a transfer is given up although the other side is ready", s)
        f = fn1(prog, "crab::OStream::write_byte")
        st = self.state()
        b = S(("byte",), 8)
        st.cons[b] = ((0, 255),)
        for k, v, s, L in self.run(f, [P(OUTP, 0), b], st):
            ops = [x for x in self.moved(s, ("out",)) if x[2] != 0]
            self.ob(MOVE, (len(ops) == 1 and ops[0][2] == 1) if k == "ret" else bool(s.g.get("#blocked")), f, "byte", "write_byte does not write one byte", s)
        for q, root, kind in (("crab::OStream::write_some", OUTP, "out"),):
            f = fn1(prog, q)
            st = self.state()
            cnt = self.sym(st, "cnt", 0, BIG)
            for k, v, s, L in self.run(f, [P(root, 0), P(DATAP, 0), cnt], st):
                ops = self.moved(s, (kind,))
                G = Segs(L)
                self.ob(MOVE, k == "ret" and len(ops) == 1 and self.eq(L, L.ex(v), L.ex(ops[0][2])) and G.same([self.seg(x[1], x[2]) for x in ops], [(DATAP, 0, v)]), f, "char", "the count returned is not what was written", s)

    # ---------------------------------------------------------------- streams that own their bytes
    def owners(self):
        E, prog = self.E, self.prog
        for cls, rd, wr, owner in (("crab::VectorStream", "crab::IVectorStream", "crab::OVectorStream", "vec"), ("crab::StringStream", "crab::IStringStream", "crab::OStringStream", "str")):
            mem = list(prog.members(prog.type(cls)))
            ps, ns = self.fields(cls)
            ow = [o for n, o, s, t in mem if s == (24 if owner == "vec" else 32) and t is not None and t.get("k") in ("class_type", "structure_type")]
            if len(ps) != 2 or len(ns) != 1 or len(ow) != 1:
                raise AnalysisError("layout of %s not recognised" % cls)
            oi, on = ow[0], ns[0]
            base = cls.split("::")[1]
            ctors = [f for f in prog.by_qual.get(cls + "::" + base, []) if f.bb]
            fs = [(f, "ctor") for f in ctors] + [(f, "assign") for f in prog.by_qual.get(cls + "::operator=", []) if f.bb]
            ARG = P(("*", ("arg",)), 0)
            for f, what in fs:
                st = self.state()
                st.cons[S(("arg",), 64)] = ((1, mask(64)),)
                r, m = self.sym(st, "r"), self.sym(st, "m")
                N = add(r, m, 64)
                args, want = [THIS], ([], 0)
                if len(f.args) == 2:
                    args.append(ARG)
                    if base + "&&" in f.dm:
                        self.put(st, owner, P(ARG[1], oi), N)
                        st.wregion(ARG[1]).cells[on] = (8, r)
                        want = ("held", r, N)
                    else:
                        self.put(st, owner, ARG, N)
                        want = ("held", 0, N)
                if what == "assign":
                    self.E.store(st, P(THIS[1], on), 8, self.sym(st, "oldpos"))
                    for o in ps:
                        st.wregion(THIS[1]).cells[o] = (8, P(THIS[1], oi))
                    if owner == "vec":
                        sm.putcell(E, st, P(THIS[1], oi), 24, ("vec", self.sym(st, "oldn"), ("old",)))
                    else:
                        sm.ps(E, st, P(THIS[1], oi), self.sym(st, "oldn"), ("old",))
                for k, v, s, L in self.run(f, args, st):
                    if k != "ret":
                        continue
                    d = "%s %d" % (what, len(f.args))
                    self.ob(OWN, all(self.pval(s, o) == P(THIS[1], oi) for o in ps), f, "own " + d, "the stream reads or writes bytes of another object", s)
                    n2, root2 = self.get(s, owner, P(THIS[1], oi))
                    a = self.val(s, on)
                    if want[0]:
                        same = str(("held",)) in repr(root2)
                        self.ob(OWN, same and self.eq(L, L.ex(a), L.ex(want[1])) and self.eq(L, L.ex(n2), L.ex(want[2])), f, "bytes " + d, "bytes or position are lost when a stream is made from others", s)
                    else:
                        self.ob(OWN, self.eq(L, L.ex(n2), (0, {})) and self.eq(L, L.ex(a), (0, {})), f, "empty " + d, "a new stream is not empty", s)
            for f in [g for q, l in prog.by_qual.items() if q.split("[")[0] == cls + "::clear" for g in l if g.bb]:
                st = self.state()
                r, m = self.sym(st, "r"), self.sym(st, "m")
                objects.proto_state(prog, cls, THIS, st)
                self.put(st, owner, P(THIS[1], oi), add(r, m, 64))
                st.wregion(THIS[1]).cells.update({ps[0]: (8, P(THIS[1], oi)), ps[1]: (8, P(THIS[1], oi)), on: (8, r)})
                ret = P(("*", ("ret",)), 0)
                for k, v, s, L in self.run(f, [ret, THIS], st):
                    n2, root2 = self.get(s, owner, P(THIS[1], oi))
                    n3, root3 = self.get(s, owner, ret)
                    self.ob(OWN, k == "ret" and self.eq(L, L.ex(n2), (0, {})) and self.eq(L, L.ex(self.val(s, on)), (0, {})), f, "left", "clear() leaves bytes or a position", s)
                    self.ob(OWN, k == "ret" and str(("held",)) in repr(root3) and self.eq(L, L.ex(n3), L.ex(add(r, m, 64))), f, "got", "clear() does not return the bytes", s)

            for f in [g for q, l in prog.by_qual.items() if q.split("[")[0] == cls + "::get_buffer" for g in l if g.bb]:
                for k, v, s, L in self.run(f, [THIS], self.state()):
                    self.ob(OWN, k == "ret" and v == P(THIS[1], oi), f, "get", "get_buffer() is not the stream's bytes", s)

    def makers(self):
        """streams over bytes of others"""
        prog = self.prog
        for cls, sized in (("crab::IMemoryStream", True), ("crab::OMemoryStream", True), ("crab::IVectorStream", False), ("crab::OVectorStream", False),
                           ("crab::IStringStream", False), ("crab::OStringStream", False)):
            (op,), ns = self.fields(cls)
            for f in [g for g in prog.by_qual.get(cls + "::" + cls.split("::")[1], []) if g.bb and not g.art and len(g.args) == (3 if sized else 2)]:
                st = self.state()
                n = self.sym(st, "n")
                for k, v, s, L in self.run(f, [THIS, P(DATAP, 0), n][:len(f.args)], st):
                    ok = k == "ret" and self.pval(s, op) == P(DATAP, 0) and all(self.val(s, o) == (n if sized else 0) for o in ns)
                    self.ob(OWN, ok, f, "over", "a stream does not start with the bytes it is given", s)

    # ---------------------------------------------------------------- two streams in a row
    def combined(self):
        E, prog = self.E, self.prog
        cls = "crab::CombinedIStream"
        mem = list(prog.members(prog.type(cls)))
        us = [o for n, o, s, t in mem if t is not None and (t.get("q") or "").startswith("std::unique_ptr<")]
        if len(us) != 2:
            raise AnalysisError("layout of %s not recognised" % cls)
        (op,), (on,) = self.fields("crab::IMemoryStream")
        # which comes first: the constructor's first argument
        st = self.state()
        objects.proto_state(prog, cls, THIS, st)
        content = []
        for o, nm in zip(us, "AB"):
            R = ("*", (nm,))
            D = ("*", ("D" + nm,))
            for r in (R, D):
                st.cons[S(r[1], 64)] = ((1, mask(64)),)
            objects.proto_state(prog, "crab::IMemoryStream", P(R, 0), st)
            n = self.sym(st, "n" + nm)
            st.wregion(R).cells.update({op: (8, P(D, 0)), on: (8, n)})
            st.wregion(THIS[1]).cells[o] = (8, P(R, 0))
            content.append((D, 0, n))

        def rest(s, L):
            out = []
            for nm in "AB":
                R = ("*", (nm,))
                out.append(self.seg(self.pval(s, op, R), self.val(s, on, 8, R)))
            return [(L, out)]
        fn = lambda n, has="": fn1(prog, cls + "::" + n, None, has)
        self.finite_checks(cls, st, content, rest, fn)


def c26(prog, rep):
    T = Streams(prog, rep)
    T.buffer()
    T.finite()
    T.writers()
    T.loops()
    T.owners()
    T.makers()
    T.combined()
    rep.count("stream_runs", T.n)
    rep.engine(T.E)
    for r, k in ((MOVE, 50), (REST, 10), (RANGE, 30), (FLOW, 30), (SHAPE, 20), (VIEW, 30), (REFUSE, 5), (OWN, 8)):
        rep.need(r, k)


C26 = c26
