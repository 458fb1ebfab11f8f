"""C17: the HTTP body parser against a specification automaton.

parse() is interpreted one round of its loop at a time, from every reachable (implementation state, specification state) pair: framing bytes
one by one, body bytes as a block of symbolic size with a symbolic number of bytes outstanding.  The state names of the implementation are
not known to the rules."""
from absint import State, P, S, is_ptr, add, neg, iset_iter, iset_count, mask, leaves
from model import AnalysisError
import std_models as sm
import objects
import fw
import parsers
from parsers import Machine, THIS, IN
from rules_net import fwhere, yes
from rules_parse import buffer_rule, HEX, SP, ctl
from bits import Bits

CLS = "crab::http::BodyParser"
R_STEP = "framing bytes are read as specified"
R_LEN = "a body byte is taken exactly if it is outstanding"
R_NUM = "a chunk size is the number written"
R_OVF = "a chunk size that does not fit is refused"
R_END = "nothing is taken after the body's end"
R_LIM = "over-long framing is refused"
R_RST = "limits apply to one chunk header"
R_CTOR = "framing is chosen by the header"
CT = ("*", ("cl",))
N = S(("n",), 64)
BIG = (1 << 64) - 1

# specification: state -> byte -> (must, next) or None (refuse); must False: refusing is as good
NEXTNUM = "NUM"      # end of a chunk header: trailer after a zero chunk, else the chunk's bytes


def spec(q, b):
    cr, lf, sp = b == 13, b == 10, b in SP
    if q == "CR":
        return (True, "LF") if cr else (False, "SIZE0") if lf else (False, "CR") if sp else None
    if q == "LF":
        return (True, "SIZE0") if lf else None
    if q == "SIZE0":
        return (True, "SIZE") if b in HEX else (False, "SIZE0") if sp else None
    if q == "SIZE":
        if b in HEX:
            return True, "SIZE"
        return (True, "SLF") if cr else (False, NEXTNUM) if lf else (True, "EXT") if b == 59 else (False, "EXT") if sp else None
    if q == "EXT":
        return (True, "SLF") if cr else (False, NEXTNUM) if lf else (not ctl(b), "EXT")
    if q == "SLF":
        return (True, NEXTNUM) if lf else None
    if q == "TL0":
        if cr or lf:
            return (cr, "FLF" if cr else "GOOD")
        return (48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122, "TR")
    if q == "TR":
        return (True, "TRLF") if cr else (False, "TL0") if lf else (not ctl(b), "TR")
    if q == "TRLF":
        return (True, "TL0") if lf else None
    if q == "FLF":
        return (True, "GOOD") if lf else None
    raise AnalysisError(q)


TRAILER = ("TL0", "TR", "TRLF", "FLF")


class Body(Machine):
    def __init__(self, prog, rep):
        self.prog, self.rep, self.cls = prog, rep, CLS
        self.E = E = objects.engine(prog, http=False)
        E.apart = {IN, THIS[1], CT}
        E.exit_limit = E.loop_limit = 400
        self.ty = prog.type(CLS)
        fs = [f for f in prog.find(CLS + "::parse") if len(f.args) == 3 and f.bb]
        cs = [f for f in prog.find(CLS + "::BodyParser") if len(f.args) == 3 and f.bb]
        if len(fs) != 1 or len(cs) != 1:
            raise AnalysisError("parse or constructor of %s not found" % CLS)
        self.parse, self.ctor = fs[0], cs[0]
        self.leaf = {}
        self._leaves(self.ty, 0, "")
        self.ctrl = sorted(o for o, (p, s, k, t) in self.leaf.items() if k in ("enum", "bool") and not self.public(p))
        self.runs = 0
        self.maxs = {"chunk": self.off("max_chunk_header_total_length"), "trailer": self.off("max_trailers_total_length")}
        self.nums = [o for o, (p, s, k, t) in self.leaf.items() if k == "int" and s == 8 and "." not in p and o not in self.maxs.values()]
        bs = [o for o, (p, s, k, t) in self.leaf.items() if k == "str" and p.startswith("body.")]
        if len(bs) != 1:
            raise AnalysisError("text of the body not found")
        self.o_text = bs[0]
        self.heads = None
        E.head_hook = self.head
        self.edges = {}          # (q, q2, data?) -> {counter: set of deltas}

    # ---- one round of parse()
    def head(self, E, fr, b, env, st):
        if not fr.fn.qual.startswith(self.cls):
            return None
        ptrs = {("e", d): v for d, v in env.items() if is_ptr(v) and v[1] == IN}
        for root, rg in st.mem.items():
            if root[0] == "al" and root[1] == fr.ctx:
                ptrs.update({("m", root, o): c[1] for o, c in rg.cells.items() if is_ptr(c[1]) and c[1][1] == IN})
        at = st.g.get(("#head",))
        if at is None:
            st.g[("#head",)] = (fr.ctx, b)
            st.g[("#at0",)] = tuple(k for k, v in ptrs.items() if v == P(IN, 0))
            return [(env, st)] if not self.resume(env, st) else None
        if at != (fr.ctx, b):
            return None
        moved = {ptrs[k][2] for k in st.g[("#at0",)] if k in ptrs and ptrs[k] != P(IN, 0)}
        pos = moved.pop() if len(moved) == 1 else 0 if not moved else None
        self.rounds.append((pos, st))
        return []

    def resume(self, env, st):
        return False

    def round(self, st, n):
        """outcomes of one round: [(kind, pos, state)]: kind round, ret, exc"""
        st = st.copy()
        self.runs += 1
        self.rounds = []
        st.tr = None
        res = self.E.run(self.parse, [THIS, P(IN, 0), P(IN, n)], st)
        out = []
        for pos, s in self.rounds:
            out += [("round", pos, x) for x in self.split_ctrl(s)]
        for k, v, s in res:
            if k == "exc":
                out.append((k, v, s))
            else:
                pos = v[2] if is_ptr(v) and v[1] == IN else None
                out += [("ret", pos, x) for x in self.split_ctrl(s)]
        return out

    def entry(self, ctrl, r, cons=None, counters=0):
        cells = {self.maxs["chunk"]: (8, 256), self.maxs["trailer"]: (8, 4096)}
        for o in self.nums:
            if o != self.o_rem:
                cells[o] = (8, counters)
        cells[self.o_rem] = (8, r)
        cells.update(self.fixed)
        st = self.state(ctrl, cells)
        if cons is not None and not isinstance(r, int):
            st.cons[r] = cons
        return st

    def run_ctor(self):
        """[(chunked, has length, outcome state)]"""
        E = self.E
        out = []
        for ch in (0, 1):
            for has in (0, 1):
                st = State()
                rg = st.wregion(CT)
                o, sz, t = self.prog.field("crab::optional<unsigned long>", "impl")
                rg.cells[o] = (8, S(("L",), 64))
                o, sz, t = self.prog.field("crab::optional<unsigned long>", "valid")
                rg.cells[o] = (1, has)
                st.cons[S(("L",), 64)] = ((0, BIG),)
                for k, v, s in E.run(self.ctor, [THIS, P(CT, 0), ch], st):
                    if k != "ret":
                        raise AnalysisError("constructor of %s throws" % CLS)
                    work = [s]
                    if has and not ch:
                        work = E.assume(s.copy(), E.icmp(s, "eq", S(("L",), 64), 0, 64), True) + E.assume(s.copy(), E.icmp(s, "ne", S(("L",), 64), 0, 64), True)
                    for x in work:
                        out += [(ch, has, y) for y in self.split_ctrl(x)]
        return out

    def viol(self, rule, detail, msg, s=None):
        self.rep.ob(rule, False, CLS, fwhere(self.prog, self.parse), msg, detail, fw.path_of(self.prog, s) if s is not None else None)

    def ok(self, rule):
        self.rep.ob(rule, True)

    def explore(self):
        rep, E, prog = self.rep, self.E, self.prog
        L = S(("L",), 64)
        cts = self.run_ctor()
        rem = [o for ch, has, s in cts if has and not ch for o in self.nums if self.num(s, o) == L]
        if len(set(rem)) != 1:
            rep.ob(R_CTOR, False, CLS, fwhere(prog, self.ctor), "the content length is not kept", "length")
            return
        self.o_rem = rem[0]
        self.fixed = {}
        work, done = [], set()
        for ch, has, s in cts:
            # what surrounds the text: stream links as the constructor made them
            for o, (p, sz, k, t) in self.leaf.items():
                if p.startswith("body.") and k == "other":
                    c = s.mem[THIS[1]].cells.get(o)
                    if c is not None:
                        self.fixed[o] = c
            t = sm.gs(E, s, P(THIS[1], self.o_text))
            rep.ob(R_CTOR, t[1] == 0, CLS, fwhere(prog, self.ctor), "a fresh body is not empty", "empty", fw.path_of(prog, s))
            cs = [self.num(s, o) for o in self.nums if o != self.o_rem]
            rep.ob(R_CTOR, all(c == 0 for c in cs), CLS, fwhere(prog, self.ctor), "a counter does not start at zero", "counter", fw.path_of(prog, s))
            if ch:
                q = "SIZE0"
            elif not has:
                q = "GOOD"
            else:
                q = "GOOD" if E.decide(s, E.icmp(s, "eq", L, 0, 64)) is True else "BODY"
                rep.ob(R_CTOR, q == "GOOD" or yes(E, s, "eq", self.num(s, self.o_rem), L), CLS, fwhere(prog, self.ctor),
                       "the outstanding bytes are not the content length", "remaining", fw.path_of(prog, s))
            key = (tuple(sorted(self.ctrl_of(s).items())), q)
            work.append(key)
        gf = [f for f in prog.find(CLS + "::is_good") if f.bb]
        while work:
            key = work.pop()
            if key in done:
                continue
            done.add(key)
            ctrl, q = dict(key[0]), key[1]
            # is_good() says whether the end was reached
            for f in gf:
                for k, v, s in E.run(f, [THIS], self.entry(ctrl, S(("R",), 64))):
                    v = E.const_of(s, v) if not isinstance(v, int) else v
                    rep.ob(R_END, k == "ret" and v == int(q == "GOOD"), f.qual, fwhere(prog, f), "is_good() %s in specified state %s" % (v, q), "is_good " + q)
            nx = self.good(ctrl) if q == "GOOD" else self.data(ctrl, q) if q in ("BODY", "CBODY") else self.byte(ctrl, q)
            work += nx
        self.pairs = done
        rep.count("product_states", len(done))
        rep.count("rounds_interpreted", self.runs)
        seen = {q for c, q in done}
        for w in sorted({"BODY", "CBODY", "GOOD", "SIZE0", "SIZE", "EXT", "SLF", "CR", "LF", "TL0", "TR", "TRLF", "FLF"} - seen):
            self.viol(R_STEP, "reach " + w, "specified state %s is never reached" % w)
        self.limits()
        rep.engine(E)

    def good(self, ctrl):
        st = self.entry(ctrl, S(("R",), 64))
        st.cons[N] = ((1, 1 << 62),)
        for k, pos, s in self.round(st, N):
            same = k == "ret" and pos == 0 and self.ctrl_of(s) == ctrl and self.strdelta(st, s, self.o_text)[0] == "same"
            self.rep.ob(R_END, same, CLS, fwhere(self.prog, self.parse), "bytes after the end of the body are taken", "good", fw.path_of(self.prog, s))
        return []

    def data(self, ctrl, q):
        """a block of body bytes: exactly min(n, R) of them are taken"""
        E, rep = self.E, self.rep
        R = S(("R",), 64)
        out = []
        for st, nbits in self.split_sizes(ctrl, R):
            t0 = sm.gs(E, st.copy(), P(THIS[1], self.o_text))
            rs = self.round(st, N)
            if not rs:
                self.viol(R_LEN, q, "body bytes are never taken")
            for k, pos, s in rs:
                if k == "exc":
                    self.viol(R_LEN, q + " exc", "body bytes are refused", s)
                    continue
                small = nbits == "n<=R"
                full = N if small else R
                t = sm.gs(E, s, P(THIS[1], self.o_text))
                ps = sm.pieces(t[2])
                p0 = sm.pieces(t0[2])
                wrote = ps[len(p0):] if ps[:len(p0)] == p0 else None
                exact = wrote is not None and len(wrote) == 1 and wrote[0][0] == "r" and wrote[0][1][0] == "buf" and wrote[0][1][1] == P(IN, 0)
                ln = wrote[0][1][2] if exact else None
                self.rep.ob(R_LEN, exact and yes(E, s, "eq", ln, full) and pos is not None and yes(E, s, "eq", pos, full), CLS, fwhere(self.prog, self.parse),
                            "with %s, the body does not grow by exactly the bytes taken" % ("at most the outstanding bytes available" if small else "more than the outstanding bytes available"),
                            q + " take", fw.path_of(self.prog, s))
                left = add(R, neg(full, 64), 64)
                end = E.decide(s, E.icmp(s, "eq", left, 0, 64))
                if end is None:
                    alts = E.assume(s.copy(), E.icmp(s, "eq", left, 0, 64), True) and [(True, x) for x in E.assume(s.copy(), E.icmp(s, "eq", left, 0, 64), True)]
                    alts += [(False, x) for x in E.assume(s.copy(), E.icmp(s, "ne", left, 0, 64), True)]
                else:
                    alts = [(end, s)]
                for end, x in alts:
                    if not end:
                        self.rep.ob(R_LEN, yes(E, x, "eq", self.num(x, self.o_rem), left), CLS, fwhere(self.prog, self.parse), "the outstanding bytes are not reduced by the bytes taken",
                                    q + " left", fw.path_of(self.prog, x))
                    q2 = q if not end else "GOOD" if q == "BODY" else "CR"
                    self.edge(q, q2, st, x)
                    if q2 == q and self.ctrl_of(x) != ctrl:
                        pass
                    out.append((tuple(sorted(self.ctrl_of(x).items())), q2))
        return out

    def split_sizes(self, ctrl, R):
        E = self.E
        for which in ("n<=R", "n>R"):
            st = self.entry(ctrl, R, ((1, BIG),))
            st.cons[N] = ((1, 1 << 62),)
            for s in E.assume(st, E.icmp(st, "ule", N, R, 64), which == "n<=R"):
                yield s, which

    def byte(self, ctrl, q):
        E, rep = self.E, self.rep
        R = S(("R",), 64)
        I = S(("in", 0), 8)
        out = []
        bad = {}
        st = self.entry(ctrl, R, ((0, BIG),))
        st.wregion(IN).cells[0] = (1, I)
        seen = {b: set() for b in range(256)}
        for k, pos, s in self.round(st, 1):
            bs = list(iset_iter(s.cons.get(I, ((0, 255),))))
            if k == "exc":
                for b in bs:
                    seen[b].add("exc")
                    w = spec(q, b)
                    if w and w[0]:
                        if q == "SIZE" and b in HEX and E.ranges(s, R)[0][0] > (1 << 56):
                            continue
                        bad.setdefault("refuses", (b, s))
                continue
            if pos != 1:
                self.viol(R_STEP, q + " pos", "the byte is not taken", s)
                continue
            if self.strdelta(st, s, self.o_text)[0] != "same":
                self.viol(R_LEN, q + " text", "a framing byte changes the body", s)
            byn = {}
            for b in bs:
                seen[b].add("ok")
                w = spec(q, b)
                if w is None:
                    bad.setdefault("accepts", (b, s))
                else:
                    byn.setdefault(w[1], []).append(b)
            for n, bb in byn.items():
                x = s.copy()
                x.cons[I] = tuple((b, b) for b in bb)
                if n == "SIZE":
                    self.number(q, R, I, x, bb)
                elif q in ("SIZE", "EXT", "SLF"):
                    rep.ob(R_NUM, yes(E, x, "eq", self.num(x, self.o_rem), R), CLS, fwhere(self.prog, self.parse), "the chunk size changes after it was read",
                           q + " keep", fw.path_of(self.prog, x))
                alts = [(n, x)]
                if n == NEXTNUM:
                    alts = [("TL0", y) for y in E.assume(x.copy(), E.icmp(x, "eq", R, 0, 64), True)] + [("CBODY", y) for y in E.assume(x.copy(), E.icmp(x, "ne", R, 0, 64), True)]
                for n2, y in alts:
                    self.edge(q, n2, st, y)
                    out.append((tuple(sorted(self.ctrl_of(y).items())), n2))
        for b in range(256):
            if not seen[b]:
                bad.setdefault("drops", (b, None))
        for what, (b, s) in bad.items():
            self.viol(R_STEP, "%s %s" % (q, what), "in specified state %s, byte 0x%02x is %s" % (q, b, {"refuses": "refused", "accepts": "accepted", "drops": "not handled"}[what]), s)
        if not bad:
            self.ok(R_STEP)
        return out

    def number(self, q, R, I, s, bs):
        E, rep = self.E, self.rep
        new = self.num(s, self.o_rem)
        B = Bits(E, s)
        d = B.fn(I, lambda v: HEX.get(v, 0), 4)
        want = d + [0] * 60
        if q == "SIZE":
            hi = E.ranges(s, R)[-1][1]
            fits = hi <= (BIG >> 4)
            rep.ob(R_OVF, fits, CLS, fwhere(self.prog, self.parse), "a chunk size beyond 64 bits is accepted", "overflow", fw.path_of(self.prog, s))
            if not fits:
                return
            want = d + B.of(R, 64)[:60]
        have = B.of(new, 64) if not isinstance(new, int) else [(new >> k) & 1 for k in range(64)]
        rep.ob(R_NUM, have == want, CLS, fwhere(self.prog, self.parse), "a digit does not make the chunk size %s" % ("the digit" if q == "SIZE0" else "16 times the size so far plus the digit"),
               q + " digit", fw.path_of(self.prog, s))

    # ---- limits
    def edge(self, q, q2, st, s):
        d = self.edges.setdefault((q, q2), {})
        for o in self.nums:
            if o == self.o_rem:
                continue
            v = self.num(s, o)
            d.setdefault(o, set()).add(v if isinstance(v, int) else None)

    def limits(self):
        """runs of framing bytes without body bytes are bounded by the limits; the count starts again with every chunk"""
        E, rep = self.E, self.rep
        I = S(("in", 0), 8)
        delta = {}
        for ctrl, q in sorted(self.pairs, key=repr):
            if q in ("GOOD", "BODY"):
                continue
            cnt = {o: S(("c", o), 64) for o in self.nums if o != self.o_rem}
            st = self.entry(dict(ctrl), S(("R",), 64), ((0, BIG) if q != "CBODY" else (1, BIG),))
            for o, c in cnt.items():
                st.wregion(THIS[1]).cells[o] = (8, c)
                st.cons[c] = ((0, 1 << 62),)
            st.wregion(THIS[1]).cells[self.maxs["chunk"]] = (8, 11)
            st.wregion(THIS[1]).cells[self.maxs["trailer"]] = (8, 22)
            n = 1
            if q == "CBODY":
                st.cons[N] = ((1, 1 << 62),)
                n = N
            else:
                st.wregion(IN).cells[0] = (1, I)
            for k, pos, s in self.round(st, n):
                if k == "exc":
                    continue
                succ = set()
                if q == "CBODY":
                    succ = {"CBODY", "CR"}
                    succ = {x for x in succ if (tuple(sorted(self.ctrl_of(s).items())), x) in self.pairs}
                else:
                    for b in iset_iter(s.cons.get(I, ((0, 255),))):
                        w = spec(q, b)
                        if w:
                            succ |= {"TL0", "CBODY"} if w[1] == NEXTNUM else {w[1]}
                e = {}
                for o, c in cnt.items():
                    v = self.num(s, o)
                    e[o] = ("k", v) if isinstance(v, int) else ("+", add(v, neg(c, 64), 64)) if isinstance(add(v, neg(c, 64), 64), int) else ("?",)
                    e[o] += (E.ranges(s, c)[-1][1],)
                for q2 in succ:
                    delta.setdefault((q, q2), []).append((e, s))
        nodes = {q for e in delta for q in e}

        def reach(es):
            r = {n: {n} for n in nodes}
            ch = True
            while ch:
                ch = False
                for a, b in es:
                    for n in nodes:
                        if a in r[n] and b not in r[n]:
                            r[n].add(b)
                            ch = True
            return r
        # without body bytes
        fr = [e for e in delta if e[0] != "CBODY"]
        r = reach(fr)
        for (a, b) in fr:
            if a not in r[b]:
                continue
            for e, s in delta[(a, b)]:
                mx = 22 if a in TRAILER else 11
                good = any(x[0] == "+" and x[1] >= 1 and x[2] <= mx for x in e.values())
                rep.ob(R_LIM, good, CLS, fwhere(self.prog, self.parse), "in specified state %s bytes are accepted without limit" % a, "limit " + a, fw.path_of(self.prog, s))
        # with body bytes: a counter that grows must start again
        for o in self.nums:
            if o == self.o_rem:
                continue
            es = [x for x, l in delta.items() if not all(e[o][0] == "k" and e[o][1] <= 2 for e, s in l)]
            r = reach(es)
            grow = [(a, b) for a, b in es if "CBODY" in r[b] and a in r["CBODY"] and any(e[o][0] != "+" or e[o][1] != 0 for e, s in delta[(a, b)])]
            rep.ob(R_RST, not grow, CLS, fwhere(self.prog, self.parse), "%s grows over all chunks of a body" % self.leaf[o][0], "reset")


def c17(prog, rep):
    Body(prog, rep).explore()
    buffer_rule(prog, rep, CLS)
    for r in (R_STEP, R_LEN, R_NUM, R_OVF, R_END, R_LIM, R_RST, R_CTOR):
        rep.need(r, 1)


C17 = c17
