"""C30: query, cookie and URI parsers against specification automata over their registers."""
from absint import State, P, S, is_ptr, add, iset_iter, iset_norm, iset_count, leaves, evalt, mask
from model import AnalysisError
import std_models as sm
import parsers
import objects
from parsers import Machine, THIS, IN, on_push, elem_offsets
from rules_net import fwhere, where
import fw

HEX = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
SP = b" \t"
R_BYTE = "each byte has the specified effect"
R_END = "the end of input has the specified effect"


# ---------------------------------------------------------------- contents as token tuples
def tokens(prog, cid, env):
    """canonical content: bytes as integers, anything opaque as a tuple"""
    out = []
    for x in sm.pieces(cid):
        if x[0] == "k":
            out += list(x[1])
        elif x[0] == "b":
            if isinstance(x[1], int):
                out.append(x[1] & 255)
                continue
            try:
                out.append(evalt(x[1], env, prog) & 255)
            except KeyError:
                out.append(("?", x[1]))
        elif x[0] == "r" and x[1][0] in ("urldec", "trim"):
            out.append((x[1][0], tokens(prog, x[1][1], env)))
        else:
            out.append(x)
    return tuple(out)


def m_urldec(E, st, fr, i, args, fn):
    sret, a = sm.sretargs(args, fn)
    v = sm.gs(E, st, a[0])
    n = S(("urldeclen", v[2]), 64)
    st.cons.setdefault(n, sm.HUGE)
    sm.ps(E, st, sret, n, ("urldec", v[2]))
    return None


def factory(prog):
    E = parsers.engine(prog)
    E.models["crab::http::url_decode"] = m_urldec

    def on_el(E, st, fr, i, kind, a, b, c):
        # a pair is stored: the key as it is now, the map it goes to; the value is what the element holds in the end
        k = 0
        while ("#pair", k) in st.g:
            k += 1
        st.g[("#pair", k)] = (a, sm.gs(E, st, b[0])[2] if b and is_ptr(b[0]) else None, fr.ctx, i.get("d", 0))

    def on_pop(E, st, fr, i, kind, a, b, c):
        k = 0
        while ("#pop", k) in st.g:
            k += 1
        st.g[("#pop", k)] = a
    E.on("map.operator[]", on_el)
    E.on("vec.pop_back", on_pop)
    return E


def pairs_of(E, s):
    out, k = [], 0
    while ("#pair", k) in s.g:
        a, key, ctx, d = s.g[("#pair", k)]
        el = P(("mapel", E_fresh_name(s, ctx, d)), 0)
        out.append((a, key, sm.gs(E, s, el)[2]))
        k += 1
    return out


def E_fresh_name(s, ctx, d):
    # the element's region carries the name m_map gave it
    cand = [r for r in s.mem if isinstance(r, tuple) and r and r[0] == "mapel"]
    for r in cand:
        n = r[1]
        if isinstance(n, tuple) and n[:3] == ("mapel", ctx, d) or n == ("mapel", ctx, d):
            return n
    if len(cand) == 1:
        return cand[0][1]
    raise AnalysisError("element of a map not found: %r" % (cand,))


# ---------------------------------------------------------------- specifications
# step(q, emp, b, first) -> None (refuse) or (q', ops); ops: ("app", reg, tokens) ("clr", reg) ("pair",) ("component",) ("userinfo", withport)
class Query:
    cls = "crab::http::QueryParser"
    start = "K"
    regs = ("key", "value")
    probe = (b"kk=vvv", {"key": 2, "value": 3})
    trim = False
    wrapper = "crab::http::parse_query_string"
    reach = ("K", "V", "KP1", "VP1")

    @staticmethod
    def step(q, emp, b, first=None):
        r = {"K": "key", "V": "value"}[q[0]]
        if q in ("KP1", "VP1"):
            if b in HEX:
                return q[0] + "P2", []
            n, ops = Query.step(q[0], dict(emp, **{r: False}), b)
            return n, [("app", r, (37,))] + ops
        if q in ("KP2", "VP2"):
            if b in HEX:
                return q[0], [("app", r, (HEX[first] * 16 + HEX[b],))]
            n, ops = Query.step(q[0], dict(emp, **{r: False}), b)
            return n, [("app", r, (37, first))] + ops
        if b == 38:
            if q == "V" or not emp["key"]:
                return "K", [("pair",), ("clr", "key"), ("clr", "value")]
            return "K", []
        if b == 37:
            return q + "P1", []
        if b == 61 and q == "K":
            return "V", []
        return q, [("app", r, (32 if b == 43 else b,))]

    @staticmethod
    def end(q, emp, first=None):
        r = {"K": "key", "V": "value"}[q[0]]
        if q == "K" and emp["key"]:
            return []
        return ([("app", r, (37,))] if q[1:] == "P1" else [("app", r, (37, first))] if q[1:] == "P2" else []) + [("pair",), ("clr", "key"), ("clr", "value")]


class Cookie:
    cls = "crab::http::CookieParser"
    start = "KW"
    regs = ("key", "value")
    probe = (b"kk=vvv", {"key": 2, "value": 3})
    trim = True
    wrapper = "crab::http::parse_cookie_string"
    reach = ("KW", "K", "VW", "V")

    @staticmethod
    def step(q, emp, b, first=None):
        if b == 59:
            return "KW", [] if q == "KW" else [("pair",), ("clr", "key"), ("clr", "value")]
        if q in ("KW", "VW") and b in SP:
            return q, []
        if q in ("KW", "K"):
            return ("VW", []) if b == 61 else ("K", [("app", "key", (b,))])
        return "V", [("app", "value", (b,))]

    @staticmethod
    def end(q, emp, first=None):
        return [] if q == "KW" else [("pair",), ("clr", "key"), ("clr", "value")]


class Uri:
    cls = "crab::http::URIParser"
    start = "S"
    regs = ("cur", "scheme", "user_info", "host", "port", "path", "query")
    probe = (b"s://h/ppp", {"cur": 3})
    trim = False
    wrapper = None
    reach = ("S", "S1", "S2", "H0", "H1", "P0", "P1", "PATH", "PCT1", "Q")

    @staticmethod
    def step(q, emp, b, first=None):
        if q == "S":
            return ("S1", []) if b == 58 else ("S", [("app", "scheme", (b,))])
        if q in ("S1", "S2"):
            return ({"S1": "S2", "S2": "H0"}[q], []) if b == 47 else None
        if q[0] in "HP" and len(q) == 2:
            if b == 64:
                return None if q[1] == "1" else ("H1", [("userinfo", q[0] == "P")])
            if b == 47:
                return "PATH", []
            if q[0] == "H":
                return ("P" + q[1], []) if b == 58 else (q, [("app", "host", (b,))])
            return q, [("app", "port", (b,))]
        if q == "PATH":
            if b == 37:
                return "PCT1", []
            if b == 63:
                return "Q", []
            if b == 47:
                return "PATH", [("component",)]
            return "PATH", [("app", "cur", (b,))]
        if q == "PCT1":
            if b in HEX:
                return "PCT2", []
            n, ops = Uri.step("PATH", emp, b)
            return n, [("app", "cur", (37,))] + ops
        if q == "PCT2":
            if b in HEX:
                return "PATH", [("app", "cur", (HEX[first] * 16 + HEX[b],))]
            n, ops = Uri.step("PATH", emp, b)
            return n, [("app", "cur", (37, first))] + ops
        return "Q", [("app", "query", (b,))]

    @staticmethod
    def end(q, emp, first=None):
        if q in ("S", "S1", "S2"):
            return None
        return ([("app", "cur", (37,))] if q == "PCT1" else [("app", "cur", (37, first))] if q == "PCT2" else []) + [("finish",)]


class Product:
    def __init__(self, prog, rep, spec):
        self.prog, self.rep, self.spec = prog, rep, spec
        ps = [f for q, l in prog.by_qual.items() if q.startswith(spec.cls + "::parse<") for f in l if len(f.args) == 3 and f.bb]
        self.m = Machine(prog, rep, spec.cls, parse=ps or None, factory=factory)
        self.name = spec.cls.rsplit("::", 1)[1]
        f = prog.find(spec.cls + "::parse_end")
        if len(f) != 1:
            raise AnalysisError("no parse_end of %s" % spec.cls)
        self.fend = f[0]
        self.bind()
        self.ends = 0

    def bind(self):
        m = self.m
        st = State()
        rg = st.wregion(THIS[1])
        for o, c in m.init.items():
            rg.cells[o] = c
        for k, b in enumerate(self.spec.probe[0]):
            st.wregion(IN).cells[k] = (1, b)
        n = len(self.spec.probe[0])
        rs = [s for k, v, s in m.E.run(m.parse, [THIS, P(IN, 0), P(IN, n)], st) if k == "ret"]
        if len(rs) != 1:
            raise AnalysisError("%s: %d outcomes for %r" % (self.name, len(rs), self.spec.probe[0]))
        self.reg = {}
        for r, ln in self.spec.probe[1].items():
            c = [o for o, x in m.leaf.items() if x[2] == "str" and not m.public(x[0]) and "." not in x[0] and sm.gs(m.E, rs[0], P(THIS[1], o))[1] == ln]
            self.rep.ob("pairs and components being read are kept", len(c) >= 1, self.spec.cls, fwhere(self.prog, m.parse), "%s: nothing holds the %s after %r" % (self.name, r, self.spec.probe[0]), r)
            if not c:
                raise AnalysisError("%s: register %s not found" % (self.name, r))
            self.reg[r] = c[0]
        for r in self.spec.regs:
            if r not in self.reg:
                self.reg[r] = m.off("uri." + r)
        self.vecs = [o for o, x in m.leaf.items() if x[2] == "vec"]

    def entry(self, ctrl, emp, vec=None):
        m = self.m
        cells = {}
        for r, o in self.reg.items():
            if emp.get(r):
                cells[o] = (32, sm.konst(b""))
        st = m.state(ctrl, cells)
        for r, o in self.reg.items():
            if not emp.get(r):
                v = sm.gs(m.E, st, P(THIS[1], o))
                st.cons[v[1]] = ((1 if self.followed(r) else 0, 1 << 40),)
        for o in self.vecs:
            v = sm.getcell(m.E, st, P(THIS[1], o), "vec", 24)
            if vec is None:
                st.cons[v[1]] = ((0, 1 << 40),)
            else:
                sm.putcell(m.E, st, P(THIS[1], o), 24, ("vec", vec, v[2]))
        return st

    def base(self, st):
        return {r: tokens(self.prog, sm.gs(self.m.E, st, P(THIS[1], o))[2], {}) if sm.gs(self.m.E, st, P(THIS[1], o))[1] != 0 else () for r, o in self.reg.items()}

    def run(self):
        m, sp = self.m, self.spec
        c0 = {}
        for o in m.ctrl:
            v = m.init.get(o)
            if v is None or not isinstance(v[1], int):
                raise AnalysisError("%s leaves %s uninitialised" % (sp.cls, m.leaf[o][0]))
            c0[o] = v[1]
        self.c0 = c0
        emp0 = {}
        for r, o in self.reg.items():
            v = m.init.get(o)
            emp0[r] = True
            self.rep.ob("a fresh parser starts empty", v is not None and v[1][1] == 0, sp.cls, fwhere(self.prog, m.parse), "%s not empty" % r, r)
        emp0 = {r: e for r, e in emp0.items() if self.followed(r)}
        k0 = (tuple(sorted(c0.items())), sp.start, tuple(sorted(emp0.items())))
        work, seen = [k0], {k0}
        while work:
            k = work.pop()
            if len(seen) > 300:
                raise AnalysisError("automaton of %s does not converge" % sp.cls)
            for n in self.visit(dict(k[0]), k[1], dict(k[2])):
                if n not in seen:
                    seen.add(n)
                    work.append(n)
        qs = {k[1] for k in seen}
        for q in sp.reach:
            self.rep.ob("every specified state is reachable", q in qs, sp.cls, fwhere(self.prog, m.parse), "%s never reaches %s" % (self.name, q), q)
        self.rep.count("product states (%s)" % self.name, len(seen))
        self.rep.count("automaton steps interpreted", m.runs + self.ends)
        self.rep.engine(m.E)

    def followed(self, r):
        """registers whose emptiness the specification's states distinguish"""
        return r in ("key", "value")

    def visit(self, ctrl, q, emp):
        m, sp = self.m, self.spec
        st = self.entry(ctrl, emp)
        out = []
        two = []
        got = ()
        for k, v, s in m.step(st):
            bs = m.bytes_of(s)
            got = iset_norm(tuple(got) + tuple(bs))
            second = False
            for b in iset_iter(bs):
                r = sp.step(q, emp, b)
                n = self.compare(st, q, emp, k, v, s, {S(("in", 0), 8): b}, "byte %s" % show(b), r, P(IN, 1), R_BYTE)
                if n is not None:
                    if n[1].endswith("2") and n[1] not in ("S2",):
                        second = True
                    else:
                        out.append(n)
            if second:
                two.append(s)
        self.rep.ob("every byte has an outcome", got == ((0, 255),), sp.cls, fwhere(self.prog, m.parse), "%s: bytes with no outcome in state %s" % (self.name, q), q)
        self.at_end(ctrl, q, emp)
        # a percent sign and one digit: go on from where that led
        for s1 in two:
            p2 = q[:-1] + "2"
            firsts = [b for b in iset_iter(m.bytes_of(s1)) if b in HEX]
            got = ()
            for k, v, s in m.step(s1, 1, 1):
                bs = m.bytes_of(s, 1)
                got = iset_norm(tuple(got) + tuple(bs))
                for b0 in firsts:
                    if not any(lo <= b0 <= hi for lo, hi in m.bytes_of(s, 0)):
                        continue
                    for b in iset_iter(bs):
                        r = sp.step(p2, emp, b, b0)
                        n = self.compare(st, p2, emp, k, v, s, {S(("in", 0), 8): b0, S(("in", 1), 8): b}, "%%%s then %s" % (chr(b0), show(b)), r, P(IN, 2), R_BYTE)
                        if n is not None:
                            out.append(n)
            self.rep.ob("every byte has an outcome", got == ((0, 255),), sp.cls, fwhere(self.prog, m.parse), "%s: bytes with no outcome in state %s" % (self.name, p2), p2)
            if self.vecs:
                continue     # the end of a URI with a cut escape is judged below with a known number of components
            for k, v, s in self.run_end(s1):
                for b0 in firsts:
                    self.compare(st, p2, emp, k, v, s, {S(("in", 0), 8): b0}, "end of input after %%%s" % chr(b0), sp.end(p2, emp, b0), None, R_END)
        return set(out)

    def run_end(self, st):
        self.ends += 1
        return self.m.outcomes(self.m.E.run(self.fend, [THIS], st.copy()))

    def at_end(self, ctrl, q, emp):
        for n in ((0, 1, 2) if self.vecs else (None,)):
            st = self.entry(ctrl, emp, n)
            for k, v, s in self.run_end(st):
                self.compare(st, q, emp, k, v, s, {}, "end of input", self.spec.end(q, emp), None, R_END, n)
            if self.vecs and q == "PCT1":
                for k, v, s1 in self.m.step(st):
                    if k != "ret" or not any(b in HEX for b in iset_iter(self.m.bytes_of(s1))):
                        continue
                    for k2, v2, s in self.run_end(s1):
                        for b0 in iset_iter(self.m.bytes_of(s1)):
                            if b0 in HEX:
                                self.compare(st, "PCT2", emp, k2, v2, s, {S(("in", 0), 8): b0}, "end of input after %%%s" % chr(b0), self.spec.end("PCT2", emp, b0), None, R_END, n)

    def compare(self, st, q, emp, k, v, s, env, what, r, ret, rule, nvec=None):
        m, E, rep, prog, sp = self.m, self.m.E, self.rep, self.prog, self.spec

        def bad(msg, detail):
            rep.ob(rule, False, sp.cls, where(prog, s, self.fend if rule == R_END else m.parse), "%s, state %s, %s: %s" % (self.name, q, what, msg), "%s:%s" % (q, detail), fw.path_of(prog, s))
        if k == "exc":
            if r is None:
                if not E.is_a(v.tname, "std::exception"):
                    bad("throws %s" % v.tname, "exc")
                else:
                    rep.ob(rule, True)
            else:
                bad("refused, but it is legal", "refused")
            return None
        if r is None:
            bad("accepted, but it must be refused", "accepted")
            return None
        nq, ops = r if rule == R_BYTE else (q, r)
        cur = dict(self.base(st))
        emp2 = dict(emp)
        pairs, pushes, pops = [], [], 0
        for op in ops:
            if op[0] == "app":
                cur[op[1]] = cur[op[1]] + tuple(op[2])
                emp2[op[1]] = False
            elif op[0] == "clr":
                cur[op[1]] = ()
                emp2[op[1]] = True
            elif op[0] == "pair":
                t = [cur["key"], cur["value"]]
                if sp.trim:
                    t = [self.trimmed(x) for x in t]
                pairs.append(tuple(t))
            elif op[0] == "userinfo":
                cur["user_info"] = (("urldec", cur["host"] + ((58,) + cur["port"] if op[1] else ())),)
                cur["host"] = ()
                if op[1]:
                    cur["port"] = ()
            elif op[0] == "component":
                d = self.dots(st, s, cur["cur"], env)
                if d is None:
                    bad("a path component is stored without looking whether it is '.' or '..'", "dots")
                    return None
                if d == "..":
                    n0 = E.decide(s, E.icmp(s, "eq", self.nvec(st), 0, 64))
                    if n0 is None:
                        bad("goes up a directory without looking whether there is one", "up")
                        return None
                    pops += 0 if n0 else 1
                elif d == "":
                    pushes.append(cur["cur"])
                cur["cur"] = ()
            elif op[0] == "finish":
                t = cur["path"]
                for j in range(nvec):
                    o = self.vecs[0]
                    cell = sm.getcell(E, st, P(THIS[1], o), "vec", 24)
                    el = sm.gs(E, s.copy(), P(("vd", cell[2]), 32 * j))
                    t = t + (47,) + tokens(prog, el[2], env)
                cur["path"] = t + (47,) + cur["cur"]
        okk = True
        if ret is not None and v is not None and v != ret and not (is_ptr(v) and v == ret):
            okk = False
            bad("parse returns %r" % (v,), "ret")
        if rule == R_END and not self.vecs and m.ctrl_of(s) != self.c0:
            okk = False
            bad("the parser is not ready for the next text", "again")
        cmp_regs = sp.regs if rule == R_BYTE or not self.vecs else [x for x in sp.regs if m.public(self.m.leaf[self.reg[x]][0]) or "." in m.leaf[self.reg[x]][0]]
        for x in cmp_regs:
            w = sm.gs(E, s, P(THIS[1], self.reg[x]))
            g = tokens(prog, w[2], env) if w[1] != 0 else ()
            if g != cur[x]:
                okk = False
                bad("%s becomes %s, specified %s" % (x, txt(g), txt(cur[x])), x)
        gp = []
        for a, key, val in pairs_of(E, s):
            gp.append((tokens(prog, key, env), tokens(prog, val, env)))
        if gp != pairs:
            okk = False
            bad("pairs stored: %s, specified %s" % ([tuple(map(txt, p)) for p in gp], [tuple(map(txt, p)) for p in pairs]), "pairs")
        if self.vecs:
            gpush = [tokens(prog, el[0], env) for n_, el in m.pushes(s) if el]
            npop = sum(1 for g in s.g if isinstance(g, tuple) and g and g[0] == "#pop")
            if gpush != pushes or npop != pops:
                okk = False
                bad("path components: %d removed, %s appended; specified %d, %s" % (npop, [txt(x) for x in gpush], pops, [txt(x) for x in pushes]), "components")
        if okk:
            rep.ob(rule, True)
        if rule == R_END:
            return None
        return (tuple(sorted(m.ctrl_of(s).items())), nq, tuple(sorted(emp2.items())))

    def trimmed(self, t):
        if not t:
            return t
        if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == "r":
            return (("trim", t),)
        return t

    def nvec(self, st):
        return sm.getcell(self.m.E, st, P(THIS[1], self.vecs[0]), "vec", 24)[1]

    def dots(self, st, s, toks, env):
        """what the path knows about the component: '..', '.', '' (neither) or None"""
        E = self.m.E
        if any(not isinstance(x, int) for x in toks) and len(toks) > 1:
            tail = bytes(x for x in toks[1:] if isinstance(x, int))
            if len(tail) == len(toks) - 1 and tail.strip(b"."):
                return ""
        v = self.component_cid(st, s, toks)
        if v is None:
            return None
        known = []
        for w in (b"..", b"."):
            r = self.eq(s, v, w)
            if r is True:
                return w.decode()
            known.append(r)
        return "" if known == [False, False] else None

    def component_cid(self, st, s, toks):
        """(length, content id) the code compared: the entry content, perhaps with bytes appended in this step"""
        E = self.m.E
        a = sm.gs(E, st.copy(), P(THIS[1], self.reg["cur"]))
        n = len(toks) - 1
        if n == 0:
            return (a[1], a[2])
        # contents of which the entry content is a prefix, as the memory comparisons of this path name them
        return (add(a[1], n, 64), None)

    def eq(self, s, v, w):
        E = self.m.E
        d = E.decide(s, E.icmp(s, "eq", v[0], len(w), 64))
        if d is False:
            return False
        if v[1] is None:
            return None
        for x, y in (((v[1], 0), ("k", w)), (("k", w), (v[1], 0))):
            z = E.decide(s, E.icmp(s, "eq", S(("memcmp", x, y, len(w)), 32), 0, 32))
            if z is False:
                return False
            if z is True and d is True:
                return True
        r = E.decide(s, sm.str_eq(E, s, ("str", v[0], v[1]), sm.konst(w)))
        return r


def show(b):
    return "0x%02x%s" % (b, " '%c'" % b if 32 < b < 127 else "")


def txt(t):
    return "".join(chr(x) if isinstance(x, int) and 32 <= x < 127 else ("\\x%02x" % x if isinstance(x, int) else "<%s>" % (x[0] if x[0] in ("urldec", "trim", "?") else "text")) for x in t) if t is not None else "?"


def wrapper_rule(prog, rep, spec):
    """parse(const std::string &) and the free function: the whole string, once, and then the end"""
    fs = [f for f in prog.find(spec.cls + "::parse") if len(f.args) == 2 and f.bb]
    if not fs:
        raise AnalysisError("no %s::parse(const std::string &)" % spec.cls)
    todo = [(fs[0], False)]
    if spec.wrapper:
        g = prog.find(spec.wrapper)
        if len(g) != 1:
            raise AnalysisError("%s not found" % spec.wrapper)
        todo.append((g[0], True))
    m = Machine(prog, rep, spec.cls, parse=[fs[0]], factory=factory)
    for f, free in todo:
        for n in range(4):
            E = m.E
            st = State()
            pre = tuple(b"s://h/") if spec is Uri else ()
            sy = [S(("c", k), 8) for k in range(n)]
            for x in sy:
                st.cons[x] = ((97, 122),)
            A = P(("*", ("str",)), 0)
            E.apart = {A[1], THIS[1], ("*", ("res",))}
            bs = tuple(("b", x) for x in pre) + tuple(("b", x) for x in sy)
            if bs:
                sm.ps(E, st, A, len(bs), sm.cat(("cat", bs)))
            else:
                sm.ps(E, st, A, 0, ("k", b""))
            if free:
                R = P(("*", ("res",)), 0)
                args = [R, A]
            else:
                rg = st.wregion(THIS[1])
                for o, c in m.init.items():
                    rg.cells[o] = c
                for o, x in m.leaf.items():
                    if x[2] == "vec":
                        sm.putcell(E, st, P(THIS[1], o), 24, ("vec", 0, ("vec", "new", "w")))
                args = [THIS, A]
            moved = []

            def on_ctor(E2, st2, fr, i, kind, a, b, c):
                if b and is_ptr(b[0]) and is_ptr(a) and a[1] == ("*", ("res",)):
                    st2.g[("#from",)] = b[0]
            if free and not getattr(E, "ctor_on", False):
                E.on("map.unordered_map", on_ctor)
                E.ctor_on = True
            for k, v, s in E.run(f, args, st):
                ok = k == "ret"
                if ok and spec is not Uri:
                    ps = pairs_of(E, s)
                    want = [tuple(("b", x) for x in sy)] if n else []
                    ok = [tuple(sm.pieces(p[1][1] if p[1][0] == "trim" else p[1])) for p in ps] == want and all(sm.pieces(p[2]) == () for p in ps)
                    if ok and free and n:
                        fr_ = s.g.get(("#from",))
                        ok = ps[0][0] == R or fr_ is not None and fr_ == ps[0][0]
                elif ok:
                    w = sm.gs(E, s, P(THIS[1], m.off("uri.path")))
                    ok = tokens(prog, w[2], {}) == tokens(prog, sm.cat(("k", b"/"), ("cat", bs[6:])) if n else ("k", b"/"), {})
                rep.ob("a whole string is parsed once and then ended", ok, f.qual, fwhere(prog, f), "wrong for a string of %d bytes" % n, "free" if free else "string", fw.path_of(prog, s))
    rep.engine(m.E)


def C30(prog, rep):
    for spec in (Query, Cookie, Uri):
        Product(prog, rep, spec).run()
        wrapper_rule(prog, rep, spec)
    rep.need(R_BYTE, 5000)
    rep.need(R_END, 10)
