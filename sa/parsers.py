"""Byte-driven parsers as automata.

A parser object is stepped by interpreting its public parse(begin, begin+1) with one symbolic input byte.  Control cells (enumerations and
bools of the object) are concrete and explored from the constructor's values; every other cell (strings, numbers, containers) is unknown.
Each step yields outcomes: the exact set of input bytes, what happened to each field (bytes appended, cleared, set), exception or not, and
the next control cells.  The product of this automaton with a specification automaton is explored completely; nothing depends on the names
of states or private members."""
from absint import Engine, State, Region, P, S, is_ptr, add, evalt, iset_iter, iset_norm, Exc, mask, leaves, width, iset_count
from model import AnalysisError
import std_models as sm
import objects

IN = ("*", ("in",))
THIS = objects.THIS
ALL = ((0, 255),)


def m_trim(E, st, fr, i, args, fn):
    v = sm.gs(E, st, args[0])
    if v[1] == 0:
        return None
    cid = v[2]
    if cid[0] in ("trim",):
        return None
    if cid[0] == "k":
        d = cid[1].rstrip(b" \t")
        sm.ps(E, st, args[0], len(d), ("k", d))
        return None
    n = S(("trimlen", cid), 64)
    st.cons.setdefault(n, sm.HUGE)
    E.assume(st, E.icmp(st, "ule", n, v[1], 64), True)
    sm.ps(E, st, args[0], n, ("trim", cid))
    return None


def m_lower(E, st, fr, i, args, fn):
    v = sm.gs(E, st, args[0])
    if v[2][0] == "k":
        sm.ps(E, st, args[0], v[1], ("k", v[2][1].lower()))
    elif v[2][0] != "lower":
        sm.ps(E, st, args[0], v[1], ("lower", v[2]))
    return None


def m_icast(E, st, fr, i, args, fn):
    v = sm.gs(E, st, args[0])
    s2 = st.copy()
    st.g[("#icast", v[2])] = 1
    s2.g[("#icast", v[2])] = 0
    return [("ret", S(("icast", v[2]), 64), st)] + sm.throw(E, s2, "std::out_of_range")


def m_ctype_val(E, st, fr, i, args, fn):
    v = sm.gs(E, st, args[0])
    for k, tag in ((1, "ctm"), (2, "cts")):
        n = S((tag + "len", v[2]), 64)
        st.cons.setdefault(n, sm.HUGE)
        sm.ps(E, st, args[k], n, (tag, v[2]))
    return None


def m_auth(E, st, fr, i, args, fn):
    v = sm.gs(E, st, args[0])
    s2 = st.copy()
    n = S(("authlen", v[2]), 64)
    st.cons.setdefault(n, sm.HUGE)
    sm.ps(E, st, args[1], n, ("auth", v[2]))
    st.g[("#auth", v[2])] = 1
    s2.g[("#auth", v[2])] = 0
    return [("ret", 1, st), ("ret", 0, s2)]


def on_push(E, st, fr, i, kind, a, b, c):
    """elements appended to a container of strings or headers: remember what was appended to which container"""
    if not is_ptr(a):
        return
    el = None
    if b and is_ptr(b[0]) and len(b) == 1:
        q = E.sig_elem
        cs = []
        for o in q(fr, i):
            w = sm.gs(E, st, P(b[0][1], add(b[0][2], o, 64)))
            cs.append(w[2])
        el = tuple(cs)
    elif b and len(b) > 1:
        el = tuple(sm.gs(E, st, x)[2] for x in b if is_ptr(x))
    k = 0
    while ("#push", k) in st.g:
        k += 1
    st.g[("#push", k)] = (a, el)


def elem_offsets(E):
    def q(fr, i):
        c = i.get("f")
        f = E.prog.fn.get(c[1]) if isinstance(c, list) and c[0] == "f" else None
        name = f.qual if f is not None else ""
        if name.startswith("std::vector<crab::http::Header"):
            return (0, 32)
        if name.startswith("std::vector<" + sm.STR):
            return (0,)
        return ()
    return q


def engine(prog):
    E = objects.engine(prog, http=False)
    E.models["crab::http::trim_right"] = m_trim
    E.models["crab::http::tolower"] = m_lower
    E.models["crab::http::parse_content_type_value"] = m_ctype_val
    E.models["crab::http::parse_authorization_basic"] = m_auth
    E.pats.insert(0, (lambda q, dm: q.startswith("crab::integer_cast<") and "basic_string" in dm.split("(")[-1], m_icast))
    E.sig_elem = elem_offsets(E)
    E.on("vec.push", on_push)
    E.exit_limit = 400
    E.loop_limit = 400
    return E


class Machine:
    def __init__(self, prog, rep, cls, parse=None, factory=engine):
        self.prog, self.rep, self.cls = prog, rep, cls
        self.E = factory(prog)
        E = self.E
        E.apart = {IN, THIS[1]}
        self.ty = prog.type(cls)
        base = cls.rsplit("::", 1)[1]
        cs = [f for f in prog.find(cls + "::" + base) if len(f.args) == 1]
        if not cs:
            raise AnalysisError("no default constructor of %s" % cls)
        rets = [s for k, v, s in E.run(cs[0], [THIS], State()) if k == "ret"]
        if len(rets) != 1:
            raise AnalysisError("constructor of %s" % cls)
        self.init = dict(rets[0].mem[THIS[1]].cells)
        fs = parse or [f for q, l in prog.by_qual.items() if q.startswith(cls + "::parse") for f in l if len(f.args) == 3 and f.bb]
        if not fs:
            raise AnalysisError("no parse(begin, end) of %s" % cls)
        self.parse = fs[0]
        self.leaf = {}           # offset -> (path, size, kind, quals)
        self._leaves(self.ty, 0, "")
        self.ctrl = sorted(o for o, (p, s, k, t) in self.leaf.items() if k in ("enum", "bool") and not self.public(p))
        self.runs = 0

    def public(self, path):
        """data the user of the parser sees"""
        return path.split(".")[0] in ("req", "body")

    def _leaves(self, t, off, path):
        for (n, o, s, ty) in self.prog.members(t):
            p = path + "." + n if path else n
            if ty is None:
                continue
            q, k = ty.get("q") or "", ty.get("k")
            if q.startswith("std::__cxx11::basic_string<") or q == "std::string":
                self.leaf[off + o] = (p, 32, "str", ty)
            elif q.startswith("std::vector<"):
                self.leaf[off + o] = (p, 24, "vec", ty)
            elif k == "enumeration_type":
                self.leaf[off + o] = (p, s, "enum", ty)
            elif q == "bool":
                self.leaf[off + o] = (p, s, "bool", ty)
            elif k in ("class_type", "structure_type") and not q.startswith("std::"):
                self._leaves(ty, off + o, p)
            elif k == "base":
                self.leaf[off + o] = (p, s, "int", ty)
            else:
                self.leaf[off + o] = (p, s, "other", ty)

    def off(self, path):
        for o, x in self.leaf.items():
            if x[0] == path:
                return o
        raise AnalysisError("field %s of %s not found" % (path, self.cls))

    def has(self, path):
        return any(x[0] == path for x in self.leaf.values())

    def state(self, ctrl, cells=None, cons=None):
        """ctrl: {offset: value}; cells: {offset: (size, value)} fixed; everything else unknown"""
        st = State()
        rg = st.wregion(THIS[1])
        for o, v in ctrl.items():
            rg.cells[o] = (self.leaf[o][1], v)
        for o, c in (cells or {}).items():
            rg.cells[o] = c
        for o, (p, s, k, t) in self.leaf.items():
            if o in rg.cells:
                continue
            if k == "str":
                sm.gs(self.E, st, P(THIS[1], o))
            elif k == "vec":
                sm.getcell(self.E, st, P(THIS[1], o), "vec", 24)
            else:
                sy = S(("f", p), 8 * s)
                rg = st.wregion(THIS[1])
                rg.cells[o] = (s, sy)
                if k == "bool":
                    st.cons[sy] = ((0, 1),)
                if cons and o in cons:
                    st.cons[sy] = cons[o]
        return st

    def step(self, st, n=1, at=0):
        """parse n symbolic bytes (the first of them is byte number `at` of the input); returns outcomes"""
        st = st.copy()
        rg = st.wregion(IN)
        for k in range(at, at + n):
            rg.cells[k] = (1, S(("in", k), 8))
        self.runs += 1
        st.tr = None
        return self.outcomes(self.E.run(self.parse, [THIS, P(IN, at), P(IN, at + n)], st))

    def outcomes(self, res):
        out = []
        for k, v, s in res:
            for s2 in self.split_ctrl(s):
                out.append((k, v, s2))
        return out

    def split_ctrl(self, s):
        work = [s]
        for o in self.ctrl:
            nw = []
            for x in work:
                c = x.mem[THIS[1]].cells.get(o)
                v = self.E.load(x, P(THIS[1], o), self.leaf[o][1], "i%d" % (8 * self.leaf[o][1]))
                cv = self.E.const_of(x, v) if not isinstance(v, int) else v
                if cv is not None:
                    x.wregion(THIS[1]).cells[o] = (self.leaf[o][1], cv)
                    nw.append(x)
                    continue
                rs = self.E.ranges(x, v)
                if iset_count(rs) > 40:
                    raise AnalysisError("control cell %s of %s not finite" % (self.leaf[o][0], self.cls))
                for cand in iset_iter(rs):
                    y = x.copy()
                    for z in self.E.assume(y, self.E.icmp(y, "eq", v, cand, 8 * self.leaf[o][1]), True):
                        z.wregion(THIS[1]).cells[o] = (self.leaf[o][1], cand)
                        nw.append(z)
            work = nw
        return work

    def ctrl_of(self, s):
        return {o: s.mem[THIS[1]].cells[o][1] for o in self.ctrl}

    def bytes_of(self, s, k=0):
        return s.cons.get(S(("in", k), 8), ALL)

    def strdelta(self, st0, s, o):
        """what happened to a string: ('same',) ('app', terms) ('clr', terms) ('set', cid)"""
        a = sm.gs(self.E, st0.copy(), P(THIS[1], o))
        b = sm.gs(self.E, s, P(THIS[1], o))
        if a == b:
            return ("same",)
        pa, pb = sm.pieces(a[2]), sm.pieces(b[2])
        if a[1] == 0:
            pa = ()

        def bytes_(ps):
            out = []
            for x in ps:
                if x[0] == "b":
                    out.append(x[1])
                elif x[0] == "k":
                    out += list(x[1])
                else:
                    return None
            return tuple(out)
        if pb[:len(pa)] == pa and bytes_(pb[len(pa):]) is not None and (pa or a[1] == 0):
            return ("app", bytes_(pb[len(pa):]))
        if bytes_(pb) is not None:
            return ("clr", bytes_(pb))
        return ("set", b[2])

    def num(self, s, o):
        return self.E.load(s, P(THIS[1], o), self.leaf[o][1], "i%d" % (8 * self.leaf[o][1]))

    def pushes(self, s):
        out = []
        k = 0
        while ("#push", k) in s.g:
            a, el = s.g[("#push", k)]
            o = a[2] if a[1] == THIS[1] else None
            out.append((self.leaf[o][0] if o in self.leaf else repr(a), el))
            k += 1
        return out

    def where(self, s=None):
        f = self.parse
        return "%s:%s" % (f.file, f.line)


def eval_byte(prog, term, b, extra=None, at=0):
    """value of a term over the input byte"""
    if isinstance(term, int):
        return term
    env = {S(("in", at), 8): b}
    if extra:
        env.update(extra)
    try:
        return evalt(term, env, prog)
    except KeyError:
        return None
