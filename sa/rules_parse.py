"""C15, C16: header parsers against specification automata."""
from absint import State, P, S, is_ptr, add, iset_iter, iset_and, iset_norm, iset_from, iset_count, mask, sgn, Exc, evalt
from model import AnalysisError
import std_models as sm
import parsers
from parsers import Machine, THIS, IN, eval_byte
from rules_net import fwhere, yes, no, where
import fw

SP = b" \t"
TCHAR = set(b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = set(b"0123456789")
HEX = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}


def ctl(b):
    return b < 32 or b == 127


REQ_NAMES = ("content-length", "transfer-encoding", "connection", "upgrade", "content-type", "host", "origin", "authorization",
             "sec-websocket-key", "sec-websocket-version")
RESP_NAMES = ("content-length", "transfer-encoding", "connection", "upgrade", "content-type", "sec-websocket-accept", "date", "server")
OTHERS = ("x-a", "cookie", "contentlength", "content-lengthx")
CMS = ("connection", "transfer-encoding")


# ------------------------------------------------------------------ specification automata
# spec(o, b, ctx) -> None (refuse) | (next, effects, commit?)   effects: {field: ('app', (bytes,)) | ('clr', (bytes,)) | ('num', f)}
# a number effect f(old) gives the new value

def hdr_spec(o, b):
    """the part both parsers share; returns NotImplemented for other states"""
    st = o[0]
    if st in ("FIRST", "LINE"):
        commit = st == "LINE"
        clr = {"name": ("clr", ()), "value": ("clr", ())} if commit else {}
        if st == "LINE" and b in SP:
            return ("VALUE",) + o[1:], {"value": ("app", (b,))}, False
        if b == 13:
            return ("FINAL_LF",), clr, commit
        if b == 10:
            return ("GOOD",), clr, commit
        if b in TCHAR:
            e = dict(clr)
            e["name"] = ("clr" if commit else "app", (lower(b),))
            return ("NAME",), e, commit
        return None
    if st == "NAME":
        if b in SP:
            return ("COLON",), {}, False
        if b == 58:
            return ("PICK",), {}, False
        if b in TCHAR:
            return ("NAME",), {"name": ("app", (lower(b),))}, False
        return None
    if st == "COLON":
        if b in SP:
            return ("COLON",), {}, False
        return (("PICK",), {}, False) if b == 58 else None
    if st in ("SPACE", "VALUE"):
        if st == "SPACE" and b in SP:
            return o, {}, False
        if b == 13:
            return ("HEADER_LF",) + o[1:], {}, False
        if b == 10:
            return ("LINE",) + o[1:], {}, False
        if b == 44 and o[1] in CMS:
            return ("SPACE",) + o[1:], {"value": ("clr", ())}, True
        if b == 9 and st == "VALUE":
            return None
        if ctl(b):
            return None
        return ("VALUE",) + o[1:], {"value": ("app", (b,))}, False
    if st == "HEADER_LF":
        return (("LINE",) + o[1:], {}, False) if b == 10 else None
    if st == "FINAL_LF":
        return (("GOOD",), {}, False) if b == 10 else None
    return NotImplemented


def lower(b):
    return b + 32 if 65 <= b <= 90 else b


def lit(o, b, names, chars):
    k = names.index(o[0])
    return ((names[k + 1],), {}, False) if b == chars[k] else None


HTTP = ["H", "HT", "HTT", "HTTP", "SLASH", "MAJOR0"]


def version_spec(o, b):
    st = o[0]
    if st in HTTP[:-1]:
        return lit(o, b, HTTP, b"HTTP/")
    if st == "MAJOR0":
        return (("MAJOR",), {"http_version_major": ("num", lambda old: b - 48)}, False) if b in b"01" else None
    if st == "MAJOR":
        if b == 46:
            return ("MINOR0",), {}, False
        # leading zeros are harmless, a version above 1 is not
        return (("MAJOR",), {"http_version_major": ("num", lambda old: old * 10 + b - 48)}, "le1") if b in DIG else None
    if st == "MINOR0":
        return (("MINOR",), {"http_version_minor": ("num", lambda old: b - 48)}, False) if b in DIG else None
    return NotImplemented


def minor_digit(b):
    return ("MINOR",), {"http_version_minor": ("num", lambda old: old * 10 + b - 48)}, "le99"


def request_spec(o, b):
    st = o[0]
    if st == "START":
        if b == 13:
            return ("START_LF",), {}, False
        if b == 10:
            return ("START",), {}, False
        return (("METHOD",), {"method": ("app", (b,))}, False) if b in TCHAR else None
    if st == "START_LF":
        return (("START",), {}, False) if b == 10 else None
    if st == "METHOD":
        if b in SP:
            return ("URI_START",), {}, False
        return (("METHOD",), {"method": ("app", (b,))}, False) if b in TCHAR else None
    if st in ("URI_START", "URI"):
        if b in SP:
            return ("URI_START" if st == "URI_START" else "H0",), {}, False
        if ctl(b):
            return None
        if b in b"#?":
            return None if st == "URI_START" else (("ANCHOR" if b == 35 else "QUERY",), {}, False)
        if b == 37:
            return ("PCT1",), {}, False
        return ("URI",), {"path": ("app", (b,))}, False
    if st == "PCT1":
        return (("PCT2",), {}, False) if b in HEX else None
    if st == "PCT2":
        return (("URI",), {"path": ("pct", b)}, False) if b in HEX else None
    if st in ("QUERY", "ANCHOR"):
        if b in SP:
            return ("H0",), {}, False
        if ctl(b):
            return None
        if b == 35 and st == "QUERY":
            return ("ANCHOR",), {}, False
        return o, ({"query_string": ("app", (b,))} if st == "QUERY" else {}), False
    if st == "H0":
        if b in SP:
            return o, {}, False
        return (("HT",), {}, False) if b == 72 else None
    if st == "MINOR":
        if b == 13:
            return ("STATUS_LF",), {}, False
        if b == 10:
            return ("FIRST",), {}, False
        if b in SP:
            return ("STATUS_CR",), {}, False
        return minor_digit(b) if b in DIG else None
    if st == "STATUS_CR":
        if b in SP:
            return o, {}, False
        if b == 13:
            return ("STATUS_LF",), {}, False
        return (("FIRST",), {}, False) if b == 10 else None
    if st == "STATUS_LF":
        return (("FIRST",), {}, False) if b == 10 else None
    r = version_spec(o, b)
    return r if r is not NotImplemented else hdr_spec(o, b)


def response_spec(o, b):
    st = o[0]
    if st == "H0":
        return (("HT",), {}, False) if b == 72 else None
    if st == "MINOR":
        if b in SP:
            return ("CODE1",), {}, False
        return minor_digit(b) if b in DIG else None
    if st == "CODE1" and b in SP:
        return o, {}, False
    if st in ("CODE1", "CODE2", "CODE3"):
        nx = {"CODE1": "CODE2", "CODE2": "CODE3", "CODE3": "CODE_SP"}[st]
        return ((nx,), {"status": ("num", lambda old: old * 10 + b - 48)}, False) if b in DIG else None
    if st in ("CODE_SP", "TEXT0", "TEXT"):
        if b == 13:
            return ("STATUS_LF",), {}, False
        if b == 10:
            return ("FIRST",), {}, False
        if st == "CODE_SP":
            return (("TEXT0",), {}, False) if b in SP else None
        if st == "TEXT0" and b in SP:
            return o, {}, False
        if ctl(b):
            return None
        return ("TEXT",), {"status_text": ("app", (b,))}, False
    if st == "STATUS_LF":
        return (("FIRST",), {}, False) if b == 10 else None
    r = version_spec(o, b)
    return r if r is not NotImplemented else hdr_spec(o, b)


KINDS = {
    "request": dict(cls="crab::http::RequestParser", spec=request_spec, start="START", names=REQ_NAMES),
    "response": dict(cls="crab::http::ResponseParser", spec=response_spec, start="H0", names=RESP_NAMES),
}


class Explorer:
    """product of the implementation's automaton with the specification"""

    def __init__(self, prog, rep, kind, framing):
        self.prog, self.rep, self.kind, self.framing = prog, rep, kind, framing
        k = KINDS[kind]
        self.cls, self.spec, self.names = k["cls"], k["spec"], k["names"]
        self.m = Machine(prog, rep, self.cls)
        self.start = (k["start"],)
        m = self.m
        hs = [(n, o) for n, o, s, t in prog.members(m.ty) if (t or {}).get("q") == "crab::http::Header"]
        if len(hs) != 1:
            raise AnalysisError("header under construction of %s not found" % self.cls)
        hb = hs[0][1]
        self.o_name = hb + prog.foff("crab::http::Header", "name")
        self.o_value = hb + prog.foff("crab::http::Header", "value")
        self.counters = [o for o, (p, s, kk, t) in m.leaf.items() if kk == "int" and s == 8 and "." not in p and p != "max_total_length"]
        self.o_max = m.off("max_total_length")
        self.fld = {"name": self.o_name, "value": self.o_value}
        for o, (p, s, kk, t) in m.leaf.items():
            if p.startswith("req."):
                self.fld[p[4:]] = o
        self.fname = {o: n for n, o in self.fld.items()}
        self.ints = [o for o, (p, s, kk, t) in m.leaf.items() if kk == "int" and s == 4]
        self.strs = [o for o, x in m.leaf.items() if x[2] == "str"]
        self.cons = {}
        self.held = {}
        self.fn = self.cls + "::consume"

    def viol(self, rule, detail, msg, s=None):
        f = self.m.parse
        self.rep.ob(rule, False, self.cls, fwhere(self.prog, f), msg, detail, fw.path_of(self.prog, s) if s is not None else None)

    def ok(self, rule):
        self.rep.ob(rule, True)

    def entry(self, ctrl, o, name=None, num=None):
        m = self.m
        cells = {c: (8, 0) for c in self.counters}
        cells[self.o_max] = m.init.get(self.o_max, (8, 8192))
        if name is not None:
            cells[self.o_name] = (32, sm.konst(name.encode()))
        for off, x in (num or {}).items():
            cells[off] = (4, x)
        return m.state(ctrl, cells, self.cons.get((tuple(sorted(ctrl.items())), o)))

    def run(self):
        m, rep = self.m, self.rep
        c0 = {}
        for o in m.ctrl:
            v = m.init.get(o)
            if v is None or not isinstance(v[1], int):
                raise AnalysisError("%s leaves %s uninitialised" % (self.cls, m.leaf[o][0]))
            c0[o] = v[1]
        # data a fresh parser starts with
        for o in self.strs:
            v = m.init.get(o)
            rep.ob("fresh parser starts empty", v is not None and v[1][1] == 0, self.cls, fwhere(self.prog, m.parse), "%s not empty initially" % m.leaf[o][0], m.leaf[o][0])
        cons0 = {}
        for o in self.ints:
            v = m.init.get(o)
            if v is not None and isinstance(v[1], int):
                cons0[o] = ((v[1], v[1]),)
        key0 = (tuple(sorted(c0.items())), self.start)
        self.cons[key0] = cons0
        work = [key0]
        done = {}
        nsteps = 0
        while work:
            key = work.pop()
            snap = repr(sorted(self.cons[key].items()))
            if done.get(key) == snap:
                continue
            done[key] = snap
            nsteps += 1
            if nsteps > 3000:
                raise AnalysisError("parser automaton of %s does not converge" % self.cls)
            for nk, cons in self.visit(dict(key[0]), key[1]):
                if nk not in self.cons:
                    self.cons[nk] = cons
                    work.append(nk)
                else:
                    old = self.cons[nk]
                    new = {}
                    for o in old:
                        if o in cons:
                            j = iset_norm(old[o] + cons[o])
                            if len(j) > 4 or j != old[o] and iset_count(j) > 4000:
                                continue
                            new[o] = j
                    if new != old:
                        self.cons[nk] = new
                        work.append(nk)
        self.pairs = set(self.cons)
        rep.count("product states (%s)" % self.kind, len(self.pairs))
        rep.count("automaton steps interpreted", m.runs)
        seen = {k[1][0] for k in self.pairs}
        want = {"GOOD", "FINAL_LF", "LINE", "VALUE", "NAME", "HEADER_LF"}
        for w in sorted(want - seen):
            self.viol("every specified state is reachable", w, "specified state %s is never reached" % w)
        self.limits()
        rep.engine(m.E)

    # one (implementation state, specification state) pair
    def visit(self, ctrl, o):
        m, E, rep = self.m, self.m.E, self.rep
        out = []
        if o == ("GOOD",):
            st = self.entry(ctrl, o)
            for k, v, s in m.step(st):
                same = k == "ret" and v == P(IN, 0) and all(m.strdelta(st, s, x)[0] == "same" for x in self.strs) and m.ctrl_of(s) == ctrl
                rep.ob("nothing is taken after the header's end", same, self.cls, fwhere(self.prog, m.parse), "bytes after the header are consumed or change it", "good", fw.path_of(self.prog, s))
            self.check_good(ctrl, o, True)
            return out
        self.check_good(ctrl, o, False)
        if o[0] in ("NAME", "COLON"):
            # the name is complete when the colon comes: one run per name of interest
            ctxs = [None] + list(self.names) + list(OTHERS)
        else:
            ctxs = [o[1] if len(o) > 1 else None]
        nums = [None]
        if o[0] in ("MAJOR", "MINOR"):
            # numbers are followed value by value: the limit check depends on them
            off = self.fld["http_version_" + o[0].lower()]
            rs = (self.cons.get((tuple(sorted(ctrl.items())), o)) or {}).get(off)
            if not rs or iset_count(rs) > 200:
                rs = ((0, 1 if o[0] == "MAJOR" else 99),)
            nums = [{off: x} for x in iset_iter(rs)]
        if o[0] == "PCT2":
            return self.second_digit(ctrl, o)
        for name, num in [(n, x) for n in ctxs for x in nums]:
            st = self.entry(ctrl, o, name, num)
            outs = m.step(st)
            got = ()
            for k, v, s in outs:
                bs = m.bytes_of(s)
                # group the bytes of this outcome by what the specification says about them
                for b in iset_iter(bs):
                    r = self.spec(o, b)
                    if r is NotImplemented:
                        raise AnalysisError("specification has no state %r" % (o,))
                    if r is not None and r[0] == ("PICK",):
                        if name is None:
                            continue
                        r = (("SPACE", name), r[1], r[2])
                    elif name is not None and len(o) == 1:
                        continue
                    if r is not None and r[2] in ("le1", "le99"):
                        if all(f(list(num.values())[0]) > int(r[2][2:]) for _, f in r[1].values()):
                            r = None
                        else:
                            r = (r[0], r[1], False)
                    out += self.compare(st, ctrl, o, k, v, s, b, r, name)
                got = iset_norm(tuple(got) + tuple(bs))
            rep.ob("every byte has an outcome", got == ((0, 255),), self.cls, fwhere(self.prog, m.parse), "bytes with no outcome in state %s" % (o,), str(o[0]))
        return out

    def check_good(self, ctrl, o, want):
        m = self.m
        fs = self.prog.find(self.cls + "::is_good")
        for k, v, s in m.E.run(fs[0], [THIS], self.entry(ctrl, o)):
            c = m.E.const_of(s, v) if k == "ret" and not isinstance(v, int) else v
            self.rep.ob("is_good exactly after the terminating empty line", k == "ret" and c == int(want), self.cls, fwhere(self.prog, fs[0]),
                        "is_good() is %s in specified state %s" % (c, o[0]), "%s-%s" % (o[0], c), fw.path_of(self.prog, s))

    def compare(self, st, ctrl, o, k, v, s, b, r, name):
        m, E, rep, prog = self.m, self.m.E, self.rep, self.prog
        ch = "0x%02x%s" % (b, " '%c'" % b if 32 < b < 127 else "")
        at = "%s %s" % (o[0], o[1] if len(o) > 1 else "")

        def bad(rule, what, detail):
            rep.ob(rule, False, self.cls, where(prog, s, m.parse), "%s parser, state %s, byte %s: %s" % (self.kind, at, ch, what), "%s:%s:%s" % (self.kind, o[0], detail), fw.path_of(prog, s))
        R = "each header byte has the specified effect" if o[0] in ("FIRST", "LINE", "NAME", "COLON", "SPACE", "VALUE", "HEADER_LF") else "each byte has the specified effect"
        if k == "exc":
            if not E.is_a(v.tname, "std::exception"):
                bad("refusal is an exception of the standard hierarchy", "throws %s" % v.tname, "exc")
            if r is None:
                self.ok(R)
                return []
            nx, eff, flag = r
            if flag is True:
                if self.commit_exc(st, s, o, name, v):
                    self.ok(R)
                    return []
                if not self.framing:
                    return []
            if not (flag is True):
                bad(R, "refused, but it is legal here", "refused")
            return []
        if r is None:
            bad(R, "accepted, but it must be refused", "accepted-%s" % ("ctl" if ctl(b) else "chr"))
            return []
        nx, eff, flag = r
        okk = True
        if v != P(IN, 1):
            bad("parse returns the position after the bytes it took", "returned %r" % (v,), "ret")
        deltas = {}
        for off in self.strs:
            deltas[off] = m.strdelta(st, s, off)
        for off in self.strs:
            n = self.fname.get(off, m.leaf[off][0])
            d = deltas[off]
            e = eff.get(n)
            if e is None:
                if flag is True and n not in ("name", "value"):
                    continue       # judged by the commit table
                if self.kind == "response" and n == "status_text" and o[0] == "FIRST" and d == ("set", ("trim", sm.gs(E, st.copy(), P(THIS[1], off))[2])):
                    continue
                if d[0] != "same":
                    okk = False
                    bad(R, "%s changes (%s)" % (n, d[0]), n)
                continue
            want = e[1]
            if d[0] == "same":
                d = ("app", ())
            # before the first header line the name is still as it was constructed: empty
            # (the initial state has it empty, every step up to here leaves it alone)
            empty = n == "name" and o[0] == "FIRST"
            kind_ok = d[0] == e[0] or (empty and {d[0], e[0]} == {"clr", "app"}) or (d[0] == "clr" and e[0] == "app" and sm.gs(E, st.copy(), P(THIS[1], off))[1] == 0) or (e == ("clr", ()) and d == ("app", ()) and sm.gs(E, st.copy(), P(THIS[1], off))[1] == 0)
            vals = tuple((eval_byte(prog, x, b) if not isinstance(x, int) else x) for x in d[1]) if d[0] != "set" else None
            vals = None if vals is None or None in vals else tuple(x & 255 for x in vals)
            if not kind_ok or vals != tuple(want):
                okk = False
                bad(R, "%s gets %s %s, specified %s %s" % (n, d[0], vals, e[0], want), n)
        for off in self.ints:
            n = self.fname.get(off)
            if n not in ("http_version_major", "http_version_minor", "status"):
                continue
            old, new = m.num(st, off), m.num(s, off)
            e = eff.get(n)
            if e is None:
                if old != new and not yes(E, s, "eq", old, new, 32):
                    okk = False
                    bad(R, "%s changes" % n, n)
                continue
            for x in self.samples(E.ranges(s, old) if not isinstance(old, int) else ((old, old),)):
                g = eval_byte(prog, new, b, {} if isinstance(old, int) else {old: x})
                wantv = e[1](x) & mask(32)
                if g != wantv:
                    okk = False
                    bad(R, "%s becomes %s from %s, specified %s" % (n, g, x, wantv), n)
                    break
        if o[0] == "CODE1" and "status" in eff:
            if E.const_of(st, m.num(st, self.fld["status"])) != 0 and not (m.num(s, self.fld["status"]) != 0 and m.num(st, self.fld["status"]) not in leaves_of(m.num(s, self.fld["status"]))):
                okk = False
                bad(R, "status does not start from zero", "status0")
        for off in self.counters:
            c = m.num(s, off)
            if c != 1:
                okk = False
                bad("every byte counts toward the size limit", "counter %s becomes %r" % (m.leaf[off][0], c), m.leaf[off][0])
        pushed = m.pushes(s)
        if flag is True:
            okk &= self.commit_ret(st, s, o, name, pushed, bad)
        elif pushed:
            okk = False
            bad(R, "an element is appended to %s" % pushed[0][0], "push")
        okk &= self.keep_alive(st, s, o, nx, flag, bad)
        if okk:
            self.ok(R)
        if nx == ("PCT2",):
            hold = self.held.setdefault((tuple(sorted(m.ctrl_of(s).items())), nx), [])
            if not any(h is s for h in hold):
                if not any(h.key() == s.key() for h in hold):
                    hold.append(s)
        cons = {}
        for off in self.ints:
            x = m.num(s, off)
            cons[off] = E.ranges(s, x) if not isinstance(x, int) else ((x, x),)
            if not isinstance(x, int) and self.leafonly(x):
                vals = {eval_byte(prog, x, b)}
                if None not in vals:
                    cons[off] = iset_from(vals)
        return [((tuple(sorted(m.ctrl_of(s).items())), nx), cons)]

    def leafonly(self, t):
        from absint import leaves
        return leaves(t) <= {S(("in", 0), 8)}

    def samples(self, rs):
        out = set()
        for lo, hi in rs:
            for x in (lo, lo + 1, (lo + hi) // 2, hi - 1, hi):
                if lo <= x <= hi:
                    out.add(x)
        return sorted(out)

    def second_digit(self, ctrl, o):
        """after '%' and a first digit: continue from the very states the first digit led to, so that the pair of digits is judged"""
        m, E, rep, prog = self.m, self.m.E, self.rep, self.prog
        out = []
        for st in self.held.get((tuple(sorted(ctrl.items())), o), ()):
            first = [b for b in iset_iter(m.bytes_of(st, 0))]
            st = st.copy()
            rg = st.wregion(THIS[1])
            for c in self.counters:
                rg.cells[c] = (8, 0)
            got = ()
            for k, v, s in m.step(st, 1, 1):
                bs = m.bytes_of(s, 1)
                got = iset_norm(tuple(got) + tuple(bs))
                good = [b for b in iset_iter(bs) if b in HEX]
                R = "each byte has the specified effect"
                if k == "exc":
                    rep.ob(R, not good, self.cls, where(prog, s, m.parse), "valid second hex digit refused", "pct2-refused", fw.path_of(prog, s))
                    continue
                d = m.strdelta(st, s, self.fld["path"])
                ok = len(good) == iset_count(bs) and v == P(IN, 2) and d[0] in ("app", "clr") and len(d[1]) == 1 and all(m.num(s, c) == 1 for c in self.counters)
                for off in self.strs:
                    if off != self.fld["path"]:
                        ok = ok and m.strdelta(st, s, off)[0] == "same"
                if ok:
                    for b0 in first:
                        for b in good:
                            g = d[1][0] if isinstance(d[1][0], int) else eval_byte(prog, d[1][0], b, {S(("in", 0), 8): b0}, 1)
                            if g is None or g & 255 != HEX[b0] * 16 + HEX[b]:
                                ok = False
                rep.ob(R, ok, self.cls, where(prog, s, m.parse), "%s parser: a percent escape does not decode to the byte its two digits name" % self.kind, "%s:pct2" % self.kind, fw.path_of(prog, s))
                out.append(((tuple(sorted(m.ctrl_of(s).items())), ("URI",)), {}))
            rep.ob("every byte has an outcome", got == ((0, 255),), self.cls, fwhere(prog, m.parse), "bytes with no outcome in state %s" % (o,), str(o[0]))
        return out

    # ---- keep-alive default comes from the version
    def keep_alive(self, st, s, o, nx, flag, bad):
        m, E = self.m, self.m.E
        off = self.fld["keep_alive"]
        old, new = m.num(st, off), m.num(s, off)
        settle = o[0] == "FIRST" if self.kind == "request" else (o[0] == "MINOR" and nx[0] == "CODE1")
        if flag is True and not settle:
            return True
        if not settle:
            if old != new and not yes(E, s, "eq", old, new, 8):
                bad("keep-alive default follows the version", "keep_alive changes", "ka-change")
                return False
            return True
        ma, mi = m.num(st, self.fld["http_version_major"]), m.num(st, self.fld["http_version_minor"])
        for want in (0, 1):
            for z in E.assume(s.copy(), E.icmp(s, "eq", new, want, 8), True):
                a, b2 = E.icmp(z, "eq", ma, 1, 32), E.icmp(z, "sge", mi, 1, 32)
                if want:
                    good = E.decide(z, a) is True and E.decide(z, b2) is True
                else:
                    good = E.decide(z, a) is False or E.decide(z, b2) is False
                if not good:
                    bad("keep-alive default follows the version", "keep_alive=%d without the version saying so" % want, "ka-%d" % want)
                    return False
        self.rep.ob("keep-alive default follows the version", True)
        return True

    # ---- what a finished header (or list element) does to the message
    def commit_table(self, st, s, o, name):
        """specified outcome of committing header `name` in outcome state s: 'throw', or dict of effects, or None if undecided"""
        m, E = self.m, self.m.E
        n0 = sm.gs(E, st.copy(), P(THIS[1], self.o_value))
        cid = n0[2]
        tcid = ("trim", cid)
        tl = S(("trimlen", cid), 64)
        low = ("lower", tcid)

        def eq(c, l):
            r = E.decide(s, sm.str_eq(E, s, ("str", tl, c), sm.konst(l)))
            if r is None:
                d = E.decide(s, E.icmp(s, "eq", tl, len(l), 64))
                for x, y in (((c, 0), ("k", l)), (("k", l), (c, 0))):
                    z = E.decide(s, E.icmp(s, "eq", S(("memcmp", x, y, len(l)), 32), 0, 32))
                    if z is False:
                        return False
                    if z is True and d is True:
                        return True
            return r
        if name in CMS:
            e = E.decide(s, E.icmp(s, "eq", tl, 0, 64))
            if e is None:
                # a path that does not test for an empty element has compared it with a non-empty word
                e = False if any(eq(low, w) is True for w in (b"identity", b"chunked", b"close", b"keep-alive", b"upgrade")) else None
            if e is None:
                return None
            if e:
                return {}
        if name == "content-length":
            had = self.pre(st, s, "content_length.valid")
            if had:
                return "throw"
            empty = E.decide(s, E.icmp(s, "eq", tl, 0, 64))
            ic = s.g.get(("#icast", tcid))
            d = self.first_digit(s, tcid)
            if empty is True or d is False or ic == 0:
                return "throw"
            if had is None or d is None or ic is None:
                return None
            return {"content_length": ("icast", tcid)}
        if name == "transfer-encoding":
            i = eq(low, b"identity")
            if i is None:
                return None
            if i:
                return {}
            had = self.pre(st, s, "transfer_encoding_chunked")
            if had is None:
                return None
            if had:
                return "throw"
            c = eq(low, b"chunked")
            if c is None:
                return None
            return {"transfer_encoding_chunked": 1} if c else {"transfer_encodings": (low,)}
        if name == "connection":
            for w, eff in ((b"close", {"keep_alive": 0}), (b"keep-alive", {"keep_alive": 1}), (b"upgrade", {"connection_upgrade": 1})):
                r = eq(low, w)
                if r is None:
                    return None
                if r:
                    return eff
            return "throw"
        if name == "upgrade":
            r = eq(low, b"websocket")
            if r is None:
                return None
            return {"upgrade_websocket": 1} if r else "throw"
        if name == "content-type":
            return {"content_type_mime": ("ctm", tcid), "content_type_suffix": ("cts", tcid)}
        if name == "authorization" and self.kind == "request":
            a = s.g.get(("#auth", tcid))
            return None if a is None else ({"basic_authorization": ("auth", tcid)} if a else {})
        if name in self.names:
            return {name.replace("-", "_"): tcid}
        return {"headers": (("k", name.encode()), tcid)}

    def first_digit(self, s, tcid):
        E = self.m.E
        cell = s.mem.get(("sd", tcid))
        if cell is None:
            return None
        v = E.load(s, P(("sd", tcid), 0), 1, "i8")
        r = E.ranges(s, v)
        if r and all(48 <= lo and hi <= 57 for lo, hi in r):
            return True
        if not iset_and(r, ((48, 57),)):
            return False
        return None

    def pre(self, st, s, path):
        """value of a bool field before the step, as far as this path knows"""
        m, E = self.m, self.m.E
        off = [o for o, x in m.leaf.items() if x[0] == "req." + path]
        if not off:
            raise AnalysisError("field req.%s not found" % path)
        old = m.num(st, off[0])
        c = E.const_of(s, old) if not isinstance(old, int) else old
        return None if c is None else bool(c)

    def commit_exc(self, st, s, o, name, exc):
        t = self.commit_table(st, s, o, name)
        R = "a finished header means what its name and value say"
        if t == "throw":
            if self.framing:
                self.rep.ob(R, True)
            return True
        if self.framing:
            self.rep.ob(R, False, self.cls, fwhere(self.prog, self.m.parse), "%s parser: header %s refused, specified %s" % (self.kind, name, t), "%s:%s:refused" % (self.kind, name), fw.path_of(self.prog, s))
        return False

    def commit_ret(self, st, s, o, name, pushed, bad):
        m, E = self.m, self.m.E
        if not self.framing:
            return True
        R = "a finished header means what its name and value say"
        t = self.commit_table(st, s, o, name)
        pre = "header %s: " % name

        def b2(what, d):
            bad(R, pre + what, "%s:%s" % (name, d))
            return False
        if t is None:
            # which case applies is not determined by what the path tested
            return b2("accepted without testing everything its meaning depends on", "untested")
        if t == "throw":
            return b2("accepted, but it must be refused", "accepted")
        ok = True
        want_push = []
        for f, e in t.items():
            if f in ("headers", "transfer_encodings"):
                want_push.append(("req." + f, tuple(e)))
        if pushed != want_push:
            ok = b2("appended %s, specified %s" % (pushed, want_push), "push")
        for off, (p, sz, kk, ty) in m.leaf.items():
            if not p.startswith("req.") or kk in ("vec", "other"):
                continue
            f = p[4:]
            if f.startswith("content_length."):
                e = t.get("content_length")
                old, new = m.num(st, off), m.num(s, off)
                if e is None:
                    if old != new and not yes(E, s, "eq", old, new, 8 * sz):
                        ok = b2("content_length changes", f)
                elif f.endswith(".valid"):
                    if E.const_of(s, new) != 1:
                        ok = b2("content_length is not set", f)
                elif new != S(e, 64):
                    ok = b2("content_length is not the number in the header", f)
                continue
            e = t.get(f)
            if kk == "str":
                d = m.strdelta(st, s, off)
                if e is None:
                    if d[0] != "same":
                        ok = b2("%s changes" % f, f)
                elif sm.gs(E, s, P(THIS[1], off))[2] != e:
                    ok = b2("%s is %r, specified %r" % (f, sm.gs(E, s, P(THIS[1], off))[2], e), f)
            else:
                old, new = m.num(st, off), m.num(s, off)
                if e is None:
                    if old != new and not yes(E, s, "eq", old, new, 8 * sz):
                        ok = b2("%s changes" % f, f)
                elif E.const_of(s, new) != e and new != e:
                    ok = b2("%s is %r, specified %r" % (f, new, e), f)
        if ok:
            self.rep.ob(R, True)
        return ok

    # ---- the size limit
    def limits(self):
        m, E, rep = self.m, self.m.E, self.rep
        done = set()
        for ctrl, o in sorted(self.pairs, key=repr):
            if o == ("GOOD",) or ctrl in done:
                continue
            done.add(ctrl)
            name = o[1] if len(o) > 1 else ("x-a" if o[0] in ("NAME", "COLON") else None)
            cells = {}
            if name:
                cells[self.o_name] = (32, sm.konst(name.encode()))
            st = m.state(dict(ctrl), cells, self.cons.get((ctrl, o)))
            mx = m.num(st, self.o_max)
            st.cons[mx] = ((0, 1 << 62),)
            for c in self.counters:
                st.cons[m.num(st, c)] = ((0, 1 << 62),)
            for k, v, s in m.step(st):
                if k == "exc":
                    continue
                good = any(yes(E, s, "ule", m.num(s, c), mx) and yes(E, s, "eq", m.num(s, c), add(m.num(st, c), 1, 64)) for c in self.counters)
                rep.ob("a byte beyond the size limit is refused before it is stored", good, self.cls, fwhere(self.prog, m.parse),
                       "state %s accepts a byte beyond max_total_length" % (o,), "%s:limit" % self.kind, fw.path_of(self.prog, s))


def leaves_of(t):
    from absint import leaves
    return leaves(t) if not isinstance(t, int) else set()


def buffer_rule(prog, rep, cls):
    """parse(Buffer&): hands the buffer's first part to the parser and marks exactly the bytes it took as read"""
    fs = [f for f in prog.find(cls + "::parse") if len(f.args) == 2 and f.bb]
    if not fs:
        raise AnalysisError("no parse(Buffer&) of %s" % cls)
    f = fs[0]
    import objects, repo_models
    E = objects.engine(prog, http=False)
    cnt = S(("rc",), 64)
    taken = S(("taken",), 64)
    BUF = ("*", ("bufdata",))
    seen = []
    E.models["crab::Buffer::read_count"] = lambda E2, st, fr, i, a, fn: cnt
    E.models["crab::Buffer::read_ptr"] = lambda E2, st, fr, i, a, fn: P(BUF, 0)

    def did(E2, st, fr, i, a, fn):
        st.g[("#did",)] = a[1]
        return None
    E.models["crab::Buffer::did_read"] = did

    def inner(E2, st, fr, i, a, fn):
        sret, a = sm.sretargs(a, fn)
        seen.append((a[1], a[2]))
        st.g[("#parsed",)] = (a[1], a[2])
        return P(BUF, taken)
    ps = {g.qual for q, l in prog.by_qual.items() if q.startswith(cls + "::parse") for g in l if len(g.args) == 3 and g.bb}
    for q in ps:
        # the same qualified name may also be the Buffer overload: told apart by the number of arguments
        def mm(E2, st, fr, i, a, fn, inner=inner):
            return inner(E2, st, fr, i, a, fn) if len(fn.args) == 3 else NotImplemented
        E.models[q] = mm
    st = State()
    st.cons[cnt] = ((0, 1 << 62),)
    st.cons[taken] = ((0, 1 << 62),)
    B = P(("*", ("buf",)), 0)
    E.apart = {BUF, B[1], THIS[1]}
    for s in E.assume(st, E.icmp(st, "ule", taken, cnt, 64), True):
        for k, v, s2 in E.run(f, [THIS, B], s):
            pr = s2.g.get(("#parsed",))
            ok = k == "ret" and pr == (P(BUF, 0), P(BUF, cnt)) and s2.g.get(("#did",)) == taken
            rep.ob("parse(Buffer&) marks exactly the bytes taken as read", ok, f.qual, fwhere(prog, f), "parsed %r, marked %r" % (pr, s2.g.get(("#did",))), "buffer", fw.path_of(prog, s2))
    rep.engine(E)


def multi_rule(prog, rep, cls, ex):
    """parse(begin, end) over several bytes is the one-byte step repeated: same call, next position, until the end or the final state"""
    m = ex.m if ex is not None else Machine(prog, rep, cls)
    f = m.parse
    good = [dict(k[0]) for k in ex.pairs if k[1] == ("GOOD",)]
    lf = [dict(k[0]) for k in ex.pairs if k[1] == ("FINAL_LF",)]
    if not good or not lf:
        rep.ob("every specified state is reachable", False, cls, fwhere(prog, f), "no final state", "final")
        return
    # at the last byte of the header the following bytes are left alone
    st = ex.entry(lf[0], ("FINAL_LF",))
    for k, v, s in m.step(st, 3):
        if k == "exc":
            continue
        rep.ob("parsing stops exactly at the end of the header", v == P(IN, 1), cls, fwhere(prog, f), "returned %r with more bytes available" % (v,), "stop", fw.path_of(prog, s))
    # three bytes in one call = three calls
    nm = [dict(k[0]) for k in ex.pairs if k[1] == ("VALUE", "x-a")]
    st = ex.entry(nm[0], ("VALUE", "x-a"))
    for k in range(3):
        pass
    st3 = st.copy()
    rg = st3.wregion(IN)
    for k in range(3):
        rg.cells[k] = (1, S(("in", k), 8))
        st3.cons[S(("in", k), 8)] = ((97, 122),)
    for k, v, s in m.E.run(f, [THIS, P(IN, 0), P(IN, 3)], st3):
        d = m.strdelta(st, s, ex.o_value) if k == "ret" else None
        want = tuple(S(("in", k2), 8) for k2 in range(3))
        rep.ob("parsing takes every byte once and in order", k == "ret" and v == P(IN, 3) and d == ("app", want), cls, fwhere(prog, f), "three bytes give %r" % (d,), "order", fw.path_of(prog, s))
    # an empty range changes nothing
    for k, v, s in m.E.run(f, [THIS, P(IN, 0), P(IN, 0)], st.copy()):
        rep.ob("an empty range changes nothing", k == "ret" and v == P(IN, 0) and m.ctrl_of(s) == nm[0], cls, fwhere(prog, f), "state changed", "empty", fw.path_of(prog, s))


class Only:
    """the part of a report a property is about"""

    def __init__(self, rep, rules):
        self._rep, self._rules = rep, rules

    def ob(self, rule, *a, **k):
        if rule in self._rules:
            return self._rep.ob(rule, *a, **k)
        return a[0] if a else k.get("ok")

    def __getattr__(self, n):
        return getattr(self._rep, n)


def helper_rules(prog, rep):
    """the helpers the commit table takes for granted, on strings of up to three unknown bytes (every iteration of their loops is alike)"""
    import objects
    A = P(("*", ("str",)), 0)
    for n in range(4):
        for what in ("trim_right", "tolower"):
            f = prog.find("crab::http::" + what)
            if len(f) != 1:
                raise AnalysisError("crab::http::%s not found" % what)
            f = f[0]
            E = objects.engine(prog, http=False)
            E.exit_limit = E.loop_limit = 1000
            E.unroll = 8
            st = State()
            sy = [S(("c", k), 8) for k in range(n)]
            cid = sm.cat(("cat", tuple(("b", x) for x in sy))) if n else ("k", b"")
            sm.ps(E, st, A, n, cid)
            for k, v, s in E.run(f, [A], st):
                w = sm.gs(E, s, A)
                if what == "trim_right":
                    rest = [E.ranges(s, x) for x in sy]
                    L = w[1]
                    ok = k == "ret" and isinstance(L, int) and L <= n and all(not [b for b in iset_iter(r) if b not in SP] for r in rest[L:]) and \
                        (L == 0 or not [b for b in iset_iter(rest[L - 1]) if b in SP]) and sm.pieces(w[2]) == tuple(("b", x) for x in sy[:L])
                else:
                    ok = k == "ret" and w[1] == n
                    rg = s.mem.get(("sd", cid))
                    for j, x in enumerate(sy):
                        c = rg.cells.get(j, (1, x))[1] if rg is not None else None
                        if c is None:
                            ok = False
                            continue
                        for b in range(128):
                            y = c if isinstance(c, int) else evalt(c, {x: b}, prog)
                            ok = ok and y & 255 == lower(b)
                rep.ob("%s does what its name says" % what, ok, f.qual, fwhere(prog, f), "wrong for a string of %d bytes" % n, what, fw.path_of(prog, s))
            rep.engine(E)


def C15(prog, rep):
    for kind in ("request", "response"):
        ex = Explorer(prog, rep, kind, False)
        ex.run()
        multi_rule(prog, rep, ex.cls, ex)
        buffer_rule(prog, rep, ex.cls)
    rep.need("each byte has the specified effect", 2000)


def C16(prog, rep):
    only = Only(rep, ("a finished header means what its name and value say", "each header byte has the specified effect"))
    for kind in ("request", "response"):
        ex = Explorer(prog, only, kind, True)
        ex.run()
    helper_rules(prog, rep)
    rep.need("a finished header means what its name and value say", 200)
