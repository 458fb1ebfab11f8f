"""C23: a reused connection object carries nothing over from its previous use.

Non-interference, by taint of abstract values: every datum of the object gets a name of its own ("old"), a reset function (close, connect,
accept) is interpreted, and then everything the object can do - every public method, every event, every round of its reading loop - is
interpreted from every abstract state reachable afterwards.  Data that still carries an old name must not decide a branch whose sides differ,
leave through the socket, the resolver, a return value or an argument, or be what a parser continues from."""
from absint import State, P, S, is_ptr, mask
from model import AnalysisError
import std_models as sm
import objects
import conn
from conn import Conn, LeafWalk, CC, SC, OUT, SARG, THIS, HDR, BODY, HBODY, REQP, RESP, SOCK, fn1
from rules_conn import Base
from rules_net import fwhere
import rules_sock

INPUT = "input of the earlier use does not reach the next"
DATA = "data of the earlier use does not influence the next"
TIMER = "timers of the earlier use are cancelled"
LEFT = "output and socket of the earlier use are given up"
RESETS = ("close", "connect", "accept")
MAXN = 4000


def old(t):
    if isinstance(t, tuple):
        if t and t[0] == "old":
            return t
        for x in t:
            r = old(x)
            if r:
                return r
    return None


class RConn(Conn):
    """the socket's and the resolver's state are followed; use of input left in the read buffer is noted"""

    def m_sock(self, E, st, fr, i, args, fn):
        b = fn.base
        if b in ("connect", "connect_tls"):
            out = []
            for r in (1, 0):
                s = st.copy()
                self.out(s, ("sock", b))
                s.g[("#open",)] = r
                out.append(("ret", r, s))
            return out
        return Conn.m_sock(self, E, st, fr, i, args, fn)

    def m_dns(self, E, st, fr, i, args, fn):
        if fn.base == "resolve":
            w = sm.gs(E, st, args[1]) if is_ptr(args[1]) else None
            self.out(st, ("dns", "resolve", w[1:] if w else None, args[2] if len(args) > 2 else None))
            st.g[("#dns",)] = 1
            return E.topt(st, fr, i) if i.get("t", "v") != "v" else None
        return Conn.m_dns(self, E, st, fr, i, args, fn)

    def m_timer(self, st, args, what):
        if is_ptr(args[0]) and args[0][1] == THIS[1]:
            st.g[("#tm", args[0][2])] = 1 if what == "timer" else 0
        return Conn.m_timer(self, st, args, what)

    def used(self, st):
        if st.g.get(("#rb",)) == "old":
            st.g["#usedrb"] = 1

    def m_read_from(self, E, st, fr, i, args, fn):
        self.used(st)
        return Conn.m_read_from(self, E, st, fr, i, args, fn)

    def m_buf_empty(self, E, st, fr, i, args, fn):
        self.used(st)
        return Conn.m_buf_empty(self, E, st, fr, i, args, fn)

    def m_parse(self, E, st, fr, i, args, fn, cls):
        self.used(st)
        p = args[0]
        leaf, fresh, ge = self.pinfo(cls)
        names = {n: o for o, (n, s, k, t) in leaf.items()}
        for o, (n, s, k, t) in leaf.items():
            if n.endswith(".impl") and n[:-5] + ".valid" in names:
                vo = names[n[:-5] + ".valid"]
                if E.const_of(st, E.load(st, P(p[1], p[2] + vo), 1, "i8")) == 0:
                    continue
            x = old(self.leafval(st, p[2] + o, s, k))
            if x is not None:
                st.g["#stalep"] = st.g.get("#stalep", ()) + ((cls, n),)
        return Conn.m_parse(self, E, st, fr, i, args, fn, cls)

    def leafval(self, st, o, s, k):
        E = self.E
        if k == "str":
            w = sm.gs(E, st, P(THIS[1], o))
            if w[1] == 0 or E.const_of(st, w[1]) == 0:
                return (0,)
            return w[1:]
        if k == "vec":
            c = sm.getcell(E, st, P(THIS[1], o), "vec", 24)
            if c[1] == 0 or E.const_of(st, c[1]) == 0:
                return (0,)
            return c
        v = E.load(st, P(THIS[1], o), s, "i%d" % (8 * s))
        c = E.const_of(st, v) if not isinstance(v, int) else v
        return v if c is None else c


class Reuse(Base):
    def __init__(self, C):
        Base.__init__(self, C)
        w = LeafWalk(self.prog)
        w.leaf = {}
        w._leaves(self.prog.type(C.cls), 0, "")
        skip = []
        for n, o, sz, t in C.mem:
            q = (t or {}).get("q") or ""
            if o in (C.o_buf, C.o_sock) or q in ("crab::DNSResolver", "crab::Timer") or q.startswith("std::function"):
                skip.append((o, o + sz))
        self.leaf = {o: x for o, x in w.leaf.items() if x[2] in ("str", "vec", "enum", "bool", "int") and not any(a <= o < b for a, b in skip)}
        self.timers = [off for n, off, sz, t in C.mem if t is not None and t.get("q") == "crab::Timer"]
        f, res = objects.ctor_states(self.prog, C.cls, objects.engine(self.prog, http=False))
        rets = [s for k, v, s in res if k == "ret"]
        if not rets:
            raise AnalysisError("constructor of %s" % C.cls)
        self.init = {}
        for o, (n, s, k, t) in self.leaf.items():
            self.init[o] = C.leafval(rets[0], o, s, k)
        C.watch_timers()
        self.dom = {}
        for o, (n, s, k, t) in self.leaf.items():
            if k == "bool":
                self.dom[o] = ((0, 1),)
            elif k == "enum":
                vs = sorted(x[2] for x in t["m"] if x[0] == "e")
                self.dom[o] = tuple((v, v) for v in vs)

    # abstract states: {leaf: constant | "old" | "any" | allowed set}, ghosts
    def build(self, vals, gh):
        C, E = self.C, self.E
        st = C.fresh_state()
        C.handler(st, C.cls)
        C.bind(st)
        for o, (n, s, k, t) in self.leaf.items():
            v = vals[o]
            if isinstance(v, int):
                E.store(st, P(THIS[1], o), s, v)
                continue
            tag = "old" if v == "old" else "any"
            if v == (0,):
                if k == "str":
                    sm.ps(E, st, P(THIS[1], o), 0, ("k", b""))
                else:
                    sm.putcell(E, st, P(THIS[1], o), 24, ("vec", 0, ("zero",)))
                continue
            if k == "str":
                ln = S((tag, o, "len"), 64)
                st.cons[ln] = ((0, 1 << 40),)
                sm.ps(E, st, P(THIS[1], o), ln, (tag, o))
            elif k == "vec":
                ln = S((tag, o, "cnt"), 64)
                st.cons[ln] = ((0, 1 << 40),)
                sm.putcell(E, st, P(THIS[1], o), 24, ("vec", ln, (tag, o)))
            else:
                x = S((tag, o), 8 * s)
                d = v if isinstance(v, tuple) else self.dom.get(o)
                if d is not None:
                    st.cons[x] = d
                E.store(st, P(THIS[1], o), s, x)
        for k, v in gh:
            st.g[k] = v
        st.cons[S(SARG[1], 64)] = ((1, mask(64)),)
        return st

    def abstract(self, s):
        C, E = self.C, self.E
        vals = {}
        for o, (n, sz, k, t) in self.leaf.items():
            v = C.leafval(s, o, sz, k)
            if old(v) is not None:
                vals[o] = "old"
            elif isinstance(v, int):
                vals[o] = v if "." not in n and k in ("enum", "bool") or n.endswith(".valid") else "any"
            elif k == "enum" and "." not in n:
                vals[o] = tuple(E.ranges(s, v))
            else:
                vals[o] = "any"
        # an optional without a value: what is stored under it does not count
        names = {x[0]: o for o, x in self.leaf.items()}
        for n, o in names.items():
            if n.endswith(".valid") and vals[o] == 0:
                pre = n[:-6] + ".impl"
                for m, q in names.items():
                    if m == pre or m.startswith(pre + "."):
                        vals[q] = "any"
        for n, o in names.items():
            if n.endswith(".valid") and vals[o] != "old":
                pre = n[:-6] + ".impl"
                if not any((m == pre or m.startswith(pre + ".")) and vals[q] == "old" for m, q in names.items()):
                    vals[o] = "any" if "." in n[:-6] else vals[o]
        gh = [(("#open",), s.g.get(("#open",), 1)), (("#dns",), s.g.get(("#dns",), 0)), (("#rb",), s.g.get(("#rb",)))]
        gh += [(("#tm", o), s.g.get(("#tm", o), 0)) for o in self.timers]
        return vals, tuple(gh)

    def carries(self, a):
        return "old" in a[0].values() or any(v == "old" for k, v in a[1])

    def key(self, a):
        return tuple(sorted(a[0].items())), a[1]

    # ---------------------------------------------------------------- what one action does
    def boxes(self, st, s):
        """constraints on old data that the path took"""
        d, bad = {}, False
        for k, v in s.cons.items():
            if old(k) is None or st.cons.get(k) == v:
                continue
            base = st.cons.get(k)
            if base is None:
                base = ((0, mask(k[2]) if isinstance(k, tuple) and len(k) > 2 and isinstance(k[2], int) else mask(64)),)
            if base != v:
                d[k] = (tuple(v), tuple(base))
        for f in s.facts:
            if old(f) is not None and f not in st.facts:
                bad = True
        return d, bad

    def covered(self, boxes):
        if any(not b for b in boxes):
            return True
        if not boxes:
            return False
        v = sorted({repr(k): k for b in boxes for k in b}.items())[0][1]
        base = [b[v][1] for b in boxes if v in b][0]
        cuts = sorted({x for b in boxes if v in b for lo, hi in b[v][0] for x in (lo, hi + 1)} | {x for lo, hi in base for x in (lo, hi + 1)})
        for lo in cuts[:-1]:
            if not any(a <= lo <= b for a, b in base):
                continue
            sub = []
            for b in boxes:
                if v in b and not any(x <= lo <= y for x, y in b[v][0]):
                    continue
                sub.append({k: w for k, w in b.items() if k != v})
            if not self.covered(sub):
                return False
        return True

    def judge(self, f, what, st, res):
        """res: outcomes of one action; reports influence of old data, returns the states that follow"""
        C = self.C
        groups, nxt = {}, []
        for k, v, s in res:
            if k == "exc" and "bad_function_call" in str(v.tname):
                continue
            name = "%s after %s" % (f.base if f.base != "_M_invoke" else "an event", what)
            u = s.g.get("#usedrb")
            self.ob(INPUT, not u, f, "buffer", "input left from the earlier use is read", s)
            for cls, n in s.g.get("#stalep", ()):
                self.ob(INPUT, False, f, "parser %s" % cls, "%s goes on from what it had parsed in the earlier use (%s)" % (cls.split("::")[-1], n), s)
            x = old(s.g.get(OUT, ()))
            self.ob(DATA, x is None, f, "out", "%s of the earlier use is sent or looked up" % self.nm(x), s)
            x = None
            if k == "ret":
                x = old(v)
                if x is None and is_ptr(v) and v[1] == THIS[1] and isinstance(v[2], int):
                    for o, (n, sz, kk, t) in self.leaf.items():
                        if v[2] <= o < v[2] + max(1, self.size_at(v[2])) and old(C.leafval(s, o, sz, kk)) is not None:
                            x = ("old", o)
                self.ob(DATA, x is None, f, "result", "%s of the earlier use is returned" % self.nm(x), s)
            for r, reg in s.mem.items():
                if r == SARG or r[0] == "*" and isinstance(r[1], tuple) and str(r[1][0]).startswith("arg"):
                    for off, (sz, cv) in reg.cells.items():
                        y = old(cv)
                        if y is not None:
                            self.ob(DATA, False, f, "argument", "%s of the earlier use is handed out" % self.nm(y), s)
            box, bad = self.boxes(st, s)
            a = self.abstract(s)
            sig = (k, str(getattr(v, "tname", None)) if k == "exc" else v if k == "ret" else None, self.key(a), self.canon(s.g.get(OUT, ())))
            g = groups.setdefault(sig, [])
            g.append((box, bad, s))
            nxt.append((a[0], a[1] + ((("#head",), 1),)) if k == "round" else a)
        for sig, g in groups.items():
            if all(not b and not bad for b, bad, s in g):
                self.rep.ob(DATA, True)
                continue
            ok = self.covered([b for b, bad, s in g if not bad])
            b, bad, s = [x for x in g if x[0] or x[1]][0]
            y = old(tuple(b)) or old(tuple(x for x in s.facts if old(x) is not None))
            self.ob(DATA, ok, f, "decides %s" % self.nm(y), "%s of the earlier use decides what happens" % self.nm(y), s)
        return nxt

    def canon(self, t):
        return t

    def size_at(self, off):
        for n, o, sz, t in self.C.mem:
            if o == off:
                return sz
        for o, x in self.leaf.items():
            if o == off:
                return x[1]
        return 1

    def nm(self, x):
        if x is None:
            return ""
        return self.leaf[x[1]][0] if len(x) > 1 and x[1] in self.leaf else str(x)

    def args(self, st, g):
        if g.base == "read_next":
            return [THIS, P(SARG, 0)]
        out, j = [], 1
        a = []
        for j in range(len(g.args)):
            if g.args[j].get("sret"):
                a.append(P(("al", 0, "sret"), 0))
            elif THIS not in a:
                a.append(THIS)
            else:
                a.append(self.anyarg(st, g, j))
        return a

    def explore(self):
        C, E, prog, rep = self.C, self.E, self.prog, self.rep
        E.max_steps *= 40
        E.exit_limit = E.loop_limit = E.merge_limit = 2000
        ms = [g for g in objects.methods(prog, C.cls) if not g.base.startswith("~")]
        resets = [g for g in ms if g.base in RESETS]
        if len({g.base for g in resets}) < 2:
            raise AnalysisError("reset functions of %s not found" % C.cls)
        # setting the handler is not part of a use
        ms = [g for g in ms if g not in resets and not g.base.startswith("set_handler")]
        cbs = [x for x in objects.callbacks(prog, C.cls) if len(x[2].args) <= 2]
        work, seen = [], {}
        every = {o: "old" for o in self.leaf}
        for o, (n, s, k, t) in self.leaf.items():
            if n.split(".")[-1].startswith("max_") and isinstance(self.init[o], int):
                every[o] = self.init[o]
        for g in resets:
            gh = [(("#open",), 1), (("#dns",), 1 if C.cls == CC else 0), (("#rb",), "old")] + [(("#tm", o), "old") for o in self.timers]
            st = self.build(every, gh)
            for k, v, s in E.run(g, self.args(st, g), st.copy()):
                o = s.g.get(OUT, ())
                for t in self.timers:
                    self.ob(TIMER, s.g.get(("#tm", t)) != "old", g, "timer %d" % t, "%s leaves a timer of the earlier use running" % g.base, s)
                ok = any(x in (("close",), ("accept",), ("sock", "connect"), ("sock", "connect_tls")) for x in o)
                self.ob(LEFT, ok, g, "socket", "%s keeps the earlier connection's socket" % g.base, s)
                if C.cls == CC:
                    self.ob(LEFT, any(x[:2] in (("dns", "cancel"), ("dns", "resolve")) for x in o), g, "dns", "%s keeps the earlier address lookup" % g.base, s)
                self.ob(DATA, old(o) is None, g, "out", "%s of the earlier use is sent or looked up" % self.nm(old(o)), s)
                if k == "ret":
                    self.ob(DATA, old(v) is None, g, "result", "%s of the earlier use is returned" % self.nm(old(v)), s)
                a = self.abstract(s)
                self.ob(DATA, a[0][C.o_state] != "old", g, "phase", "the phase of the earlier use is kept", s)
                rep.count("reset_outcomes")
                if self.key(a) not in seen and self.carries(a):
                    seen[self.key(a)] = g.base
                    work.append((a, g.base))
        rep.count("data_members", len(self.leaf))
        runs = 0
        while work:
            a, how = work.pop()
            vals, gh = a
            ghd = dict(gh)
            acts = []
            if ghd.get(("#head",)):
                acts.append((C.advance, gh[:-1], None))
            for g in ms if not acts else ():
                acts.append((g, gh, None))
            for name, off, inv in cbs if not ghd.get(("#head",)) else ():
                to = self.toff(off)
                if to in self.timers:
                    if ghd.get(("#tm", to)):
                        acts.append((inv, tuple((k, 0 if k == ("#tm", to) else v) for k, v in gh), off))
                elif len(inv.args) == 2:
                    if ghd[("#dns",)]:
                        acts.append((inv, tuple((k, 0 if k == ("#dns",) else v) for k, v in gh), off))
                elif ghd[("#open",)]:
                    for op in (1, 0):
                        acts.append((inv, tuple((k, op if k == ("#open",) else v) for k, v in gh), off))
            for f, gh2, off in acts:
                st = self.build(vals, gh2)
                runs += 1
                if off is None:
                    res = C.round(st, f, False, self.args(st, f))
                else:
                    C.rounds, C.stop_at_head = [], False
                    s0 = st.copy()
                    s0.tr = None
                    res = list(objects.run_callback(prog, E, C.cls, off, f, s0))
                    res += [("round", None, x) for x in C.rounds]
                for b in self.judge(f, how, st, res):
                    if self.key(b) not in seen and self.carries(b):
                        seen[self.key(b)] = how
                        work.append((b, how))
            if len(seen) > MAXN:
                raise AnalysisError("too many states of %s" % C.cls)
        rep.count("states_after_reset", len(seen))
        rep.count("actions_interpreted", runs)
        rep.engine(E)


class ReuseSock(rules_sock.Sock):
    """the buffered socket: whatever closes it, or takes it into use again, leaves nothing of what was queued or asked for"""

    def ob(self, rule, ok, f, detail, msg, s):
        if rule not in (INPUT, DATA, TIMER, LEFT):
            return True
        return rules_sock.Sock.ob(self, rule, ok, f, detail, msg, s)

    def after(self, f, what, pre, total, asked, sent, opened, acc, ln, v, s, event=False):
        E = self.E
        evs = s.g.get(rules_sock.OUT, ())
        ev = [x[0] for x in evs]
        if f.base not in RESETS + ("connect_tls",) and "close" not in ev:
            return
        d = "%s %s" % (f.base, what)
        t = self.val(s, self.o_total, 8)
        self.ob(LEFT, not s.g["#q"], f, "queue", "bytes queued for the earlier connection are kept", s)
        self.ob(LEFT, t == 0, f, "size", "the number of bytes queued for the earlier connection is kept", s)
        self.ob(LEFT, self.val(s, self.o_asked, 1) == 0, f, "asked", "the request to shut the earlier connection down is kept", s)
        self.ob(LEFT, self.val(s, self.o_sent, 1) == 0, f, "sent", "that the earlier connection was shut down is kept", s)
        self.ob(LEFT, "close" in ev or "connect" in ev or "accept" in ev, f, "socket", "the earlier connection's socket is kept", s)
        self.ob(TIMER, ("untimer", self.o_timer) in evs, f, "timer", "the time limit of the earlier shutdown is left running", s)


def c23(prog, rep):
    ReuseSock(prog, rep).explore()
    for cls in (CC, SC):
        Reuse(RConn(prog, rep, cls)).explore()
    for r, k in ((INPUT, 100), (DATA, 200), (TIMER, 20), (LEFT, 50)):
        rep.need(r, k)


C23 = c23
