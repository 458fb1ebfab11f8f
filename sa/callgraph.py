"""Whole-program call graph over the IR: direct calls plus virtual calls resolved to every overrider in the library's vtables."""
import re
from model import AnalysisError


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.slots = {}            # slot index -> [Fn]
        for n, g in prog.globals.items():
            if not n.startswith("_ZTV") or not g.get("dm", "").startswith("vtable for crab::"):
                continue
            k = -2
            for off, sz, v in g.get("init", ()):
                idx = off // 8 - 2
                if idx >= 0 and v[0] == "f":
                    f = prog.fn.get(v[1])
                    if f is not None:
                        self.slots.setdefault(idx, []).append(f)

    def virtual_slot(self, f, i):
        """slot number of a virtual call through a vtable, or None"""
        c = i["f"]
        if not isinstance(c, int):
            return None
        d = self.defs(f)
        x = d.get(c)
        if x is None or x["o"] != "load":
            return None
        p = d.get(x["a"][0]) if isinstance(x["a"][0], int) else None
        off = 0
        if p is not None and p["o"] == "getelementptr":
            off = p.get("off", 0)
            if p.get("vo"):
                return None
            p = d.get(p["a"][0]) if isinstance(p["a"][0], int) else None
        if p is not None and p["o"] == "load":
            return off // 8
        return None

    def defs(self, f):
        k = ("defs", f.name)
        if k not in self.memo:
            self.memo[k] = {i["d"]: i for _, _, i in self.prog.insts(f) if "d" in i}
        return self.memo[k]

    def edges(self, f):
        """[(inst, callee)]"""
        if f.name in self.memo:
            return self.memo[f.name]
        r = []
        if f.bb is not None:
            for _, _, i in self.prog.insts(f):
                if i["o"] not in ("call", "invoke"):
                    continue
                c = i["f"]
                if isinstance(c, list):
                    if c[0] == "f" and c[1] in self.prog.fn:
                        r.append((i, self.prog.fn[c[1]]))
                    continue
                s = self.virtual_slot(f, i)
                if s is not None:
                    seen = set()
                    for g in self.slots.get(s, ()):
                        if len(g.args) == len(i["a"]) and g.name not in seen and [a["t"] for a in g.args] is not None:
                            seen.add(g.name)
                            r.append((i, g))
        self.memo[f.name] = r
        return r

    def reach(self, roots, stop=lambda f: False):
        """{Fn name: (caller Fn, inst) or None}: functions reachable from the roots; functions selected by stop are not entered"""
        par = {}
        work = []
        for f in roots:
            if f.name not in par:
                par[f.name] = None
                work.append(f)
        while work:
            f = work.pop()
            if stop(f) and par[f.name] is not None:
                continue
            for i, g in self.edges(f):
                if g.name not in par:
                    par[g.name] = (f, i)
                    work.append(g)
        return par

    def path(self, par, name):
        out = []
        while par.get(name) is not None:
            f, i = par[name]
            out.append("%s calls %s at %s" % (f.dm, self.prog.fn[name].dm, self.prog.loc(i)))
            name = f.name
        return out[::-1]


def is_function_call(f):
    return f.qual.startswith("std::function<") and f.qual.endswith("::operator()")
