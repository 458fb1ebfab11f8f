"""Entry points of the analysis: public methods and internal callbacks of library classes.

A prototype of a class is obtained by interpreting its constructor; only what the constructor fixes for good is kept from it:
virtual table pointers and std::function members bound to library code.  Every other byte of the object is unknown, so that an
entry point is analysed for every reachable (and unreachable) object state."""
import re
from absint import Engine, State, Region, P, S, is_ptr
from model import AnalysisError
import std_models, repo_models


def engine(prog, lists=True, timers=True, stats=True, buffers=False, http=True, **kw):
    E = Engine(prog, **kw)
    std_models.install(E)
    E.gsys = True
    if stats:
        repo_models.stats(E)
    if lists:
        repo_models.intrusive(E)
    if timers:
        repo_models.timers(E)
    if http:
        repo_models.http_envelope(E)
    if buffers:
        repo_models.buffers(E)
    return E


def sym_args(prog, fn, this=None, names="arg"):
    out = []
    first = True
    for k, a in enumerate(fn.args):
        if a.get("sret"):
            out.append(P(("al", 0, "sret"), 0))
            continue
        if first and this is not None:
            out.append(this)
            first = False
            continue
        first = False
        t = a["t"]
        if t == "p":
            out.append(P(("*", (names, k)), 0))
        elif t[0] == "i":
            out.append(S((names, k), int(t[1:])))
        else:
            out.append(("fs", (names, k)))
    return out


THIS = P(("*", ("this",)), 0)


def thisp(name="this"):
    return P(("*", (name,)), 0)


def ctor_states(prog, cls, E, this=None, sig=None, nargs=None):
    base = cls.rsplit("::", 1)[1]
    fs = prog.find(cls + "::" + base)
    if sig is not None:
        fs = [f for f in fs if sig in f.dm]
    fs = [f for f in fs if not re.search(r"C1E", f.name) or True]
    # not the copy/move constructors
    fs = [f for f in fs if not re.search(r"\(%s(&&| const&)\)" % re.escape(cls), f.dm)]
    if not fs:
        raise AnalysisError("no constructor of %s" % cls)
    fs.sort(key=lambda f: -len(f.args))
    f = fs[0]
    this = this or THIS
    return f, E.run(f, sym_args(prog, f, this), State())


_proto = {}


def fn_cells(st, root, base=0):
    """stable cells: vtable pointers and library-bound std::function objects"""
    out = {}
    reg = st.mem.get(root)
    if reg is None:
        return out
    for off, (sz, v) in list(reg.cells.items()):
        if not isinstance(off, int):
            continue
        if is_ptr(v) and v[1][0] == "glob" and "vtable for crab" in str(v[1][1]) or is_ptr(v) and v[1][0] == "glob" and str(v[1][1]).startswith("_ZTV"):
            out[off] = (sz, v)
        if isinstance(v, tuple) and v and v[0] == "fn" and sz == 8:
            # std::function: +24 invoker, +16 manager
            m = reg.cells.get(off - 8)
            if m is not None and isinstance(m[1], tuple) and m[1] and m[1][0] == "fn":
                for k in range(off - 24, off + 8):
                    if k in reg.cells:
                        out[k] = reg.cells[k]
    return out


def prototype(prog, cls, E_factory=None, sig=None):
    """{offset: cell} fixed by the constructor, extra regions reachable from them"""
    key = (id(prog), cls, sig)
    if key in _proto:
        return _proto[key]
    E = (E_factory or engine)(prog)
    f, res = ctor_states(prog, cls, E, sig=sig)
    rets = [s for k, v, s in res if k == "ret"]
    if not rets:
        raise AnalysisError("constructor of %s never returns" % cls)
    cells = None
    regs = {}
    for s in rets:
        c = fn_cells(s, THIS[1])
        cells = c if cells is None else {k: v for k, v in cells.items() if c.get(k) == v}
        for off, (sz, v) in c.items():
            if is_ptr(v) and v[1] != THIS[1] and v[1] in s.mem and v[1][0] not in ("glob",):
                regs[v[1]] = s.mem[v[1]]
    _proto[key] = (cells, regs, f)
    return _proto[key]


def rebase(v, this):
    if is_ptr(v) and v[1] == THIS[1]:
        o = v[2]
        return P(this[1], this[2] + o)
    return v


def proto_state(prog, cls, this=None, st=None, factory=None, sig=None):
    """state in which `this` is an object of class cls in an arbitrary state"""
    this = this or THIS
    cells, regs, _ = prototype(prog, cls, factory, sig)
    st = st or State()
    r = st.wregion(this[1])
    for off, (sz, v) in cells.items():
        r.cells[this[2] + off] = (sz, rebase(v, this))
    for root, reg in regs.items():
        nr = st.wregion(root)
        for off, (sz, v) in reg.cells.items():
            nr.cells[off] = (sz, rebase(v, this))
    return st


def callbacks(prog, cls, factory=None, sig=None):
    """[(name, std::function offset in the object, invoker Fn)] : library code bound to events of the object"""
    cells, regs, _ = prototype(prog, cls, factory, sig)
    out = []
    for off, (sz, v) in sorted(cells.items()):
        if isinstance(v, tuple) and v and v[0] == "fn" and (off - 8) in cells and isinstance(cells[off - 8][1], tuple) and cells[off - 8][1][0] == "fn":
            f = prog.fn[v[1]]
            t = prog.type(cls)
            out.append((prog.field_name(t, off - 24), off - 24, f))
    # the invoker is at +24, manager at +16: the manager cell also looks like a pair start only if +8 is fn (never)
    return out


def run_callback(prog, E, cls, off, inv, st=None, this=None, args=None, factory=None, sig=None):
    this = this or THIS
    st = st or proto_state(prog, cls, this, factory=factory, sig=sig)
    a = []
    for k, x in enumerate(inv.args):
        if x.get("sret"):
            a.append(P(("al", 0, "sret"), 0))
        elif not a or (len(a) == 1 and inv.args[0].get("sret")):
            a.append(P(this[1], this[2] + off))
        else:
            j = len(a)
            if args is not None:
                a.append(args[j - 1])
            elif x["t"] == "p":
                a.append(P(("*", ("cbarg", j)), 0))
            else:
                a.append(S(("cbarg", j), int(x["t"][1:])))
    return E.run(inv, a, st)


def methods(prog, cls, public=True):
    """public methods (with bodies) of a class: constructors and destructors excluded"""
    out = []
    base = cls.rsplit("::", 1)[1]
    for f in prog.fn.values():
        if f.bb is None or f.scope != cls or f.art:
            continue
        if public and f.acc != 3:
            continue
        if f.base == base or f.base.startswith("~"):
            continue
        out.append(f)
    return sorted(out, key=lambda f: f.dm)


def dtor(prog, cls):
    base = cls.rsplit("::", 1)[1]
    fs = prog.find(cls + "::~" + base)
    d2 = [f for f in fs if f.name.endswith("D2Ev")]
    return (d2 or fs)[0]


def ctor_calls_all(prog, cls):
    base = cls.rsplit("::", 1)[1]
    return [f for f in prog.find(cls + "::" + base) if not f.art]
