"""Component-border models: inside an analysis of one component the public operations of another component are replaced by
their documented contract (each contract is decided by that component's own property)."""
from absint import S, P, is_ptr, mask
import std_models as sm
from std_models import HUGE


def timer_key(p):
    return ("timer", p)


def m_timer_set(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "timer.set", args[0], args[1:], None)
    st.log(("timer.set", i, args[0], fr.fn))
    st.g[timer_key(args[0])] = 1
    return None


def m_timer_cancel(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "timer.cancel", args[0], None, None)
    st.log(("timer.cancel", i, args[0], fr.fn))
    st.g[timer_key(args[0])] = 0
    return None


def m_timer_isset(E, st, fr, i, args, fn):
    v = st.g.get(timer_key(args[0]))
    return v if v is not None else S(("timerset", args[0]), 1)


def timers(E):
    E.models["crab::Timer::once"] = m_timer_set
    E.models["crab::Timer::once_at"] = m_timer_set
    E.models["crab::Timer::cancel"] = m_timer_cancel
    E.models["crab::Timer::~Timer"] = m_timer_cancel
    E.models["crab::Timer::is_set"] = m_timer_isset


def stats(E):
    E.models["crab::PerformanceStats::push_record"] = sm.m_none


def opaque(E, qual, kind=None, ret=None, touch=True):
    """replace `qual` by an event; its object argument is forgotten"""
    def m(E2, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        E2.emit_ev(st, fr, i, kind or qual, a[0] if a else None, a[1:], None)
        st.log(("call", i, qual, fr.fn))
        if sret is not None:
            E2.store_havoc(st, sret, 4096)
        if ret is not None:
            return ret(E2, st, fr, i, args, fn)
        if i.get("t", "v") == "v":
            return None
        return E2.topt(st, fr, i)
    E.models[qual] = m


def count(E, st, fr, i, args, fn):
    s = E.fresh(st, ("cnt", fr.ctx, i["d"]), 64)
    st.cons[s] = ((0, 1 << 40),)
    return s


def buffers(E):
    """crab::Buffer accessors (bounds are decided by the byte-conservation property)"""
    for n in ("read_count", "read_count2", "write_count", "write_count2"):
        opaque(E, "crab::Buffer::" + n, ret=count)
    for n in ("read_ptr", "read_ptr2", "write_ptr", "write_ptr2"):
        opaque(E, "crab::Buffer::" + n)


# ------------------------------------------------------------------ intrusive containers (structure itself: property C31)
# ghost state:  ("in", node) 0/1   ("ne", list) 0/1 non-empty   ("fr", list) front element pointer

def gk(st, k, p):
    return st.g.get((k, p))


def forget_lists(st):
    for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ("in", "ne", "fr", "timer")]:
        del st.g[k]


def member_off(E, fn, args):
    return None


def m_node_in(E, st, fr, i, args, fn):
    n = args[0]
    v = st.g.get(("in", n))
    if v is not None:
        return v
    s2 = st.copy()
    st.g[("in", n)] = 1
    s2.g[("in", n)] = 0
    return [("ret", 1, st), ("ret", 0, s2)]


def m_node_unlink(E, st, fr, i, args, fn):
    n = args[0]
    was = st.g.get(("in", n))
    E.emit_ev(st, fr, i, "node.unlink", n, was, fn.qual)
    st.log(("node.unlink", i, n, fr.fn))
    st.g[("in", n)] = 0
    if was != 0:
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ("ne", "fr") and (k[0] == "ne" and st.g[k] == 1 or k[0] == "fr" and st.g[k] == n)]:
            del st.g[k]
    return None


def m_node_ctor(E, st, fr, i, args, fn):
    st.g[("in", args[0])] = 0
    return None


def m_node_dtor(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "node.dtor", args[0], st.g.get(("in", args[0])), fn.qual)
    st.g[("in", args[0])] = 0
    return None


def tmpl_args(q):
    """template arguments of the outermost template in qualified name q"""
    a = q.index("<")
    d, out, cur = 0, [], ""
    for ch in q[a:]:
        if ch == "<":
            d += 1
            if d == 1:
                continue
        if ch == ">":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    out.append(cur.strip())
    return out


def link_off(E, fn):
    """offset of the link member named by the template argument &T::member"""
    ta = tmpl_args(fn.qual)
    cls, mem = ta[0], ta[1].lstrip("&").rsplit("::", 1)[1]
    return E.prog.foff(cls, mem)


def m_list_ctor(E, st, fr, i, args, fn):
    st.g[("ne", args[0])] = 0
    return None


def m_list_dtor(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "list.dtor", args[0], st.g.get(("ne", args[0])), fn.qual)
    return None


def m_list_empty(E, st, fr, i, args, fn):
    v = st.g.get(("ne", args[0]))
    E.emit_ev(st, fr, i, "list.empty", args[0], v, fn.qual)
    if v is not None:
        return 1 - v
    s2 = st.copy()
    st.g[("ne", args[0])] = 1
    s2.g[("ne", args[0])] = 0
    return [("ret", 0, st), ("ret", 1, s2)]


def m_list_push(E, st, fr, i, args, fn):
    off = link_off(E, fn)
    l = args[0]
    el = args[-1]
    node = P(el[1], off + el[2] if isinstance(el[2], int) else ("op", "off", 64, el[2], off)) if is_ptr(el) else el
    E.emit_ev(st, fr, i, "list.push", l, (node, el), fn.qual)
    st.log(("list.push", i, (l, node), fr.fn))
    if st.g.get(("in", node)) == 0 and st.g.get(("ne", l)) == 0:
        st.g[("fr", l)] = node
    if st.g.get(("in", node)) == 0 or st.g.get(("ne", l)) is None:
        st.g[("ne", l)] = 1
    st.g[("in", node)] = 1
    return None


def m_list_front(E, st, fr, i, args, fn):
    off = link_off(E, fn)
    l = args[0]
    E.emit_ev(st, fr, i, "list.front", l, None, fn.qual)
    node = st.g.get(("fr", l))
    if node is None:
        x = E.freshp2(st, ("front", fr.ctx, i.get("d", 0)))
        node = P(x[1], off)
        st.g[("fr", l)] = node
    st.g[("in", node)] = 1
    if is_ptr(node) and isinstance(node[2], int):
        return P(node[1], node[2] - off)
    raise_unsupported("front of list with computed node")


def raise_unsupported(m):
    from model import AnalysisError
    raise AnalysisError(m)


def m_heap_insert(E, st, fr, i, args, fn):
    off = link_off(E, fn)
    n = P(args[1][1], args[1][2] + off)
    was = st.g.get(("in", n))
    E.emit_ev(st, fr, i, "heap.insert", args[0], args[1], was)
    st.log(("heap.insert", i, args[1], fr.fn))
    st.g.pop(("fr", args[0]), None)
    st.g[("ne", args[0])] = 1
    st.g[("in", n)] = 1
    return (1 - was) if was is not None else S(("hins", n), 1)


def m_heap_erase(E, st, fr, i, args, fn):
    off = link_off(E, fn)
    n = P(args[1][1], args[1][2] + off)
    was = st.g.get(("in", n))
    E.emit_ev(st, fr, i, "heap.erase", args[0], args[1], was)
    st.log(("heap.erase", i, args[1], fr.fn))
    st.g[("in", n)] = 0
    st.g.pop(("fr", args[0]), None)
    if st.g.get(("ne", args[0])) == 1 and was != 0:
        st.g.pop(("ne", args[0]), None)
    return was if was is not None else S(("heras", n), 64)


def m_heap_front(E, st, fr, i, args, fn):
    off = link_off(E, fn)
    node = st.g.get(("fr", args[0]))
    E.emit_ev(st, fr, i, "heap.front", args[0], None, fn.qual)
    if node is None:
        x = E.freshp2(st, ("hfront", fr.ctx, i.get("d", 0)))
        node = P(x[1], off)
        st.g[("fr", args[0])] = node
    st.g[("in", node)] = 1
    return P(node[1], node[2] - off)


def m_heap_pop(E, st, fr, i, args, fn):
    node = st.g.get(("fr", args[0]))
    E.emit_ev(st, fr, i, "heap.pop", args[0], node, fn.qual)
    st.log(("heap.pop", i, node, fr.fn))
    if node is not None:
        st.g[("in", node)] = 0
    st.g.pop(("fr", args[0]), None)
    st.g.pop(("ne", args[0]), None)
    return None


def intrusive(E):
    """crab intrusive list/heap operations replaced by their contract"""
    M = {"crab::IntrusiveNode<": {"in_list": m_node_in, "unlink": m_node_unlink, "IntrusiveNode": m_node_ctor, "~IntrusiveNode": m_node_dtor},
         "crab::IntrusiveList<": {"IntrusiveList": m_list_ctor, "~IntrusiveList": m_list_dtor, "empty": m_list_empty, "push_back": m_list_push,
                                  "push_front": m_list_push, "insert": m_list_push, "front": m_list_front},
         "crab::IntrusiveHeap<": {"insert": m_heap_insert, "erase": m_heap_erase, "front": m_heap_front, "pop_front": m_heap_pop,
                                  "empty": m_list_empty, "IntrusiveHeap": m_list_ctor, "~IntrusiveHeap": m_list_dtor},
         "crab::IntrusiveHeapIndex::": {"in_heap": m_node_in, "IntrusiveHeapIndex": m_node_ctor, "~IntrusiveHeapIndex": m_node_dtor}}
    for pre, d in M.items():
        for name, m in d.items():
            def h(E2, st, fr, i, args, fn, m=m):
                return m(E2, st, fr, i, args, fn)

            def ok(q, dm, pre=pre, name=name):
                return q.startswith(pre) and q.endswith("::" + name)
            E.pats.insert(0, (ok, h))
    E.on_havoc = getattr(E, "on_havoc", [])
    E.on_havoc.append(forget_lists)


# ------------------------------------------------------------------ functions of other components, replaced by their effect envelope

def raw_pointee(prog, tid):
    """(pointee type or None, is const)"""
    t = prog.types[tid] if tid is not None and tid >= 0 else None
    while t is not None and t["k"] in ("typedef", "const_type", "volatile_type"):
        t = prog.types[t["b"]] if t["b"] >= 0 else None
    if t is None or t["k"] not in ("pointer_type", "reference_type", "rvalue_reference_type"):
        return None, False
    b = t["b"]
    const = False
    while b is not None and b >= 0 and prog.types[b]["k"] in ("typedef", "const_type", "volatile_type"):
        if prog.types[b]["k"] == "const_type":
            const = True
        b = prog.types[b]["b"]
    return (prog.strip(b) if b is not None and b >= 0 else None), const


def envelope(E, pred, throws=(), event=None, exc="std::runtime_error"):
    """functions selected by pred(fn): any value may be returned, every object reachable through a non-const parameter may change
    (only that object), exceptions may be thrown by those selected by throws(fn)"""
    from absint import Exc

    def m(E2, st, fr, i, args, fn):
        prog = E2.prog
        sret, a = sm.sretargs(args, fn)
        E2.emit_ev(st, fr, i, "call", a[0] if a else None, (fn, a), None)
        st.log(("call", i, fn.qual, fr.fn, tuple(a)))
        if sret is not None:
            E2.store_havoc(st, sret, 4096)
        const_this = fn.dm.endswith(" const") or " const" in fn.dm.rsplit(")", 1)[-1]
        di = fn.di[1:]
        for k, v in enumerate(a):
            if not is_ptr(v):
                continue
            if k == 0 and const_this:
                continue
            t, const = raw_pointee(prog, di[k]) if k < len(di) else (None, False)
            if const:
                continue
            sz = (t or {}).get("sz") or (8 if t is None else t.get("sz", 8))
            E2.store_havoc(st, v, sz)
        if i.get("t", "v") == "v":
            r = [("ret", None, st)]
        elif i["t"] == "p" and a and is_ptr(a[0]) and (fn.base == "operator="):
            r = [("ret", a[0], st)]
        else:
            r = [("ret", E2.topt(st, fr, i), st)]
        if throws and throws(fn):
            s2 = st.copy()
            r.append(("exc", Exc(exc, P(("exo", exc), 0)), s2))
        return r

    def pr(q, dm):
        f = E.prog.by_qual.get(q)
        return bool(f) and any(pred(x) for x in f)
    E.pats.insert(0, (pr, m))


HTTP_CORE = ("crab::http::ClientConnection", "crab::http::ServerConnection", "crab::http::Client", "crab::http::Server",
             "crab::http::ClientRequestSimple")


def http_envelope(E, keep=lambda fn: False):
    """parsers, header types, codecs and random numbers"""
    def pred(fn):
        if keep(fn):
            return False
        sc = fn.scope or ""
        if sc.startswith("crab::http::"):
            return not any(sc == c or sc.startswith(c + "::") for c in HTTP_CORE)
        if sc in ("crab::http", "crab::base64", "crab::sha1", "crab::md5", "crab::Random"):
            return True
        if fn.qual.startswith("crab::http::") and not any(fn.qual.startswith(c + "::") for c in HTTP_CORE):
            return True
        if fn.qual.startswith(("crab::base64::", "crab::sha1::", "crab::Random::", "crab::is_valid_utf8", "crab::details::to_string_common",
                               "crab::details::web_message", "crab::to_hex", "crab::integer_cast", "crab::details::append")):
            return True
        return False

    def throws(fn):
        return fn.base.startswith(("parse", "consume")) or fn.base == "BodyParser" and len(fn.args) > 1
    envelope(E, pred, throws)


def class_envelope(E, classes, throws=(), keep=lambda fn: False):
    """public operations of these classes"""
    cl = set(classes)
    envelope(E, lambda fn: fn.scope in cl and fn.acc == 3 and not keep(fn), throws)


STREAMS = ("crab::Buffer", "crab::StringStream", "crab::IStringStream", "crab::OStringStream", "crab::IMemoryStream", "crab::OMemoryStream",
           "crab::IVectorStream", "crab::OVectorStream", "crab::VectorStream", "crab::CombinedIStream", "crab::IStream", "crab::OStream")
