"""Models of the C++ standard library and libc used by crab.  Each model has the engine's signature
m(E, st, fr, inst, args, fn) -> value | [(kind, value, state)] | NotImplemented.

Abstract objects (one cell per object):
  std::string  ('str', len, content)   content: ('k', bytes) constant, ('cat', pieces) or an opaque id
  std::vector  ('vec', n, id)          elements live in region ('vd', id)
  std::deque   ('deq', n, id)
  std::list    ('lst', n, id)
std::function keeps its real layout (+0 captured data, +16 manager, +24 invoker) so that lambdas built by the library
resolve to their bodies; an unresolved invoker is a user supplied handler."""
import re
from absint import S, P, is_ptr, add, neg, mulc, Exc, width, mask, leaves, iset_and, iset_norm, sgn
from model import AnalysisError

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
HUGE = ((0, (1 << 62)),)


def sretargs(args, fn):
    if fn.args and fn.args[0].get("sret"):
        return args[0], args[1:]
    return None, args


# ------------------------------------------------------------------ generic cells

def getcell(E, st, p, tag, size):
    if not is_ptr(p) or not isinstance(p[2], int):
        n = S(("anylen", tag, repr(p)), 64)
        return (tag, n, ("anyid", tag, repr(p)))
    reg = st.region(p[1])
    c = reg.cells.get(p[2])
    if c is not None and isinstance(c[1], tuple) and c[1] and c[1][0] == tag:
        return c[1]
    if reg.default == "zero" or (c is not None and c[1] == 0):
        v = (tag, 0, ("k", b"") if tag == "str" else ("zero",))
    else:
        s = E.lazy_sym(reg, p[1], p[2], size, "x")
        n = S((tag, "len", s[1]), 64)
        if n not in st.cons:
            st.cons[n] = HUGE
        v = (tag, n, (tag, "id", s[1]))
    putcell(E, st, p, size, v)
    return v


def putcell(E, st, p, size, v):
    if not is_ptr(p):
        return
    if not isinstance(p[2], int):
        E.store_havoc(st, p, None)
        return
    if E.cell_hook:
        E.cell_hook(E, st, p, v)
    reg = st.wregion(p[1])
    for o in [o for o, c in reg.cells.items() if isinstance(o, int) and o < p[2] + size and p[2] < o + c[0]]:
        del reg.cells[o]
    reg.cells[p[2]] = (size, v)


def gs(E, st, p):
    return getcell(E, st, p, "str", 32)


def ps(E, st, p, n, cid):
    putcell(E, st, p, 32, ("str", n, cid))


def konst(b):
    return ("str", len(b), ("k", bytes(b)))


def cstr(E, st, p):
    """string constant behind a char pointer, or None"""
    if is_ptr(p) and p[1][0] == "glob" and isinstance(p[2], int):
        d = E.prog.global_bytes(p[1][1])
        g = E.prog.globals.get(p[1][1])
        if d is not None and g.get("const"):
            d = d[p[2]:]
            z = d.find(b"\0")
            return d if z < 0 else d[:z]
    return None


MAXP = 120


def pieces(cid):
    if cid[0] == "k":
        return (("k", cid[1]),) if cid[1] else ()
    if cid[0] == "cat":
        return cid[1]
    return (("r", cid),)


def cat(*cids):
    out = []
    for c in cids:
        for x in pieces(c):
            if x[0] == "k" and out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return ("k", b"")
    if len(out) == 1:
        return out[0] if out[0][0] == "k" else (out[0][1] if out[0][0] == "r" else ("cat", tuple(out)))
    if len(out) > MAXP:
        out = [("r", ("many",))] + out[-MAXP // 2:]
    return ("cat", tuple(out))


def cut(cid, pos, cnt):
    """content of the bytes [pos, pos + cnt) where they are known one by one, else None"""
    if not isinstance(pos, int) or not isinstance(cnt, int) or cid[0] not in ("k", "cat"):
        return None
    out = []
    for x in pieces(cid):
        if x[0] == "b":
            out.append(x)
        elif x[0] == "k":
            out += [("k", bytes([y])) for y in x[1]]
        else:
            return None
    return cat(*[y if y[0] == "k" else ("cat", (y,)) for y in out[pos:pos + cnt]])


def fill(n, c):
    return cat(("cat", (("b", trunc8(c)),))) if n == 1 and not isinstance(c, int) else ("k", bytes([c & 255])) if n == 1 else ("k", b"") if n == 0 else ("fill", n, c)


def sdata(E, st, v, p=None):
    cid = v[2]
    root = ("sd", cid)
    E.sdlen[root] = v[1]
    if cid[0] == "k" and root not in st.mem:
        r = st.wregion(root)
        for k, b in enumerate(cid[1] + b"\0"):
            r.cells[k] = (1, b)
    if cid[0] == "cat" and root not in st.mem and isinstance(v[1], int) and v[1] <= 64:
        r = st.wregion(root)
        o = 0
        for x in cid[1]:
            if x[0] == "k":
                for b in x[1]:
                    r.cells[o] = (1, b)
                    o += 1
            elif x[0] == "b":
                r.cells[o] = (1, x[1])
                o += 1
            else:
                break
    return P(root, 0)


def throw(E, st, tname):
    return [("exc", Exc(tname, P(("exo", tname))), st)]


def le_state(E, st, a, b):
    """split on a <= b (unsigned): returns (states true, states false)"""
    c = E.icmp(st, "ule", a, b, 64)
    s2 = st.copy()
    return E.assume(st, c, True), E.assume(s2, c, False)


# ------------------------------------------------------------------ std::string

def substr(E, st, fr, i, sret, cid, n, pos, cnt):
    """sret becomes the part of a text (content cid, n bytes) from pos, at most cnt bytes"""
    out = []
    ok, bad = le_state(E, st, pos, n)
    for s in ok:
        if cid[0] == "k" and isinstance(pos, int) and isinstance(cnt, int):
            d = cid[1][pos:pos + cnt]
            ps(E, s, sret, len(d), ("k", d))
        elif isinstance(n, int) and cut(cid, pos, cnt) is not None:
            ps(E, s, sret, max(0, min(cnt, n - pos)), cut(cid, pos, cnt))
        else:
            rest = add(n, neg(pos, 64), 64)
            if cnt == mask(64):
                m = rest
            elif isinstance(cnt, int) or cnt[0] in ("s", "lin", "zx"):
                for take, fact in ((cnt, True), (rest, False)):
                    s2 = s.copy()
                    for s2 in E.assume(s2, E.icmp(s2, "ule", cnt, rest, 64), fact):
                        ps(E, s2, sret, take, ("sub", cid, pos, cnt))
                        out.append(("ret", None, s2))
                continue
            else:
                m = E.fresh(s, ("substr", fr.ctx, i.get("d", id(i))), 64)
                E.assume(s, E.icmp(s, "ule", m, rest, 64), True)
            ps(E, s, sret, m, ("sub", cid, pos, cnt))
        out.append(("ret", None, s))
    for s in bad:
        out += throw(E, s, "std::out_of_range")
    return out


def m_string(E, st, fr, i, args, fn):
    meth = fn.base
    full = fn.qual[len(STR) + 2:]
    meth = re.sub(r"<.*", "", full)
    sret, a = sretargs(args, fn)
    this = a[0]
    dm = fn.dm[len(fn.qual):]
    ntypes = fn.dm
    sig = sigof(fn)
    if meth == "basic_string":
        r = a[1:]
        if not r or sig.startswith("std::allocator") and len(r) == 1:
            ps(E, st, this, 0, ("k", b""))
            return None
        t0 = sig
        if t0.startswith(STR + "&&"):
            v = gs(E, st, r[0])
            ps(E, st, this, v[1], v[2])
            ps(E, st, r[0], 0, ("k", b""))
            return None
        if t0.startswith(STR + " const&"):
            v = gs(E, st, r[0])
            if len(r) >= 3 or "unsigned long" in t0:
                return substr(E, st, fr, i, this, v[2], v[1], r[1], r[2] if len(r) > 2 and "unsigned long, unsigned long" in t0 else mask(64))
            ps(E, st, this, v[1], v[2])
            return None
        if t0.startswith("char const*, unsigned long"):
            k = cstr(E, st, r[0])
            n = r[1]
            if isinstance(n, int) and r[0] and is_ptr(r[0]) and r[0][1][0] == "glob":
                d = E.prog.global_bytes(r[0][1][1])
                if d is not None and isinstance(r[0][2], int):
                    ps(E, st, this, n, ("k", d[r[0][2]:r[0][2] + n]))
                    return None
            ps(E, st, this, n, bufcid(E, st, r[0], n))
            return None
        if t0.startswith("char const*") or t0.startswith("char*"):
            if len(r) >= 2 and is_ptr(r[1]) and r[0] and is_ptr(r[0]) and (t0.startswith("char const*, char const*") or t0.startswith("char*, char*")):
                n = add(E.ptr2int(r[1]), neg(E.ptr2int(r[0]), 64), 64) if r[0][1] != r[1][1] else add(r[1][2], neg(r[0][2], 64), 64)
                ps(E, st, this, n, ("buf", r[0], n))
                return None
            k = cstr(E, st, r[0])
            if k is not None:
                ps(E, st, this, len(k), ("k", k))
            else:
                n = E.fresh(st, ("cstrlen", fr.ctx, i.get("d", id(i))), 64)
                st.cons[n] = HUGE
                ps(E, st, this, n, ("cs", r[0]))
            return None
        if t0.startswith("unsigned long, char"):
            ps(E, st, this, r[0], fill(r[0], r[1]))
            return None
        if t0.startswith("__gnu_cxx::__normal_iterator") and len(r) >= 2 and is_ptr(r[0]) and is_ptr(r[1]) and r[0][1] == r[1][1]:
            n = add(r[1][2], neg(r[0][2], 64), 64)
            if r[0][1][0] == "sd":
                full = r[0][2] == 0 and E.sdlen.get(r[0][1]) == n
                ps(E, st, this, n, r[0][1][1] if full else ("sub", r[0][1][1], r[0][2], n))
            else:
                ps(E, st, this, n, ("buf", r[0], n))
            return None
        if t0.startswith("std::initializer_list") or True:
            n = E.fresh(st, ("strctor", fr.ctx, i.get("d", id(i))), 64)
            st.cons[n] = HUGE
            ps(E, st, this, n, ("strctor", n))
            return None
    if meth == "~basic_string":
        return None
    v = gs(E, st, this)
    n, cid = v[1], v[2]
    if meth in ("size", "length"):
        return n
    if meth == "empty":
        return E.icmp(st, "eq", n, 0, 64)
    if meth == "clear":
        ps(E, st, this, 0, ("k", b""))
        return None
    if meth in ("c_str", "data", "begin", "cbegin", "_M_data"):
        return sdata(E, st, v, this)
    if meth in ("end", "cend"):
        d = sdata(E, st, v, this)
        return P(d[1], n)
    if meth in ("operator[]", "at"):
        d = sdata(E, st, v, this)
        E.emit_ev(st, fr, i, "str.index", this, a[1], v)
        return P(d[1], a[1])
    if meth in ("back", "front"):
        E.emit_ev(st, fr, i, "str." + meth, this, None, v)
        d = sdata(E, st, v, this)
        return P(d[1], add(n, mask(64), 64) if meth == "back" else 0)
    if meth == "push_back":
        E.emit_ev(st, fr, i, "str.push", this, a[1], v)
        ps(E, st, this, add(n, 1, 64), cat(cid, ("cat", (("b", trunc8(a[1])),))))
        return None
    if meth == "pop_back":
        E.emit_ev(st, fr, i, "str.pop_back", this, None, v)
        pc = pieces(cid)
        if pc and pc[-1][0] == "b":
            nc = cat(("cat", pc[:-1])) if pc[:-1] else ("k", b"")
        elif pc and pc[-1][0] == "k" and pc[-1][1]:
            nc = cat(("cat", pc[:-1] + (("k", pc[-1][1][:-1]),)))
        else:
            nc = ("popb", cid)
        ps(E, st, this, add(n, mask(64), 64), nc)
        return None
    if meth in ("append", "operator+=", "insert") and not (meth == "insert"):
        w = strarg(E, st, fr, i, sig, a[1:])
        E.emit_ev(st, fr, i, "str.append", this, w, v)
        ps(E, st, this, add(n, w[1], 64), cat(cid, w[2]))
        return this
    if meth in ("operator=", "assign"):
        if sig.startswith(STR + "&&"):
            w = gs(E, st, a[1])
            ps(E, st, this, w[1], w[2])
            if a[1] != this:
                ps(E, st, a[1], 0, ("k", b""))
            return this
        w = strarg(E, st, fr, i, sig, a[1:])
        ps(E, st, this, w[1], w[2])
        return this
    if meth == "swap":
        w = gs(E, st, a[1])
        ps(E, st, this, w[1], w[2])
        ps(E, st, a[1], n, cid)
        return None
    if meth == "resize":
        E.emit_ev(st, fr, i, "str.resize", this, a[1], v)
        if cid[0] == "k" and isinstance(a[1], int) and isinstance(n, int) and a[1] <= n:
            ps(E, st, this, a[1], ("k", cid[1][:a[1]]))
        elif isinstance(a[1], int) and isinstance(n, int) and a[1] <= n and cut(cid, 0, a[1]) is not None:
            ps(E, st, this, a[1], cut(cid, 0, a[1]))
        else:
            ps(E, st, this, a[1], ("resz", cid, a[1]))
        return None
    if meth == "reserve":
        return None
    if meth == "capacity":
        x = E.fresh(st, ("cap", fr.ctx, i.get("d", 0)), 64)
        return x
    if meth == "substr":
        pos, cnt = a[1], a[2] if len(a) > 2 else mask(64)
        return substr(E, st, fr, i, sret, cid, n, pos, cnt)
    if meth in ("find", "find_first_of", "rfind", "find_last_of", "find_first_not_of"):
        x = S(("find", cid, repr(a[1:])), 64)
        return x
    if meth == "compare":
        w = strarg(E, st, fr, i, sig, a[1:])
        if w[2][0] == "k" and cid[0] == "k":
            return int(cid[1] > w[2][1]) - int(cid[1] < w[2][1]) & mask(32)
        return S(("strcmp", cid, w[2]), 32)
    if meth == "get_allocator":
        return None
    if meth == "erase" and sig.startswith("unsigned long"):
        pos, cnt = a[1], a[2] if len(a) > 2 else mask(64)
        E.emit_ev(st, fr, i, "str.resize", this, pos, v)
        out = []
        ok, bad = le_state(E, st, pos, n)
        for s in ok:
            if cnt == mask(64):
                if cut(cid, 0, pos) is not None:
                    ps(E, s, this, pos, cut(cid, 0, pos))
                else:
                    ps(E, s, this, pos, ("resz", cid, pos))
                out.append(("ret", this, s))
            elif cid[0] == "k" and isinstance(pos, int) and isinstance(cnt, int):
                d = cid[1][:pos] + cid[1][pos + cnt:]
                ps(E, s, this, len(d), ("k", d))
                out.append(("ret", this, s))
            elif pos == 0:
                for k, w, s2 in substr(E, s, fr, i, this, cid, n, cnt, mask(64)):
                    if k == "ret":
                        out.append((k, this, s2))
                    else:       # erasing more than there is leaves nothing
                        s2 = s.copy()
                        for s2 in E.assume(s2, E.icmp(s2, "ugt", cnt, n, 64), True):
                            ps(E, s2, this, 0, ("k", b""))
                            out.append(("ret", this, s2))
            else:
                x = E.fresh(s, ("strins", fr.ctx, i.get("d", id(i))), 64)
                E.assume(s, E.icmp(s, "ule", x, n, 64), True)
                ps(E, s, this, x, ("ins", x))
                out.append(("ret", this, s))
        for s in bad:
            out += throw(E, s, "std::out_of_range")
        return out
    if meth in ("insert", "replace", "erase"):
        x = E.fresh(st, ("strins", fr.ctx, i.get("d", id(i))), 64)
        st.cons[x] = HUGE
        # insert<unsigned char const*>(iter, first, last)
        if meth == "insert" and len(a) >= 4 and is_ptr(a[2]) and is_ptr(a[3]):
            ln = ptrdiff(E, a[3], a[2])
            E.emit_ev(st, fr, i, "str.insert", this, ("rng", a[2], a[3], ln, a[1]), v)
            at = a[1][2] if is_ptr(a[1]) else None
            if at == n or at == 0:
                ps(E, st, this, add(n, ln, 64), cat(cid, ("buf", a[2], ln)) if at == n else cat(("buf", a[2], ln), cid))
            else:
                ps(E, st, this, add(n, ln, 64), ("ins", x))
            return P(("sd", ("x",)), 0)
        if meth == "insert" and len(a) >= 3:
            w = ("str", x, ("ins", x))
            if is_ptr(a[2]) and "char const*" in sig and len(a) >= 4:
                w = ("str", a[3], ("buf", a[2], a[3]))
            ps(E, st, this, add(n, w[1], 64), cat(cid, w[2]))
            return this
        ps(E, st, this, x, ("ins", x))
        return this
    E.note_std(fn)
    ps(E, st, this, S(("anylen", fn.base, cid), 64), ("any", fn.base, cid))
    return E.topt(st, fr, i)


def trunc8(t):
    if isinstance(t, int):
        return t & 255
    return t


def bufcid(E, st, p, n):
    """content of n bytes at p: the bytes themselves when they are few and were written to a local array"""
    sp = st.g.get("$sprintf")
    if sp and len(sp) == 4 and sp[0] == p and (n == sp[3] or isinstance(n, tuple) and n[0] in ("sx", "zx") and n[1] == sp[3]):
        return formatted(sp)
    if isinstance(n, int) and 0 < n <= 32 and is_ptr(p) and p[1][0] == "al" and isinstance(p[2], int):
        r = st.mem.get(p[1])
        if r is not None and all(c in r.cells and r.cells[c][0] == 1 for c in range(p[2], p[2] + n)):
            out = []
            for c in range(p[2], p[2] + n):
                v = r.cells[c][1]
                k = v if isinstance(v, int) else E.const_of(st, v)
                if k is None:
                    out.append(("b", v))
                elif out and out[-1][0] == "k":
                    out[-1] = ("k", out[-1][1] + bytes([k & 255]))
                else:
                    out.append(("k", bytes([k & 255])))
            return out[0] if len(out) == 1 and out[0][0] == "k" else ("cat", tuple(out))
    return ("buf", p, n)


def ptrdiff(E, a, b):
    if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
        return add(a[2], neg(b[2], 64), 64)
    return add(E.ptr2int(a), neg(E.ptr2int(b), 64), 64)


_sig = {}


def sigof(fn):
    r = _sig.get(fn.name)
    if r is None:
        dm = fn.dm
        if dm.startswith(fn.qual):
            r = dm[len(fn.qual):]
        else:
            k = dm.find(fn.qual)
            r = dm[k + len(fn.qual):] if k >= 0 else ""
        r = r[1:] if r.startswith("(") else r
        _sig[fn.name] = r
    return r


def strarg(E, st, fr, i, sig, r):
    """abstract value of a string-like argument list"""
    if sig.startswith(STR):
        v = gs(E, st, r[0])
        if len(r) >= 3 and "unsigned long, unsigned long" in sig:
            x = E.fresh(st, ("sa", fr.ctx, i.get("d", id(i))), 64)
            st.cons[x] = HUGE
            return ("str", x, ("sub", v[2], r[1], r[2]))
        return v
    if sig.startswith("char const*, unsigned long"):
        if isinstance(r[1], int) and is_ptr(r[0]) and r[0][1][0] == "glob":
            d = E.prog.global_bytes(r[0][1][1])
            if d is not None and isinstance(r[0][2], int):
                return konst(d[r[0][2]:r[0][2] + r[1]])
        return ("str", r[1], bufcid(E, st, r[0], r[1]))
    if sig.startswith("char const*"):
        k = cstr(E, st, r[0])
        if k is not None:
            return konst(k)
        if is_ptr(r[0]) and r[0][1][0] == "sd" and r[0][2] == 0:
            c = r[0][1][1]
            x = S(("clen", c), 64)
            st.cons.setdefault(x, HUGE)
            return ("str", x if c[0] != "k" else len(c[1]), c)
        x = E.fresh(st, ("cs", fr.ctx, i.get("d", id(i))), 64)
        st.cons[x] = HUGE
        return ("str", x, ("cs", r[0]))
    if sig.startswith("unsigned long, char"):
        return ("str", r[0], fill(r[0], r[1]))
    if sig.startswith("char"):
        if isinstance(r[0], int):
            return konst(bytes([r[0] & 255]))
        return ("str", 1, ("cat", (("b", r[0]),)))
    x = E.fresh(st, ("sa", fr.ctx, i.get("d", id(i))), 64)
    st.cons[x] = HUGE
    return ("str", x, ("any", x))


def m_str_plus(E, st, fr, i, args, fn):
    sret, a = sretargs(args, fn)
    if sret is None:
        return NotImplemented
    parts = split_sig(sigof(fn))
    vs = []
    for t, x in zip(parts, a):
        if t.startswith(STR):
            vs.append(gs(E, st, x))
        else:
            vs.append(strarg(E, st, fr, i, t, [x]))
    ps(E, st, sret, add(vs[0][1], vs[1][1], 64), cat(vs[0][2], vs[1][2]))
    for t, x in zip(parts, a):
        if t.startswith(STR + "&&"):
            ps(E, st, x, S(("moved", repr(x)), 64), ("moved",))
    return None


def split_sig(s):
    s = s[:s.rfind(")")] if ")" in s else s
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def m_str_eq(E, st, fr, i, args, fn):
    parts = split_sig(sigof(fn))
    if not any(t.startswith(STR) for t in parts):
        return NotImplemented
    vs = [gs(E, st, x) if t.startswith(STR) else strarg(E, st, fr, i, t, [x]) for t, x in zip(parts, args)]
    r = str_eq(E, st, vs[0], vs[1])
    return r if "operator==" in fn.qual else negate(r)


def negate(t):
    from absint import negate as n
    return n(t)


def str_eq(E, st, a, b):
    if a[2] == b[2]:
        return 1
    if a[2][0] == "k" and b[2][0] == "k":
        return int(a[2][1] == b[2][1])
    if a[2][0] == "k":
        a, b = b, a
    lc = E.icmp(st, "eq", a[1], b[1], 64)
    if lc == 0:
        return 0
    if b[1] == 0:
        return lc
    from absint import binop
    return binop("and", 1, lc, S(("streq", a[2], b[2]), 1))


def m_to_string(E, st, fr, i, args, fn):
    sret, a = sretargs(args, fn)
    n = E.fresh(st, ("tostr", fr.ctx, i.get("d", id(i))), 64)
    st.cons[n] = ((1, 24),)
    ps(E, st, sret, n, ("cat", (("n", a[0]),)))
    return None


# ------------------------------------------------------------------ vectors & friends

def elem_size(E, fn):
    m = re.match(r"std::(?:__cxx11::)?(?:vector|deque|list)<", fn.qual)
    d, j = 0, m.end() - 1
    k = j
    while k < len(fn.qual):
        if fn.qual[k] == "<":
            d += 1
        elif fn.qual[k] == ">":
            d -= 1
        if (fn.qual[k] == "," and d == 1) or d == 0:
            break
        k += 1
    t = fn.qual[j + 1:k]
    if t.endswith("*"):
        return 8
    base = {"unsigned char": 1, "char": 1, "int": 4, "unsigned int": 4, "unsigned long": 8}
    if t in base:
        return base[t]
    if t == STR:
        return 32
    ty = E.prog.type_by_q.get(t)
    if ty is None:
        return 8
    return ty.get("sz", 8)


VTOP = re.compile(r"^std::(?:__cxx11::)?(vector|deque|list)<.*>::([^:<>]*(?:<.*>)?)$")


def method_of(qual):
    """trailing method name of a qualified name with template arguments"""
    q = qual
    if q.endswith(">") and not re.search(r"operator[-<>=]*>$", q):
        d = 0
        for k in range(len(q) - 1, -1, -1):
            if q[k] == ">":
                d += 1
            elif q[k] == "<":
                d -= 1
                if d == 0:
                    q = q[:k]
                    break
    d = 0
    for k in range(len(q) - 1, 0, -1):
        if q[k] == ">" and q[k - 1] != "-":
            d += 1
        elif q[k] == "<":
            d -= 1
        elif q[k] == ":" and d == 0:
            return q[k + 1:]
    return q


CSIZE = {"vec": 24, "deq": 80, "lst": 24}
CROOT = {"vec": "vd", "deq": "dqd", "lst": "ld"}


def m_container(tag):
    csz = CSIZE[tag]
    croot = CROOT[tag]

    def m(E, st, fr, i, args, fn):
        sret, a = sretargs(args, fn)
        this = a[0]
        meth = method_of(fn.qual)
        sig = sigof(fn)
        es = elem_size(E, fn)

        def get(p):
            return getcell(E, st, p, tag, csz)

        def put(p, n, cid):
            putcell(E, st, p, csz, (tag, n, cid))

        def newid():
            k = E.fresh(st, (tag + "new", fr.ctx, i.get("d", id(i))), 64)
            return (tag, "new", k[1])
        if meth in ("vector", "deque", "list"):
            self_t = fn.qual[:fn.qual.rfind("::")]
            if sig.startswith(self_t + "&&"):
                v = get(a[1])
                put(this, v[1], v[2])
                put(a[1], 0, newid())
            elif sig.startswith(self_t + " const&"):
                v = get(a[1])
                put(this, v[1], ("copy", v[2]))
                copy_elems(E, st, croot, v[2], ("copy", v[2]))
            elif sig.startswith("unsigned long"):
                c = newid()
                put(this, a[1], c)
                if tag == "vec" and es == 1 and "const&" not in sig:
                    st.wregion((croot, c)).default = "zero"
            elif sig == ")" or sig == "":
                put(this, 0, newid())
            elif len(a) >= 3 and is_ptr(a[1]) and is_ptr(a[2]):
                d = ptrdiff(E, a[2], a[1])
                put(this, d if es == 1 else S(("rng", repr(d)), 64), newid())
            else:
                n = E.fresh(st, (tag + "n", fr.ctx, i.get("d", id(i))), 64)
                st.cons[n] = HUGE
                put(this, n if not sig.startswith("std::allocator") else 0, newid())
            return None
        if meth.startswith("~"):
            E.emit_ev(st, fr, i, tag + ".dtor", this, None, None)
            return None
        v = get(this)
        n, cid = v[1], v[2]
        if meth in ("size", "length"):
            return n
        if meth == "empty":
            return E.icmp(st, "eq", n, 0, 64)
        if meth == "clear":
            put(this, 0, newid())
            return None
        if meth in ("reserve", "shrink_to_fit"):
            return None
        if meth == "resize":
            put(this, a[1], cid)
            return None
        if meth == "data":
            return P((croot, cid), 0)
        if tag != "lst" and meth in ("begin", "cbegin", "end", "cend"):
            off = 0 if "begin" in meth else mulc(n, es, 64)
            if sret is not None:       # deque iterator {cur, first, last, node}
                E.store(st, P(sret[1], sret[2]), 8, P((croot, cid), off))
                E.store(st, P(sret[1], sret[2] + 8), 8, P((croot, cid), 0))
                E.store(st, P(sret[1], sret[2] + 16), 8, P((croot, cid), 1 << 60))
                E.store(st, P(sret[1], sret[2] + 24), 8, P((croot + "n", cid), 0))
                return None
            return P((croot, cid), off)
        if meth in ("operator[]", "at"):
            E.emit_ev(st, fr, i, tag + ".index", this, a[1], v)
            return P((croot, cid), mulc(a[1], es, 64) if not isinstance(a[1], int) else a[1] * es)
        if meth == "front":
            E.emit_ev(st, fr, i, tag + ".front", this, None, v)
            return P((croot, cid), 0)
        if meth == "back":
            E.emit_ev(st, fr, i, tag + ".back", this, None, v)
            x = add(n, mask(64), 64)
            return P((croot, cid), mulc(x, es, 64) if not isinstance(x, int) else x * es & mask(64))
        if meth in ("push_back", "emplace_back"):
            E.emit_ev(st, fr, i, tag + ".push", this, a[1:], v)
            put(this, add(n, 1, 64), cid)
            off = mulc(n, es, 64) if not isinstance(n, int) else n * es
            ep = P((croot, cid), off)
            if tag == "lst":
                ep = P((croot, cid), ("op", "el", 64, n, 0) if not isinstance(n, int) else n * 4096)
                E.new_elem(st, fr, i, fn, ep)
            elif meth == "push_back" and is_ptr(a[1]) and es == 8 and isinstance(off, int):
                E.store(st, ep, 8, E.load(st, a[1], 8, "p"))
            elif meth == "push_back" and is_ptr(a[1]) and es in (1, 2, 4) and isinstance(off, int):
                E.store(st, ep, es, E.load(st, a[1], es, "i%d" % (8 * es)))
            elif meth == "push_back" and es == 32 and isinstance(off, int):
                w = gs(E, st, a[1])
                ps(E, st, ep, w[1], w[2])
            return ep
        if meth == "pop_back":
            E.emit_ev(st, fr, i, tag + ".pop_back", this, None, v)
            put(this, add(n, mask(64), 64), cid)
            return None
        if meth == "pop_front":
            E.emit_ev(st, fr, i, tag + ".pop_front", this, None, v)
            put(this, add(n, mask(64), 64), ("pf", cid) if depth_of(cid) < 4 else ("pf", ("many",)))
            return None
        if meth == "operator=":
            w = get(a[1])
            if "&&" in sig:
                put(this, w[1], w[2])
                if a[1] != this:
                    put(a[1], 0, newid())
            else:
                put(this, w[1], ("copy", w[2]))
                copy_elems(E, st, croot, w[2], ("copy", w[2]))
            return this
        if meth == "swap":
            w = get(a[1])
            put(this, w[1], w[2])
            put(a[1], n, cid)
            return None
        if meth == "insert" and len(a) >= 4 and is_ptr(a[2]) and is_ptr(a[3]):
            ln = ptrdiff(E, a[3], a[2])
            E.emit_ev(st, fr, i, tag + ".insert", this, ("rng", a[2], a[3], ln, a[1]), v)
            put(this, add(n, ln, 64), newid())
            return P((croot, cid), 0)
        if tag == "lst" and meth in ("end", "begin"):
            return P(("lend", cid), 0)
        if meth == "erase":
            E.emit_ev(st, fr, i, tag + ".erase", this, a[1:], v)
            put(this, add(n, mask(64), 64), ("er", cid) if depth_of(cid) < 4 else ("er", ("many",)))
            return P((croot, ("er", cid)), 0)
        if meth in ("capacity", "max_size", "get_allocator"):
            return E.topt(st, fr, i)
        E.note_std(fn)
        put(this, E.fresh(st, (tag + "any", fr.ctx, i.get("d", id(i))), 64), newid())
        return E.topt(st, fr, i)
    return m


def depth_of(c):
    d = 0
    while isinstance(c, tuple) and c and c[0] in ("pf", "er", "copy"):
        c = c[1]
        d += 1
    return d


def copy_elems(E, st, croot, a, b):
    r = st.mem.get((croot, a))
    if r is not None:
        st.mem[(croot, b)] = r.copy()
        st.owned.discard((croot, b))


def m_list_iter(E, st, fr, i, args, fn):
    meth = method_of(fn.qual)
    p = E.load(st, args[0], 8, "p") if is_ptr(args[0]) else 0
    if meth in ("operator*", "operator->"):
        if is_ptr(p) and p[1][0] == "lend":
            return P(("lelem", p[1][1], p[2]), 0)
        if is_ptr(p):
            return P(p[1], add(p[2], 16, 64))
        return E.topt(st, fr, i)
    if meth in ("operator--", "operator++"):
        if is_ptr(p) and p[1][0] == "lend":
            E.store(st, args[0], 8, P(("lelem", p[1][1], "last"), mask(64) - 15))
        return args[0]
    return NotImplemented


# ------------------------------------------------------------------ std::function

def f_load(E, st, p, o):
    return E.load(st, P(p[1], add(p[2], o, 64)), 8, "p")


def m_function(E, st, fr, i, args, fn):
    meth = method_of(fn.qual)
    sig = sigof(fn)
    sret, a = sretargs(args, fn)
    this = a[0]
    cls = fn.qual[:len(fn.qual) - len(meth) - 2] if fn.qual.endswith(meth) else None

    def put(p, o, v, sz=8):
        E.store(st, P(p[1], add(p[2], o, 64)), sz, v)

    def copy(dst, src):
        E.memcpy(st, dst, src, 32)

    def empty(p):
        put(p, 16, 0)
        put(p, 24, 0)
    if not is_ptr(this):
        return NotImplemented
    if meth.startswith("~"):
        E.emit_ev(st, fr, i, "fun.dtor", this, None, None)
        return None
    if meth == "operator bool":
        man = f_load(E, st, this, 16)
        r = E.ccmp(st, "ne", man, 0, {"ot": "p"})
        return r
    if meth == "function":
        if sig in (")", "") or sig.startswith("std::nullptr_t"):
            empty(this)
            return None
        if sig.startswith("std::function<") and "&&" in sig.split(")")[-2 if sig.endswith(")") else 0] + sig:
            pass
        self_t = cls
        if fn.qual.count("function<") >= 1 and sig.startswith("std::function<"):
            src = a[1]
            if is_ptr(src):
                copy(this, src)
                if "&&" in last_ref(sig):
                    empty(src)
            else:
                empty(this)
            return None
        return NotImplemented    # from a functor: interpret the real body
    if meth == "operator=":
        if sig.startswith("std::function<"):
            src = a[1]
            E.emit_ev(st, fr, i, "fun.assign", this, src, None)
            copy(this, src)
            if "&&" in last_ref(sig) and src != this:
                empty(src)
            return this
        if sig.startswith("std::nullptr_t") or sig.startswith("decltype(nullptr)"):
            E.emit_ev(st, fr, i, "fun.assign", this, None, None)
            empty(this)
            return this
        return NotImplemented
    if meth == "swap":
        tmp = ("al", fr.ctx, "fswap")
        from absint import Region
        st.mem[tmp] = Region()
        st.owned.add(tmp)
        copy(P(tmp, 0), this)
        copy(this, a[1])
        copy(a[1], P(tmp, 0))
        del st.mem[tmp]
        return None
    return NotImplemented


def last_ref(sig):
    return sig.rstrip(")")[-3:]


# ------------------------------------------------------------------ exceptions & runtime

def m_exc_ctor(E, st, fr, i, args, fn):
    return None


def m_alloc_exc(E, st, fr, i, args, fn):
    r = ("exo", fr.ctx, i.get("d", 0))
    return P(r, 0)


def m_throw(E, st, fr, i, args, fn):
    tn = None
    if is_ptr(args[1]) and args[1][1][0] == "glob":
        tn = E.prog.globals[args[1][1][1]]["dm"].replace("typeinfo for ", "")
    E.emit_ev(st, fr, i, "throw", tn, None, None)
    st.log(("throw", i, tn, fr.fn))
    return [("exc", Exc(tn, args[0]), st)]


def m_rethrow(E, st, fr, i, args, fn):
    tn = st.g.get("$curexc")
    return [("exc", Exc(tn, P(("exo", tn))), st)]


def m_throw_std(t):
    def m(E, st, fr, i, args, fn):
        E.emit_ev(st, fr, i, "throw", t, None, None)
        return [("exc", Exc(t, P(("exo", t))), st)]
    return m


def m_ret0(E, st, fr, i, args, fn):
    return args[0] if args else None


def m_none(E, st, fr, i, args, fn):
    return 0 if i.get("t", "v") != "v" else None


def m_dead(E, st, fr, i, args, fn):
    if E.term_hook:
        E.term_hook(E, st, fr, i, fn)
    return []


def m_throw_nested(E, st, fr, i, args, fn):
    t = "std::_Nested_exception<std::runtime_error>"
    E.exc_base.setdefault(t, "std::runtime_error")
    return [("exc", Exc(t, P(("exo", t))), st)]


# ------------------------------------------------------------------ libc

def m_errno(E, st, fr, i, args, fn):
    return P(("errno",), 0)


def set_errno(E, st, fr, i):
    s = E.fresh(st, ("errno", fr.ctx, i.get("d", id(i))), 32)
    st.cons[s] = ((1, 4095),)
    r = st.wregion(("errno",))
    r.cells.clear()
    r.cells[0] = (4, s)
    return s


def syscall(name, kind="int", maxarg=None, argt=None):
    """result: -1 (errno set) or >= 0; kind 'count': 0..arg[maxarg]"""
    def m(E, st, fr, i, args, fn):
        w = 64 if i.get("t") == "i64" else 32
        E.emit_ev(st, fr, i, "sys", name, args, None)
        r = E.fresh(st, ("sys", name, fr.ctx, i.get("d", id(i))), w)
        out = []
        s2 = st.copy()
        # failure
        st.cons[r] = ((mask(w), mask(w)),)
        en = set_errno(E, st, fr, i)
        st.log(("sys", i, name, fr.fn, tuple(args), -1, en))
        E.ghost_sys(st, fr, i, name, args, -1, en)
        E.sys_result(st, fr, i, name, args, r, -1)
        out.append(("ret", mask(w), st))
        # success
        if kind == "count":
            s2.cons[r] = ((0, (1 << (w - 2))),)
            n = args[maxarg] if maxarg is not None else None
            if n is not None:
                c = E.icmp(s2, "ule", r, n, 64)
                ss = E.assume(s2, c, True)
            else:
                ss = [s2]
        elif kind == "zero":
            s2.cons[r] = ((0, 0),)
            ss = [s2]
        else:
            s2.cons[r] = ((0, mask(w - 1)),)
            ss = [s2]
        for s in ss:
            en = set_errno(E, s, fr, i)
            s.log(("sys", i, name, fr.fn, tuple(args), r, en))
            E.ghost_sys(s, fr, i, name, args, r, en)
            E.sys_result(s, fr, i, name, args, r, 1)
            v = E.const_of(s, r)
            out.append(("ret", r if v is None else v, s))
        return out
    return m


def m_out_ptr_sys(name, outs, kind="zero"):
    base = syscall(name, kind)

    def m(E, st, fr, i, args, fn):
        for k, sz in outs:
            if k < len(args) and is_ptr(args[k]):
                E.store_havoc(st, args[k], sz)
        return base(E, st, fr, i, args, fn)
    return m


def ctype(fname, pyf):
    def m(E, st, fr, i, args, fn):
        x = args[0]
        if isinstance(x, int):
            return pyf(sgn(x & mask(32), 32)) & mask(32)
        return ("op", "ctype:" + fname, 32, x, 0)
    return m


def m_memcmp(E, st, fr, i, args, fn):
    n = args[2]
    if n == 0:
        return 0
    if is_ptr(args[0]) and is_ptr(args[1]) and isinstance(n, int):
        ks = []
        for p in args[:2]:
            k = E.prog.global_bytes(p[1][1]) if p[1][0] == "glob" and isinstance(p[2], int) else None
            if k is None and p[1][0] == "sd" and p[1][1][0] == "k" and isinstance(p[2], int):
                k = p[1][1][1] + b"\0"
            ks.append(None if k is None else k[p[2]:p[2] + n])
        if ks[0] is not None and ks[1] is not None and len(ks[0]) == n == len(ks[1]):
            return 0 if ks[0] == ks[1] else (1 if ks[0] > ks[1] else mask(32))
        # a text whose last bytes are known, compared in full with a constant
        for k, p in ((ks[0], args[1]), (ks[1], args[0])):
            if k is None or len(k) != n or p[1][0] != "sd" or p[1][1][0] != "cat" or p[2] != 0:
                continue
            ln = E.sdlen.get(p[1])
            if ln is None or E.decide(st, E.icmp(st, "eq", ln, n, 64)) is not True:
                continue
            pos = n
            for x in reversed(p[1][1][1]):
                bs = x[1] if x[0] == "k" else (x[1],) if x[0] == "b" else None
                if bs is None:
                    break
                for y in reversed(bs):
                    pos -= 1
                    if pos >= 0 and isinstance(y, int) and y != k[pos]:
                        return 1
    return S(("memcmp", content_id(E, st, args[0]), content_id(E, st, args[1]), n), 32)


def content_id(E, st, p):
    if is_ptr(p):
        if p[1][0] == "glob" and isinstance(p[2], int):
            d = E.prog.global_bytes(p[1][1])
            if d is not None:
                return ("k", d[p[2]:].split(b"\0")[0])
        if p[1][0] == "sd":
            return (p[1][1], p[2])
        if p[1] in st.mem:
            return (p, st.mem[p[1]].ver)
    return p


def m_strlen(E, st, fr, i, args, fn):
    k = cstr(E, st, args[0])
    if k is not None:
        return len(k)
    x = S(("strlen", repr(args[0])), 64)
    st.cons.setdefault(x, HUGE)
    return x


def bswap(nb):
    def m(E, st, fr, i, args, fn):
        x = args[0]
        if isinstance(x, int):
            return int.from_bytes((x & mask(8 * nb)).to_bytes(nb, "little"), "big")
        return ("op", "bswap%d" % nb, 8 * nb, x, 0)
    return m


def m_now(E, st, fr, i, args, fn):
    s = E.fresh(st, ("now", fr.ctx, i.get("d", id(i))), 64)
    st.cons[s] = ((0, (1 << 62) - 1),)
    E.emit_ev(st, fr, i, "now", s, None, None)
    return s


def m_new(E, st, fr, i, args, fn):
    k = E.fresh(st, ("heap", fr.ctx, i.get("d", 0)), 64)
    return P(("heap", k[1]), 0)


def m_sprintf(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "sprintf", args, cstr(E, st, args[1]), None)
    a = args[:1] + args[2:] if fn.base == "snprintf" else args
    E.store_havoc(st, a[0], 64)
    r = E.fresh(st, ("sprintf", fr.ctx, i.get("d", 0)), 32)
    st.g["$sprintf"] = (a[0], cstr(E, st, a[1]), tuple(a[2:]), r)
    st.cons[r] = ((1, 60),)
    return r


def formatted(sp):
    """content printed by a sprintf with integer conversions: literal text and ("n"|"x", value) pieces"""
    fmt, args = sp[1], list(sp[2])
    if fmt is None:
        return ("sprintf", sp[0], sp[1:3])
    out, i = [], 0
    for m in re.finditer(rb"%(l|ll|z|j)?([uxd])|%%", fmt):
        out.append(("k", fmt[i:m.start()]))
        i = m.end()
        if m.group(0) == b"%%":
            out.append(("k", b"%"))
        elif args:
            out.append(("x" if m.group(2) == b"x" else "n", args.pop(0)))
    out.append(("k", fmt[i:]))
    if b"%" in b"".join(x[1] for x in out if x[0] == "k") and b"%%" not in fmt or args:
        return ("sprintf", sp[0], sp[1:3])
    return ("cat", tuple(x for x in out if x != ("k", b"")))


# ------------------------------------------------------------------ threads

def m_ev(kind, ret=None):
    def m(E, st, fr, i, args, fn):
        E.emit_ev(st, fr, i, kind, args[0] if args else None, args[1:], None)
        st.log((kind, i, args[0] if args else None, fr.fn))
        return ret if i.get("t", "v") != "v" else None
    return m


def m_atomic_load(E, st, fr, i, args, fn):
    E.emit_ev(st, fr, i, "atomic.load", args[0], None, None)
    return E.load(st, args[0], 1, "i8") if False else E.fresh(st, ("atm", fr.ctx, i.get("d", 0)), 1)


def install(E):
    E.cell_hook = getattr(E, "cell_hook", None)
    M = E.models
    P_ = E.pats
    M["__cxa_allocate_exception"] = m_alloc_exc
    M["__cxa_free_exception"] = m_none
    M["__cxa_throw"] = m_throw
    M["__cxa_rethrow"] = m_rethrow
    M["__cxa_begin_catch"] = m_ret0
    M["__cxa_end_catch"] = m_none
    M["__cxa_guard_acquire"] = lambda E, st, fr, i, a, fn: 0      # function statics: already initialised
    M["__cxa_guard_release"] = m_none
    M["__cxa_guard_abort"] = m_none
    M["__cxa_atexit"] = m_none
    M["__cxa_thread_atexit"] = m_none
    M["__clang_call_terminate"] = m_dead
    M["std::terminate"] = m_dead
    M["__cxa_call_unexpected"] = m_dead
    M["std::throw_with_nested<std::runtime_error>"] = m_throw_nested
    for t in ("bad_alloc", "bad_array_new_length", "bad_cast", "bad_function_call", "invalid_argument", "length_error", "out_of_range",
              "out_of_range_fmt", "system_error"):
        M["std::__throw_" + t] = m_throw_std("std::" + t.replace("_fmt", "").replace("bad_array_new_length", "bad_alloc"))
    for t in ("runtime_error", "logic_error", "out_of_range", "exception", "invalid_argument", "length_error", "nested_exception", "domain_error", "overflow_error", "bad_alloc"):
        M["std::%s::%s" % (t, t)] = m_exc_ctor
        M["std::%s::~%s" % (t, t)] = m_none
    M["std::_Nested_exception<std::runtime_error>::~_Nested_exception"] = m_none
    M["__errno_location"] = m_errno
    # network syscalls
    for n, mx in (("recv", 2), ("send", 2), ("recvfrom", 2), ("sendto", 2), ("read", 2)):
        M[n] = syscall(n, "count", mx)
    for n in ("recvmsg", "sendmsg"):
        M[n] = syscall(n, "count")
    for n in ("socket", "accept4", "accept", "epoll_create1", "eventfd", "signalfd", "fcntl"):
        M[n] = syscall(n, "int")
    M["epoll_wait"] = m_out_ptr_sys("epoll_wait", [(1, None)], "int")
    for n in ("bind", "connect", "listen", "setsockopt", "shutdown", "epoll_ctl", "eventfd_write", "pthread_sigmask"):
        M[n] = syscall(n, "zero")
    M["eventfd_read"] = m_out_ptr_sys("eventfd_read", [(1, 8)])
    M["close"] = syscall("close", "zero")
    M["getsockname"] = m_out_ptr_sys("getsockname", [(1, 128)])
    M["getpeername"] = m_out_ptr_sys("getpeername", [(1, 128)])
    M["getaddrinfo"] = m_out_ptr_sys("getaddrinfo", [(3, 8)])
    M["freeaddrinfo"] = m_ev("sys.freeaddrinfo")
    for n in ("sigemptyset", "sigaddset"):
        M[n] = m_none
    M["if_nametoindex"] = lambda E, st, fr, i, a, fn: E.topt(st, fr, i)
    M["inet_pton"] = syscall("inet_pton", "int")
    M["inet_ntop"] = lambda E, st, fr, i, a, fn: E.topt(st, fr, i)
    M["strerror"] = lambda E, st, fr, i, a, fn: E.topt(st, fr, i)
    M["ptrace"] = lambda E, st, fr, i, a, fn: E.topt(st, fr, i)
    M["sprintf"] = M["snprintf"] = m_sprintf
    M["strftime"] = lambda E, st, fr, i, a, fn: (E.store_havoc(st, a[0], 64), E.topt(st, fr, i))[1]
    M["gmtime_r"] = lambda E, st, fr, i, a, fn: a[1]
    M["memcmp"] = m_memcmp
    M["strlen"] = m_strlen
    M["strcmp"] = lambda E, st, fr, i, a, fn: S(("strcmp", content_id(E, st, a[0]), content_id(E, st, a[1])), 32)
    M["memchr"] = lambda E, st, fr, i, a, fn: E.topt(st, fr, i)
    M["isdigit"] = ctype("isdigit", lambda c: int(48 <= c <= 57))
    M["isspace"] = ctype("isspace", lambda c: int(c in (9, 10, 11, 12, 13, 32)))
    M["tolower"] = ctype("tolower", lambda c: c + 32 if 65 <= c <= 90 else c)
    M["htons"] = bswap(2)
    M["ntohs"] = bswap(2)
    M["htonl"] = bswap(4)
    M["ntohl"] = bswap(4)
    M["ldexp"] = lambda E, st, fr, i, a, fn: ("fs", ("ldexp",) + tuple(a))
    M["operator new"] = m_new
    M["operator delete"] = m_none
    M["std::chrono::_V2::steady_clock::now"] = m_now
    M["std::chrono::_V2::system_clock::now"] = m_now
    M["std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>>::max"] = \
        lambda E, st, fr, i, a, fn: mask(63)
    # threads
    M["std::mutex::lock"] = m_ev("lock")
    M["std::mutex::unlock"] = m_ev("unlock")
    M["std::mutex::mutex"] = m_none
    M["std::mutex::try_lock"] = m_ev("trylock")
    M["std::condition_variable::wait"] = m_ev("cv.wait")
    M["std::condition_variable::notify_one"] = m_ev("cv.notify")
    M["std::condition_variable::notify_all"] = m_ev("cv.notify")
    M["std::condition_variable::condition_variable"] = m_none
    M["std::condition_variable::~condition_variable"] = m_none
    M["std::thread::join"] = m_ev("thread.join")
    M["std::thread::joinable"] = lambda E, st, fr, i, a, fn: S(("joinable", repr(a[0])), 1)
    M["std::thread::~thread"] = m_none
    P_.append((lambda q, dm: q.startswith("std::thread::thread<"), m_ev("thread.start")))
    P_.append((lambda q, dm: q.startswith("std::atomic<"), m_atomic))
    P_.append((lambda q, dm: q == STR or q.startswith(STR + "::"), m_string))
    P_.append((lambda q, dm: q.startswith("std::operator+<char, std::char_traits"), m_str_plus))
    P_.append((lambda q, dm: q.startswith("std::operator==<char, std::char_traits<char>, std::allocator") or q.startswith("std::operator!=<char, std::char_traits<char>, std::allocator"), m_str_eq))
    M["std::__cxx11::to_string"] = m_to_string
    for nm, tag in (("vector", "vec"), ("deque", "deq"), ("__cxx11::list", "lst")):
        h = m_container(tag)
        pre = "std::%s<" % nm

        def ok(q, dm, pre=pre, nm=nm):
            if not q.startswith(pre):
                return False
            d, k = 0, len(pre) - 1
            while k < len(q):
                if q[k] == "<":
                    d += 1
                elif q[k] == ">":
                    d -= 1
                    if d == 0:
                        break
                k += 1
            return q[k + 1:k + 3] == "::"
        P_.append((ok, h))
    P_.append((lambda q, dm: q.startswith("std::_List_iterator<"), m_list_iter))
    P_.append((lambda q, dm: q.startswith("std::function<"), m_function))
    P_.append((lambda q, dm: q.startswith("std::_Function_base::~"), m_none))
    P_.append((lambda q, dm: re.match(r"std::(operator<<|ostream::|basic_ostream|endl)", q) is not None, m_ostream))
    P_.append((lambda q, dm: re.match(r"std::(__cxx11::)?basic_o?stringstream<", q) is not None, m_sstream))
    P_.append((lambda q, dm: q.startswith("std::unordered_map<") or q.startswith("std::map<"), m_map))
    P_.append((lambda q, dm: q.startswith("std::random_device::") or q.startswith("std::uniform_int_distribution"), m_random))
    P_.append((lambda q, dm: q.startswith("std::allocator<") or q.startswith("std::__new_allocator<"), m_none))
    P_.append((lambda q, dm: q.startswith("std::_V2::") or q.startswith("std::locale") or q.startswith("std::ios_base"), lambda E, st, fr, i, a, fn: E.topt(st, fr, i)))
    M["$indirect"] = m_indirect


def m_atomic(E, st, fr, i, args, fn):
    meth = method_of(fn.qual)
    if meth.startswith("operator") and meth.endswith("bool") or meth == "load":
        E.emit_ev(st, fr, i, "atomic.load", args[0], None, None)
        w = int(i["t"][1:]) if i.get("t", "i8")[0] == "i" else 8
        s = E.fresh(st, ("atm", fr.ctx, i.get("d", 0)), w)
        if w > 1:
            st.cons[s] = ((0, 1),)
        return s
    if meth == "operator=" or meth == "store":
        E.emit_ev(st, fr, i, "atomic.store", args[0], args[1], None)
        v = args[1]
        E.store(st, args[0], 1, v if isinstance(v, int) else ("zx", v, 8))
        return args[1] if i.get("t", "v") != "v" else None
    if meth.startswith("atomic"):
        if len(args) > 1:
            v = args[1]
            E.store(st, args[0], 1, v if isinstance(v, int) else ("zx", v, 8))
        return None
    if meth == "exchange":
        E.emit_ev(st, fr, i, "atomic.store", args[0], args[1], None)
    return E.topt(st, fr, i)


def ss_cell(E, st, p):
    """content cell of a string stream seen through a pointer to it or to its ostream part"""
    if is_ptr(p) and isinstance(p[2], int):
        for o in (p[2], p[2] - 16):
            q = P(("ss", p[1], o), 0)
            if q[1] in st.mem:
                return q
    return None


def m_sstream(E, st, fr, i, args, fn):
    sret, a = sretargs(args, fn)
    if E.streams and a and is_ptr(a[0]) and isinstance(a[0][2], int):
        if fn.base.startswith("basic_") and len(a) == 1:
            q = P(("ss", a[0][1], a[0][2]), 0)
            putcell(E, st, q, 32, konst(b""))
            return None
        q = ss_cell(E, st, a[0])
        if q is not None and fn.base == "str" and sret is not None:
            v = gs(E, st, q)
            ps(E, st, sret, v[1], v[2])
            return None
        if q is not None and fn.base == "str" and len(a) == 2:
            v = gs(E, st, a[1])
            ps(E, st, q, v[1], v[2])
            return None
        if q is not None and not fn.base.startswith("~"):
            ps(E, st, q, S(("ssx", fr.ctx), 64), ("any", fn.base))
    if sret is not None and fn.base == "str":
        n = E.fresh(st, ("ss", fr.ctx, i.get("d", id(i))), 64)
        st.cons[n] = HUGE
        ps(E, st, sret, n, ("ss", n))
    return None if i.get("t", "v") == "v" else E.topt(st, fr, i)


def m_ostream(E, st, fr, i, args, fn):
    """operator<< and friends; only followed into a string stream, and only if E.streams is set"""
    q = ss_cell(E, st, args[0]) if E.streams and args else None
    if q is None:
        return args[0] if args else None
    v = gs(E, st, q)
    d = fn.dm
    x = None
    m = args[1] if len(args) > 1 else None
    if d.endswith("char const*)"):
        z = cstr(E, st, m)
        x = konst(z) if z is not None else None
    elif "basic_string<" in d.split("operator<<", 1)[-1] and d.endswith("const&)"):
        x = gs(E, st, m)
    elif re.search(r"[,(]\s*(unsigned |signed )?char\)$", d):
        x = ("str", 1, ("k", bytes([m])) if isinstance(m, int) else ("cat", (("b", m),)))
    elif re.search(r"operator<<\((unsigned )?(short|int|long|long long)\)$", d):
        n = S(("numlen", m), 64) if not isinstance(m, int) else len(str(m))
        if not isinstance(m, int):
            st.cons.setdefault(n, ((1, 24),))
            x = ("str", n, ("cat", (("n", m),)))
        elif m < 1 << 31:
            x = konst(b"%d" % m)
    elif fn.base == "write" and len(args) == 3:
        x = ("str", args[2], ("buf", m, args[2]))
        if isinstance(args[2], int):
            z = cstr(E, st, m)
            if z is not None and len(z) >= args[2]:
                x = konst(z[:args[2]])
    if x is None:
        # a manipulator or something else not followed: what the text is, is not known any more
        x = ("str", S(("ssx", fr.ctx), 64), ("any", d))
        st.cons.setdefault(x[1], HUGE)
    E.emit_ev(st, fr, i, "ss.put", q, x, None)
    ps(E, st, q, add(v[1], x[1], 64), cat(v[2], x[2]))
    return args[0]


def m_map(E, st, fr, i, args, fn):
    meth = method_of(fn.qual)
    E.emit_ev(st, fr, i, "map." + meth, args[0] if args else None, args[1:], None)
    sret, a = sretargs(args, fn)
    if meth == "operator[]":
        k = E.fresh(st, ("mapel", fr.ctx, i.get("d", 0)), 64)
        return P(("mapel", k[1]), 0)
    if i.get("t", "v") == "v":
        return None
    return E.topt(st, fr, i)


def m_random(E, st, fr, i, args, fn):
    return None if i.get("t", "v") == "v" else E.topt(st, fr, i)


def m_indirect(E, st, fr, i, args, v):
    f = fr.fn
    if f.qual.startswith("std::function<") and method_of(f.qual) == "operator()":
        return E.user_call(st, fr, i, fr.args[1] if (f.args and f.args[0].get("sret")) else fr.args[0], args)
    return E.virtual_call(st, fr, i, args, v)
