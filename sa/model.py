"""Program model: compiles /repo's current sources to LLVM bitcode (clang-18, real build defines), dumps it with
tools/irdump and loads it.  Nothing of the analysed program is ever executed."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRAB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")          # git-ignored
IRDUMP = os.path.join(BUILD, "irdump")


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, frontend failure, budget)."""


def _sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


def build_irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cppflags"]).decode().split()
    tmp = IRDUMP + ".%d" % os.getpid()
    _sh(["g++", "-O1", "-w", "-std=c++17"] + flags + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, IRDUMP)


def source_files():
    out = []
    for base in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                out.append(os.path.join(d, f))
    return sorted(out)


CONFIGS = {
    # name: (defines, source)
    "epoll": (["-DCRAB_COMPILE=1"], os.path.join(VERIF, "tools", "witness.cpp")),
    "ints": (["-DCRAB_COMPILE=1"], os.path.join(VERIF, "tools", "witness_int.cpp")),
    "intr": (["-DCRAB_COMPILE=1"], os.path.join(VERIF, "tools", "witness_intr.cpp")),
}


def load_raw(config="epoll"):
    defs, src = CONFIGS[config]
    h = hashlib.sha256()
    for f in source_files() + [src, os.path.join(VERIF, "tools", "irdump.cpp"), os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(REPO.encode())
    h.update(config.encode())
    key = h.hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "ir-%s-%s.json" % (config, key))
    if not os.path.exists(out):
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                build_irdump()
                olds = sorted((f for f in os.listdir(BUILD) if f.startswith("ir-") and f.endswith(".json")),
                              key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
                for f in olds[:-5]:
                    os.unlink(os.path.join(BUILD, f))
                tmp = tempfile.mkdtemp(prefix="crabsa.")
                try:
                    bc, b2, js = (os.path.join(tmp, x) for x in ("a.bc", "b.bc", "o.json"))
                    _sh(["clang++-18", "-std=gnu++11", "-w"] + defs + ["-I", os.path.join(REPO, "include"), "-DCRAB_REPO_SRC=\"%s\"" % os.path.join(REPO, "src/crab.cpp"),
                         "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-Xclang", "-femit-all-decls",
                         "-c", "-emit-llvm", src, "-o", bc])
                    _sh(["opt-18", "-passes=function(sroa,mem2reg)", bc, "-o", b2])
                    _sh([IRDUMP, b2, js])
                    shutil.move(js, out + ".tmp")
                    os.replace(out + ".tmp", out)
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
    with open(out) as fh:
        return json.load(fh)


class Fn:
    __slots__ = ("name", "dm", "base", "scope", "acc", "args", "ret", "bb", "line", "file", "di", "sct", "art", "internal",
                 "nothrow", "succ", "pred", "live_in", "heads", "short", "qual", "_calls", "nid", "varargs")

    def __repr__(self):
        return "<Fn %s>" % self.dm


TERM = {"br", "switch", "ret", "invoke", "resume", "unreachable"}


def strip_params(dm):
    """'ns::C::f(int) const' -> 'ns::C::f' (keeps template args of scopes, drops the parameter list and a leading return type)."""
    depth = 0
    # cut at the first top-level '(' that starts a parameter list (not 'operator()' and not '(anonymous namespace)')
    i, n = 0, len(dm)
    start = 0
    while i < n:
        c = dm[i]
        if dm.startswith("operator()", i):
            i += 10
            continue
        if dm.startswith("operator<<", i) or dm.startswith("operator>>", i):
            i += 10
            continue
        if dm.startswith("operator->", i):
            i += 10
            continue
        if dm.startswith("operator<=", i) or dm.startswith("operator>=", i):
            i += 10
            continue
        if dm.startswith("operator<", i) or dm.startswith("operator>", i):
            i += 9
            continue
        if dm.startswith("(anonymous namespace)", i):
            i += 21
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" :
            if depth == 0:
                # lambda scopes look like  f(int)::$_0::operator()() const
                j, d2 = i, 0
                while j < n:
                    if dm[j] == "(":
                        d2 += 1
                    elif dm[j] == ")":
                        d2 -= 1
                        if d2 == 0:
                            break
                    j += 1
                rest = dm[j + 1:]
                m = re.match(r"( const)?( &&?)?::", rest)
                if m:
                    i = j + 1 + m.end()
                    continue
                return dm[start:i]
        elif c == " " and depth == 0 and not dm[start:i].endswith("operator"):
            start = i + 1
        i += 1
    return dm[start:]


class Program:
    def __init__(self, raw):
        self.files = raw["files"]
        self.types = raw["types"]
        self.globals = raw["globals"]
        self.fn = {}
        self.by_qual = {}
        for f in raw["functions"]:
            o = Fn()
            o.name, o.dm = f["n"], f["dm"]
            o.qual = strip_params(o.dm)
            o.base = f.get("bn", o.qual.rsplit("::", 1)[-1])
            o.scope = f.get("sc", "")
            o.acc = f.get("acc", 0)
            o.args = f["args"]
            o.ret = f["ret"]
            o.bb = f.get("bb")
            l = f.get("l")
            o.file, o.line = (self.files[l[0]] if l and l[0] >= 0 else "", l[1] if l else 0)
            o.di = f.get("dt", [])
            o.sct = f.get("sct")
            o.art = f.get("art", 0)
            o.internal = f.get("int", 0)
            o.nothrow = f.get("nt", 0)
            o.varargs = f.get("va", 0)
            o.succ = o.pred = o.live_in = o.heads = None
            o._calls = None
            self.fn[o.name] = o
            self.by_qual.setdefault(o.qual, []).append(o)
        self.type_by_q = {}
        for i, t in enumerate(self.types):
            t["id"] = i
            if t.get("k") in ("class_type", "structure_type", "union_type", "enumeration_type") and not t.get("decl"):
                q = t["q"]
                cur = self.type_by_q.get(q)
                if cur is None or len(t.get("m", [])) > len(cur.get("m", [])):
                    self.type_by_q[q] = t
        self._resolve_cache = {}

    # ---------- source locations
    def loc(self, inst):
        l = inst.get("l")
        if not l or l[0] < 0:
            return "?"
        return "%s:%d" % (self.relfile(self.files[l[0]]), l[1])

    def relfile(self, f):
        f = os.path.normpath(f)
        r = os.path.normpath(REPO)
        return f[len(r) + 1:] if f.startswith(r + "/") else f

    def in_repo(self, fn):
        f = os.path.normpath(fn.file) if fn.file else ""
        return f.startswith(os.path.normpath(REPO) + "/")

    # ---------- functions
    def find(self, qual, nargs=None, required=True, const=None, pred=None):
        l = [f for f in self.by_qual.get(qual, []) if f.bb is not None]
        if nargs is not None:
            l = [f for f in l if len([a for a in f.args if not a.get("sret")]) == nargs]
        if pred:
            l = [f for f in l if pred(f)]
        # constructors/destructors: prefer complete object variants (C1/D1); C2 is what C1 calls
        if not l and required:
            raise AnalysisError("anchor not found: function %s" % qual)
        return l

    def one(self, qual, nargs=None, pred=None, sig=None):
        l = self.find(qual, nargs, True, None, pred)
        if sig is not None:
            l = [f for f in l if sig in f.dm]
            if not l:
                raise AnalysisError("anchor not found: %s with %r" % (qual, sig))
        if len(l) > 1:
            c = [f for f in l if re.search(r"[CD]2E", f.name)]
            d = [f for f in l if not re.search(r"[CD][012]E", f.name)]
            if len(c) >= 1 and not d:
                l = c[:1] if len(c) == 1 else c
        if len(l) != 1:
            raise AnalysisError("anchor ambiguous: %s -> %s" % (qual, [f.dm for f in l]))
        return l[0]

    def cfg(self, f):
        if f.succ is not None:
            return
        n = len(f.bb)
        f.succ = [[] for _ in range(n)]
        f.pred = [[] for _ in range(n)]
        for b, ins in enumerate(f.bb):
            t = ins[-1]
            o = t["o"]
            if o in ("br", "invoke"):
                s = list(dict.fromkeys(t["s"]))
            elif o == "switch":
                s = list(dict.fromkeys([t["df"]] + [c[1] for c in t["cs"]]))
            else:
                s = []
            f.succ[b] = s
            for x in s:
                f.pred[x].append(b)
        # loop headers: targets of DFS back edges
        color = [0] * n
        heads = set()
        stack = [(0, iter(f.succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(f.succ[s])))
                    break
                if color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        f.heads = heads
        # liveness of SSA values
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # pred -> set

        def ids(x):
            if isinstance(x, int) and not isinstance(x, bool):
                return [x]
            return []
        for b, ins in enumerate(f.bb):
            for i in ins:
                if i["o"] == "phi":
                    for v, p in i["in"]:
                        if isinstance(v, int):
                            phiuse[b].setdefault(p, set()).add(v)
                else:
                    vs = []
                    for v in i.get("a", ()):
                        vs += ids(v)
                    if "c" in i:
                        vs += ids(i["c"])
                    if "f" in i:
                        vs += ids(i["f"])
                    for v in i.get("vo", ()):
                        vs += ids(v[0])
                    for v in vs:
                        if v not in deff[b]:
                            use[b].add(v)
                if "d" in i:
                    deff[b].add(i["d"])
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in f.succ[b]:
                    out |= live[s]
                    if b in phiuse[s]:
                        out |= phiuse[s][b]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        f.live_in = live

    def insts(self, f):
        for b, ins in enumerate(f.bb or ()):
            for k, i in enumerate(ins):
                yield b, k, i

    def calls(self, f):
        """direct call sites: [(inst, callee Fn or None)]"""
        if f._calls is None:
            r = []
            for _, _, i in self.insts(f):
                if i["o"] in ("call", "invoke"):
                    c = i["f"]
                    r.append((i, self.fn.get(c[1]) if isinstance(c, list) and c[0] == "f" else None))
            f._calls = r
        return f._calls

    # ---------- types
    def strip(self, tid):
        while tid is not None and tid >= 0:
            t = self.types[tid]
            if t["k"] in ("typedef", "const_type", "volatile_type", "member"):
                tid = t["b"]
                continue
            if t.get("decl"):
                r = self.type_by_q.get(t["q"])
                return r if r else t
            return t
        return None

    def type(self, q):
        t = self.type_by_q.get(q)
        if t is None:
            raise AnalysisError("anchor not found: type %s" % q)
        return t

    def members(self, t):
        """[(name, off, size, type)] of a composite, bases flattened."""
        r = []
        for m in t.get("m", ()):
            if m[0] == "b":
                bt = self.strip(m[4])
                if bt:
                    for (n, o, s, ty) in self.members(bt):
                        r.append((n, o + m[2], s, ty))
            elif m[0] == "m":
                r.append((m[1], m[2], m[3], self.strip(m[4])))
        return r

    def field(self, q, path):
        """byte offset, size and type of field `path` ('a.b') in type q."""
        t = self.type(q) if isinstance(q, str) else q
        off = 0
        sz = 0
        for p in path.split("."):
            ms = [m for m in self.members(t) if m[0] == p]
            if not ms:
                raise AnalysisError("anchor not found: field %s in %s" % (path, t["q"]))
            off += ms[0][1]
            sz = ms[0][2]
            t = ms[0][3]
        return off, sz, t

    def foff(self, q, path):
        return self.field(q, path)[0]

    def field_name(self, t, off):
        """human name of offset `off` within type t."""
        if t is None:
            return "+%d" % off
        best = None
        for (n, o, s, ty) in self.members(t):
            if o <= off < o + max(s, 1):
                best = (n, o, s, ty)
        if best is None:
            return "+%d" % off
        n, o, s, ty = best
        if ty is not None and ty.get("k") in ("class_type", "structure_type") and (off != o or False) and not ty["q"].startswith("std::"):
            return n + "." + self.field_name(ty, off - o)
        return n if off == o else "%s+%d" % (n, off - o)

    def enum(self, q):
        t = self.type(q)
        return {m[1]: m[2] for m in t["m"] if m[0] == "e"}

    def witness(self, name):
        """value of a boolean constant of tools/witness.cpp"""
        for n, g in self.globals.items():
            if g.get("dm", n).endswith("crabsa_witness::" + name):
                b = self.global_bytes(n)
                if b:
                    return bool(b[0])
        raise AnalysisError("witness constant %s not found" % name)

    def enum_value(self, scope, name):
        got = {m[2] for t in self.types if t and t.get("k") == "enumeration_type" and str(t.get("q", "")).startswith(scope)
               for m in t.get("m", ()) if m[0] == "e" and m[1] == name}
        if len(got) != 1:
            raise AnalysisError("enumerator %s::%s not found" % (scope, name))
        return got.pop()

    def pointee(self, tid):
        t = self.strip(tid)
        if t and t["k"] in ("pointer_type", "reference_type", "rvalue_reference_type"):
            return self.strip(t["b"])
        return None

    # ---------- global constant data
    def global_bytes(self, name):
        g = self.globals.get(name)
        if not g or "init" not in g:
            return None
        buf = bytearray(g["sz"])
        for off, sz, v in g["init"]:
            if v[0] == "data":
                b = bytes.fromhex(v[2])
                buf[off:off + len(b)] = b
            elif v[0] == "c":
                buf[off:off + sz] = int(v[1]).to_bytes(sz, "little")
            elif v[0] in ("zero", "null", "undef"):
                pass
            else:
                return None
        return bytes(buf)

    def global_cells(self, name):
        g = self.globals.get(name)
        if not g or "init" not in g:
            return None
        return g["init"]


_prog = {}


def program(config="epoll"):
    if config not in _prog:
        _prog[config] = Program(load_raw(config))
    return _prog[config]
