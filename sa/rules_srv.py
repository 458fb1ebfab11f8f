"""C32, C33: the HTTP server's bookkeeping of clients and handlers.

The server is interpreted from its constructor on: the function it binds to the acceptor, then the function it binds to each client.  Connections are
cut off at ServerConnection (decided by C20-C25, C27); user handlers return, throw or first use every operation a client offers."""
from absint import State, P, S, is_ptr, add, neg, mask, Exc
from model import AnalysisError
import std_models as sm
import objects
import fw
from rules_net import fwhere
from linear import Lin

THIS = P(("*", ("this",)), 0)
SRV, CLI, CONN = "crab::http::Server", "crab::http::Client", "crab::http::ServerConnection"
ACC = ("*", ("accfn",))
WM, RH = "crab::http::WebMessage", "crab::http::ResponseHeader"
AUTHERR = "crab::http::ErrorAuthorization"
EV = "#ev"
LIMIT = "never more clients than the limit"
RESUME = "accepting continues while there is room"
BIND = "every client's events reach the server"
ONCE = "a disconnect calls every waiting handler once"
FORGET = "a client that is gone is not touched"
WAIT = "handlers wait exactly as long as they are needed"
ESC = "no handler's exception leaves the server"
ANSWER = "a failing request handler is answered"
WSERR = "a failing WebSocket handler closes its WebSocket"
CONT = "the server goes on with what the client sent"
THROWS = (AUTHERR, "std::runtime_error", "std::bad_alloc")
BIG = 1 << 32
ERROR_CODE = 1011


class Srv:
    def __init__(self, prog, rep, rules):
        self.prog, self.rep, self.rules = prog, rep, rules
        self.E = E = objects.engine(prog, http=False)
        E.exit_limit = E.loop_limit = E.merge_limit = 4000
        E.unroll = 12
        E.term_depth = 20
        mem = list(prog.members(prog.type(CLI)))
        off = lambda cls: {n: (o, s, t) for n, o, s, t in prog.members(prog.type(cls))}
        conn = off(CONN)
        self.own = [m for m in mem if not (m[0] in conn and m[1] == conn[m[0]][0])]
        by = lambda pred, what, ms: self.one([m for m in ms if m[3] is not None and pred(m[3])], what)
        st = by(lambda t: t.get("k") == "enumeration_type", "state", list(prog.members(prog.type(CONN))))
        self.o_state, self.states = st[1], {m[1]: m[2] for m in st[3]["m"] if m[0] == "e"}
        self.o_writing = by(lambda t: t.get("q") == "bool", "streaming flag", list(prog.members(prog.type(CONN))))[1]
        self.o_conn = by(lambda t: t.get("q") == "std::function<void ()>", "connection handler", list(prog.members(prog.type(CONN))))[1]
        self.o_ws = by(lambda t: "WebMessage" in (t.get("q") or "") and (t.get("q") or "").startswith("std::function"), "WebSocket handler", self.own)[1]
        self.handlers = {n: o for n, o, s, t in self.own if t is not None and t.get("q") == "std::function<void ()>"}
        self.o_sent = by(lambda t: t.get("q") == "bool", "close flag", self.own)[1]
        if len(self.handlers) != 2:
            raise AnalysisError("handlers of %s not recognised" % CLI)
        sm_ = list(prog.members(prog.type(SRV)))
        self.o_acc = by(lambda t: t.get("q") == "crab::TCPAcceptor", "acceptor", sm_)[1]
        self.o_rh = by(lambda t: (t.get("q") or "").startswith("std::function"), "request handler", sm_)[1]
        self.o_set = by(lambda t: (t.get("q") or "").endswith("HTTPServerSettings"), "settings", sm_)[1]
        self.o_max = self.o_set + prog.field("crab::details::HTTPServerSettings", "max_connections")[0]
        f = lambda c, n: prog.field(c, n)[0]
        self.m_op, self.m_code, self.m_body = f(WM, "opcode"), f(WM, "close_code"), f(WM, "body")
        self.r_path = f("crab::http::Request", "header") + f("crab::http::RequestHeader", "path")
        self.p_status = f("crab::http::Response", "header") + f(RH, "status")
        self.mode = ""
        self.install()

    @staticmethod
    def one(l, what):
        if len(l) != 1:
            raise AnalysisError("%s: expected one, found %d" % (what, len(l)))
        return l[0]

    # ---------------------------------------------------------------- events
    def ev(self, st, *x):
        st.g[EV] = st.g.get(EV, ()) + (tuple(x),)

    def evs(self, st, *kinds):
        return [x for x in st.g.get(EV, ()) if x[0] in kinds]

    def ob(self, rule, ok, f, detail, msg, s):
        if rule not in self.rules:
            return bool(ok)
        where, qual = fwhere(self.prog, f), f.qual
        if not ok:
            # the library code that ran last
            for x in reversed(fw.path_of(self.prog, s, 4000)):
                if x.startswith(("include/", "src/")):
                    where = x.split()[0]
                    break
        return self.rep.ob(rule, bool(ok), qual, where, msg, "%s %s" % (f.dm[-50:], detail), fw.path_of(self.prog, s))

    def val(self, s, p, o, size):
        v = self.E.load(s, P(p[1], p[2] + o), size, "i%d" % (8 * size))
        c = v if isinstance(v, int) else self.E.const_of(s, v)
        return v if c is None else c

    def phase(self, s, cl):
        v = self.val(s, cl, self.o_state, 4)
        for n, k in self.states.items():
            if k == v:
                return n
        return "?"

    def setphase(self, s, cl, name):
        self.E.store(s, P(cl[1], cl[2] + self.o_state), 4, self.states[name])

    def target(self, s, cl, o):
        """what a std::function member holds: None when empty"""
        m = self.E.load(s, P(cl[1], cl[2] + o + 16), 8, "p")
        if m == 0 or self.E.const_of(s, m) == 0:
            return None
        return self.E.load(s, P(cl[1], cl[2] + o + 24), 8, "p")

    def bind(self, s, p, o, name):
        r = s.wregion(p[1])
        b = p[2] + o
        if name is None:
            r.cells[b + 16], r.cells[b + 24] = (8, 0), (8, 0)
        else:
            for q in ("mgr", "usr"):
                s.cons[S((q, name), 64)] = ((1, mask(64)),)
            r.cells[b + 16], r.cells[b + 24] = (8, P(("*", ("mgr", name)), 0)), (8, P(("*", ("usr", name)), 0))

    # ---------------------------------------------------------------- models
    def install(self):
        E, prog = self.E, self.prog
        for q in prog.by_qual:
            if q.startswith("std::__cxx11::list<crab::http::Client") or q.startswith("std::_List_iterator<crab::http::Client") or q.startswith("std::_List_const_iterator<crab::http::Client"):
                E.models[q] = self.m_list
        for q in [q for q in prog.by_qual if q.startswith("std::operator==") or q.startswith("std::operator!=")]:
            if "_List_iterator<crab::http::Client" in q or any("_List_iterator<crab::http::Client" in f.dm for f in prog.by_qual[q]):
                E.models[q] = self.m_list
        keep = ("get_state", "set_handler", "is_writing_body", "is_state_websocket")
        for q, l in prog.by_qual.items():
            if q.startswith(CONN + "::"):
                n = q[len(CONN) + 2:]
                if "::" not in n and n not in keep and "lambda" not in n and "$_" not in n:
                    E.models[q] = self.m_conn
            elif q.startswith("crab::TCPAcceptor::"):
                E.models[q] = self.m_acceptor
            elif q.startswith(SRV + "::get_date"):
                E.models[q] = lambda E, st, fr, i, args, fn: P(("*", ("date",)), 0)
        for q in [q for q in prog.by_qual if q.endswith("::parse_content_type_value")]:
            E.models[q] = self.m_mime
        E.models["$indirect"] = self.user
        E.on("vec.push", self.pushed)
        E.mem_hook = lambda E, st, fr, i, p, n, w, v: self.touch(st, fr, [p])
        E.model_hook = lambda E, st, fr, i, fn, args: self.touch(st, fr, args)
        self.client_ctor = self.one([f for f in prog.by_qual.get(CLI + "::" + CLI.split("::")[-1], []) if f.bb and len(f.args) == 1][:1], "constructor of Client")

    def touch(self, st, fr, ps):
        gone = st.g.get("#gone", ())
        if gone and any(is_ptr(p) and p[1] in gone for p in ps):
            self.ob(FORGET, False, fr.fn, "", "a client is used after it was removed", st)

    def pushed(self, E, st, fr, i, kind, this, args, v):
        if args and is_ptr(args[0]):
            try:
                a, b = sm.gs(E, st, args[0]), sm.gs(E, st, P(args[0][1], add(args[0][2], 32, 64)))
            except AnalysisError:
                return
            st.g["#headers"] = st.g.get("#headers", ()) + (("field", a[2], b[2]),)

    def m_mime(self, E, st, fr, i, args, fn):
        """cutting a media type (decided by C18 and C28)"""
        for n, p in enumerate(args[1:3]):
            sm.ps(E, st, p, S(("mlen", n), 64), ("mime", n))
        return None

    def node(self, root):
        return P(("node", root), 0)

    def m_list(self, E, st, fr, i, args, fn):
        meth = sm.method_of(fn.qual)
        sret, a = sm.sretargs(args, fn)
        this = a[0] if a else None
        order = st.g.get("#order", ())
        if "_List_iterator" in fn.qual.split("::")[1] or fn.qual.startswith("std::operator") or "_List_const_iterator" in fn.qual.split("::")[1]:
            ld = lambda p: E.load(st, p, 8, "p")
            if meth in ("operator*", "operator->"):
                n = ld(this)
                return P(n[1][1], 0) if is_ptr(n) and n[1][0] == "node" else NotImplemented
            if meth.startswith("operator==") or meth.startswith("operator!="):
                x, y = ld(a[0]), ld(a[1])
                return int((x == y) == ("==" in meth))
            if meth in ("operator--", "operator++"):
                n = ld(this)
                at = order.index(n[1][1]) if is_ptr(n) and n[1][1] in order else len(order)
                at += 1 if "+" in meth else -1
                if not 0 <= at <= len(order):
                    raise AnalysisError("client list: iterator leaves the known elements")
                E.store(st, this, 8, self.node(order[at] if at < len(order) else "end"))
                return this if sret is None and len(a) == 1 else n
            return NotImplemented
        if meth in ("emplace_back", "push_back", "emplace"):
            k = st.g.get("#next", 0)
            st.g["#next"] = k + 1
            root = ("*", ("client", k))
            n = st.g["#n"]
            L = Lin(E, st)
            e = L.comb(L.ex(self.max), L.ex(n), -1)
            self.ob(LIMIT, L.nonneg((e[0] - 1, e[1])), fr.fn, "", "a client is added although the limit may be reached", st)
            st.g["#n"] = add(n, 1, 64)
            st.g["#order"] = order + (root,)
            self.ev(st, "added", root)
            st.cons[S(root[1], 64)] = ((1, mask(64)),)
            out = []
            for kd, v, s in E.run(self.client_ctor, [P(root, 0)], st, E.ctx(fr.ctx, ("new client", k)), fr.depth + 1):
                out.append((kd, (self.node(root) if meth == "emplace" else P(root, 0)) if kd == "ret" else v, s))
            return out
        if meth in ("end", "cend"):
            return self.node("end")
        if meth in ("begin", "cbegin"):
            return self.node(order[0] if order else "end")
        if meth == "back":
            return P(order[-1], 0)
        if meth == "front":
            return P(order[0], 0)
        if meth == "size":
            return st.g["#n"]
        if meth == "empty":
            return E.icmp(st, "eq", st.g["#n"], 0, 64)
        if meth in ("erase", "remove", "pop_back", "pop_front"):
            n = a[1] if meth == "erase" else self.node(order[-1 if meth == "pop_back" else 0])
            if is_ptr(n) and n[1][0] != "node":
                n = E.load(st, n, 8, "p")
            if not (is_ptr(n) and n[1][0] == "node" and n[1][1] in order):
                self.ob(FORGET, False, fr.fn, "erase", "what is removed is not a client of the list", st)
                return self.node("end")
            root = n[1][1]
            self.ev(st, "erased", root)
            st.g["#order"] = tuple(x for x in order if x != root)
            st.g["#gone"] = st.g.get("#gone", ()) + (root,)
            st.g["#n"] = add(st.g["#n"], mask(64), 64)
            st.g["#can"] = None
            return self.node("end")
        if meth in ("list", "~list"):
            st.g.setdefault("#n", 0)
            return None
        raise AnalysisError("client list: %s is not modelled" % meth)

    def m_acceptor(self, E, st, fr, i, args, fn):
        meth = fn.base
        if meth == "TCPAcceptor":
            E.memcpy(st, P(ACC, 0), args[2], 32)
            return None
        if meth == "can_accept":
            k = len(self.evs(st, "can"))
            out = []
            for b in (1, 0):
                if b and len([x for x in self.evs(st, "can") if x[1]]) >= self.ncan:
                    continue
                s = st.copy()
                self.ev(s, "can", b)
                s.g["#can"] = b
                out.append(("ret", b, s))
            return out
        if meth.startswith("~"):
            return None
        raise AnalysisError("acceptor: %s is not modelled" % meth)

    ncan = 3
    deep = 2

    def throw(self, st, t, who="lib"):
        r = ("exo", t)
        return ("exc", Exc(t, P(r, 0)), st)

    def m_conn(self, E, st, fr, i, args, fn):
        sret, a = sm.sretargs(args, fn)
        this, meth = a[0], fn.base
        cl = this
        user = st.g.get("#in", 0)
        opened = st.g.get(("#open", cl[1]), 0) if is_ptr(cl) else 0
        who = "user" if user else "server"
        if meth in ("ServerConnection",):
            st.wregion(cl[1])
            E.store(st, P(cl[1], cl[2] + self.o_state), 4, self.states["REQUEST_HEADER"])
            E.store(st, P(cl[1], cl[2] + self.o_writing), 1, 0)
            self.bind(st, cl, self.o_conn, None)
            return None
        if meth.startswith("~"):
            return None
        if meth == "is_open":
            return opened
        if meth in ("get_peer_address",):
            return P(("*", ("peer",)), 0)
        if meth in ("can_write", "get_total_buffer_size"):
            return E.topt(st, fr, i)
        if meth == "accept":
            self.ob(BIND, cl[1] in st.g.get("#order", ()), fr.fn, "handler", "a client is connected that the server does not keep", st)
            self.ev(st, "accepted", cl[1])
            st.g["#can"] = None
            st.g[("#open", cl[1])] = 1
            return None
        if meth == "close":
            self.setphase(st, cl, "REQUEST_HEADER")
            E.store(st, P(cl[1], cl[2] + self.o_writing), 1, 0)
            st.g[("#open", cl[1])] = 0
            st.g["#selfclosed"] = 1
            return None
        ph = self.phase(st, cl)
        if meth == "read_next":
            msg = "WebMessage" in fn.dm
            k = len(self.evs(st, "read"))
            if not opened or ph != ("WEB_MESSAGE_READY" if msg else "REQUEST_READY") or msg and self.val(st, cl, self.o_writing, 1) != 0:
                return 0
            p = a[1]
            out = []
            if msg:
                for nxt in ("WEB_MESSAGE_HEADER", "WEB_MESSAGE_READY"):
                    for op in (1, 8) if nxt == "WEB_MESSAGE_HEADER" or k else (1,):
                        if nxt == "WEB_MESSAGE_READY" and k:
                            continue
                        s = st.copy()
                        self.ev(s, "read", "msg", op, k)
                        E.store(s, P(p[1], add(p[2], self.m_op, 64)), 4, op)
                        sm.ps(E, s, P(p[1], add(p[2], self.m_body, 64)), S(("blen", k), 64), ("body", k))
                        self.setphase(s, cl, nxt)
                        out.append(("ret", 1, s))
                return out
            self.ev(st, "read", "req", 0, k)
            sm.ps(E, st, P(p[1], add(p[2], self.r_path, 64)), S(("plen", k), 64), ("path", k))
            self.setphase(st, cl, "RESPONSE_HEADER")
            return 1
        kinds = [x for x in ("Response&&", "ResponseHeader&", "WebMessage&&", "WebMessageOpcode") if x in fn.dm]
        if not opened and (kinds or meth == "web_socket_upgrade"):
            return None
        bad = [self.throw(st, "std::logic_error")]
        if meth == "web_socket_upgrade":
            if ph != "RESPONSE_HEADER":
                return bad
            s = st.copy()
            self.setphase(st, cl, "WEB_MESSAGE_HEADER")
            return [("ret", None, st), self.throw(s, "std::runtime_error")]
        if meth == "write" and kinds:
            if kinds[0] in ("Response&&", "ResponseHeader&"):
                if ph != "RESPONSE_HEADER":
                    return bad
                whole = kinds[0] == "Response&&"
                o = self.p_status if whole else self.p_status - self.prog.field("crab::http::Response", "header")[0]
                self.ev(st, "resp", who, self.val(st, a[1], o, 4), st.g.get("#headers", ()), cl[1])
                self.setphase(st, cl, "REQUEST_HEADER" if whole else "RESPONSE_BODY")
                return self.pipelined(st, cl) if whole else None
            if not ph.startswith("WEB_"):
                return bad
            if kinds[0] == "WebMessage&&":
                if self.val(st, a[1], self.m_op, 4) in (1, 2) and self.val(st, cl, self.o_writing, 1) != 0:
                    return bad
                self.ev(st, "wm", who, self.val(st, a[1], self.m_op, 4), self.val(st, a[1], self.m_code, self.prog.field(WM, "close_code")[1]), cl[1])
                return None
            if self.val(st, cl, self.o_writing, 1) != 0:
                return bad
            E.store(st, P(cl[1], cl[2] + self.o_writing), 1, 1)
            return None
        if meth in ("write", "write_last_chunk"):
            w = self.val(st, cl, self.o_writing, 1)
            if not (ph == "RESPONSE_BODY" or w == 1):
                return bad
            out = [("ret", None, st.copy())] if meth == "write" else []
            E.store(st, P(cl[1], cl[2] + self.o_writing), 1, 0)
            if ph == "RESPONSE_BODY":
                self.setphase(st, cl, "REQUEST_HEADER")
                return out + self.pipelined(st, cl)
            return out + [("ret", None, st)]
        raise AnalysisError("connection: %s is not modelled" % fn.dm[:80])

    def pipelined(self, st, cl):
        """after a response the next request may be there already"""
        if len(self.evs(st, "read")) > self.deep:
            return [("ret", None, st)]
        s = st.copy()
        self.setphase(s, cl, "REQUEST_READY")
        return [("ret", None, st), ("ret", None, s)]

    # ---------------------------------------------------------------- users
    def api(self, fr, st, name, f, args):
        """a client's operation used by a handler"""
        E = self.E
        st.g["#in"] = st.g.get("#in", 0) + 1
        out = []
        for k, v, s in E.run(f, args, st, E.ctx(fr.ctx, ("api", name)), fr.depth + 1):
            s.g["#in"] -= 1
            self.ev(s, "did", name)
            out.append((k, v, s))
        return out

    def cfn(self, name, has, n=None):
        l = [f for f in self.prog.by_qual.get(CLI + "::" + name, []) if f.bb and not f.art and has in f.dm]
        return self.one(l, CLI + "::" + name)

    def arg_fn(self, st, name):
        p = P(("*", ("argfn", name)), 0)
        self.bind(st, p, 0, name)
        return p

    def options(self, fr, st, name, cl):
        """what a handler does with its client before it ends: [(kind, value, state)]"""
        E = self.E
        out = [("ret", None, st.copy())]
        few = self.mode == "few" or len(self.evs(st, "call")) > self.deep
        if name == "r" and not few:
            s = st.copy()
            r = P(("*", ("uresp",)), 0)
            out += self.api(fr, s, "write", self.cfn("write", "Response&&"), [cl, r])
            s = st.copy()
            out += self.api(fr, s, "postpone", self.cfn("postpone_response", ""), [cl, self.arg_fn(s, "later")])
            s = st.copy()
            out += self.api(fr, s, "stream", self.cfn("start_write_stream", "ResponseHeader&"), [cl, P(("*", ("uhdr",)), 0), self.arg_fn(s, "part")])
            s = st.copy()
            out += self.api(fr, s, "upgrade", self.cfn("web_socket_upgrade", ""), [cl, self.arg_fn(s, "ws")])
        if name == "later" and not few:
            s = st.copy()
            out += self.api(fr, s, "write", self.cfn("write", "Response&&"), [cl, P(("*", ("uresp",)), 0)])
        if name == "ws" and not few:
            for op in (1, 8):
                s = st.copy()
                m = P(("*", ("umsg",)), 0)
                E.store(s, P(m[1], self.m_op), 4, op)
                out += self.api(fr, s, "send %d" % op, self.cfn("write", "WebMessage&&"), [cl, m])
            s = st.copy()
            out += self.api(fr, s, "wstream", self.cfn("start_write_stream", "WebMessageOpcode"), [cl, 1, self.arg_fn(s, "part")])
        if name == "part":
            s = st.copy()
            out += self.api(fr, s, "last", self.cfn("write_last_chunk", ""), [cl, 0])
        if name != "part" or not st.g.get("#in", 0):
            s = st.copy()
            if s.g.get(("#open", cl[1])):
                s.g[("#open", cl[1])] = 0
                self.setphase(s, cl, "REQUEST_HEADER")
                E.store(s, P(cl[1], cl[2] + self.o_writing), 1, 0)
                self.ev(s, "did", "lost")
                out.append(("ret", None, s))
        return out

    def user(self, E, st, fr, i, args, v):
        if is_ptr(v) and v[1][0] == "*" and v[1][1][0] == "usr":
            name = v[1][1][1]
            cl = P(self.client, 0)
            if self.client in st.g.get("#gone", ()):
                self.ob(FORGET, False, fr.fn, name, "a handler of a client is called after the client was removed", st)
                return None
            extra = ()
            if name == "ws":
                p = args[1]
                extra = (self.val(st, p, self.m_op, 4), self.val(st, p, self.m_code, self.prog.field(WM, "close_code")[1]), sm.gs(E, st, P(p[1], add(p[2], self.m_body, 64)))[2])
            if name == "r":
                w = E.load(st, args[1], 8, "p") if is_ptr(args[1]) and args[1][1][0] == "al" else args[1]
                extra = (w, sm.gs(E, st, P(args[2][1], add(args[2][2], self.r_path, 64)))[2])
            self.ev(st, "ucall" if st.g.get("#in", 0) else "call", name, *extra)
            out = []
            for k, val, s in self.options(fr, st, name, cl):
                if k == "ret":
                    for t in THROWS if name == "r" else THROWS[1:]:
                        if t == "std::bad_alloc" and (self.mode == "few" or len(self.evs(s, "call")) > self.deep):
                            continue
                        x = s.copy()
                        self.ev(x, "threw", name, t, x.g.get(("#open", cl[1]), 0), self.phase(x, cl))
                        out.append(self.throw(x, t))
                    self.ev(s, "done", name)
                    out.append(("ret", None, s))
                else:
                    self.ev(s, "threw", name, val.tname, s.g.get(("#open", cl[1]), 0), self.phase(s, cl))
                    out.append((k, val, s))
            return out
        if args and is_ptr(args[0]) and args[0][1][0] == "exo":
            return P(("*", ("what",)), 0)
        return NotImplemented

    # ---------------------------------------------------------------- entry points
    def start(self):
        """the server as its constructor leaves it, with any number of clients"""
        E, prog = self.E, self.prog
        self.client = ("*", ("client", 0))
        fs = [f for f in prog.by_qual.get(SRV + "::Server", []) if f.bb and not f.art and len(f.args) == 3]
        f = self.one(fs, "constructor of Server")
        st = State()
        for r in (THIS[1], ("*", ("addr",)), ("*", ("set",)), ACC):
            st.cons[S(r[1], 64)] = ((1, mask(64)),)
        E.apart = {THIS[1], ACC, self.client, ("*", ("addr",)), ("*", ("set",))} | {("*", ("client", k)) for k in range(6)}
        self.max = 0
        out = [(s, f) for k, v, s in E.run(f, [THIS, P(("*", ("addr",)), 0), P(("*", ("set",)), 0)], st) if k == "ret"]
        if not out:
            raise AnalysisError("the server's constructor does not return")
        for s, f in out:
            t = self.target(s, P(ACC, 0), 0)
            self.ob(BIND, isinstance(t, tuple) and t[0] == "fn", f, "acceptor", "the acceptor's events are not bound to the server", s)
        s = out[0][0]
        self.max = E.load(s, P(THIS[1], self.o_max), 8, "i64")
        if isinstance(self.max, int):
            raise AnalysisError("limit of clients not recognised")
        s.cons[self.max] = ((0, BIG),)
        n = S(("clients",), 64)
        s.cons[n] = ((0, BIG),)
        s.g["#n"] = n
        s.g["#keep"] = (n, self.max)
        s.g["#order"] = ()
        s.g["#can"] = None
        self.bind(s, THIS, self.o_rh, "r")
        t = self.target(s, P(ACC, 0), 0)
        if not (isinstance(t, tuple) and t[0] == "fn"):
            raise AnalysisError("the acceptor's handler is not library code")
        return s, prog.fn[t[1]]

    def room(self, s, f, d):
        """accepting only pauses at the limit or when nobody waits; every client accepted has its events bound to the server"""
        for x in self.evs(s, "accepted"):
            self.ob(BIND, self.target(s, P(x[1], 0), self.o_conn) is not None, f, "handler", "a client is accepted whose events are not bound to the server", s)
        if s.g.get("#can") == 0:
            self.ob(RESUME, True, f, d, "", s)
            return
        L = Lin(self.E, s)
        self.ob(RESUME, L.nonneg(L.comb(L.ex(s.g["#n"]), L.ex(self.max), -1)), f, d, "a waiting client is not accepted although there is room", s)

    def accepting(self):
        E = self.E
        s0, inv = self.start()
        # any number of clients up to the limit
        got = None
        for s in E.assume(s0.copy(), E.icmp(s0, "ule", s0.g["#n"], self.max, 64), True):
            for k, v, s1 in E.run(inv, [P(ACC, 0)], s):
                if Lin(E, s1).infeasible():
                    continue
                if k != "ret":
                    self.ob(ESC, False, inv, "accept", "accepting throws", s1)
                    continue
                self.room(s1, inv, "event")
                a, b = [x[1] for x in self.evs(s1, "added")], [x[1] for x in self.evs(s1, "accepted")]
                self.ob(BIND, a == b, inv, "pairs", "clients added and connections accepted differ", s1)
                if len(a) == 1 and got is None:
                    x = s1.copy()
                    if any(not Lin(E, y).infeasible() for y in E.assume(x, E.icmp(x, "uge", self.max, 2, 64), True)):
                        got = s1
        if got is None:
            raise AnalysisError("no way to one accepted client found")
        self.base = got
        t = self.target(got, P(self.client, 0), self.o_conn)
        if not (isinstance(t, tuple) and t[0] == "fn"):
            raise AnalysisError("a client's handler is not library code")
        self.inv = self.prog.fn[t[1]]

    def client_state(self, opened, phase, d, r, w, sent=0, writing=0):
        """a client among others, in any state"""
        s = self.base.copy()
        s.tr = None
        s.g[EV] = ()
        s.g["#headers"] = ()
        cl = P(self.client, 0)
        n = S(("clients now",), 64)
        s.cons[n] = ((1, BIG),)
        s.g["#n"] = n
        s.g["#can"] = None
        s.g[("#open", self.client)] = opened
        self.setphase(s, cl, phase)
        names = dict(zip(sorted(self.handlers), (0, 0)))
        o_d, o_r = self.o_wait
        self.bind(s, cl, o_d, "later" if d else None)
        self.bind(s, cl, o_r, "part" if r else None)
        self.bind(s, cl, self.o_ws, "ws" if w else None)
        self.E.store(s, P(cl[1], self.o_sent), 1, sent)
        self.E.store(s, P(cl[1], self.o_writing), 1, writing)
        return [x for x in self.E.assume(s, self.E.icmp(s, "ule", n, self.max, 64), True)]

    def which(self):
        """(waiting response, waiting stream) members: postpone_response sets the first"""
        s = self.base.copy()
        f = self.cfn("postpone_response", "")
        cl = P(self.client, 0)
        s.g[("#open", self.client)] = 1
        self.setphase(s, cl, "RESPONSE_HEADER")
        for o in list(self.handlers.values()) + [self.o_ws]:
            self.bind(s, cl, o, None)
        hit = None
        for k, v, x in self.E.run(f, [cl, self.arg_fn(s, "later")], s):
            if k == "ret":
                hit = [o for o in self.handlers.values() if self.target(x, cl, o) is not None]
        if not hit or len(hit) != 1:
            raise AnalysisError("waiting handlers of %s not recognised" % CLI)
        self.o_wait = (hit[0], [o for o in self.handlers.values() if o != hit[0]][0])

    def event(self, st):
        for k, v, s in self.E.run(self.inv, [P(self.client, self.o_conn)], st):
            if not Lin(self.E, s).infeasible():
                self.runs = getattr(self, "runs", 0) + 1
                yield k, v, s

    # ---------------------------------------------------------------- disconnects
    def disconnects(self):
        f = self.inv
        NORMAL, LOST = self.code("CLOSE_STATUS_NORMAL"), self.code("CLOSE_STATUS_DISCONNECT")
        for d in (0, 1):
            for r in (0, 1):
                for w in (0, 1):
                    for sent in (0, 1) if w else (0,):
                        for st in self.client_state(0, "REQUEST_HEADER", d, r, w, sent):
                            for k, v, s in self.event(st):
                                what = "%d%d%d%d" % (d, r, w, sent)
                                if k != "ret":
                                    self.ob(ESC, False, f, "gone " + what, "an exception (%s) of a handler leaves the server" % v.tname, s)
                                    self.ob(ONCE, self.gone(s), f, "stays " + what, "a client stays in the list after it disconnected", s)
                                    continue
                                e = s.g[EV]
                                calls = [x for x in e if x[0] == "call"]
                                names = sorted(x[1] for x in calls)
                                want = sorted(["later"] * d + ["part"] * r + ["ws"] * w)
                                self.ob(ONCE, names == want, f, "calls " + what, "a disconnect does not call each waiting handler exactly once", s)
                                self.ob(ONCE, self.gone(s) and len([x for x in e if x[0] == "erased"]) == 1, f, "erase " + what, "a client stays in the list after it disconnected", s)
                                for x in calls:
                                    if x[1] == "ws":
                                        self.ob(ONCE, x[2] == 8 and x[3] == (NORMAL if sent else LOST), f, "close " + what, "a disconnect is not reported as the right close message", s)
                                self.ob(FORGET, True, f, "", "", s)
                                self.room(s, f, "free")

    def gone(self, s):
        return self.client in s.g.get("#gone", ())

    # RFC 6455, 7.4.1
    def code(self, name):
        return {"CLOSE_STATUS_NORMAL": 1000, "CLOSE_STATUS_DISCONNECT": 1006, "CLOSE_STATUS_ERROR": ERROR_CODE}[name]

    # ---------------------------------------------------------------- requests and messages
    def served(self):
        f = self.inv
        for phase, d, r, w, writing in (("REQUEST_READY", 0, 0, 0, 0), ("WEB_MESSAGE_READY", 0, 0, 1, 0), ("WEB_MESSAGE_READY", 0, 0, 0, 0), ("RESPONSE_BODY", 0, 1, 0, 0),
                                        ("WEB_MESSAGE_READY", 0, 1, 1, 1), ("WEB_MESSAGE_HEADER", 0, 0, 1, 0), ("RESPONSE_HEADER", 1, 0, 0, 0), ("REQUEST_READY", 0, 1, 0, 0)):
            for st in self.client_state(1, phase, d, r, w, 0, writing):
                for k, v, s in self.event(st):
                    self.judge(f, k, v, s, "%s%d%d%d" % (phase, d, r, w))

    def judge(self, f, k, v, s, what):
        e = list(s.g[EV])
        cl = P(self.client, 0)
        gone = self.gone(s)
        if k != "ret":
            # the server itself reports a handler that neither answers nor postpones
            last = [x for x in e if x[0] in ("call", "done", "threw")][-1:]
            misuse = bool(last) and last[0] == ("done", "r") and not gone and self.phase(s, cl) == "RESPONSE_HEADER" and self.target(s, cl, self.o_wait[0]) is None
            self.ob(ESC, misuse, f, what, "an exception (%s) leaves the server" % v.tname, s)
            if not misuse:
                return
        else:
            self.ob(ESC, True, f, what, "", s)
        # every request handler
        depth = 0
        for n, x in enumerate(e):
            if x[0] == "call" and x[1] == "r":
                rd = [y for y in e[:n] if y[0] == "read"][-1:]
                self.ob(CONT, x[2] == cl and bool(rd) and rd[0][1] == "req" and repr(("path", rd[0][3])) in repr(x[3]), f, "request " + what, "the request handler does not get the client and its request", s)
            if x[0] == "call" and x[1] == "ws" and not any(y[0] == "erased" for y in e[n:]):
                rd = [y for y in e[:n] if y[0] == "read"][-1:]
                self.ob(CONT, bool(rd) and rd[0][1] == "msg" and x[2] == rd[0][2] and repr(("body", rd[0][3])) in repr(x[4]), f, "message " + what, "the WebSocket handler does not get the message", s)
            if x[0] == "threw" and x[1] in ("r", "ws"):
                nxt = len(e)
                for m in range(n + 1, len(e)):
                    if e[m][0] in ("read", "call", "erased"):
                        nxt = m
                        break
                out = [y for y in e[n + 1:nxt] if y[0] in ("resp", "wm") and y[1] == "server"]
                name, t, opened, ph = x[1:]
                if name == "r":
                    if opened and ph == "RESPONSE_HEADER":
                        ok = len(out) == 1 and out[0][0] == "resp" and out[0][4] == self.client
                        if t == AUTHERR:
                            ok = ok and out[0][2] == 401 and any("WWW-Authenticate" in repr(h[1]) and "Basic realm" in repr(h[2]) and "exo" in repr(h[2]) for h in out[0][3])
                            self.ob(ANSWER, ok, f, "401 " + what, "an authorization failure is not answered by 401 with a challenge", s)
                        else:
                            self.ob(ANSWER, ok and out[0][2] == 422, f, "422 " + what, "an exception before the response is not answered by 422", s)
                    else:
                        self.ob(ANSWER, not out, f, "late " + what, "an exception after the response started is answered again", s)
                else:
                    ok = len(out) == 1 and out[0][0] == "wm" and out[0][2] == 8 and out[0][3] == self.code("CLOSE_STATUS_ERROR")
                    self.ob(WSERR, (ok if opened else not out), f, what, "an exception of a WebSocket handler does not close the WebSocket with an error", s)
            if x[0] == "done" and x[1] in ("r", "ws"):
                out = []
                for y in e[n + 1:]:
                    if y[0] in ("read", "call", "erased"):
                        break
                    if y[0] in ("resp", "wm") and y[1] == "server":
                        out.append(y)
                self.ob(ANSWER, not out, f, "done " + what, "the server answers a request that was handled", s)
        reads = [x for x in e if x[0] == "read"]
        calls = [x for x in e if x[0] == "call" and x[1] in ("r", "ws")]
        if gone:
            self.room(s, f, "free " + what)
            return
        self.ob(ONCE, not s.g.get("#selfclosed"), f, "dropped " + what, "a client is closed but stays in the list", s)
        if k != "ret":
            return
        if s.g.get(("#open", self.client)):
            ph = self.phase(s, cl)
            left = ph == "REQUEST_READY" or ph == "WEB_MESSAGE_READY" and self.val(s, cl, self.o_writing, 1) == 0
            self.ob(CONT, not left, f, "left " + what, "the server stops reading although the client sent more", s)
        closed = [n for n, x in enumerate(e) if x[0] == "read" and x[1] == "msg" and x[2] == 8]
        if closed:
            self.ob(ONCE, self.target(s, cl, self.o_ws) is None, f, "second " + what, "a close message was delivered, and a disconnect delivers another", s)
        n = sum(1 for x in e if x[0] == "call" and x[1] == "part" )
        had = [x for x in reads if x[1] == "msg"]

    # ---------------------------------------------------------------- operations
    def waiting(self):
        """which handlers wait after each operation of a client"""
        cl = P(self.client, 0)
        o_d, o_r = self.o_wait
        E = self.E
        self.mode = "few"
        empty = lambda s, o: self.target(s, cl, o) is None

        def go(phase, d, r, w, f, args, opened=1, writing=0, sent=0):
            for st in self.client_state(opened, phase, d, r, w, sent, writing):
                a = [x(st) if callable(x) else x for x in args]
                for k, v, s in E.run(f, [cl] + a, st):
                    if not Lin(E, s).infeasible():
                        yield k, s
        fw_, fp, fu = self.cfn("write", "Response&&"), self.cfn("postpone_response", ""), self.cfn("web_socket_upgrade", "")
        fs, fm, fl = self.cfn("start_write_stream", "ResponseHeader&"), self.cfn("write", "WebMessage&&"), self.cfn("write_last_chunk", "")
        for d in (0, 1):
            for k, s in go("RESPONSE_HEADER", d, 0, 0, fw_, [P(("*", ("uresp",)), 0)]):
                if k == "ret":
                    self.ob(WAIT, empty(s, o_d), fw_, "response", "a response is sent and its handler still waits", s)
            for k, s in go("RESPONSE_HEADER", d, 0, 0, fu, [lambda st: self.arg_fn(st, "ws")], sent=1):
                if k == "ret":
                    self.ob(WAIT, empty(s, o_d) and not empty(s, self.o_ws), fu, "upgrade", "an upgrade does not leave exactly the WebSocket handler waiting", s)
                    self.ob(WAIT, self.val(s, cl, self.o_sent, 1) == 0, fu, "fresh", "an upgraded connection counts as closed", s)
            for k, s in go("RESPONSE_HEADER", d, 0, 0, fp, [lambda st: self.arg_fn(st, "later")]):
                if k == "ret":
                    self.ob(WAIT, not empty(s, o_d), fp, "postpone", "a postponed response has no handler", s)
            for k, s in go("RESPONSE_HEADER", d, 0, 0, fs, [P(("*", ("uhdr",)), 0), lambda st: self.arg_fn(st, "part")]):
                if k == "ret":
                    body = self.phase(s, cl) == "RESPONSE_BODY"
                    self.ob(WAIT, empty(s, o_d) and (not body or not empty(s, o_r)), fs, "stream", "streaming does not leave exactly the stream handler waiting", s)
                    self.ob(WAIT, [x[1] for x in s.g[EV] if x[0] in ("call", "ucall")].count("part") >= 1, fs, "first", "streaming does not begin", s)
        for op, sent in ((1, 0), (2, 0), (9, 0), (10, 0), (8, 0), (1, 1), (8, 1)):
            def msg(st, op=op):
                m = P(("*", ("umsg",)), 0)
                E.store(st, P(m[1], self.m_op), 4, op)
                return m
            for k, s in go("WEB_MESSAGE_HEADER", 0, 0, 1, fm, [msg], sent=sent):
                if k == "ret":
                    self.ob(WAIT, self.val(s, cl, self.o_sent, 1) == int(op == 8 or sent), fm, "sent %d%d" % (op, sent), "a close message that was sent is not remembered", s)
                    self.ob(WAIT, not empty(s, self.o_ws), fm, "ws", "a message that was sent drops the WebSocket handler", s)
        parts = [(fl, [0])]
        for f in [g for g in self.prog.by_qual.get(CLI + "::write", []) if g.bb and not g.art and not any(x in g.dm for x in ("Response&&", "WebMessage&&"))]:
            n = S(("count",), 64)
            parts.append((f, [P(("*", ("data",)), 0), n, 0] if len(f.args) == 4 else [P(("*", ("ustr",)), 0), 0]))
        for f, args in parts:
            for phase, w, writing in (("RESPONSE_BODY", 0, 0), ("WEB_MESSAGE_HEADER", 1, 1)):
                for k, s in go(phase, 0, 1, w, f, args, writing=writing):
                    if k == "ret":
                        busy = self.phase(s, cl) == "RESPONSE_BODY" or self.val(s, cl, self.o_writing, 1) == 1
                        self.ob(WAIT, busy == (not empty(s, o_r)), f, "part " + phase, "a stream handler waits longer or shorter than its stream", s)
        self.mode = ""


def decide(prog, rep, rules):
    T = Srv(prog, rep, [r for r, n in rules])
    T.accepting()
    T.which()
    T.disconnects()
    T.served()
    T.waiting()
    rep.count("events_interpreted", T.runs)
    rep.engine(T.E)
    for r, n in rules:
        rep.need(r, n)


def c32(prog, rep):
    decide(prog, rep, ((LIMIT, 1), (RESUME, 10), (BIND, 3), (ONCE, 100), (FORGET, 100), (WAIT, 20)))


def c33(prog, rep):
    decide(prog, rep, ((ESC, 20), (ANSWER, 20), (WSERR, 10), (CONT, 20)))
