"""C20, C21: what connections send as WebSocket frames, and how received frames become messages."""
from absint import State, P, S, is_ptr, add, neg, mask
from model import AnalysisError
import std_models as sm
import objects
import fw
import conn
import rules_ws
from conn import Conn, CC, SC, OUT, SARG, THIS, DATA_OPS, CTRL_OPS, OPS, HDR, BODY, HBODY, fn1
from rules_net import fwhere, yes
from bits import Bits

WS = ("WEB_MESSAGE_HEADER", "WEB_MESSAGE_BODY", "WEB_MESSAGE_READY")
L = S(("L",), 64)
ROLE = "a client masks every frame with the announced key, a server none"
CTL = "control frames are single, final and short"
SEQ = "a message is one first frame, continuations and one final frame"
ALL = "the payload sent is the message"
REF = "a message is not begun inside another"


def root_of(cid):
    """(content, cut?) of a shortened text"""
    if cid[0] in ("resz", "sub") and (cid[0] == "resz" or cid[2] == 0):
        return cid[1], True
    return cid, False


class Sender:
    """rules on frames; shared by everything that sends"""

    def __init__(self, C):
        self.C, self.E, self.rep = C, C.E, C.rep
        self.client = C.cls == CC

    def ob(self, rule, ok, f, detail, msg, s):
        return self.rep.ob(rule, ok, f.qual, fwhere(self.C.prog, f), msg, detail, fw.path_of(self.C.prog, s))

    def decode(self, f, s, what):
        """frames sent on a path, role and control-frame rules applied; None if they are no frames"""
        fr, err = self.C.frames(s, s.g.get(OUT, ()))
        if not self.ob(SEQ, err is None, f, "frames " + what, "%s: %s" % (what, err), s):
            return None
        B = Bits(self.E, s)
        for fin, op, ln, mk, key, pay in fr:
            if not self.ob(ROLE, mk == int(self.client), f, "mask " + what, "%s: the frame is %s" % (what, "masked" if mk else "not masked"), s):
                return None
            masks = [m for x in pay if x[0] == "str" for m in x[3] or ()]
            if mk:
                data = [x for x in pay if x[0] != "str" or x[1] != 0]
                for x in data:
                    ok = x[0] == "str" and x[3] is not None and len(x[3]) == 1 and len(data) == 1
                    if ok:
                        sh, off, n, k = x[3][0]
                        ok = off == 0 and mod4_zero(sh) and yes(self.E, s, "eq", n, x[1]) and self.bits(B, k) == key
                    elif not isinstance(x[1], int) and yes(self.E, s, "eq", x[1], 0):
                        ok = True
                    if not self.ob(ROLE, ok, f, "key " + what, "%s: the payload is not masked once with the announced key" % what, s):
                        return None
            elif not self.ob(ROLE, not masks, f, "server mask " + what, "%s: an unmasked frame's payload is masked" % what, s):
                return None
            if op in CTRL_OPS:
                short = ln <= 125 if isinstance(ln, int) else self.E.ranges(s, ln)[-1][1] <= 125
                if not self.ob(CTL, fin == 1 and short, f, "ctl " + what, "%s: a control frame is %s" % (what, "not final" if not fin else "longer than 125 bytes"), s):
                    return None
        return fr

    def bits(self, B, k):
        return [(k >> j) & 1 for j in range(32)] if isinstance(k, int) else B.of(k, 32)

    def automaton(self, f, s, fr, q, what):
        """frames are one message after another; returns the state after them"""
        for fin, op, ln, mk, key, pay in fr:
            if op in CTRL_OPS:
                continue
            if op in DATA_OPS and q == "idle":
                q = "idle" if fin else "inside"
            elif op == 0 and q == "inside":
                q = "idle" if fin else "inside"
            else:
                self.ob(SEQ, False, f, "order " + what, "%s: a %s frame %s" % (what, OPS.get(op, "frame of opcode %d" % op), "inside a message" if q == "inside" else "outside of a message"), s)
                return None
        self.rep.ob(SEQ, True)
        return q


def mod4_zero(sh):
    return isinstance(sh, int) and sh % 4 == 0


def payload_items(s, E, pay):
    """[(length, content)] without what is known to be empty"""
    return [(x[1], x[2]) for x in pay if not (x[0] in ("str", "ext") and (x[1] == 0 or not isinstance(x[1], int) and yes(E, s, "eq", x[1], 0)))]


def messages(C, snd):
    """whole messages written by the user"""
    prog, E, rep = C.prog, C.E, C.rep
    f = fn1(prog, C.cls + "::write", None, "WebMessage&&")
    n = 0
    for state in WS + (("WEB_UPGRADE_RESPONSE_HEADER",) if C.cls == CC else ()):
        for writing in ((0, 1) if C.cls == SC else (None,)):
            for op in DATA_OPS + CTRL_OPS:
                for lens in ((0, 0), (1, 125), (126, 65535), (65536, (1 << 62))):
                    for bo in ((0, 1) if C.cls == SC else (None,)):
                        st = C.fresh_state(state)
                        if writing is not None:
                            st.wregion(THIS[1]).cells[C.o_writing] = (1, writing)
                        C.message_arg(st, op, lens)
                        st.tr = None
                        what = "%s%s" % (OPS[op], " while streaming" if writing else "")
                        for k, v, s in E.run(f, [THIS, P(SARG, 0)] + ([bo] if bo is not None else []), st):
                            n += 1
                            one_message(C, snd, f, k, s, op, writing, what, state)
    rep.count("message_writes", n)
    rep.engine(E)


def one_message(C, snd, f, k, s, op, writing, what, state):
    E = C.E
    fr = snd.decode(f, s, what)
    if fr is None:
        return
    if writing and op in DATA_OPS:
        snd.ob(REF, k == "exc" and not fr, f, "refuse " + what, "a message is begun while another is being sent", s)
        return
    if not snd.ob(SEQ, k == "ret" and len(fr) == 1, f, "one " + what, "%s: %s" % (what, "it is refused" if k != "ret" else "%d frames are sent" % len(fr)), s):
        return
    fin, fop, ln, mk, key, pay = fr[0]
    q = snd.automaton(f, s, fr, "inside" if writing else "idle", what)
    snd.ob(SEQ, fop == op and fin == 1, f, "op " + what, "%s: sent as opcode %d, final %d" % (what, fop, fin), s)
    if C.cls == SC:
        snd.ob(SEQ, C.cell(s, C.o_writing, 1) == (writing or 0), f, "flag " + what, "%s: the streaming flag changes" % what, s)
    items = payload_items(s, E, pay)
    if op in DATA_OPS:
        ok = [(("text",))] == [c for n, c in items] and yes(E, s, "eq", items[0][0], L) or not items and yes(E, s, "eq", L, 0)
        snd.ob(ALL, ok, f, "text " + what, "%s: the payload is not the message's text" % what, s)
    elif op != 8:
        ok = not items and yes(E, s, "eq", L, 0)
        if len(items) == 1:
            c, cut = root_of(items[0][1])
            ok = c == ("text",) and (items[0][0] == 125 and not yes(E, s, "ult", L, 125) if cut else yes(E, s, "eq", items[0][0], L))
        snd.ob(ALL, ok, f, "text " + what, "%s: the payload is not the start of the message's text" % what, s)
    else:
        code = S(("code",), 16)
        r = E.ranges(s, code)
        ok = False
        if not items and ln == 0:
            ok = yes(E, s, "eq", L, 0) and r == ((1005, 1005),)
        if not items and ln == 2 or len(pay) >= 2 and pay[0][0] == pay[1][0] == "b":
            bs, rest = [x[1] for x in pay[:2]], pay[2:]
            ok = not payload_items(s, E, rest) and yes(E, s, "eq", L, 0)
        elif len(items) == 1:
            c, cut = root_of(items[0][1])
            ps = sm.pieces(c)
            ps = ps if ps[:1] and ps[0][0] != "k" else tuple(("b", x) for x in ps[0][1]) + ps[1:] if ps else ps
            ok = len(ps) in (2, 3) and ps[0][0] == ps[1][0] == "b" and ps[2:] in ((), (("r", ("text",)),)) and (len(ps) == 3 or yes(E, s, "eq", L, 0))
            bs = [x[1] for x in ps[:2]] if ok else None
            ok = ok and (yes(E, s, "eq", items[0][0], add(L, 2, 64)) or cut and items[0][0] == 125)
        if ok and ln != 0:
            if r[0][0] >= 1000:
                B = Bits(E, s)
                want = B.of(code, 16)
                have = []
                for b in (bs[1], bs[0]):
                    have += [(b >> j) & 1 for j in range(8)] if isinstance(b, int) else B.of(b, 8) or [None] * 8
                const = E.const_of(s, code)
                ok = have == want or const is not None and have == [(const >> j) & 1 for j in range(16)]
            elif r[-1][1] >= 1000:
                ok = all(isinstance(b, int) for b in bs)      # not split on the code: cannot be the code
                ok = ok and False
            else:
                ok = all(isinstance(b, int) for b in bs) and bs[0] * 256 + bs[1] >= 1000
        snd.ob(ALL, ok, f, "close", "the payload of a close frame is not its code and reason", s)


DATAP = ("*", ("data",))
CNT = S(("count",), 64)


def streaming(C, snd):
    """messages written in parts (server)"""
    prog, E, rep = C.prog, C.E, C.rep
    body = fn1(prog, SC + "::is_writing_body")
    calls = []
    for bo in (0, 1):
        calls.append(("last", fn1(prog, SC + "::write_last_chunk"), [THIS, bo], None))
        for lens in ((0, 0), (1, 125), (126, 65535), (65536, 1 << 62)):
            calls.append(("part", fn1(prog, SC + "::write", 4, "unsigned char const*"), [THIS, P(DATAP, 0), CNT, bo], lens))
            calls.append(("part", fn1(prog, SC + "::write", 3, "basic_string"), [THIS, P(SARG, 0), bo], lens))
    f0 = fn1(prog, SC + "::write", 2, "WebMessageOpcode")
    for op in DATA_OPS + CTRL_OPS + (0,):
        calls.append(("begin %d" % op, f0, [THIS, op], None))
    n = 0
    for kind, f, args, lens in calls:
        for state in WS:
            for writing in (0, 1):
                st = C.fresh_state(state)
                st.wregion(THIS[1]).cells[C.o_writing] = (1, writing)
                st.cons[S(DATAP[1], 64)] = ((1, mask(64)),)
                if lens:
                    st.cons[CNT] = (lens,)
                    sm.ps(E, st, P(SARG, 0), CNT, ("text",))
                what = kind + (" while streaming" if writing else "")
                for k, v, s in E.run(f, args, st):
                    n += 1
                    fr = snd.decode(f, s, what)
                    if fr is None:
                        continue
                    legal = (writing == 0 and kind in ("begin 1", "begin 2")) or (writing == 1 and not kind.startswith("begin"))
                    if not legal:
                        snd.ob(REF, k == "exc" and not fr, f, "refuse " + what, "%s is not refused" % what, s)
                        continue
                    if not snd.ob(SEQ, k == "ret", f, "refused " + what, "%s is refused" % what, s):
                        continue
                    q = snd.automaton(f, s, fr, "inside" if writing else "idle", what)
                    if q is None:
                        continue
                    data = [x for x in fr if x[1] not in CTRL_OPS]
                    want = "idle" if kind == "last" else "inside"
                    snd.ob(SEQ, q == want, f, "end " + what, "%s leaves the message %s" % (what, "open" if q == "inside" else "finished"), s)
                    ws = {E.const_of(y, r) if not isinstance(r, int) else r for _, r, y in E.run(body, [THIS], s.copy())}
                    snd.ob(SEQ, ws == {int(q == "inside")}, f, "state " + what, "%s: the streaming flag does not say whether a message is open" % what, s)
                    if kind.startswith("begin"):
                        snd.ob(SEQ, len(data) >= 1 and data[0][1] == int(kind[6:]), f, "opcode", "the first frame does not have the message's opcode", s)
                    items = [y for x in data for y in payload_items(s, E, x[5])]
                    if kind != "part":
                        snd.ob(ALL, not items, f, "extra " + what, "%s sends payload of its own" % what, s)
                    else:
                        ok = not items and yes(E, s, "eq", CNT, 0)
                        if len(items) == 1:
                            ok = yes(E, s, "eq", items[0][0], CNT) and items[0][1] in (P(DATAP, 0), ("text",))
                        snd.ob(ALL, ok, f, "data " + what, "what is sent is not the part given", s)
    rep.count("streaming_writes", n)
    rep.engine(E)


def callbacks(C, snd):
    """frames sent from timers and events"""
    prog, E, rep = C.prog, C.E, C.rep
    n = 0
    for name, off, inv in objects.callbacks(prog, C.cls):
        if len(inv.args) != 1:
            continue            # the resolver's answer: there is no connection yet
        for state in WS:
            for writing in ((0, 1) if C.cls == SC else (None,)):
                st = C.fresh_state(state)
                if writing is not None:
                    st.wregion(THIS[1]).cells[C.o_writing] = (1, writing)
                C.handler(st, C.cls)
                C.rounds = []
                C.stop_at_head = True
                for k, v, s in objects.run_callback(prog, E, C.cls, off, inv, C.bind(st)) + [("round", None, x) for x in C.rounds]:
                    n += 1
                    fr = snd.decode(inv, s, "from " + name)
                    if fr:
                        snd.ob(SEQ, all(x[1] in CTRL_OPS for x in fr), inv, "cb " + name, "data frames are sent from %s" % name, s)
    rep.count("callback_runs", n)


def c20(prog, rep):
    for cls in (CC, SC):
        C = Conn(prog, rep, cls)
        snd = Sender(C)
        messages(C, snd)
        if cls == SC:
            streaming(C, snd)
        callbacks(C, snd)
        replies(C, snd)
    rules_ws.Reader(prog, rep).explore()
    rules_ws.payload(prog, rep)
    for r, k in ((ROLE, 50), (CTL, 20), (SEQ, 100), (ALL, 50), (REF, 6)):
        rep.need(r, k)


def replies(C, snd):
    """frames sent while reading: only control frames"""
    n = 0
    for k, v, s, entry in rounds(C):
        n += 1
        fr = snd.decode(C.advance, s, "while reading")
        if fr:
            snd.ob(SEQ, all(x[1] in CTRL_OPS for x in fr), C.advance, "reply", "data frames are sent while reading", s)
    C.rep.count("reading_rounds", n)


# ------------------------------------------------------------------ C21

SOFAR = ("sofar",)
N0 = S(("n0",), 64)


def entries(C):
    """(phase, message in progress, frame) and the state of the object for each"""
    E = C.E
    hp, bp = P(THIS[1], C.o_hdr), P(THIS[1], C.o_bdy)
    leaf = C.pinfo(BODY)[0]
    text = [n for o, (n, s, k, t) in leaf.items() if k == "str"][0]
    for msg in (None, 1, 2):
        for phase in ("H", "B"):
            for frame in ([None] if phase == "H" else C.header_cases):
                for masked in ((0, 1) if phase == "B" else (None,)):
                    st = C.fresh_state("WEB_MESSAGE_HEADER" if phase == "H" else "WEB_MESSAGE_BODY")
                    put_message(C, st, msg)
                    if phase == "H":
                        C.pset(st, hp, HDR, {}, False, ("entry",))
                    else:
                        ln, key = S(("frame len",), 64), S(("frame key",), 32)
                        st.cons[ln] = ((1, 125),) if frame[1] >= 8 else ((1, (1 << 63) - 1),)
                        C.pset(st, hp, HDR, {"fin": frame[0], "opcode": frame[1], "payload_len": ln, "masking_key.valid": masked, "masking_key.impl": key}, True, ("entry",))
                        n = S(("part len",), 64)
                        st.cons[n] = ((0, 1 << 62),)
                        C.pset(st, bp, BODY, {text: (n, ("part of", ("wm", ln, masked, key)))}, False, ("entry",))
                        st.g[("#frame",)] = frame
                    yield (phase, msg, frame), st


def put_message(C, st, msg, text=SOFAR, n=N0):
    E = C.E
    rg = st.wregion(THIS[1])
    rg.cells[C.o_msg + C.m_valid] = (1, int(msg is not None))
    if msg is not None:
        b = C.o_msg + C.m_impl
        rg.cells[b + C.m_op] = (4, msg)
        st.cons[n] = ((0, 1 << 62),)
        sm.ps(E, st, P(THIS[1], b + C.m_body), n, text)


def get_message(C, s):
    """(valid, opcode, text length, text, code)"""
    E = C.E
    b = C.o_msg + C.m_impl
    w = sm.gs(E, s, P(THIS[1], b + C.m_body))
    return C.cell(s, C.o_msg + C.m_valid, 1), C.cell(s, b + C.m_op, 4), w[1], w[2], C.cell(s, b + C.m_code, 2)


def rounds(C):
    for entry, st in entries(C):
        for k, v, s in C.round(st):
            yield k, v, s, entry


FRM = "a frame's payload is read as its header says"
ASM = "frames are assembled in order"
DEL = "a message is delivered after its final frame only"
SEQ2 = "fragments out of sequence are refused"
MID = "control frames between fragments disturb nothing"
PNG = "a ping is answered with its payload"
UTF = "text that is not UTF-8 is not delivered"
ONCE = "a message is read once and as it was sent"
TELL = "the user is told of a message"
CLS = "a close frame is delivered with its code and reason"


class Assembly:
    def __init__(self, C):
        self.C, self.E, self.rep = C, C.E, C.rep
        self.inv = {v: k for k, v in C.states.items()}
        self.snd = Sender(C)
        self.hp, self.bp = P(THIS[1], C.o_hdr), P(THIS[1], C.o_bdy)
        leaf = C.pinfo(BODY)[0]
        self.o_text = [o for o, (n, s, k, t) in leaf.items() if k == "str"][0]

    def ob(self, rule, ok, detail, msg, s, f=None):
        f = f or self.C.advance
        return self.rep.ob(rule, ok, f.qual, fwhere(self.C.prog, f), msg, detail, fw.path_of(self.C.prog, s))

    def phase(self, s):
        v = self.C.cell(s, self.C.o_state, 4)
        return self.inv.get(v) if isinstance(v, int) else None

    def tag(self, s):
        """provenance the payload must have: the header in the object"""
        h = self.C.pcells(s, self.hp, HDR)
        return h

    def frame_tag(self, s, h):
        return ("wm", h["payload_len"], h["masking_key.valid"], h["masking_key.impl"])

    def same_tag(self, s, c, want):
        c = c[1] if c[0] == "part of" else c
        def eq(a, b):
            return a == b or not isinstance(a, tuple) and not isinstance(b, tuple) and a == b or yes(self.E, s, "eq", a, b)
        if c[0] != "wm" or not eq(c[1], want[1]) or not eq(c[2], want[2]):
            return False
        return yes(self.E, s, "eq", want[2], 0) or eq(c[3], want[3])

    def refused(self, s):
        out = [x[0] for x in s.g.get(OUT, ())]
        return self.phase(s) != "WEB_MESSAGE_READY" and "shutdown" in out

    def explore(self):
        C = self.C
        n = 0
        for k, v, s, entry in rounds(C):
            n += 1
            self.one(k, v, s, entry)
        C.rep.count("assembly_rounds", n)
        self.idle()
        self.reading()
        self.telling()
        C.rep.engine(self.E)

    def same_message(self, s, msg):
        m = get_message(self.C, s)
        if msg is None:
            return m[0] == 0
        return m[0] == 1 and m[1] == msg and m[3] == SOFAR and m[2] == N0

    def one(self, k, v, s, entry):
        C, E = self.C, self.E
        phase, msg, frame = entry
        if k == "exc":
            self.ob(SEQ2, False, "escape", "an exception leaves the reading loop", s)
            return
        stale = s.g.get(("#stale",), ())
        if not self.ob(FRM, HDR not in stale, "stale header", "the header of the previous frame is still in place when the next one is read", s):
            return
        ph = self.phase(s)
        fr = s.g.get(("#frame",))
        parsed_body = s.g.get(("#parsed", BODY)) or BODY in stale
        h = C.pcells(s, self.hp, HDR)
        out = [x for x in s.g.get(OUT, ()) if x[0] not in ("read",)]
        # nothing complete yet
        w = sm.gs(E, s, P(self.bp[1], self.bp[2] + self.o_text))
        if ph == "WEB_MESSAGE_BODY" and not any(x[0] == "shutdown" for x in out):
            want = self.frame_tag(s, h)
            ok = C.goodness(s, self.hp, HDR) is True and self.same_tag(s, w[2], want) and fr is not None and h["fin"] == fr[0] and h["opcode"] == fr[1]
            self.ob(FRM, ok, "body", "the payload parser was not set up from the frame's header", s)
            self.ob(MID, self.same_message(s, msg) and not out, "waiting", "a message changes while a frame is incomplete", s)
            return
        if not parsed_body or fr is None:
            # waiting for more of a header, refused by a parser, or nothing to do
            if any(x[0] == "shutdown" for x in out):
                self.ob(SEQ2, self.refused(s), "refuse", "refused input is delivered", s)
                return
            ok = ph == ("WEB_MESSAGE_HEADER" if phase == "H" else "WEB_MESSAGE_BODY")
            ok = ok and (C.goodness(s, self.hp, HDR) is False if phase == "H" else True)
            self.ob(FRM, ok, "wait", "an incomplete header is taken for a frame", s)
            self.ob(MID, self.same_message(s, msg) and not out, "waiting", "a message changes while a frame is incomplete", s)
            return
        self.frame(s, v, entry, fr, h, out, ph)

    def payload(self, s, cid):
        """is this content the payload of the frame just completed?"""
        c = cid[1] if cid[0] == "whole" else cid
        return c[0] == "wm"

    def frame(self, s, v, entry, fr, h, out, ph):
        C, E = self.C, self.E
        phase, msg, _ = entry
        fin, op = fr
        tags = [("frame key",)] if phase == "B" else []
        L0 = S(("frame len",), 64)
        valid = h["masking_key.valid"]
        # the payload's content id
        def ispay(c, n):
            c = c[1] if c[0] == "whole" else c
            return c[0] == "wm" and c[1] == L0 and yes(E, s, "eq", n, L0)
        empty = yes(E, s, "eq", L0, 0)
        fresh = C.isfresh(s, self.hp, HDR)
        what = "%s frame%s" % (OPS[op], "" if fin else ", not final")
        sh = any(x[0] == "shutdown" for x in out)
        frames = self.snd.decode(C.advance, s, "after " + what)
        if frames is None:
            return
        m = get_message(C, s)
        if op in (9, 10):
            ok = ph == "WEB_MESSAGE_HEADER" and fresh is None and not sh
            self.ob(MID, ok, "ctl " + what, "after a %s the next frame's header is not awaited afresh" % what, s)
            self.ob(MID, self.same_message(s, msg), "msg " + what, "a %s changes the message in progress" % what, s)
            if op == 9:
                ok = len(frames) == 1 and frames[0][1] == 10
                if ok:
                    items = payload_items(s, E, frames[0][5])
                    ok = not items and empty or len(items) == 1 and ispay(items[0][1], items[0][0])
                self.ob(PNG, ok, "pong", "a ping is not answered by one pong with the same payload", s)
            else:
                self.ob(PNG, not frames, "pong2", "a pong is answered", s)
            return
        if op == 8:
            self.close(s, v, m, L0, ph, sh, frames)
            return
        if (op != 0) == (msg is not None):
            self.ob(SEQ2, self.refused(s), what + (" inside" if msg else " outside"), "a %s %s a message is not refused" % (what, "inside" if msg is not None else "outside of"), s)
            return
        want_op = msg if msg is not None else op
        if sh:
            # only for text that is not UTF-8
            bad = [x for x in s.cons if x[0] == "s" and isinstance(x[1], tuple) and x[1][:1] == ("utf8",) and s.cons[x] == ((0, 0),)]
            self.ob(DEL, fin == 1 and want_op == 1 and bool(bad), "refused " + what, "a valid %s is refused" % what, s)
            self.ob(UTF, ph != "WEB_MESSAGE_READY" and m[0] == 0, "dropped", "text that is not UTF-8 stays in the message", s)
            return
        # assembled text
        ps = sm.pieces(m[3])
        if msg is None:
            ok = len(ps) == 1 and ps[0][0] == "r" and ispay(ps[0][1], m[2]) or empty and m[2] in (0, L0)
        else:
            ok = ps[:1] == (("r", SOFAR),) and len(ps) == 2 and ps[1][0] == "r" and ispay(ps[1][1], L0) and yes(E, s, "eq", m[2], add(N0, L0, 64)) \
                or empty and (m[3] == SOFAR or ps[:1] == (("r", SOFAR),) and len(ps) <= 2)
        self.ob(ASM, ok and m[0] == 1, "text " + what, "after a %s the message is not its parts in order" % what, s)
        self.ob(ASM, m[1] == want_op, "opcode " + what, "the message does not have the opcode of its first frame", s)
        self.ob(DEL, not frames, "out " + what, "a %s is answered" % what, s)
        if not fin:
            self.ob(DEL, ph == "WEB_MESSAGE_HEADER" and fresh is None, "next " + what, "after a frame that is not final the next header is not awaited afresh", s)
            return
        self.ob(DEL, ph == "WEB_MESSAGE_READY" and v == 1, "ready " + what, "a complete message is not delivered", s)
        if want_op == 1:
            u = S(("utf8", m[3]), 1)
            zero = yes(E, s, "eq", m[2], 0)
            self.ob(UTF, s.cons.get(u) == ((1, 1),) or zero, "valid", "text is delivered without being valid UTF-8", s)

    def close(self, s, v, m, L0, ph, sh, frames):
        E = self.E
        ok = ph == "WEB_MESSAGE_READY" and v == 1 and m[0] == 1 and m[1] == 8 and not sh
        if not self.ob(CLS, ok, "ready", "a close frame is not delivered", s):
            return
        r = E.ranges(s, L0)
        if r[-1][1] < 2:
            self.ob(CLS, m[2] == 0 and m[4] == 1005, "empty", "a close frame without code is delivered with code %s" % (m[4],), s)
            return
        if not self.ob(CLS, r[0][0] >= 2, "short", "a close frame's code is read without knowing that there is one", s):
            return
        t = m[4]
        B = Bits(E, s)
        have = B.of(t, 16) if not isinstance(t, int) else None
        ok = False
        if have:
            # bytes of the payload, by position
            ok = have == self.code_bits(s, B)
        self.ob(CLS, ok, "code", "the code is not the first two bytes", s)
        c = m[3]
        if m[2] == 0:
            bad = [x for x in s.cons if x[0] == "s" and isinstance(x[1], tuple) and x[1][:1] == ("utf8",) and s.cons[x] == ((0, 0),)]
            self.ob(CLS, bool(bad) or r == ((2, 2),), "reason", "a valid reason is dropped", s)
        else:
            ok = c[0] == "sub" and c[2] == 2 and c[1][0] in ("whole", "wm") and yes(E, s, "eq", m[2], add(L0, -2 & mask(64), 64))
            self.ob(CLS, ok, "reason", "the reason is not the rest of the payload", s)
            self.ob(UTF, s.cons.get(S(("utf8", c), 1)) == ((1, 1),), "close", "a close reason is delivered without being valid UTF-8", s)

    def code_bits(self, s, B):
        for root in s.mem:
            if root[0] == "sd" and root[1][0] in ("whole", "wm"):
                b = [self.E.load(s, P(root, k), 1, "i8") for k in (0, 1)]
                return [y for x in (b[1], b[0]) for y in B.of(x, 8)]
        return None

    def idle(self):
        """in other phases nothing is read into messages"""
        C = self.C
        for name in C.states:
            if name in ("WEB_MESSAGE_HEADER", "WEB_MESSAGE_BODY"):
                continue
            ready = name == "WEB_MESSAGE_READY"
            for msg in ((1, 2, 8) if ready else (None,)):
                st = C.fresh_state(name)
                put_message(C, st, msg)
                for k, v, s in C.round(st):
                    if k == "exc":
                        continue
                    self.ob(ONCE, self.same_message(s, msg), "idle " + name, "the message changes in phase %s" % name, s)
                    if ready:
                        self.ob(ONCE, self.phase(s) == name and not s.g.get(("#parsed", HDR)) and not s.g.get(("#parsed", BODY)), "idle2", "input is read while a message waits", s)
                    elif self.phase(s) == "WEB_MESSAGE_HEADER":
                        fr = C.isfresh(s, self.hp, HDR)
                        self.ob(FRM, fr is None, "upgrade " + name, "the first frame is read with an old header (%s)" % fr, s)
                    else:
                        self.ob(DEL, self.phase(s) not in WS, "phase " + name, "a message appears in phase %s" % name, s)

    def reading(self):
        C, E, prog = self.C, self.E, self.C.prog
        f = fn1(prog, C.cls + "::read_next", 2, "WebMessage")
        for name in C.states:
            for msg in ((1, 2, 8) if name == "WEB_MESSAGE_READY" else (None, 1)):
                for writing in ((0, 1) if C.cls == SC else (None,)):
                    st = C.fresh_state(name)
                    put_message(C, st, msg)
                    if writing is not None:
                        st.wregion(THIS[1]).cells[C.o_writing] = (1, writing)
                    rg = st.wregion(THIS[1])
                    rg.cells[C.o_msg + C.m_impl + C.m_code] = (2, S(("mcode",), 16))
                    C.pset(st, self.hp, HDR, {}, name != "WEB_MESSAGE_HEADER", ("entry",))
                    sm.ps(E, st, P(SARG, C.m_body), S(("L",), 64), ("user's",))
                    for k, v, s in C.round(st, f, True, [THIS, P(SARG, 0)]):
                        got = (E.load(s, P(SARG, C.m_op), 4, "i32"), sm.gs(E, s, P(SARG, C.m_body))[2], E.load(s, P(SARG, C.m_code), 2, "i16"))
                        took = got[1] != ("user's",)
                        if k == "exc":
                            self.ob(ONCE, False, "exc", "reading a message throws", s, f)
                            continue
                        if took:
                            m = get_message(C, s)
                            ok = name == "WEB_MESSAGE_READY" and got == (msg, SOFAR, S(("mcode",), 16))
                            self.ob(ONCE, ok, "content", "what is read is not the message", s, f)
                            ok = m[0] == 0 and self.phase(s) == "WEB_MESSAGE_HEADER" and C.isfresh(s, self.hp, HDR) is None
                            self.ob(ONCE, ok, "again", "after a message was read it is still there, or the next frame is not awaited afresh", s, f)
                            if k == "ret":
                                self.ob(ONCE, v == 1, "result", "a message was read but the result says otherwise", s, f)
                        else:
                            ok = k == "ret" and v == 0 and self.same_message(s, msg)
                            self.ob(ONCE, ok, "none", "nothing was read but the result says otherwise", s, f)
                            self.ob(ONCE, name != "WEB_MESSAGE_READY" or writing == 1, "refuses", "a complete message cannot be read", s, f)

    def telling(self):
        C, E, prog = self.C, self.E, self.C.prog
        f = fn1(prog, C.cls + "::sock_handler")
        for entry, st in entries(C):
            if entry[0] != "H":
                continue
            C.handler(st, C.cls)
            if C.cls == SC:
                st.wregion(THIS[1]).cells[C.o_writing] = (1, 0)
            for k, v, s in C.round(st, f):
                if k == "round" or k == "exc" and "bad_function_call" in str(v.tname):
                    continue            # the handler is never empty
                told = any(x[0] == "user" for x in s.g.get(OUT, ()))
                if self.phase(s) == "WEB_MESSAGE_READY":
                    self.ob(TELL, told, "told", "a complete message is not announced", s, f)


def c21(prog, rep):
    for cls in (CC, SC):
        A = Assembly(Conn(prog, rep, cls))
        A.explore()
    rules_ws.payload(prog, rep)
    for r, k in ((FRM, 20), (ASM, 20), (DEL, 20), (SEQ2, 10), (MID, 20), (PNG, 8), (UTF, 8), (ONCE, 20), (TELL, 2), (CLS, 8)):
        rep.need(r, k)


C20, C21 = c20, c21
