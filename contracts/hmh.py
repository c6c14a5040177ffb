"""Contracts of HandshakeMessageHandler (P11; used by the crypter contracts of P12 and P13).

Ghost state: the byte stream S fed to the handler so far and in this call, cut into messages (4-byte header with a 24-bit
body length, then the body).  isb(m): a message starts at position m; T(m), K(m), U(m): tickets, key updates and messages
of unknown type before m; TP(k): position of the k-th ticket.  P is the number of bytes consumed, m the start of the
message P lies in.  The representation invariant relates every field to (m, P, tickets fetched?); it holds after
construction and is kept by both public methods, for every cut of the stream into calls.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported, params_of
from cppvc.types import Ty, U8, SIZE, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.engine import Engine, Pieces, Frame
from cppvc.loops import leaves, rebuild, body_run, isbool, val_eq as deep_eq

HN = "s2a::handshake_message_handler"
HM = HN + "::HandshakeMessageHandler"
TICKET, KEYUP = 4, 0x18
HDR, DAT = 0, 1
SB, ISB = uf("S", 1), uf("isb", 1, BSORT)
T, K, U, TP = uf("T", 1), uf("K", 1), uf("U", 1), uf("TP", 1)
V8 = Ty("vec", [U8])
FRAG = Ty("uptr", [V8])
MSG = Ty("vec", [FRAG])
MSGP = Ty("uptr", [MSG])


def S(i):
    return app(SB, i)


def body(m):
    return add(add(mul(65536, S(add(m, 1))), mul(256, S(add(m, 2)))), S(add(m, 3)))


def END(m):
    return add(add(m, 4), body(m))


def known(m):
    return or_(eq(S(m), TICKET), eq(S(m), KEYUP))


def unfold(m):
    """Definition of the ghost functions at the message starting at m."""
    e = END(m)
    inc = lambda f, c: eq(app(f, e), add(app(f, m), ite(c, 1, 0)))
    return [le(0, m), app(ISB, m), app(ISB, e), inc(T, eq(S(m), TICKET)), inc(K, eq(S(m), KEYUP)), inc(U, not_(known(m))),
            le(0, app(T, m)), le(0, app(K, m)), le(0, app(U, m)), implies(eq(S(m), TICKET), eq(app(TP, app(T, m)), m))]


def stored(ret, m):
    """Tickets in the store once the messages before m are done."""
    return 0 if ret else ite(le(5, app(T, m)), 5, app(T, m))


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + c for k in range(1, n + 1) for c in compositions(n - k)]


MODES = [("empty", ())] + [("header", c) for h in (1, 2, 3) for c in compositions(h)] + [(k, c) for k in ("data", "skip") for c in compositions(4)]
FEW = [("empty", ()), ("header", (1,)), ("data", (4,)), ("skip", (4,))]


def engine(func):
    t = tu("src/record_protocol/handshake_message_handler.cc", "openssl")
    E = Engine([t])
    E.func, E.props = "HandshakeMessageHandler::" + func, ("P11",)
    E.frames.append(Frame(t, None))
    E.ax.on("S", lambda i: and_(le(0, S(i)), le(S(i), 255)))
    want = {"message_fragments_", "full_tickets_", "num_full_tickets_in_store_", "tickets_retrieved_", "num_data_bytes_expecting_to_read_",
            "num_header_bytes_expecting_to_read_", "state_"}
    have = {nm for nm, ft in E.fields(HM, t)}
    if want - have:
        raise Unsupported("representation of the handshake message handler")

    return E, t


def run_bytes(m, off, n):
    return UPtr(False, Arr(U8, n, lambda j: S(add(add(m, off), j)), "vec"), V8)


def fragments(E, m, comp, tail=None):
    """message_fragments_: pieces of the lengths comp (then the pieces of tail) holding the stream from m."""
    items, off = [], 0
    for c in comp:
        items.append(run_bytes(m, off, c))
        off += c
    a = arr_items(FRAG, items)
    if tail is not None:
        pre, c, h = a, len(comp), off

        def get(i):
            if isinstance(i, int):
                return pre.items[i] if i < c else run_bytes(m, add(h, tail.offs(sub(i, c))), tail.len(sub(i, c)))
            return ite_val(lt(i, c), pre.get(i), run_bytes(m, add(h, tail.offs(sub(i, c))), tail.len(sub(i, c))))
        a = Arr(FRAG, add(c, tail.n), get)
        off = add(off, tail.total)
    a.flatg = Arr(U8, off, lambda j: S(add(m, j)), "seq")
    return a


def store(E, n):
    def get(i):
        p = Pieces(E, "tk", (i,), nullable=False)
        at = app(TP, i)
        a = Arr(FRAG, p.n, lambda k: run_bytes(at, p.offs(k), p.len(k)))
        a.flatg = Arr(U8, add(4, body(at)), lambda j: S(add(at, j)), "seq")
        return UPtr(False, a, MSG)
    return Arr(MSGP, n, get)


def obj(E, t, mode, comp, ret, m, P):
    """(object, facts) of the representation with stream position P in the message at m."""
    n = stored(ret, m)
    ign = True if ret else le(5, n)
    facts = unfold(m)
    h = sum(comp)
    nd = fresh_int("ndata")
    facts += [le(0, nd), lt(nd, 2 ** 64)]
    nh, stt, tail = 4, HDR, None
    if mode == "empty":
        facts += [eq(P, m)]
    elif mode == "header":
        facts += [eq(P, add(m, h)), known(m)]
        nh = 4 - h
    else:
        stt = DAT
        facts += [known(m), le(add(m, 4), P), lt(P, END(m))]
        nd = sub(END(m), P)
        sk = and_(ign, eq(S(m), TICKET))
        if mode == "skip":
            facts += [sk]
        else:
            nm = fresh_name("dat")
            tail = Pieces(E, nm, nullable=False)
            E.ax.on(nm + ".len", lambda i: implies(and_(le(0, i), lt(i, tail.n)), lt(0, tail.len(i))))
            facts += [not_(sk), eq(tail.total, sub(P, add(m, 4))), eq(lt(0, tail.n), lt(add(m, 4), P)), implies(lt(0, tail.n), lt(0, tail.len(0)))]
    f = {}
    for nm, ft in E.fields(HM, t):
        f[nm] = {"message_fragments_": UPtr(False, fragments(E, m, comp, tail), MSG),
                 "full_tickets_": UPtr(True, None, Ty("vec", [MSGP])) if ret else UPtr(False, store(E, n), Ty("vec", [MSGP])),
                 "num_full_tickets_in_store_": n, "tickets_retrieved_": ret, "num_data_bytes_expecting_to_read_": nd,
                 "num_header_bytes_expecting_to_read_": nh, "state_": stt}.get(nm)
        if f[nm] is None:
            f[nm] = E.sym(ft, "this." + nm)
    return Struct(HM, f), facts


def val(u):
    if isinstance(u, PIte):
        raise Unsupported("handler representation")
    return u.val


def decode(E, s, th, m):
    """[(m', P', state)] stream position denoted by the fields when the last message begun started at m."""
    o = s.load(th)
    fr = o.f["message_fragments_"]
    if fr.val is None:
        return [(None, None, s)]
    out = []
    for e, s1 in E.branch(s, eq(fr.val.n, 0)):
        if e:
            out.append((END(m), END(m), s1))
            continue
        for d, s2 in E.branch(s1, eq(o.f["state_"], DAT)):
            out.append((m, sub(END(m), o.f["num_data_bytes_expecting_to_read_"]) if d else add(m, sub(4, o.f["num_header_bytes_expecting_to_read_"])), s2))
    return out


def rep(E, s, th, ret, m, P, comp):
    """Goals: the object represents position P in the message at m; comp: the header's pieces if it was complete before."""
    o = s.load(th)
    fr, ft = o.f["message_fragments_"], o.f["full_tickets_"]
    G = [(and_(le(m, P), app(ISB, m)), "position is in the message"), (not_(fr.null), "fragments exist"),
         (eq(o.f["tickets_retrieved_"], ret) if is_term(o.f["tickets_retrieved_"]) else False, "tickets fetched or not")]
    n = stored(ret, m)
    G += [(eq(o.f["num_full_tickets_in_store_"], n), "the store counts the first five tickets"), (eq(ft.null, ret), "store exists until fetched")]
    if not ret and ft.val is not None:
        G += tickets(E, ft.val, n)
    fl, v = fr.val.flatg, fr.val
    if fl is None:
        raise Unsupported("contents of the fragments")
    i, j = fresh_int("i"), fresh_int("j")
    inr = and_(le(0, i), lt(i, v.n))
    e = v.get(i)
    if conc(v.n) != 0:
        G += [(implies(inr, and_(not_(e.null), lt(0, e.val.n))), "no empty fragment"),
              (implies(and_(le(0, j), lt(j, fl.n)), eq(fl.get(j), S(add(m, j)))), "fragments hold the message's bytes")]
    nh, nd, stt = o.f["num_header_bytes_expecting_to_read_"], o.f["num_data_bytes_expecting_to_read_"], o.f["state_"]
    sk = and_(True if ret else le(5, n), eq(S(m), TICKET))
    empty = eq(v.n, 0)
    G += [(eq(empty, eq(P, m)), "fragments are empty exactly between messages"),
          (implies(eq(P, m), and_(eq(stt, HDR), eq(nh, 4))), "between messages a header is read"),
          (implies(lt(m, P), known(m)), "only known message types are in progress"),
          (implies(and_(lt(m, P), lt(P, add(m, 4))), and_(eq(stt, HDR), eq(nh, sub(add(m, 4), P)), eq(fl.n, sub(P, m)))), "inside a header"),
          (implies(and_(lt(m, P), le(add(m, 4), P)), and_(eq(stt, DAT), eq(nh, 4), eq(nd, sub(END(m), P)), lt(P, END(m)), eq(fl.n, ite(sk, 4, sub(P, m))))), "inside a body")]
    c = len(comp) if sum(comp) == 4 else conc(v.n)
    if isinstance(c, int) and c > 0 and isinstance(v.n, int) and v.n < c:
        G.append((implies(le(add(m, 4), P), empty), "the header ends at the end of a fragment"))
    elif isinstance(c, int) and c > 0:
        tot = 0
        for k in range(c):
            tot = add(tot, v.get(k).val.n)
        G.append((implies(le(add(m, 4), P), or_(empty, and_(le(c, v.n), eq(tot, 4)))), "the header ends at the end of a fragment"))
    return G


def tickets(E, a, n):
    i, j, k = fresh_int("ti"), fresh_int("tj"), fresh_int("tk")
    inr = and_(le(0, i), lt(i, n))
    e = a.get(i)
    if conc(n) == 0 or isinstance(e, Junk):
        return [(eq(a.n, n), "number of stored tickets")]
    if not isinstance(e, UPtr) or e.val is None or e.val.flatg is None:
        raise Unsupported("contents of the ticket store")
    fl = e.val.flatg
    at = app(TP, i)
    return [(eq(a.n, n), "number of stored tickets"),
            (implies(inr, and_(not_(e.null), eq(fl.n, add(4, body(at))))), "a stored ticket is complete"),
            (implies(and_(inr, le(0, j), lt(j, fl.n)), eq(fl.get(j), S(add(at, j)))), "stored tickets are the stream's tickets, in order, byte for byte"),
            (implies(and_(inr, le(0, k), lt(k, e.val.n)), not_(e.val.get(k).null)), "ticket fragments exist")]


class Restart(Exception):
    pass


class Rule:
    """Loop rule: invariant = the representation invariant at (m, P) plus, for every scalar variable, the candidates that survive."""

    def __init__(self, E, t, th, skipcells, m0, P0, P1, common):
        self.E, self.t, self.th, self.skip = E, t, th, skipcells
        self.m0, self.P0, self.P1, self.common = m0, P0, P1, common
        self.dropped = set()
        self.reset()

    def reset(self):
        self.node = None
        self.cells = None
        self.entry = None

    def cands(self, path, x, entry, m, P):
        """(name, formula) for a leaf with value x."""
        out = [("const", eq(x, entry) if isinstance(entry, (bool, int)) or z3.is_expr(entry) else False)]
        m0, P0, P1 = self.m0, self.P0, self.P1
        if isbool(x):
            tk = and_(lt(m, P), eq(S(m), TICKET))
            out += [("cur-ku", implies(x, and_(lt(m, P), eq(S(m), KEYUP)))), ("cur-tk", implies(and_(lt(P0, P), tk), x)),
                    ("some-tk", implies(lt(app(T, m0), app(T, m)), x)),
                    ("only-tk", implies(x, or_(lt(app(T, m0), app(T, m)), tk)))]
        else:
            out += [("pos", eq(add(P0, x), P)), ("rem", eq(add(P, x), P1))]
        return [((path, k), f) for k, f in out]

    def values(self, s):
        d = {}
        for i, c in enumerate(self.cells):
            v = s.cells.get(c)
            if v is None:
                continue
            nm = "%d:%s" % (i, c.split("!")[0])
            for p, x in leaves(v, (nm,), {}).items():
                d[p] = x
        return d

    def invariant(self, s, m, P):
        out = []
        now = self.values(s)
        for p, e in self.entry.items():
            x = now.get(p)
            if isinstance(x, Arr):
                if not (isinstance(e, Arr) and (x is e or x.get is e.get)):
                    raise Unsupported("array %s changes in the loop" % (p,))
                continue
            if x is None or not is_term(x):
                raise Unsupported("value %s in the loop" % (p,))
            for key, f in self.cands(p, x, e, m, P):
                if key not in self.dropped:
                    out.append((key, f))
        return out

    def head(self, st, mode, comp, ret):
        E = self.E
        s = st.copy()
        s.pc = tuple(self.common)
        m, P = fresh_int("m"), fresh_int("P")
        o, facts = obj(E, self.t, mode, comp, ret, m, P)
        s.store(self.th, o)
        for c in self.cells:
            v = s.cells[c]
            sub_ = {p: (fresh_bool("h") if isbool(x) else fresh_int("h")) for p, x in leaves(v, (c,), {}).items() if is_term(x)}
            s.cells[c] = rebuild(v, (c,), sub_)
            for p, x in sub_.items():
                if not isbool(x):
                    s.add(le(-2 ** 63, x), lt(x, 2 ** 64))
        s.add(facts, le(self.P0, P), le(P, self.P1), le(app(T, self.m0), app(T, m)), eq(app(K, m), app(K, self.m0)), eq(app(U, m), app(U, self.m0)))
        s.add([f for k, f in self.invariant(s, m, P)])
        s.ghost["hd"] = (m, P, comp, ret)
        return s, m, P

    def check_back(self, b, m, comp, ret, final):
        """Drop candidates that fail after an iteration; in the final pass record the representation obligations."""
        E = self.E
        ch = False
        for m1, P1, s in decode(E, b, self.th, m):
            if m1 is None:
                if final:
                    E.ob(s, False, "fragments exist after an iteration", "inv", self.node)
                continue
            if final:
                s0 = s
                for g, nm in rep(E, s, self.th, ret, m1, P1, comp):
                    E.ob(s0, g, "after an iteration: " + nm, "inv", self.node)
                E.ob(s0, and_(le(self.P0, P1), le(P1, self.P1)), "position within the call", "inv", self.node)
                E.ob(s0, and_(le(app(T, self.m0), app(T, m1)), eq(app(K, m1), app(K, self.m0)), eq(app(U, m1), app(U, self.m0))),
                     "no key update and no unknown message is passed over", "inv", self.node)
            inv = self.invariant(s, m1, P1)
            if not final and E.valid(s, and_(*[f for k, f in inv])):
                continue
            for k, f in inv:
                if final:
                    E.ob(s, f, "loop invariant %s of %s" % (k[1], ".".join(str(x) for x in k[0])), "inv", self.node)
                elif not E.valid(s, f):
                    self.dropped.add(k)
                    ch = True
        return ch

    def check_entry(self, st, final):
        ch = False
        for k, f in self.invariant(st, self.m0, self.P0):
            if final:
                self.E.ob(st, f, "loop invariant %s initially" % k[1], "inv", self.node)
            elif not self.E.valid(st, f):
                self.dropped.add(k)
                ch = True
        return ch

    def heads(self, st, few=False):
        for ret in (False,) if few else (False, True):
            for mode, comp in FEW if few else MODES:
                s, m, P = self.head(st, mode, comp, ret)
                if self.E.feasible(s):
                    yield s, m, P, comp, ret

    def __call__(self, E, n, st, cnd, inc, body):
        if E.loopdepth != 1 or self.th.cell not in st.cells:
            return None
        first = self.node is None
        if not first and self.node is not n:
            raise Unsupported("several loops over the input")
        self.node = n
        self.cells = [c for c in st.cells if c not in self.skip and not c.startswith("lit:") and not c.startswith("g:")]
        now = self.values(st)
        if first:
            self.entry = now
        elif now.keys() != self.entry.keys():
            raise Unsupported("different variables at the loop")
        em, eP, ecomp, eret = st.ghost["entry"]
        if self.check_entry(st, False) and not first:
            raise Restart()
        self.check_entry(st, True)
        for g, nm in rep(E, st, self.th, eret, self.m0, self.P0, ecomp):
            E.ob(st, g, "at the loop: " + nm, "inv", n)
        if not first:
            return []
        for few in (True, False):
            ch = True
            while ch:
                ch = False
                E.quiet += 1
                try:
                    for s, m, P, comp, ret in self.heads(st, few):
                        ex, ba = body_run(E, s, cnd, inc, body)
                        for b in ba:
                            ch |= self.check_back(b, m, comp, ret, False)
                finally:
                    E.quiet -= 1
        out = []
        for s, m, P, comp, ret in self.heads(st):
            ex, ba = body_run(E, s, cnd, inc, body)
            out += ex
            for b in ba:
                self.check_back(b, m, comp, ret, True)
        return out


def process():
    E, t = engine("ProcessHandshakeMessage")
    fn = find1(t, HM + "::ProcessHandshakeMessage")
    m0, P0 = fresh_int("m0"), fresh_int("P0")
    L = E.sym_int(SIZE, "len")
    P1 = add(P0, L)
    common = unfold(m0) + [le(m0, P0), or_(eq(P0, m0), and_(known(m0), lt(P0, END(m0)))), le(0, L), lt(L, 2 ** 62), lt(P0, 2 ** 62)]
    base = State()
    base.add(common)
    th = E.alloc(base, "this", 0)
    pl = E.alloc(base, "plain", Arr(U8, L, lambda j: S(add(P0, j)), "arr"))
    rule = Rule(E, t, th, {th.cell, pl.cell}, m0, P0, P1, common)
    E.loop_rule = rule
    E.decide = 12
    while True:
        try:
            rule.reset()
            E.obls.clear()
            _process(E, t, fn, th, pl, base, rule, m0, P0, P1, L)
            return E
        except Restart:
            continue


def _process(E, t, fn, th, pl, base, rule, m0, P0, P1, L):
    for ret in (False, True):
        for mode, comp in MODES:
            o, facts = obj(E, t, mode, comp, ret, m0, P0)
            st = base.copy()
            st.add(facts)
            st.store(th, o)
            st.ghost["entry"] = (m0, P0, comp, ret)
            if not E.feasible(st):
                continue
            # a null buffer is refused without any effect
            for v, s in E.call(fn, t, th, [Ptr(True, None, 0) if False else NullPtr(), L], st):
                v, s = E.rv(v, s)
                E.ob(s, and_(eq(v.idx, 0), eq(v.alts[0].code, 3)), "null plaintext is an invalid argument", "post", fn)
                for g, nm in rep(E, s, th, ret, m0, P0, comp):
                    E.ob(s, g, "null plaintext: " + nm, "post", fn)
            for v, s in E.call(fn, t, th, [Ptr(False, pl, 0), L], st):
                v, s = E.rv(v, s)
                post(E, fn, v, s, th, s.ghost.get("hd"), m0, P0, P1, (ret, comp))


def post(E, fn, v, s, th, hd, m0, P0, P1, ent):
    m, P, comp, ret = hd if hd is not None else (m0, P0, ent[1], ent[0])
    o = s.load(th)
    n0 = stored(ret, m0)
    for ok, s1 in E.branch(s, eq(v.idx, 1)):
        if not ok:
            E.ob(s1, eq(v.alts[0].code, 13), "a parse error is an internal error", "post", fn)
            E.ob(s1, and_(lt(P, P1), or_(not_(known(m)), and_(eq(S(m), KEYUP), lt(END(m), P1)))), "an error is an unknown type or bytes after a key update", "post", fn, ("P11", "P12"))
            n1 = o.f["num_full_tickets_in_store_"]
            E.ob(s1, and_(eq(o.f["tickets_retrieved_"], ret), le(n0, n1), le(n1, 5), implies(ret, eq(n1, 0))), "an error keeps the ticket count in range", "post", fn, ("P11", "P13"))
            fv = o.f["message_fragments_"].val
            if fv is not None and conc(fv.n) != 0:
                E.ob(s1, implies(lt(0, fv.n), ne(fv.get(0).val.get(0), TICKET)), "no ticket is in progress after an error", "post", fn, ("P11", "P13"))
            continue
        r = v.alts[1].f
        fr = o.f["message_fragments_"]
        if fr.val is None:
            E.ob(s1, False, "fragments exist", "post", fn)
            continue
        exp, cku, kt = r["expecting_to_read_more_bytes"], r["contains_key_update"], r["key_update_type"]
        ct, ns = r["contains_ticket"], r["num_full_tickets_stored"]
        for e, s2 in E.branch(s1, eq(fr.val.n, 0)):
            m1 = P1 if e else m
            for g, nm in rep(E, s2, th, ret, m1, P1, comp):
                E.ob(s2, g, "after the call: " + nm, "post", fn)
            E.ob(s2, eq(exp, lt(m1, P1)), "expects more exactly inside a message", "post", fn, ("P11", "P12"))
            ku = and_(cku, not_(exp))
            E.ob(s2, eq(ku, lt(app(K, m0), app(K, m1))), "key update reported exactly when one was completed", "post", fn, ("P11", "P12"))
            E.ob(s2, and_(le(app(K, m1), add(app(K, m0), 1)), eq(app(U, m1), app(U, m0))), "at most one key update, no unknown message", "post", fn, ("P11", "P12"))
            E.ob(s2, implies(ku, eq(kt, ite(lt(0, body(m)), S(add(m, 4)), 255))), "key update type", "post", fn)
            E.ob(s2, eq(ns, o.f["num_full_tickets_in_store_"]), "number of stored tickets reported", "post", fn, ("P11", "P13"))
            n1 = stored(ret, m1)
            tk = and_(lt(m1, P1), eq(S(m1), TICKET))
            E.ob(s2, and_(le(n0, n1), implies(or_(lt(app(T, m0), app(T, m1)), and_(tk, lt(P0, P1))), ct)), "ticket bytes reported", "post", fn, ("P11", "P13"))
            E.ob(s2, implies(ct, or_(lt(app(T, m0), app(T, m1)), tk)), "tickets reported only for ticket bytes", "post", fn, ("P11", "P13"))


def fetch():
    E, t = engine("GetStoredTickets")
    fn = find1(t, HM + "::GetStoredTickets")
    m, P = fresh_int("m"), fresh_int("P")
    for ret in (False, True):
        for mode, comp in MODES:
            o, facts = obj(E, t, mode, comp, ret, m, P)
            st = State()
            st.add(facts)
            th = E.alloc(st, "this", o)
            if not E.feasible(st):
                continue
            n = stored(ret, m)
            mid = and_(lt(m, P), eq(S(m), TICKET), lt(n, 5))
            for v, s in E.call(fn, t, th, [], st):
                v, s = E.rv(v, s)
                E.ob(s, eq(eq(v.idx, 0), or_(ret, mid)), "refused exactly after a fetch or inside a ticket that will be stored", "post", fn, ("P11", "P13"))
                for ok, s1 in E.branch(s, eq(v.idx, 1)):
                    if not ok:
                        E.ob(s1, eq(v.alts[0].code, 13), "refusal is an internal error", "post", fn)
                    else:
                        u = v.alts[1]
                        E.ob(s1, not_(u.null), "tickets returned", "post", fn, ("P11", "P13"))
                        if u.val is not None:
                            for g, nm in tickets(E, u.val, n):
                                E.ob(s1, g, "fetched: " + nm, "post", fn, ("P11", "P13"))
                    for g, nm in rep(E, s1, th, ret or ok, m, P, comp):
                        E.ob(s1, g, "after a fetch: " + nm, "post", fn)
    return E


def construct():
    E, t = engine("HandshakeMessageHandler")
    st = State()
    st.add(unfold(0), eq(app(T, 0), 0), eq(app(K, 0), 0), eq(app(U, 0), 0))
    c = [x for x in t.find(HM + "::HandshakeMessageHandler") if not params_of(x)]
    if len(c) != 1:
        raise Unsupported("constructor")
    th = E.alloc(st, "this", E.default(Ty("rec", name=HM)))
    for _, s in E.call(c[0], t, th, [], st):
        for g, nm in rep(E, s, th, False, 0, 0, ()):
            E.ob(s, g, "initially: " + nm, "post", c[0])
    return E
