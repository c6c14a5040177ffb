"""Contracts of the wire conversions (P21), the connection context (P20) and the ticket request (P23)."""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE, STR, CHAR, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.loops import val_eq as deep_eq
from cppvc.engine import Engine, Pieces, Frame
from . import upb
from .upb import str_eq, sym_msg, is_serialized
from .options import ident, ID, NONE, SPIFFE, HOST, UID

UT = "s2a::s2a_util"
CTX = "s2a::s2a_context::S2AContext"
WHICH = {SPIFFE: 1, HOST: 2, UID: 4}        # field numbers of the identity kinds on the wire


def engine(src, func, props, extra=()):
    t = tu(src, "openssl")
    E = Engine([t, tu("src/handshaker/s2a_util.cc"), tu("src/options/s2a_options.cc")] + [tu(x) for x in extra])
    E.func, E.props = func, props
    E.frames.append(Frame(t, None))
    upb.install(E)
    return E, t


def sym_ident(E, st, name, idx=()):
    """Arbitrary identity the public interface can make: a known type; the empty identity has no string."""
    v = E.sym(Ty("rec", name=ID), name, idx)
    t, s = id_parts(v)
    st.add(le(0, t), le(t, 3), implies(eq(t, NONE), eq(s.n, 0)))
    return v


def id_parts(v):
    t = [x for x in v.f.values() if is_term(x)]
    s = [x for x in v.f.values() if isinstance(x, Arr)]
    if len(t) != 1 or len(s) != 1:
        raise Unsupported("representation of an identity")
    return t[0], s[0]


def wire_num(t):
    """Field number for an identity type (0: none)."""
    return ite(eq(t, SPIFFE), 1, ite(eq(t, HOST), 2, ite(eq(t, UID), 4, 0)))


def msg_is_ident(m, t, s):
    """Goal: the identity message m names exactly the identity (t, s)."""
    return and_(eq(m.f["$identity_oneof"], wire_num(t)), str_eq(m.f["identity_oneof"], s))


def one(E, fn, t, args, st):
    r = E.call(fn, t, None, args, st)
    return [(E.rv(v, s)) for v, s in r]


def conversions():
    """TLS version and ciphersuite: both directions, all values."""
    E, t = engine("src/handshaker/s2a_util.cc", "conversions", ("P21",))
    for to, back, n in (("ConvertTlsVersionToProto", "ConvertFromProtoToTlsVersion", 2), ("ConvertCiphersuiteToProto", "ConvertFromProtoToCiphersuite", 3)):
        f, g = find1(t, UT + "::" + to), find1(t, UT + "::" + back)
        for fn, nm in ((f, to), (g, back)):
            E.func = nm
            st = State()
            x = fresh_int("x")
            st.add(le(-2 ** 31, x), lt(x, 2 ** 31))
            for v, s in one(E, fn, t, [x], st):
                for ok, s1 in E.branch(s, eq(v.idx, 1)):
                    if ok:
                        E.ob(s1, and_(le(0, x), lt(x, n)), "only supported values are converted", "post", fn)
                        E.ob(s1, eq(v.alts[1], x), "every supported value keeps its meaning", "post", fn)
                    else:
                        E.ob(s1, or_(lt(x, 0), ge(x, n)), "every supported value is converted", "post", fn)
                        E.ob(s1, ne(v.alts[0].code, 0), "an unsupported value is an error", "post", fn)
        # round trip in both orders
        for a, b, nm in ((f, g, to), (g, f, back)):
            E.func = nm + " and back"
            st = State()
            x = fresh_int("x")
            st.add(le(0, x), lt(x, n))
            for v, s in one(E, a, t, [x], st):
                if not E.feasible(s.assume(eq(v.idx, 1))):
                    continue
                for w, s2 in one(E, b, t, [v.alts[1]], s.assume(eq(v.idx, 1))):
                    E.ob(s2, and_(eq(w.idx, 1), eq(w.alts[1], x) if w.alts[1] is not None else False), "conversion and back is the identity", "post", b)
    return E


def view():
    """ParseUpbStrview: exactly the bytes shown."""
    E, t = engine("src/handshaker/s2a_util.cc", "ParseUpbStrview", ("P21",))
    st = State()
    fn = find1(t, UT + "::ParseUpbStrview")
    N, off, ln = E.sym_int(SIZE, "memlen"), E.sym_int(SIZE, "off"), E.sym_int(SIZE, "len")
    st.add(le(add(off, ln), N), lt(N, 2 ** 60))
    mem = Arr(CHAR, N, lambda j: E.sym_int(CHAR, "mem", (j,)), "arr")
    l = E.alloc(st, "mem", mem, Ty("arr", [CHAR]))
    v = E.alloc(st, "view", Struct(upb.VIEW, {"data": Ptr(False, l, off), "size": ln}))
    j = fresh_int("skj")
    for r, s in one(E, fn, t, [v], st):
        E.ob(s, eq(r.n, ln), "all bytes of the view", "post", fn)
        E.ob(s, implies(and_(le(0, j), lt(j, ln)), eq(r.get(j), mem.get(add(off, j)))), "byte for byte", "post", fn)
    # an unset field is an empty view with a null pointer
    st = State()
    v = E.alloc(st, "view", Struct(upb.VIEW, {"data": NULLP, "size": 0}))
    for r, s in one(E, fn, t, [v], st):
        E.ob(s, eq(r.n, 0), "empty view", "post", fn)
    return E


def identity():
    """Identities: to the wire, from the wire, round trips."""
    E, t = engine("src/handshaker/s2a_util.cc", "ConvertIdentityToProto", ("P21",))
    fn = find1(t, UT + "::ConvertIdentityToProto")
    back = find1(t, UT + "::ConvertFromProtoToIdentity")
    st = State()
    v = sym_ident(E, st, "ident")
    ty, sv = id_parts(v)
    l = E.alloc(st, "ident", v)
    anull = fresh_bool("noarena")
    for a, s0 in E.branch(st, anull):
        for r, s in one(E, fn, t, [NULLP if a else Op("arena", False, "arena"), l], s0):
            if a:
                E.ob(s, and_(eq(r.idx, 0), ne(r.alts[0].code, 0) if r.alts[0] is not None else False), "no arena is an error", "post", fn)
                continue
            E.ob(s, eq(r.idx, 1), "every identity is converted", "post", fn)
            p = r.alts[1]
            if p is None:
                continue
            for q, s1 in E.force(p, s):
                for nul, s2 in E.branch(s1, q.null):
                    if nul:
                        E.ob(s2, eq(ty, NONE), "only the empty identity has no message", "post", fn)
                        m = None
                    else:
                        m = s2.load(q.lv)
                        E.ob(s2, and_(ne(ty, NONE), msg_is_ident(m, ty, sv)), "message names the identity's type and string", "post", fn)
                    for w, s3 in one(E, back, t, [q], s2):
                        wt, ws = id_parts(w)
                        E.ob(s3, and_(eq(wt, ty), str_eq(ws, sv)), "identity to the wire and back", "post", back)
    # arbitrary wire identity, also none
    E.func = "ConvertFromProtoToIdentity"
    st = State()
    m = sym_msg(E, "Identity", "wireid")
    st.add(*E.facts)
    l = E.alloc(st, "m", m)
    for q in (NULLP, Ptr(fresh_bool("nomsg"), l)):
        for w, s in one(E, back, t, [q], st):
            wt, ws = id_parts(w)
            none = True if q is NULLP else or_(q.null, eq(m.f["$identity_oneof"], 0))
            E.ob(s, implies(none, and_(eq(wt, NONE), eq(ws.n, 0))), "no identity on the wire is the empty identity", "post", back)
            E.ob(s, implies(not_(none), and_(eq(wire_num(wt), m.f["$identity_oneof"]), str_eq(ws, m.f["identity_oneof"]))), "wire identity keeps its type and string", "post", back)
            if q is NULLP:
                continue
            l2 = E.alloc(s, "w", w)
            s = s.assume(not_(none))
            for r, s1 in one(E, fn, t, [Op("arena", False, "arena"), l2], s):
                E.ob(s1, eq(r.idx, 1), "converted back", "post", fn)
                p = r.alts[1]
                if p is None or isinstance(p, NullPtr):
                    E.ob(s1, False, "wire identity converted back has a message", "post", fn)
                    continue
                m2 = s1.load(p.lv)
                E.ob(s1, and_(not_(p.null), eq(m2.f["$identity_oneof"], m.f["$identity_oneof"]), str_eq(m2.f["identity_oneof"], m.f["identity_oneof"])), "wire identity and back", "post", fn)
    return E


# -- context ---------------------------------------------------------------------
GET = (("ApplicationProtocol", "application_protocol"), ("TlsVersion", "tls_version"), ("Ciphersuite", "ciphersuite"), ("PeerIdentity", "peer_identity"),
       ("LocalIdentity", "local_identity"), ("PeerCertFingerprint", "peer_cert_fingerprint"), ("LocalCertFingerprint", "local_cert_fingerprint"),
       ("IsHandshakeResumed", "is_handshake_resumed"))


def observe(E, t, lv, st):
    o = {}
    for g, nm in GET:
        fn = find1(t, CTX + "::" + g)
        r = E.call(fn, t, lv, [], st)
        if len(r) != 1:
            raise Unsupported("several outcomes of " + g)
        v, st = r[0]
        o[nm], st = E.rv(v, st)
    return o, st


def same_field(nm, a, b):
    if nm.endswith("identity"):
        (ta, sa), (tb, sb) = id_parts(a), id_parts(b)
        return and_(eq(ta, tb), str_eq(sa, sb))
    if isinstance(a, Arr):
        return str_eq(a, b)
    return eq(a, b)


def make(E, t, st, o):
    """A context with the given fields, made by the code's own constructor."""
    fn = [c for c in t.find(CTX + "::S2AContext") if len(c.get("inner", [])) >= 8]
    if len(fn) != 1:
        raise Unsupported("constructor of S2AContext")
    obj = E.alloc(st, "ctx", E.default(Ty("rec", name=CTX)), Ty("rec", name=CTX))
    args = []
    for g, nm in GET:
        v = o[nm]
        args.append(E.alloc(st, nm, v) if not is_term(v) else v)
    # constructor order: protocol, version, suite, peer, local, fingerprints, resumed
    r = E.call(fn[0], t, obj, args, st)
    if len(r) != 1:
        raise Unsupported("constructor with several outcomes")
    return obj, r[0][1], fn[0]


def fields(E, st, t):
    o = {}
    for nm in ("application_protocol", "peer_cert_fingerprint", "local_cert_fingerprint"):
        o[nm] = E.sym(STR, nm)
    for nm in ("tls_version", "ciphersuite"):
        o[nm] = fresh_int(nm)
        st.add(le(0, o[nm]), le(o[nm], 255))
    for nm in ("peer_identity", "local_identity"):
        o[nm] = sym_ident(E, st, nm)
    o["is_handshake_resumed"] = fresh_bool("resumed")
    return o


def context():
    """Constructor and getters; serialise then parse is the identity."""
    E, t = engine("src/handshaker/s2a_context.cc", "S2AContext", ("P20",))
    st = State()
    o = fields(E, st, t)
    lv, st, cfn = make(E, t, st, o)
    g, st = observe(E, t, lv, st)
    for _, nm in GET:
        E.ob(st, same_field(nm, g[nm], o[nm]), "a new context reports its " + nm, "post", cfn, ("P19", "P20"))
    before = st.load(lv)
    fn = find1(t, CTX + "::GetSerializedContext")
    back = find1(t, "s2a::s2a_context::GetS2AContextFromSerializedContext")
    E.func = "S2AContext::GetSerializedContext"
    good = and_(le(0, o["tls_version"]), le(o["tls_version"], 1), le(0, o["ciphersuite"]), le(o["ciphersuite"], 2))
    for v, s in E.call(fn, t, lv, [], st):
        v, s = E.rv(v, s)
        E.ob(s, deep_eq(before, s.load(lv)), "serialising changes nothing", "post", fn)
        for ok, s1 in E.branch(s, eq(v.idx, 1)):
            if not ok:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is an error", "post", fn)
                E.ob(s1, or_(not_(good), "serfail" in s1.ghost), "a supported context is serialised", "post", fn)
                continue
            E.ob(s1, good, "an unsupported version or ciphersuite is not serialised", "post", fn)
            ser = s1.ghost.get("ser", ())
            E.ob(s1, len(ser) == 1 and not v.alts[1].null is True, "one message serialised", "post", fn)
            if len(ser) != 1:
                continue
            m, i, msg = ser[0]
            buf = v.alts[1]
            E.ob(s1, and_(not_(buf.null), m == "S2AContext"), "the context message is serialised", "post", fn)
            is_serialized(E, s1, fn, buf.val, i, "the bytes are the serialised message, complete and unchanged")
            # parse exactly these bytes
            def source(E, s, mm, get, ln, n, i=i, msg=msg, m=m):
                j = fresh_int("skj")
                L = app(uf("serlen", 1), i)
                s = E.ob(s, and_(mm == m, eq(ln, L), implies(and_(le(0, j), lt(j, L)), eq(get(j), app(uf("serbyte", 2), i, j)))), "parses exactly the given bytes", "post", n)
                return [(msg, s)]
            E.parse_source = source
            L = app(uf("serlen", 1), i)
            bl = E.alloc(s1, "bytes", Arr(CHAR, L, lambda j: app(uf("serbyte", 2), i, j), "arr"), Ty("arr", [CHAR]))
            E.func = "GetS2AContextFromSerializedContext"
            for w, s2 in one(E, back, t, [Ptr(False, bl, 0), L], s1):
                E.ob(s2, eq(w.idx, 1), "a serialised context can be parsed", "post", back)
                u = w.alts[1]
                if u is None:
                    continue
                E.ob(s2, not_(u.null), "parsed context non-null", "post", back)
                l2 = E.alloc(s2, "ctx2", u.val, Ty("rec", name=CTX))
                g2, s2 = observe(E, t, l2, s2)
                for _, nm in GET:
                    E.ob(s2, same_field(nm, g2[nm], o[nm]), "round trip keeps " + nm, "post", back)
            E.func = "S2AContext::GetSerializedContext"
    return E


def parse_any():
    """Parsing arbitrary bytes: what upb reads is what the context reports; unsupported values are errors."""
    E, t = engine("src/handshaker/s2a_context.cc", "GetS2AContextFromSerializedContext", ("P20",))
    st = State()
    back = find1(t, "s2a::s2a_context::GetS2AContextFromSerializedContext")
    N = E.sym_int(SIZE, "len")
    buf = Arr(CHAR, N, lambda j: E.sym_int(CHAR, "in", (j,)), "arr")
    l = E.alloc(st, "bytes", buf, Ty("arr", [CHAR]))
    msg = sym_msg(E, "S2AContext", "wirectx")
    st.add(*E.facts)

    def source(E, s, mm, get, ln, n):
        j = fresh_int("skj")
        s = E.ob(s, and_(mm == "S2AContext", eq(ln, N), implies(and_(le(0, j), lt(j, N)), eq(get(j), buf.get(j)))), "parses exactly the given bytes", "post", n)
        f = s.copy()
        f.ghost["bad"] = True
        return [(None, f), (msg, s)]
    E.parse_source = source
    f = msg.f
    good = and_(le(0, f["tls_version"]), le(f["tls_version"], 1), le(0, f["ciphersuite"]), le(f["ciphersuite"], 2))
    for w, s in one(E, back, t, [Ptr(False, l, 0), N], st):
        bad = s.ghost.get("bad", False)
        for ok, s1 in E.branch(s, eq(w.idx, 1)):
            if not ok:
                E.ob(s1, ne(w.alts[0].code, 0), "failure is an error", "post", back)
                E.ob(s1, or_(bad, not_(good)), "a well-formed context is accepted", "post", back)
                continue
            E.ob(s1, and_(not bad, good), "malformed bytes, versions and ciphersuites are refused", "post", back)
            l2 = E.alloc(s1, "ctx2", w.alts[1].val, Ty("rec", name=CTX))
            g, s1 = observe(E, t, l2, s1)
            for _, nm in GET:
                if nm.endswith("identity"):
                    tt, ss = id_parts(g[nm])
                    u = f[nm]
                    none = or_(u.null, eq(u.val.f["$identity_oneof"], 0))
                    goal = and_(eq(wire_num(tt), ite(none, 0, u.val.f["$identity_oneof"])), implies(not_(none), str_eq(ss, u.val.f["identity_oneof"])), implies(none, eq(ss.n, 0)))
                elif isinstance(g[nm], Arr):
                    goal = str_eq(g[nm], f[nm])
                else:
                    goal = eq(g[nm], f[nm])
                E.ob(s1, goal, "parsed context reports the wire's " + nm, "post", back)
    return E


# -- resumption ticket request -----------------------------------------------------------
def tickets():
    E, t = engine("src/record_protocol/s2a_upb_ticket_sender.cc", "PrepareResumptionTicketReq", ("P23",))
    fn = find1(t, "s2a::s2a_ticket_sender::PrepareResumptionTicketReq")
    st = State()
    cid = E.sym_int(Ty("int", n=(64, False)), "cid")
    v = sym_ident(E, st, "ident")
    ty, sv = id_parts(v)
    l = E.alloc(st, "ident", v)
    N = fresh_int("ntickets")
    st.add(le(0, N), lt(N, 2 ** 60))
    uty = Ty("uptr", [STR])
    tk = lambda i: E.sym(STR, "ticket", (i,))
    arr = Arr(uty, N, lambda i: UPtr(False, tk(i), STR), "vec")
    tnull = fresh_bool("notickets")
    tl = E.alloc(st, "tickets", UPtr(tnull, arr, Ty("vec", [uty])))
    req = E.alloc(st, "request", upb.default_msg(E, "SessionReq"))
    empty = st.load(req)
    for r, s in one(E, fn, t, [cid, l, tl, Op("arena", False, "arena"), Ptr(False, req)], st):
        m = s.load(req)
        E.ob(s, eq(r, and_(not_(tnull), ne(ty, NONE))), "succeeds exactly with a ticket list and a known identity", "post", fn)
        for ok, s1 in E.branch(s, r):
            if not ok:
                continue
            sub_ = m.f["resumption_ticket"]
            E.ob(s1, and_(eq(m.f["$req_oneof"], 4), not_(sub_.null)), "the request is a resumption ticket request", "post", fn)
            if sub_.val is None:
                continue
            f = sub_.val.f
            E.ob(s1, eq(f["connection_id"], cid), "connection id", "post", fn)
            E.ob(s1, and_(not_(f["local_identity"].null), msg_is_ident(f["local_identity"].val, ty, sv)) if f["local_identity"].val is not None else False, "local identity with its type", "post", fn)
            E.ob(s1, eq(f["in_bytes"].n, N), "all tickets", "post", fn)
            i = fresh_int("ski")
            s2 = s1.assume(le(0, i), lt(i, N))
            E.ob(s2, str_eq(f["in_bytes"].get(i), tk(i)), "every ticket in order, byte for byte", "post", fn)
            E.ob(s1, eq(m.f["auth_mechanisms"].n, 0), "no access token attached", "post", fn)
    return E
