"""Contracts of S2AProxy (P17, P18, P19).

Callee contracts: the wire conversions and S2AContext (proved in wire.py; here their bodies are used),
S2AOptions/Identity (options.py; bodies used).  The token manager and the frame protector factory are external:
GetToken/GetDefaultToken may answer anything.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE, STR, CHAR, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.loops import val_eq as deep_eq
from cppvc.engine import Engine, Frame
from . import upb, wire
from .upb import str_eq, sym_msg, is_serialized
from .wire import sym_ident, id_parts, wire_num, msg_is_ident
from .half import guard
from .options import ID, NONE, SPIFFE, HOST, UID

PX = "s2a::s2a_proxy::S2AProxy"
FP = "s2a::frame_protector::S2AFrameProtector"
TM = "s2a::token_manager::AccessTokenManagerInterface"
BUF = Ty("vec", [CHAR])


def engine(func, props):
    t = tu("src/handshaker/s2a_proxy.cc", "openssl")
    E = Engine([t] + [tu(x) for x in ("src/handshaker/s2a_util.cc", "src/handshaker/s2a_context.cc", "src/options/s2a_options.cc")])
    E.func, E.props = "S2AProxy::" + func, props
    E.frames.append(Frame(t, None))
    upb.install(E)
    E.hooks["fn*logger_"] = E.hooks["fn*logger"] = lambda E, this, vals, st, n: [(UNIT, st)]
    E.hooks[FP + "::Create"] = fp_create
    E.guarded = guard(PX, ("is_first_message_", "is_handshake_finished_"), "mu_")
    E.hooks["s2a::s2a_util::ConvertFromProtoToIdentity"] = from_proto
    for nm, k in (("ConvertTlsVersionToProto", 2), ("ConvertCiphersuiteToProto", 3), ("ConvertFromProtoToTlsVersion", 2), ("ConvertFromProtoToCiphersuite", 3)):
        E.hooks["s2a::s2a_util::" + nm] = conversion(k)
    return E, t


def conversion(k):
    """Contract of the enum conversions (proved in wire.conversions): the supported values keep their number."""
    def h(E, this, vals, st, n):
        x, st = E.rv(vals[0], st)
        code = fresh_int("converr")
        st = st.assume(le(1, code), le(code, 16))
        return [(Variant(ite(and_(le(0, x), lt(x, k)), 1, 0), [Status(code), x]), st)]
    return h


def from_proto(E, this, vals, st, n):
    """Contract of ConvertFromProtoToIdentity (proved in wire.identity)."""
    p, st = E.rv(vals[0], st)
    out = []
    for q, s in E.force(p, st):
        tt, r = fresh_int("idtype"), fresh_str("idstr")
        w = E.default(Ty("rec", name=ID))
        k = [x for x in w.f if is_term(w.f[x])]
        a = [x for x in w.f if isinstance(w.f[x], Arr)]
        if len(k) != 1 or len(a) != 1:
            raise Unsupported("representation of an identity")
        w = Struct(ID, {k[0]: tt, a[0]: r})
        s = s.assume(le(0, tt), le(tt, 3))
        if isinstance(q, NullPtr):
            u = UPtr(True, None, None)
            none = True
        else:
            m = s.load(q.lv)
            none = or_(q.null, eq(m.f["$identity_oneof"], 0))
            s = s.assume(implies(not_(none), and_(eq(wire_num(tt), m.f["$identity_oneof"]), eq(r.atom, m.f["identity_oneof"].atom))))
        s = s.assume(implies(none, and_(eq(tt, NONE), eq(r.atom, lit_atom(b"")), eq(r.n, 0))))
        out.append((w, s))
    return out


# -- token cache: a finite map from identities to tokens --------------------------
# An identity is coded as 4 * string + type; has/val are total functions of the code, n the number of keys.
def code(x):
    t, s = id_parts(x)
    if s.atom is None or isinstance(s.atom, tuple):
        raise Unsupported("identity string without a name")
    return add(mul(4, s.atom), t)


def decode(c):
    w = IDREP
    return Struct(ID, {w[0]: mod(c, 4), w[1]: atom_str(div(c, 4))})


IDREP = None


def idrep(E):
    global IDREP
    w = E.default(Ty("rec", name=ID))
    k = [x for x in w.f if is_term(w.f[x])]
    a = [x for x in w.f if isinstance(w.f[x], Arr)]
    if len(k) != 1 or len(a) != 1:
        raise Unsupported("representation of an identity")
    IDREP = (k[0], a[0])


def mkmap(has, val, n):
    return Struct("map", {"has": Arr(Ty("bool"), 2 ** 62, has, "map"), "val": Arr(STR, 2 ** 62, val, "map"), "n": n})


def is_map(v):
    return isinstance(v, Struct) and v.name == "map"


def map_insert(lv, v, c, st):
    """operator[] of an absent key inserts the empty string."""
    st = st.copy()
    has, val, n = v.f["has"], v.f["val"], v.f["n"]
    h = has.get(c)
    old = val.get(c)
    st.store(lv.sub(("f", "val"), ("i", c)), atom_str(ite(h, old.atom, lit_atom(b""))))
    st.store(lv.sub(("f", "has"), ("i", c)), True)
    st.store(lv.sub(("f", "n")), add(n, ite(h, 0, 1)))
    return st


def map_method(name):
    def h(E, lv, v, vals, st, n):
        if not is_map(v):
            raise Unsupported("method %s of %r (%s)" % (name, v, E.loc(n)))
        if name in ("contains", "count"):
            x, st = E.rv(vals[0], st)
            r = v.f["has"].get(code(x))
            return [(r if name == "contains" else ite(r, 1, 0), st)]
        if name == "size":
            return [(v.f["n"], st)]
        if name == "empty":
            return [(eq(v.f["n"], 0), st)]
        if name == "clear":
            st = st.copy()
            st.store(lv, mkmap(lambda j: False, lambda j: lit_str(b""), 0))
            return [(UNIT, st)]
        if name == "reserve":
            return [(UNIT, st)]
        if name == "operator[]":
            x, st = E.rv(vals[0], st)
            c = code(x)
            return [(lv.sub(("f", "val"), ("i", c)), map_insert(lv, v, c, st))]
        if name == "insert_or_assign":
            (x, y), st = E.rvs(vals, st)
            c = code(x)
            st = map_insert(lv, v, c, st)
            st.store(lv.sub(("f", "val"), ("i", c)), y)
            return [(Op(fresh_int("ins"), False, "insert-result"), st)]
        if name in ("begin", "cbegin", "end", "cend"):
            cell, st = enumerate_map(E, v, st)
            return [(Ptr(False, LV(cell), 0 if name.endswith("begin") else v.f["n"]), st)]
        raise Unsupported("map method " + name)
    return h


def enumerate_map(E, v, st):
    for (h, w, cell, *_) in st.ghost.get("mapenum", ()):
        if h is v.f["has"] and w is v.f["val"]:
            return cell, st
    st = st.copy()
    nm, pm = fresh_name("ekey"), fresh_name("epos")
    K, P = uf(nm, 1), uf(pm, 1)
    has, val, n = v.f["has"].get, v.f["val"].get, v.f["n"]
    E.ax.on(nm, lambda i: implies(and_(le(0, i), lt(i, n)), and_(has(app(K, i)), eq(app(P, app(K, i)), i))))
    full = lambda x: implies(has(x), and_(le(0, app(P, x)), lt(app(P, x), n), eq(app(K, app(P, x)), x)))
    E.ax.on(pm, full)
    pair = lambda i: Struct("std::pair", {"first": decode(app(K, i)), "second": val(app(K, i))})
    a = Arr(Ty("pair"), n, pair, "vec")
    l = E.alloc(st, "cache-entries", a)
    st.ghost["mapenum"] = st.ghost.get("mapenum", ()) + ((v.f["has"], v.f["val"], l.cell, K, P, a, full),)
    return l.cell, st


def enum_intact(st):
    for x in st.ghost.get("mapenum", ()):
        if st.cells.get(x[2]) is not x[5]:
            raise Unsupported("token cache changed through an iterator")


def install_map(E):
    idrep(E)
    E.models["default:map"] = lambda: mkmap(lambda j: False, lambda j: lit_str(b""), 0)
    for m in ("contains", "count", "size", "empty", "clear", "reserve", "operator[]", "insert_or_assign", "begin", "cbegin", "end", "cend"):
        E.models["method:" + m] = map_method(m)


# -- token manager: may answer anything, each answer is issued for the identity asked -------
ISS = uf("issued", 2, BSORT)
EMPTY = None


def get_token(E, this, vals, st, n):
    x, st = E.rv(vals[0], st)
    return token_answer(E, code(x), st, n)


def get_default(E, this, vals, st, n):
    return token_answer(E, add(mul(4, lit_atom(b"")), NONE), st, n)


def token_answer(E, c, st, n):
    site = n.get("id")
    if site not in E.sites:
        k = len(E.sites)
        E.sites[site] = (uf("tokok%d" % k, 1, BSORT), uf("token%d" % k, 1), uf("tokerr%d" % k, 1))
        OK, TOK, ERR = E.sites[site]
        E.ax.on("token%d" % k, lambda c: and_(le(0, app(TOK, c)), implies(app(OK, c), app(ISS, c, app(TOK, c)))))
        E.ax.on("tokerr%d" % k, lambda c: and_(le(1, app(ERR, c)), le(app(ERR, c), 16)))
    E.last_site = site
    OK, TOK, ERR = E.sites[site]
    return [(Variant(ite(app(OK, c), 1, 0), [Status(app(ERR, c)), atom_str(app(TOK, c))]), st)]


def fld(v, name):
    if name not in v.f:
        raise Unsupported("the proxy has no field " + name)
    return v.f[name]


def proxy(E, t, st, pre="px"):
    """An arbitrary proxy that satisfies the class invariant."""
    v = E.sym(Ty("rec", name=PX), pre, tu=t)
    fin, res, ctx, lg, op = (fld(v, x) for x in ("is_handshake_finished_", "result_", "context_", "logger_", "options_"))
    inv(E, st, v)
    st.add(not_(lg.null), not_(op.null))
    return E.alloc(st, "this", v, Ty("rec", name=PX))


def inv(E, st, v):
    fin, res = fld(v, "is_handshake_finished_"), fld(v, "result_")
    st.add(implies(fin, not_(res.null)))


def inv_ob(E, st, v, fn):
    fin, res = fld(v, "is_handshake_finished_"), fld(v, "result_")
    E.ob(st, implies(fin, not_(res.null)), "a finished handshake has a result", "post", fn)


def unchanged(E, st, fn, a, b, names, what):
    for x in names:
        E.ob(st, deep_eq(fld(a, x), fld(b, x)), "%s leaves %s unchanged" % (what, x), "post", fn)


def in_buffer(E, st, name):
    """unique_ptr<Buffer> with arbitrary content, or null."""
    nul = fresh_bool(name + "null")
    N = E.sym_int(SIZE, name + "len")
    st.add(lt(N, 2 ** 60))
    a = Arr(CHAR, N, lambda j: E.sym_int(CHAR, name, (j,)), "vec")
    u = UPtr(nul, a, BUF)
    return E.alloc(st, name, u, Ty("uptr", [BUF])), nul, a


STATE = ("is_handshake_finished_", "result_", "context_")
CONST = ("is_client_", "application_protocol_", "target_hostname_", "is_first_message_")


def is_bytes(buf, get, n):
    """Goal: the returned buffer exists and holds exactly these bytes."""
    if buf.val is None:
        return False
    j = fresh_int("skj")
    a = buf.val
    return and_(not_(buf.null), eq(a.n, n), implies(and_(le(0, j), lt(j, n)), eq(a.get(j), get(j))))


def for_peer():
    """GetBytesForPeer."""
    E, t = engine("GetBytesForPeer", ("P19",))
    fn = find1(t, PX + "::GetBytesForPeer")
    st = State()
    this = proxy(E, t, st)
    old = st.load(this)
    bl, bnull, buf = in_buffer(E, st, "froms2a")
    msg = sym_msg(E, "SessionResp", "resp")
    st.add(*E.facts)

    def source(E, s, mm, get, ln, n):
        j = fresh_int("skj")
        s = E.ob(s, and_(mm == "SessionResp", eq(ln, buf.n), implies(and_(le(0, j), lt(j, buf.n)), eq(get(j), buf.get(j)))), "parses exactly the bytes from S2A", "post", n)
        f = s.copy()
        f.ghost["bad"] = True
        s = s.copy()
        s.ghost["parsed"] = True
        return [(None, f), (msg, s)]
    E.parse_source = source
    f = msg.f
    status_ok = and_(not_(f["status"].null), eq(f["status"].val.f["code"], 0))
    has = not_(f["result"].null)
    R = f["result"].val.f
    S = R["state"].val.f
    ver, cs = S["tls_version"], S["tls_ciphersuite"]
    complete = and_(not_(R["state"].null), le(0, ver), le(ver, 1), le(0, cs), le(cs, 2), not_(R["local_identity"].null))
    ident_goal = wire_ident
    for v, s in E.call(fn, t, this, [bl], st):
        v, s = E.rv(v, s)
        new = s.load(this)
        inv_ob(E, s, new, fn)
        E.ob(s, mutex_free(s), "the mutex is released", "post", fn, ("P17", "P19", "P24"))
        unchanged(E, s, fn, old, new, CONST, "a response")
        parsed = "parsed" in s.ghost
        for ok, s1 in E.branch(s, eq(v.f["status"].code, 0)):
            if not ok:
                unchanged(E, s1, fn, old, new, STATE, "an error")
                E.ob(s1, and_(v.f["buffer"].null, eq(v.f["bytes_consumed"], 0)), "an error yields no bytes for the peer", "post", fn)
                good = and_(not_(bnull), gt(buf.n, 0), parsed, status_ok, implies(has, complete))
                E.ob(s1, not_(good), "a valid response is accepted", "post", fn)
                continue
            E.ob(s1, and_(not_(bnull), gt(buf.n, 0), parsed), "success only for parsed bytes from S2A", "post", fn)
            if not parsed:
                continue
            E.ob(s1, status_ok, "an error response is an error", "post", fn)
            E.ob(s1, implies(has, complete), "an incomplete or invalid result is an error", "post", fn)
            E.ob(s1, is_bytes(v.f["buffer"], f["out_frames"].get, f["out_frames"].n), "bytes for the peer are forwarded unchanged", "post", fn)
            E.ob(s1, eq(v.f["bytes_consumed"], f["bytes_consumed"]), "S2A's consumed count is forwarded", "post", fn)
            # selected identity (P18)
            so, sn = fld(old, "selected_local_identity_"), fld(new, "selected_local_identity_")
            for b, s2 in E.branch(s1, not_(f["local_identity"].null)):
                if b:
                    E.ob(s2, and_(eq(sn.idx, 1), wire_ident(sn.alts[1], f["local_identity"]) if sn.alts[1] is not None else False), "the identity S2A chose is remembered", "post", fn, ("P18", "P19"))
                else:
                    E.ob(s2, deep_eq(so, sn), "no identity chosen: selection unchanged", "post", fn, ("P18", "P19"))
            for b, s2 in E.branch(s1, has):
                if not b:
                    unchanged(E, s2, fn, old, new, STATE, "a response without result")
                    continue
                res, ctx = fld(new, "result_"), fld(new, "context_")
                E.ob(s2, and_(fld(new, "is_handshake_finished_"), not_(res.null), not_(ctx.null)), "a complete result finishes the handshake", "post", fn)
                if res.val is None or ctx.val is None:
                    continue
                r = res.val.f
                for nm, goal in (("tls_version", lambda x: eq(x, ver)), ("ciphersuite", lambda x: eq(x, cs)),
                                 ("in_traffic_secret", lambda x: bytes_eq(x, S["in_key"])), ("out_traffic_secret", lambda x: bytes_eq(x, S["out_key"])),
                                 ("in_sequence", lambda x: eq(x, S["in_sequence"])), ("out_sequence", lambda x: eq(x, S["out_sequence"])),
                                 ("connection_id", lambda x: eq(x, S["connection_id"])), ("local_identity", lambda x: wire_ident(x, R["local_identity"]))):
                    if nm not in r:
                        raise Unsupported("handshake result without " + nm)
                    E.ob(s2, goal(r[nm]), "the result keeps S2A's " + nm, "post", fn)
                cl = E.alloc(s2, "ctx", ctx.val, Ty("rec", name=wire.CTX))
                g, s2 = wire.observe(E, E.tus[2], cl, s2)
                want = {"application_protocol": R["application_protocol"], "tls_version": ver, "ciphersuite": cs, "peer_identity": R["peer_identity"], "local_identity": R["local_identity"],
                        "peer_cert_fingerprint": R["peer_cert_fingerprint"], "local_cert_fingerprint": R["local_cert_fingerprint"], "is_handshake_resumed": S["is_handshake_resumed"]}
                for _, nm in wire.GET:
                    x = g[nm]
                    goal = wire_ident(x, want[nm]) if nm.endswith("identity") else str_eq(x, want[nm]) if isinstance(x, Arr) else eq(x, want[nm])
                    E.ob(s2, goal, "the context reports S2A's " + nm, "post", fn)
    return E


def mutex_free(s):
    return not s.locks


def bytes_eq(vec, s):
    j = fresh_int("skj")
    w = s.get(j)
    return and_(eq(vec.n, s.n), implies(and_(le(0, j), lt(j, s.n)), eq(vec.get(j), ite(lt(w, 0), add(w, 256), w))))


def wire_ident(x, u):
    """Goal: identity value x is the (possibly absent) wire identity u."""
    tt, ss = id_parts(x)
    none = or_(u.null, eq(u.val.f["$identity_oneof"], 0))
    return and_(eq(wire_num(tt), ite(none, 0, u.val.f["$identity_oneof"])), implies(not_(none), str_eq(ss, u.val.f["identity_oneof"])), implies(none, eq(ss.n, 0)))


# -- gates ----------------------------------------------------------------------
def fp_create(E, this, vals, st, n):
    o, st = E.rv(vals[0], st)
    st = st.copy()
    f = {}
    for k, x in o.f.items():
        f[k], st = E.rv(x, st)          # reference members: the value at the call
    o = Struct(o.name, f)
    st = st.copy()
    st.ghost["fpcreate"] = st.ghost.get("fpcreate", ()) + (o,)
    code, k = fresh_int("fperr"), fresh_int("fp")
    bad = st.assume(le(1, code), le(code, 16))
    bad.ghost["fpret"] = Variant(0, [Status(code), None])
    good = st.copy()
    fpt = Ty("rec", name=FP)
    good.ghost["fpret"] = Variant(1, [None, UPtr(False, Op(k, False, "frameprotector"), fpt)])
    return [(x.ghost["fpret"], x) for x in (bad, good)]


def gates():
    """IsHandshakeFinished, CreateFrameProtector, GetS2AContext."""
    E, t = engine("IsHandshakeFinished", ("P19",))
    st = State()
    this = proxy(E, t, st)
    old = st.load(this)
    fin = fld(old, "is_handshake_finished_")
    fn = find1(t, PX + "::IsHandshakeFinished")
    for v, s in E.call(fn, t, this, [], st):
        v, s = E.rv(v, s)
        E.ob(s, eq(v, fin), "reports whether a result was accepted", "post", fn)
        unchanged(E, s, fn, old, s.load(this), STATE + CONST, "asking")
        E.ob(s, mutex_free(s), "the mutex is released", "post", fn, ("P17", "P19", "P24"))
    E.func = "S2AProxy::CreateFrameProtector"
    fn = find1(t, PX + "::CreateFrameProtector")
    for v, s in E.call(fn, t, this, [], st):
        v, s = E.rv(v, s)
        new = s.load(this)
        unchanged(E, s, fn, old, new, CONST + ("is_handshake_finished_", "context_"), "creating a frame protector")
        E.ob(s, mutex_free(s), "the mutex is released", "post", fn, ("P17", "P19", "P24"))
        for b, s1 in E.branch(s, fin):
            calls = s1.ghost.get("fpcreate", ())
            if not b:
                E.ob(s1, and_(eq(v.idx, 0), ne(v.alts[0].code, 0) if v.alts[0] is not None else False, len(calls) == 0), "refused with an error before the handshake is finished", "post", fn)
                continue
            E.ob(s1, len(calls) == 1, "one frame protector is created", "post", fn)
            if len(calls) != 1:
                continue
            E.ob(s1, deep_eq(v, s1.ghost["fpret"]), "the frame protector (or its error) is returned", "post", fn)
            o, r = calls[0].f, fld(old, "result_").val.f
            for a in ("tls_version", "in_traffic_secret", "out_traffic_secret", "in_sequence", "out_sequence", "connection_id", "local_identity"):
                E.ob(s1, deep_eq(opt(o, a), r[a]), "the frame protector gets the result's " + a, "post", fn)
            E.ob(s1, deep_eq(opt(o, "tls_ciphersuite", "ciphersuite"), r["ciphersuite"]), "the frame protector gets the result's ciphersuite", "post", fn)
            for a in ("channel_factory", "channel_options"):
                E.ob(s1, deep_eq(opt(o, a), fld(old, a + "_")), "the frame protector gets the " + a, "post", fn)
            al, s2 = wire_addr(E, old, s1)
            E.ob(s2, str_eq(opt(o, "handshaker_service_url", "s2a_address"), al), "the frame protector gets the configured S2A address", "post", fn)
    E.func = "S2AProxy::GetS2AContext"
    fn = find1(t, PX + "::GetS2AContext")
    for v, s in E.call(fn, t, this, [], st):
        v, s = E.rv(v, s)
        new = s.load(this)
        unchanged(E, s, fn, old, new, CONST + ("is_handshake_finished_", "result_"), "taking the context")
        E.ob(s, mutex_free(s), "the mutex is released", "post", fn, ("P17", "P19", "P24"))
        for b, s1 in E.branch(s, fin):
            if not b:
                E.ob(s1, and_(eq(v.idx, 0), ne(v.alts[0].code, 0) if v.alts[0] is not None else False), "refused with an error before the handshake is finished", "post", fn)
                E.ob(s1, deep_eq(fld(old, "context_"), fld(new, "context_")), "refusal leaves the context", "post", fn)
                continue
            E.ob(s1, and_(eq(v.idx, 1), deep_eq(v.alts[1], fld(old, "context_")) if v.alts[1] is not None else False), "exactly the context of the result", "post", fn)
    return E


def opt(o, *names):
    for x in names:
        if x in o:
            return o[x]
    raise Unsupported("frame protector option " + names[0])


def wire_addr(E, old, st):
    t = E.tus[3]
    l = E.alloc(st, "opts", fld(old, "options_").val)
    r = E.call(find1(t, "s2a::s2a_options::S2AOptions::s2a_address"), t, l, [], st)
    v, s = r[0]
    return E.rv(v, s)


# -- requests to S2A (P17, P18) ---------------------------------------------------
OPT = "s2a::s2a_options::S2AOptions"


def idset(E, name):
    """An arbitrary set of identities as the options setters make them (P22): known types, each element once."""
    K, P, M, n = uf(name + "key", 1), uf(name + "pos", 1), uf(name + "mem", 1, BSORT), fresh_int(name + "n")
    k = lambda i: app(K, i)
    E.ax.on(name + "key", lambda i: implies(and_(le(0, i), lt(i, n)), and_(app(M, k(i)), eq(app(P, k(i)), i), le(1, mod(k(i), 4)))))
    E.ax.on(name + "pos", lambda x: implies(app(M, x), and_(le(0, app(P, x)), lt(app(P, x), n), eq(app(K, app(P, x)), x))))
    ety = Ty("rec", name=ID)
    full = lambda x: implies(app(M, x), and_(le(0, app(P, x)), lt(app(P, x), n), eq(app(K, app(P, x)), x)))
    return SetV(ety, lambda y: app(M, code(y)), n, Arr(ety, n, lambda i: decode(k(i)), "vec")), dict(K=K, P=P, M=M, n=n, full=full)


def setup(E, t, first, client):
    install_map(E)
    E.sites, E.last_site = {}, None
    E.hooks[TM + "::GetToken"] = get_token
    E.hooks[TM + "::GetDefaultToken"] = get_default
    st = State()
    v = E.sym(Ty("rec", name=PX), "px", tu=t)
    inv(E, st, v)
    st.add(not_(fld(v, "logger_").null), not_(fld(v, "options_").null))
    # options
    ou = fld(v, "options_")
    ol = E.alloc(st, "options", ou.val)
    ot = E.tus[3]
    G = {}
    for g in ("local_identities", "target_identities", "supported_ciphersuites", "min_tls_version", "max_tls_version"):
        r = E.call(find1(ot, OPT + "::" + g), ot, ol, [], st)
        if len(r) != 1:
            raise Unsupported("getter with several outcomes")
        G[g] = r[0][0]
    ov = ou.val
    for g, nm in (("local_identities", "LOC"), ("target_identities", "TGT")):
        lv = G[g]
        if not isinstance(lv, LV) or lv.cell != ol.cell:
            raise Unsupported("representation of " + g)
        sv, info = idset(E, nm)
        st.add(le(0, info["n"]), lt(info["n"], 2 ** 60))
        st.store(lv, sv)
        G[g] = info
    ov = st.load(ol)
    G["supported_ciphersuites"] = E.rv(G["supported_ciphersuites"], st)[0]
    for g in ("min_tls_version", "max_tls_version"):
        G[g] = E.rv(G[g], st)[0]
    # token cache: every token was issued for its identity; nothing without a manager
    H, V, N = uf("cache.has", 1, BSORT), uf("cache.val", 1), fresh_int("cache.n")
    mgr = fld(v, "token_manager_")
    E.ax.on("cache.has", lambda c: implies(app(H, c), and_(app(ISS, c, app(V, c)), not_(mgr.null), ge(N, 1))))
    st.add(le(0, N), lt(N, 2 ** 60), implies(mgr.null, eq(N, 0)))
    cache = mkmap(lambda c: app(H, c), lambda c: atom_str(app(V, c)), N)
    v = v.set("options_", UPtr(ou.null, ov, ou.ety)).set("token_cache_", cache)
    fm = fld(v, "is_first_message_")
    st.add(eq(fm, first))
    if client is not None:
        st.add(eq(fld(v, "is_client_"), client))
    # the selected identity is one the wire can name
    sel = fld(v, "selected_local_identity_")
    tt, ss = id_parts(sel.alts[1])
    st.add(le(0, tt), le(tt, 3), implies(eq(tt, NONE), eq(ss.atom, lit_atom(b""))))
    this = E.alloc(st, "this", v, Ty("rec", name=PX))

    E.loop_alts = 2

    def content(loop, path, ent, alt=0):
        fs = [str(x[1]) if isinstance(x, tuple) else str(x) for x in path[1:]]
        f = [x for x in fs if x not in ("c", "d", "f")][-1]
        if f == "tls_ciphersuites":
            sup = G["supported_ciphersuites"]
            return lambda j, pos: ite(lt(j, pos), sup.get(j), ent.get(j))
        if f in ("target_identities", "local_identities"):
            info = G[f]
            return lambda j, pos: ite_val(lt(j, pos), ident_msg(E, app(info["K"], j)), ent.get(j)) if not is_empty(ent) else ident_msg(E, app(info["K"], j))
        if f == "auth_mechanisms":
            en = loop.entry.ghost.get("mapenum", ())
            if not en:
                return None
            return lambda j, pos: auth_msg(E, app(en[-1][3], j), en[-1][1].get(app(en[-1][3], j)))
        if f in ("has", "val") and E.last_site is not None:
            OK, TOK, _ = E.sites[E.last_site]
            L = G["local_identities"]
            eh = entry_has(loop)
            new = lambda j, pos: and_(app(L["M"], j), lt(app(L["P"], j), pos), app(OK, j))
            if f == "has":
                return lambda j, pos: or_(eh(j), new(j, pos))
            if alt == 1:          # fetched again although cached
                return lambda j, pos: atom_str(ite(new(j, pos), app(TOK, j), ent.get(j).atom))
            return lambda j, pos: atom_str(ite(eh(j), ent.get(j).atom, ite(new(j, pos), app(TOK, j), ent.get(j).atom)))
        return None

    def entry_has(loop):
        return fld(loop.entry.load(this), "token_cache_").f["has"].get
    E.loop_content = content
    E.inv_extra = lambda E, hd, lp: [le(c, fld(lp.entry.load(this), "token_cache_").f["n"]) for c in lp.cols[:lp.nleaf]]
    return st, this, G


def is_empty(a):
    return conc(a.n) == 0


def ident_msg(E, c):
    m = upb.default_msg(E, "Identity")
    return Struct(m.name, dict(m.f, **{"$identity_oneof": wire_num(mod(c, 4)), "identity_oneof": atom_str(div(c, 4))}))


def auth_msg(E, c, tok):
    m = upb.default_msg(E, "AuthenticationMechanism")
    idm = UPtr(eq(mod(c, 4), NONE), ident_msg(E, c), Ty("upbmsg", name="Identity"))
    one = [x for x in E.schema["AuthenticationMechanism"].values() if x.name == "token"][0]
    return Struct(m.name, dict(m.f, **{"$" + one.oneof: one.num, one.slot: tok, "identity": idm}))


def to_s2a(kind):
    """GetBytesForS2A: kind is client (first message), server (first message) or next."""
    E, t = engine("GetBytesForS2A", ("P17",))
    fn = find1(t, PX + "::GetBytesForS2A")
    st, this, G = setup(E, t, kind != "next", {"client": True, "server": False, "next": None}[kind])
    old = st.load(this)
    bl, bnull, buf = in_buffer(E, st, "frompeer")
    LOC, TGT, sup = G["local_identities"], G["target_identities"], G["supported_ciphersuites"]
    nobytes = or_(bnull, eq(buf.n, 0))
    vok = and_(*[and_(le(0, G[g]), le(G[g], 1)) for g in ("min_tls_version", "max_tls_version")])
    j = fresh_int("skcs")
    # allok: every configured ciphersuite is a supported one
    allok = fresh_bool("allsuites")
    probe = sup.get(z3.Int("J!"))
    E.ax.on(probe.decl().name(), lambda *p: implies(and_(allok, le(0, p[-1]), lt(p[-1], sup.n)), and_(le(0, sup.get(p[-1])), le(sup.get(p[-1]), 2))))
    base = E.inv_extra
    good = lambda j: and_(le(0, sup.get(j)), le(sup.get(j), 2))
    E.inv_extra = lambda E, hd, lp: base(E, hd, lp) + [implies(and_(le(0, j), lt(j, c)), good(j)) for c in lp.cols[:lp.nleaf]]
    for v, s in E.call(fn, t, this, [bl], st):
        v, s = E.rv(v, s)
        enum_intact(s)
        new = s.load(this)
        unchanged(E, s, fn, old, new, ("is_client_", "application_protocol_", "target_hostname_", "selected_local_identity_") + STATE, "a request")
        E.ob(s, mutex_free(s), "the mutex is released", "post", fn, ("P17", "P19", "P24"))
        cache_inv(E, s, new, fn)
        for ok, s1 in E.branch(s, eq(v.f["status"].code, 0)):
            if not ok:
                E.ob(s1, eq(fld(old, "is_first_message_"), fld(new, "is_first_message_")), "a failed request is retried as it was", "post", fn)
                E.ob(s1, and_(v.f["buffer"].null, eq(v.f["bytes_consumed"], 0)), "an error yields no message", "post", fn)
                # every failure has one of the stated reasons
                if kind == "next":
                    why = nobytes
                else:
                    why = or_(not_(vok), not_(allok))
                    if kind == "client":
                        why = or_(why, not_(nobytes), gt(LOC["n"], 1))
                E.ob(s1, or_(why, "serfail" in s1.ghost), "a request with supported options is produced", "post", fn)
                continue
            E.ob(s1, not_(fld(new, "is_first_message_")), "later messages are next messages", "post", fn)
            E.ob(s1, eq(v.f["bytes_consumed"], 0), "no bytes consumed yet", "post", fn)
            ser = s1.ghost.get("ser", ())
            E.ob(s1, len(ser) == 1 and ser[0][0] == "SessionReq", "one session request is serialised", "post", fn)
            if len(ser) != 1:
                continue
            _, i, msg = ser[0]
            b = v.f["buffer"]
            E.ob(s1, not_(b.null) if b.val is not None else False, "the message is returned", "post", fn)
            if b.val is None:
                continue
            is_serialized(E, s1, fn, b.val, i, "the bytes are the serialised request, complete and unchanged")
            f = msg.f
            want, num = {"client": ("client_start", 1), "server": ("server_start", 2), "next": ("next", 3)}[kind]
            E.ob(s1, and_(eq(f["$req_oneof"], num), not_(f[want].null) if f[want].val is not None else False), "the request is a %s message" % want, "post", fn)
            if f[want].val is None:
                continue
            m = f[want].val.f
            if kind == "next":
                E.ob(s1, not_(nobytes), "a next message needs bytes from the peer", "post", fn)
                E.ob(s1, same_bytes(m["in_bytes"], buf.get, buf.n), "exactly the peer's bytes", "post", fn)
            else:
                E.ob(s1, vok, "unsupported TLS versions are refused", "post", fn)
                ap = m["application_protocols"]
                E.ob(s1, and_(eq(ap.n, 1), str_eq(ap.get(0), fld(old, "application_protocol_"))), "the configured application protocol", "post", fn)
                E.ob(s1, and_(eq(m["min_tls_version"], G["min_tls_version"]), eq(m["max_tls_version"], G["max_tls_version"])), "the configured TLS versions", "post", fn)
                cs = m["tls_ciphersuites"]
                s2 = s1.assume(le(0, j), lt(j, sup.n))
                E.ob(s1, eq(cs.n, sup.n), "as many ciphersuites as configured", "post", fn)
                E.ob(s2, eq(cs.get(j), sup.get(j)), "the configured ciphersuites in order", "post", fn)
                E.ob(s2, good(j), "an unsupported ciphersuite is refused", "post", fn)
                k = fresh_int("skid")
                if kind == "client":
                    E.ob(s1, nobytes, "a client start with bytes from the peer is refused", "post", fn)
                    E.ob(s1, str_eq(m["target_name"], fld(old, "target_hostname_")), "the configured target name", "post", fn)
                    same_ids(E, s1, fn, m["target_identities"], TGT, "target")
                    E.ob(s1, le(LOC["n"], 1), "more than one local identity is refused", "post", fn)
                    l = m["local_identity"]
                    E.ob(s1, eq(l.null, eq(LOC["n"], 0)), "a local identity exactly when one is configured", "post", fn)
                    if l.val is not None:
                        E.ob(s1.assume(eq(LOC["n"], 1)), is_ident_code(l.val, app(LOC["K"], 0)), "the configured local identity", "post", fn)
                else:
                    same_ids(E, s1, fn, m["local_identities"], LOC, "local")
                    E.ob(s1, same_bytes(m["in_bytes"], buf.get, ite(bnull, 0, buf.n)), "exactly the peer's bytes", "post", fn)
            auth_post(E, s1, fn, f["auth_mechanisms"], old, new, G)
    return E


def same_bytes(a, get, n):
    j = fresh_int("skj")
    return and_(eq(a.n, n), implies(and_(le(0, j), lt(j, n)), eq(a.get(j), get(j))))


def is_ident_code(m, c):
    return msg_is_ident(m, mod(c, 4), atom_str(div(c, 4)))


def same_ids(E, st, fn, a, info, what):
    k = fresh_int("skid")
    E.ob(st, eq(a.n, info["n"]), "as many %s identities as configured" % what, "post", fn)
    s = st.assume(le(0, k), lt(k, info["n"]))
    E.ob(s, is_ident_code(a.get(k), app(info["K"], k)), "exactly the configured %s identities" % what, "post", fn)


def cache_inv(E, st, v, fn):
    c = fresh_int("skkey")
    m = fld(v, "token_cache_")
    mgr = fld(v, "token_manager_")
    s = st.assume(m.f["has"].get(c))
    E.ob(s, app(ISS, c, m.f["val"].get(c).atom), "every cached token was issued for its identity", "post", fn, ("P18",))
    E.ob(st, implies(mgr.null, eq(m.f["n"], 0)), "nothing is cached without a token manager", "post", fn, ("P18",))


def auth_post(E, st, fn, A, old, new, G):
    """The authentication entries of a request (P18)."""
    P18 = ("P18",)
    ob = lambda s, g, nm: E.ob(s, g, nm, "post", fn, P18)
    mgr = fld(old, "token_manager_")
    sel = fld(old, "selected_local_identity_")
    L = G["local_identities"]
    ob(st, implies(mgr.null, eq(A.n, 0)), "no entry without a token manager")
    en = st.ghost.get("mapenum", ())
    if not en:
        raise Unsupported("the token cache is not enumerated")
    has, val, cell, K, Pos, _, full = en[-1]
    i = fresh_int("skentry")
    c = app(K, i)
    s = st.assume(le(0, i), lt(i, A.n))
    if E.feasible(s):
        e = A.get(i)
        one = [x for x in E.schema["AuthenticationMechanism"].values() if x.name == "token"][0]
        tok = e.f[one.slot]
        named = not_(e.f["identity"].null)
        ob(s, eq(e.f["$" + one.oneof], one.num), "an entry carries a token")
        ob(s, eq(named, ne(mod(c, 4), NONE)), "only the default token has no identity")
        if e.f["identity"].val is not None:
            ob(s.assume(named), is_ident_code(e.f["identity"].val, c), "an entry names the identity the token is for")
        if tok.atom is None or isinstance(tok.atom, tuple):
            raise Unsupported("token without a name")
        ob(s, app(ISS, c, tok.atom), "the token was issued for the entry's identity")
    # which identities
    x = fresh_int("skwho")
    present = and_(has.get(x), le(0, app(Pos, x)), lt(app(Pos, x), A.n), eq(app(K, app(Pos, x)), x))
    ob(st.assume(has.get(x)), present, "one entry per identity with a token")
    oldhas = fld(old, "token_cache_").f["has"].get
    empty = add(mul(4, lit_atom(b"")), NONE)
    chosen = and_(not_(mgr.null), eq(sel.idx, 1))
    scode = code(sel.alts[1])
    sites = list(E.sites.values())
    can = lambda z: or_(*[app(OK, z) for OK, _, _ in sites])
    everysite = lambda z: and_(*[app(OK, z) for OK, _, _ in sites])
    s2 = st.assume(chosen)
    if sites:
        ob(s2.assume(everysite(scode)), implies(and_(has.get(x), full(x), full(scode)), eq(x, scode)), "the chosen identity's token only")
        ob(s2.assume(everysite(scode)), has.get(scode), "the chosen identity's token is sent")
        s3 = st.assume(not_(mgr.null), ne(sel.idx, 1))
        ob(s3.assume(has.get(x)), or_(oldhas(x), and_(app(L["M"], x), can(x)), and_(eq(L["n"], 0), eq(x, empty), can(x))), "no entry for an identity without a token")
        ob(s3.assume(app(L["M"], x), everysite(x), L["full"](x)), has.get(x), "an entry for every local identity whose token can be fetched")
        ob(s3.assume(eq(L["n"], 0), everysite(empty)), has.get(empty), "the default token without local identities")


# -- creation -----------------------------------------------------------------------
def create():
    """Create: refuses a missing logger or missing options; otherwise the initial state with exactly the given configuration."""
    E, t = engine("Create", ("P17", "P18", "P19"))
    install_map(E)
    fn = find1(t, PX + "::Create")
    st = State()
    o = E.sym(Ty("rec", name=PX + "::S2AProxyOptions"), "opts", tu=t)
    ol = E.alloc(st, "opts", o)
    bad = or_(o.f["logger"].null, o.f["options"].null)
    for v, s in E.call(fn, t, None, [ol], st):
        v, s = E.rv(v, s)
        for b, s1 in E.branch(s, bad):
            if b:
                E.ob(s1, v.null, "no proxy without logger or options", "post", fn)
                continue
            E.ob(s1, not_(v.null) if v.val is not None else False, "a proxy is created", "post", fn)
            if v.val is None:
                continue
            x = v.val
            for a in ("logger", "is_client", "application_protocol", "target_hostname", "channel_factory", "channel_options", "token_manager"):
                E.ob(s1, deep_eq(fld(x, a + "_"), o.f[a]), "the proxy keeps its " + a, "post", fn)
            y, z_ = fld(x, "options_"), o.f["options"]
            E.ob(s1, and_(not_(y.null), y.val is z_.val), "the proxy keeps its options", "post", fn)
            E.ob(s1, and_(fld(x, "is_first_message_"), not_(fld(x, "is_handshake_finished_"))), "the handshake has not begun", "post", fn)
            E.ob(s1, and_(fld(x, "result_").null, fld(x, "context_").null), "no result yet", "post", fn)
            E.ob(s1, ne(fld(x, "selected_local_identity_").idx, 1), "no identity chosen yet", "post", fn)
            m = fld(x, "token_cache_")
            c = fresh_int("skkey")
            E.ob(s1, and_(eq(m.f["n"], 0), not_(m.f["has"].get(c))), "no token cached yet", "post", fn)
    return E
