"""Contracts of S2AOptions / Identity (P22) and the environment token manager (P25).

The abstract state of an options object is what its getters report; every setter's contract is
stated over the getters before and after the call (frame included), so it does not depend on how
the class stores its values.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, SIZE, STR
from cppvc.terms import *
from cppvc.values import *
from cppvc.engine import Engine, Frame, flatv

OPT = "s2a::s2a_options::S2AOptions"
ID = OPT + "::Identity"
NONE, SPIFFE, HOST, UID = range(4)
GETTERS = ("min_tls_version", "max_tls_version", "s2a_address", "supported_ciphersuites", "local_identities", "target_identities")


def engine(func, props):
    t = tu("src/options/s2a_options.cc", "openssl")
    E = Engine([t])
    E.func, E.props = func, props
    E.frames.append(Frame(t, None))
    return E, t


def call1(E, t, q, this, args, st, np=None):
    """Single-path call of a function of the code."""
    fn = find1(t, q, np)
    r = E.call(fn, t, this, args, st)
    if len(r) != 1:
        raise Unsupported("%s has several outcomes" % q)
    return r[0]


def observe(E, t, lv, st):
    o = {}
    for g in GETTERS:
        v, st = call1(E, t, OPT + "::" + g, lv, [], st)
        o[g], st = E.rv(v, st)
    return o, st


def ident(E, t, lv, st):
    ty, st = call1(E, t, ID + "::GetIdentityType", lv, [], st)
    s, st = call1(E, t, ID + "::GetIdentityString", lv, [], st)
    ty, st = E.rv(ty, st)
    s, st = E.rv(s, st)
    return ty, s, st


def mkident(E, t, st, ty, s, name="id"):
    """An identity with the given type and string (built by the code's own private constructor)."""
    for f, k in (("FromSpiffeId", SPIFFE), ("FromHostname", HOST), ("FromUid", UID)):
        if ty == k:
            l = E.alloc(st, "s", s, STR)
            v, st = call1(E, t, ID + "::" + f, None, [l], st)
            v, st = E.rv(v, st)
            return v, st
    v, st = call1(E, t, ID + "::GetEmptyIdentity", None, [], st)
    v, st = E.rv(v, st)
    return v, st


def samevec(a, b):
    j = fresh_int("skj")
    return and_(eq(a.n, b.n), implies(and_(le(0, j), lt(j, a.n)), eq(a.get(j), b.get(j))))


def sameset(E, st, a, b):
    """Equal membership for an arbitrary identity."""
    y = E.sym(Ty("rec", name=ID), fresh_name("anyid"))
    return eq(a.mem(y), b.mem(y))


def obs_eq(E, st, g, a, b):
    if g == "supported_ciphersuites":
        return samevec(a, b)
    if g.endswith("identities"):
        return and_(sameset(E, st, a, b), eq(a.n, b.n))
    return val_eq(a, b)


def frame(E, st, fn, before, after, but, what):
    for g in GETTERS:
        if g not in but:
            E.ob(st, obs_eq(E, st, g, before[g], after[g]), "%s leaves %s unchanged" % (what, g), "post", fn)


def identities():
    E, t = engine("Identity", ("P22",))
    st = State()
    x, y = fresh_str("x"), fresh_str("y")
    made = []
    for f, k in (("FromSpiffeId", SPIFFE), ("FromHostname", HOST), ("FromUid", UID)):
        E.func = "Identity::" + f
        fn = find1(t, ID + "::" + f)
        l = E.alloc(st, "s", x, STR)
        for v, s in E.call(fn, t, None, [l], st):
            v, s = E.rv(v, s)
            o = E.alloc(s, "id", v)
            ty, sv, s = ident(E, t, o, s)
            E.ob(s, and_(eq(ty, k), val_eq(sv, x)), "identity has the type and string it was made from", "post", fn)
            p, s = call1(E, t, ID + "::GetIdentityCString", o, [], s)
            p, s = E.rv(p, s)
            ok = isinstance(p, Ptr) and p.off == 0 and isinstance(s.load(p.lv), Arr) and s.load(p.lv).kind == "str"
            E.ob(s, and_(bool(ok), not_(p.null), val_eq(s.load(p.lv), x)) if ok else False, "C string points at the identity string", "post", fn)
    E.func = "Identity::GetEmptyIdentity"
    fn = find1(t, ID + "::GetEmptyIdentity")
    for v, s in E.call(fn, t, None, [], st):
        v, s = E.rv(v, s)
        ty, sv, s = ident(E, t, E.alloc(s, "id", v), s)
        E.ob(s, and_(eq(ty, NONE), eq(sv.n, 0)), "empty identity", "post", fn)
    rec = Ty("rec", name=ID)
    a, b = E.sym(rec, "a"), E.sym(rec, "b")
    st = State()
    al, bl = E.alloc(st, "a", a), E.alloc(st, "b", b)
    ta, sa, st = ident(E, t, al, st)
    tb, sb, st = ident(E, t, bl, st)
    E.func = "Identity::operator=="
    fn = find1(t, ID + "::operator==")
    same_ = and_(eq(ta, tb), val_eq(sa, sb))
    for v, s in E.call(fn, t, al, [bl], st):
        v, s = E.rv(v, s)
        E.ob(s, eq(v, same_), "equal exactly when type and string are equal", "post", fn)
    E.func = "Identity::Identity(copy)"
    fn = find1(t, ID + "::Identity", 1)
    s0 = st.copy()
    ol = E.alloc(s0, "copy", E.default(rec))
    for v, s in E.call(fn, t, ol, [al], s0):
        tc, sc, s = ident(E, t, ol, s)
        E.ob(s, and_(eq(tc, ta), val_eq(sc, sa)), "copy equals the original", "post", fn)
        t2, s2, s = ident(E, t, al, s)
        E.ob(s, and_(eq(t2, ta), val_eq(s2, sa)), "original unchanged", "post", fn)
    E.func = "AbslHashValue"
    fns = [f for f in t.find("s2a::s2a_options::AbslHashValue") if "MixingHashState" in f["type"]["qualType"]]
    if len(fns) != 1:
        raise Unsupported("hash function")

    def combine(E, this, vals, st, n):
        vs, st = E.rvs(vals, st)
        fl = [x for v in vs for x in flatv(v)]
        return [(Op(app(uf("hashcombine", len(fl)), *fl), False, "hash"), st)]
    E.hooks["combine"] = E.hooks["combine_contiguous"] = combine
    h0 = Op(fresh_int("h0"), False, "hash")
    for v, s in E.call(fns[0], t, None, [h0, al], st):
        v, s = E.rv(v, s)
        for w, s2 in E.call(fns[0], t, None, [h0, bl], s):
            w, s2 = E.rv(w, s2)
            E.ob(s2, implies(same_, eq(v.id, w.id)), "equal identities hash equally", "post", fns[0])
    return E


def sym_opts(E, t, st, name="this"):
    o = E.sym(Ty("rec", name=OPT), name, tu=t)
    return E.alloc(st, name, o)


def setters():
    E, t = engine("S2AOptions", ("P22",))
    st = State()
    fnd = lambda q: find1(t, OPT + "::" + q)
    # construction
    E.func = "S2AOptions::S2AOptions"
    th = E.alloc(st, "fresh", E.default(Ty("rec", name=OPT), tu=t))
    o, s = observe(E, t, th, st)
    E.ob(s, and_(eq(o["supported_ciphersuites"].n, 0), eq(o["local_identities"].n, 0), eq(o["target_identities"].n, 0), eq(o["s2a_address"].n, 0)), "a new object has nothing configured", "post")
    y = E.sym(Ty("rec", name=ID), "anyid0")
    E.ob(s, and_(not_(o["local_identities"].mem(y)), not_(o["target_identities"].mem(y))), "a new object has no identities", "post")

    def each(name, args, but):
        st = State()
        th = sym_opts(E, t, st)
        before, st = observe(E, t, th, st)
        E.func = "S2AOptions::" + name
        fn = fnd(name)
        av = [a(st) for a in args]
        for v, s in E.call(fn, t, th, [x[0] for x in av], st):
            after, s = observe(E, t, th, s)
            frame(E, s, fn, before, after, but, name)
            yield fn, s, before, after, [x[1] for x in av]

    def en(nm):
        def f(st):
            v = E.sym_int(Ty("enum", name=OPT + "::TlsVersion"), nm)
            return v, v
        return f

    def sref(nm):
        def f(st):
            v = fresh_str(nm)
            return E.alloc(st, nm, v, STR), v
        return f
    for nm in ("min_tls_version", "max_tls_version"):
        for fn, s, b, a, (x,) in each("set_" + nm, [en("v")], (nm,)):
            E.ob(s, eq(a[nm], x), nm + " is the value set", "post", fn)
    for fn, s, b, a, (x,) in each("set_s2a_address", [sref("addr")], ("s2a_address",)):
        E.ob(s, val_eq(a["s2a_address"], x), "address is the value set", "post", fn)
    for fn, s, b, a, (x,) in each("add_supported_ciphersuite", [en("c")], ("supported_ciphersuites",)):
        u, w = b["supported_ciphersuites"], a["supported_ciphersuites"]
        j = fresh_int("skj")
        E.ob(s, and_(eq(w.n, add(u.n, 1)), eq(w.get(u.n), x), implies(and_(le(0, j), lt(j, u.n)), eq(w.get(j), u.get(j)))), "ciphersuite appended, duplicates kept", "post", fn)
    for side in ("local", "target"):
        for kind, k in (("spiffe_id", SPIFFE), ("hostname", HOST), ("uid", UID)):
            g = side + "_identities"
            for fn, s, b, a, (x,) in each("add_%s_%s" % (side, kind), [sref("id")], (g,)):
                nw, s = mkident(E, t, s, k, x)
                y = E.sym(Ty("rec", name=ID), fresh_name("anyid"))
                E.ob(s, eq(a[g].mem(y), or_(b[g].mem(y), val_eq(y, nw))), "%s set gains exactly that identity" % side, "post", fn)
    # getters do not modify: observing twice gives the same
    st = State()
    th = sym_opts(E, t, st)
    o0 = st.load(th)
    o1, s = observe(E, t, th, st)
    E.func = "S2AOptions getters"
    E.ob(s, s.load(th) is o0, "getters leave the object unchanged", "post")
    return E


def copy():
    E, t = engine("S2AOptions::Copy", ("P22",))
    st = State()
    th = sym_opts(E, t, st)
    before, st = observe(E, t, th, st)
    fn = find1(t, OPT + "::Copy")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        E.ob(s, not_(v.null), "copy exists", "post", fn)
        cl = E.alloc(s, "copy", v.val)
        c, s = observe(E, t, cl, s)
        a, s = observe(E, t, th, s)
        for g in GETTERS:
            E.ob(s, obs_eq(E, s, g, c[g], before[g]), "copy reports the same " + g, "post", fn)
            E.ob(s, obs_eq(E, s, g, a[g], before[g]), "original's %s unchanged" % g, "post", fn)
        E.ob(s, not shares(s.load(cl)), "copy holds values, no pointer into the original", "post", fn)
    return E


def shares(v):
    if isinstance(v, (Ptr, PV, LV, Op)):
        return True
    if isinstance(v, Struct):
        return any(shares(x) for x in v.f.values())
    if isinstance(v, UPtr):
        return v.val is not None and shares(v.val)
    return False


# -- token manager (P25) -------------------------------------------------------
TM = "s2a::token_manager::SingleTokenAccessTokenManager"


def token():
    t = tu("src/token_manager/single_token_access_token_manager.cc", "openssl")
    E = Engine([t])
    E.func, E.props = TM, ("P25",)
    E.frames.append(Frame(t, None))
    env = fresh_int("envvalue")
    unset = fresh_bool("unset")
    reads = []

    def getenv(E, this, vals, st, n):
        p, st = E.rv(vals[0], st)
        from cppvc.models import str_of
        nm = str_of(E, p, st)
        E.ob(st, eq(nm.atom, lit_atom(b"S2A_ACCESS_TOKEN")), "reads the access-token variable", "post", n)
        st = st.copy()
        c = E.alloc(st, "envstr", Arr(CHARTY, app(STRLEN, env), lambda i: app(STRBYTE, env, i), "cstr", atom=env))
        st.ghost["reads"] = st.ghost.get("reads", 0) + 1
        return [(Ptr(unset, c, 0), st)]
    E.hooks["getenv"] = getenv
    E.hooks["secure_getenv"] = getenv
    fnb = find1(t, "s2a::token_manager::BuildAccessTokenManager")
    st = State()
    E.func = "BuildAccessTokenManager"
    ident = E.alloc(st, "identity", Op(fresh_int("anyid"), False, "identity"))
    for v, s in E.call(fnb, t, None, [], st):
        v, s = E.rv(v, s)
        E.ob(s, and_(eq(v.idx, 1), not_(v.alts[1].null) if v.alts[1] is not None else False), "a manager is returned", "post", fnb)
        E.ob(s, s.ghost.get("reads", 0) >= 1, "the variable is read at creation", "post", fnb)
        if v.alts[1] is None or v.alts[1].val is None:
            continue
        obj = E.alloc(s, "mgr", v.alts[1].val)
        state0 = s.load(obj)
        for g, args in (("GetDefaultToken", []), ("GetToken", [ident])):
            E.func = TM + "::" + g
            fn = find1(t, TM + "::" + g)
            for r, s1 in E.call(fn, t, obj, args, s):
                r, s1 = E.rv(r, s1)
                E.ob(s1, s1.load(obj) is state0, "the manager is not changed by a request", "post", fn)
                E.ob(s1, s1.ghost.get("reads", 0) == s.ghost.get("reads", 0), "the environment is not consulted again", "post", fn)
                for b, s2 in E.branch(s1, unset):
                    if b:
                        E.ob(s2, and_(eq(r.idx, 0), eq(r.alts[0].code, 5) if r.alts[0] is not None else False), "not-found when created with the variable unset", "post", fn)
                    else:
                        E.ob(s2, and_(eq(r.idx, 1), val_eq(r.alts[1], atom_str(env)) if r.alts[1] is not None else False), "the token it was created with", "post", fn)
    return E
