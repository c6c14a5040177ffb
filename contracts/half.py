"""Contracts of S2AHalfConnection (P05, P06, P07, P24) and CiphersuiteToHashFunction.

Callee contracts used (each proved in hkdf.py / aead.py / below): HkdfDeriveSecret writes
HKDF-Expand(hash, prk, info), named xp(id, .) for a recorded derivation id; CreateXxxAeadCrypter
returns a crypter holding the given key; S2AAeadCrypter::Encrypt/Decrypt take the nonce they are
given.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE
from cppvc.terms import *
from cppvc.values import *
from cppvc.engine import Engine, Pieces, Frame, Obl
from .evp import libfail

XP = uf("xp", 2)
NS = "s2a::record_protocol::S2AHalfConnection"
AEAD = "s2a::aead_crypter::S2AAeadCrypter"
V8 = Ty("vec", [U8])
AES, CHACHA = 1, 3
GUARDED = ("sequence_", "has_sequence_overflowed_", "always_fail_aead_operations_", "nonce_", "traffic_secret_", "aead_crypter_")
SUITE = {"AES_128_GCM_SHA256": 0, "AES_256_GCM_SHA384": 1, "CHACHA20_POLY1305_SHA256": 2}


def sec_size(cs):
    return ite(eq(cs, 1), 48, 32)


def key_size(cs):
    return ite(eq(cs, 0), 16, 32)


def guard(cls, fields, mutex, excepted=()):
    """Callback: guarded members are only touched while the mutex is held (or during construction)."""
    def f(E, st, lv, name, n):
        if name not in fields or not lv.cell.startswith("this") or len(lv.path) > 1:
            return
        fn = E.frames[-1].fn
        if fn is not None and fn.get("kind") in ("CXXConstructorDecl", "CXXDestructorDecl"):
            return
        mus = [k for k, x in E.fields(cls) if x.k == "mutex"]
        mu = mutex if mutex in mus else mus[0] if len(mus) == 1 else None
        if mu is None:
            raise Unsupported("the lock that guards " + name)
        held = any(l.cell == lv.cell and l.path[-1:] == (("f", mu),) for l in st.locks)
        E.ob(st, held, "%s accessed with %s held" % (name, mu), "lock", n, ("P24",))
    return f


def hkdf_hook(E, this, vals, st, n):
    h, st = E.rv(vals[0], st)
    lv = []
    for v in vals[1:]:
        l, st = E.as_lv(v, st)
        lv.append(l)
    prk, info, out = (st.load(l) for l in lv)
    ds = ite(eq(h, 0), 32, 48)
    good = and_(le(0, h), le(h, 1), le(ds, prk.n), le(out.n, ite(eq(h, 0), 32 * 255, 48 * 255)))
    res = []
    for b, s in E.branch(st, good):
        if not b:
            res.append((Status(3), s))
            continue
        nm = fresh_name("garb")
        f = libfail(s.copy())
        f.store(lv[2], Arr(U8, out.n, lambda j: E.sym_int(U8, nm, (j,)), out.kind))
        res.append((Status(13), f))
        i = fresh_int("xpid")
        s = s.copy()
        s.store(lv[2], Arr(U8, out.n, lambda j: app(XP, i, j), out.kind))
        s.ghost["derivs"] = s.ghost.get("derivs", ()) + ((i, h, prk, info, out.n),)
        res.append((Status(0), s))
    return res


def create_hook(kind):
    def f(E, this, vals, st, n):
        l, st = E.as_lv(vals[0], st)
        key = st.load(l)
        ok = or_(eq(key.n, 16), eq(key.n, 32)) if kind == AES else eq(key.n, 32)
        res = []
        for b, s in E.branch(st, ok):
            if not b:
                res.append((Variant(0, [Status(9), None]), s))
                continue
            res.append((Variant(0, [Status(13), None]), libfail(s.copy())))
            o = crypter(E, kind, key)
            res.append((Variant(1, [None, UPtr(False, o, Ty("rec", name=AEAD))]), s))
        return res
    return f


def crypter(E, kind, key):
    return Struct(AEAD, {"key_length_": key.n, "nonce_length_": 12, "tag_length_": 16, "$kind": kind, "$key": key})


def op_hook(direction):
    def f(E, this, vals, st, n):
        l, st = E.as_lv(vals[0], st)
        nonce = st.load(l)
        rest = []
        for v in vals[1:]:
            if isinstance(v, LV):
                rest.append(v)
            else:
                x, st = E.rv(v, st)
                rest.append(x)
        s = st.copy()
        code, bw = fresh_int("opcode"), fresh_int("opbytes")
        s.add(le(0, code), le(code, 16), le(0, bw), implies(ne(code, 0), eq(bw, 0)))
        s.ghost["ops"] = s.ghost.get("ops", ()) + ((direction, nonce, rest, s.load(this), code, bw),)
        r = Struct(AEAD + "::CrypterStatus", {"status_": Status(code), "bytes_written_": bw})
        return [(r, s)]
    return f


def install(E):
    H = E.hooks
    E.ax.on("xp", lambda *p: and_(le(0, app(XP, *p)), le(app(XP, *p), 255)))
    H["s2a::hkdf::HkdfDeriveSecret"] = hkdf_hook
    H["s2a::aead_crypter::CreateAesGcmAeadCrypter"] = create_hook(AES)
    H["s2a::aead_crypter::CreateChachaPolyAeadCrypter"] = create_hook(CHACHA)
    H[AEAD + "::Encrypt"] = op_hook(1)
    H[AEAD + "::Decrypt"] = op_hook(2)
    H[AEAD + "::TagLength"] = lambda E, this, vals, st, n: [(16, st)]


def engine(func, props):
    t = tu("src/record_protocol/s2a_half_connection.cc", "openssl")
    E = Engine([t, tu("src/record_protocol/s2a_crypter_util.cc", "openssl"), tu("src/crypto/s2a_aead_crypter.cc", "openssl")])
    E.func, E.props = "S2AHalfConnection::" + func, props
    E.frames.append(Frame(t, None))
    install(E)
    return E, t


def label(text, n):
    b = [0x06 + len(text)] + list(b"tls13 " + text) + [0]
    return lambda j: _sel([div(n, 256), mod(n, 256)] + b, j), 2 + len(b)


def _sel(l, j):
    r = l[-1]
    for k in range(len(l) - 2, -1, -1):
        r = ite(eq(j, k), l[k], r)
    return r


def derived(E, st, got, n, cs, secret, text):
    """got[0..n) is HKDF-Expand-Label(secret, text, "", n) under the hash of cs."""
    out = []
    lab, ll = label(text, n)
    for (i, h, prk, info, m) in st.ghost.get("derivs", ()):
        j = fresh_int("skj")
        c = [eq(h, ite(eq(cs, 1), 1, 0)), eq(prk.n, secret.n), eq(m, n), eq(got.n, n), eq(info.n, ll),
             implies(and_(le(0, j), lt(j, prk.n)), eq(prk.get(j), secret.get(j))),
             implies(and_(le(0, j), lt(j, n)), eq(got.get(j), app(XP, i, j)))]
        c += [eq(info.get(k), lab(k)) for k in range(ll)]
        out.append(and_(*c))
    return or_(*out)


def wf(E, obj, cs):
    """Class invariant of a half connection (established by Create, kept by every method)."""
    f = obj.f
    return and_(le(0, cs), le(cs, 2), eq(f["key_size_"], key_size(cs)), eq(f["nonce_"].n, 12),
                eq(f["traffic_secret_"].n, sec_size(cs)))


def sym_obj(E, st):
    cs = fresh_int("suite")
    nonce, sec = E.sym(V8, "iv"), E.sym(V8, "secret")
    key = E.sym(V8, "key0")
    kind = ite(eq(cs, 2), CHACHA, AES)
    f = {}
    for nm, ft in E.fields(NS, E.tus[0]):
        if nm == "ciphersuite_":
            f[nm] = cs
        elif nm == "nonce_":
            f[nm] = nonce
        elif nm == "traffic_secret_":
            f[nm] = sec
        elif nm == "aead_crypter_":
            f[nm] = UPtr(fresh_bool("nocrypter"), crypter(E, kind, key), ft.elem)
        elif nm == "mu_":
            f[nm] = Struct("absl::Mutex", {})
        else:
            f[nm] = E.sym(ft, "this." + nm)
    o = Struct(NS, f)
    th = E.alloc(st, "this", o)
    st.add(wf(E, o, cs), eq(key.n, key_size(cs)))
    return th, o, cs


def same_arr(a, b):
    j = fresh_int("skj")
    return and_(eq(a.n, b.n), implies(and_(le(0, j), lt(j, a.n)), eq(a.get(j), b.get(j))))


def same_crypter(a, b):
    if a.val is None or b.val is None:
        return and_(a.null, b.null)
    return and_(eq(a.null, b.null), or_(a.null, and_(eq(a.val.f["$kind"], b.val.f["$kind"]), same_arr(a.val.f["$key"], b.val.f["$key"]))))


def unchanged(o, o2, names):
    c = []
    for nm in names:
        a, b = o.f[nm], o2.f[nm]
        if isinstance(a, Arr):
            c.append(same_arr(a, b))
        elif isinstance(a, UPtr):
            c.append(same_crypter(a, b))
        else:
            c.append(eq(a, b))
    return and_(*c)


def create():
    E, t = engine("Create", ("P05",))
    st = State()
    st.ghost["libfail"] = False
    cs = fresh_int("suite")
    st.add(le(0, cs), le(cs, 255))
    seq = E.sym_int(Ty("int", n=(64, False)), "seq")
    sec = E.sym(V8, "secret")
    sl = E.alloc(st, "traffic_secret", sec, V8)
    fn = find1(t, NS + "::Create")
    good = and_(le(cs, 2), eq(sec.n, sec_size(cs)))
    for v, s in E.call(fn, t, None, [cs, seq, sl], st):
        v, s = E.rv(v, s)
        for b, s1 in E.branch(s, eq(v.idx, 1)):
            if not b:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is reported as an error", "post", fn)
                E.ob(s1, or_(not_(good), s1.ghost["libfail"]), "fails only for an unsupported suite or wrong secret length (or library failure)", "post", fn)
                continue
            E.ob(s1, good, "succeeds only for a supported suite and its secret length", "post", fn)
            u = v.alts[1]
            E.ob(s1, not_(u.null), "connection non-null", "post", fn)
            f = u.val.f
            E.ob(s1, wf(E, u.val, cs), "class invariant established", "post", fn, ("P05", "P06", "P07"))
            E.ob(s1, eq(f["ciphersuite_"], cs), "ciphersuite stored", "post", fn)
            E.ob(s1, and_(eq(f["sequence_"], seq), not_(f["has_sequence_overflowed_"]), not_(f["always_fail_aead_operations_"])),
                 "numbering starts at the given sequence", "post", fn, ("P05", "P06"))
            E.ob(s1, same_arr(f["traffic_secret_"], sec), "traffic secret stored", "post", fn, ("P05", "P07"))
            post_keys(E, s1, f, cs, sec, fn, ("P05",))
    return E


def post_keys(E, s1, f, cs, sec, fn, props):
    a = f["aead_crypter_"]
    E.ob(s1, not_(a.null), "crypter present", "post", fn, props)
    if a.val is None:
        return
    E.ob(s1, eq(a.val.f["$kind"], ite(eq(cs, 2), CHACHA, AES)), "cipher of the suite", "post", fn, props)
    E.ob(s1, derived(E, s1, a.val.f["$key"], key_size(cs), cs, sec, b"key"), "key is HKDF-Expand-Label(secret, \"key\")", "post", fn, props)
    E.ob(s1, derived(E, s1, f["nonce_"], 12, cs, sec, b"iv"), "IV is HKDF-Expand-Label(secret, \"iv\")", "post", fn, props)


def update_key():
    E, t = engine("UpdateKey", ("P07",))
    st = State()
    st.ghost["libfail"] = False
    th, o, cs = sym_obj(E, st)
    E.guarded = guard(NS, GUARDED, "mu_")
    fn = find1(t, NS + "::UpdateKey")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        f = s.load(th).f
        for b, s1 in E.branch(s, eq(v.code, 0)):
            if not b:
                E.ob(s1, f["always_fail_aead_operations_"], "a failed update disables the direction", "post", fn)
                E.ob(s1, s1.ghost["libfail"], "an update fails only when the library fails", "post", fn)
                E.ob(s1, and_(eq(f["nonce_"].n, 12), eq(f["traffic_secret_"].n, sec_size(cs)), eq(f["key_size_"], key_size(cs))), "class invariant kept", "post", fn)
                continue
            E.ob(s1, wf(E, s1.load(th), cs), "class invariant kept", "post", fn)
            E.ob(s1, derived(E, s1, f["traffic_secret_"], sec_size(cs), cs, o.f["traffic_secret_"], b"traffic upd"),
                 "new secret is HKDF-Expand-Label(old, \"traffic upd\")", "post", fn)
            post_keys(E, s1, f, cs, f["traffic_secret_"], fn, ("P07",))
            E.ob(s1, and_(eq(f["sequence_"], 0), not_(f["has_sequence_overflowed_"])), "numbering restarts at zero", "post", fn, ("P07", "P06"))
            E.ob(s1, eq(f["always_fail_aead_operations_"], o.f["always_fail_aead_operations_"]), "a disabled direction stays disabled", "post", fn)
            E.ob(s1, eq(f["ciphersuite_"], cs), "ciphersuite unchanged", "post", fn)
    return E


def op(which):
    E, t = engine(which, ("P06",))
    st = State()
    st.ghost["libfail"] = False
    th, o, cs = sym_obj(E, st)
    E.guarded = guard(NS, GUARDED, "mu_")
    iov = parse("s2a::aead_crypter::Iovec", t)
    aad, txt = Pieces(E, "aad"), Pieces(E, "text")
    al = E.alloc(st, "aad", aad.iovecs(iov), Ty("vec", [iov]))
    pl = E.alloc(st, "text", txt.iovecs(iov), Ty("vec", [iov]))
    bl = E.alloc(st, "buf", Arr(U8, E.sym_int(SIZE, "bufLen"), lambda j: E.sym_int(U8, "buf", (j,)), "arr"), Ty("arr", [U8]))
    out = Struct(iov.name, {"iov_base": Ptr(False, bl, 0), "iov_len": E.sym_int(SIZE, "bufLen")})
    fn = find1(t, NS + "::" + which)
    bad = or_(o.f["aead_crypter_"].null, o.f["always_fail_aead_operations_"], o.f["has_sequence_overflowed_"])
    seq, iv = o.f["sequence_"], o.f["nonce_"]
    for v, s in E.call(fn, t, th, [al, pl, out], st):
        v, s = E.rv(v, s)
        from .aead import status_of
        code, bw = status_of(v)
        f = s.load(th).f
        ops = s.ghost.get("ops", ())
        for b, s1 in E.branch(s, bad):
            if b:
                E.ob(s1, and_(ne(code, 0), eq(bw, 0), len(ops) == 0), "an unusable direction performs no operation and reports an error", "post", fn, ("P06", "P07"))
                E.ob(s1, unchanged(o, s1.load(th), GUARDED), "state unchanged", "post", fn)
                continue
            E.ob(s1, len(ops) == 1, "exactly one AEAD operation", "post", fn)
            if len(ops) != 1:
                continue
            d, nonce, rest, cr, ocode, obw = ops[0]
            E.ob(s1, d == (1 if which == "Encrypt" else 2), "operation matches the direction", "post", fn)
            E.ob(s1, and_(eq(cr.f["$kind"], o.f["aead_crypter_"].val.f["$kind"]), same_arr(cr.f["$key"], o.f["aead_crypter_"].val.f["$key"])), "current key used", "post", fn, ("P06", "P07", "P05"))
            E.ob(s1, eq(nonce.n, 12), "nonce length", "post", fn)
            for k in range(12):
                want = iv.get(k) if k < 4 else E.xor8(iv.get(k), mod(div(seq, 2 ** (8 * (11 - k))), 256))
                E.ob(s1, eq(nonce.get(k), want), "nonce byte %d is IV xor sequence number" % k, "post", fn)
            ok = isinstance(rest[0], LV) and s1.load(rest[0]) is s1.load(al) and isinstance(rest[1], LV) and s1.load(rest[1]) is s1.load(pl)
            E.ob(s1, bool(ok), "associated data and input passed unchanged", "post", fn)
            o3 = rest[2] if not isinstance(rest[2], LV) else s1.load(rest[2])
            bp = o3.f["iov_base"]
            E.ob(s1, and_(isinstance(bp, Ptr) and bp.lv.cell == bl.cell, eq(bp.off, 0), eq(o3.f["iov_len"], out.f["iov_len"])), "output buffer passed unchanged", "post", fn)
            E.ob(s1, and_(eq(code, ocode), eq(bw, obw)), "result of the operation returned", "post", fn)
            nx = ite(eq(seq, 2 ** 64 - 1), 0, add(seq, 1))
            E.ob(s1, eq(f["sequence_"], nx), "sequence number advances by one, whether or not the operation succeeds", "post", fn)
            E.ob(s1, eq(f["has_sequence_overflowed_"], eq(seq, 2 ** 64 - 1)), "exhaustion latched after the last sequence number", "post", fn)
            E.ob(s1, unchanged(o, s1.load(th), ("nonce_", "traffic_secret_", "always_fail_aead_operations_", "aead_crypter_", "ciphersuite_", "key_size_")), "key, IV and secret unchanged", "post", fn, ("P06", "P07"))
    return E


def tag_length():
    E, t = engine("TagLength", ("P24",))
    st = State()
    th, o, cs = sym_obj(E, st)
    st.add(not_(o.f["aead_crypter_"].null))
    E.guarded = guard(NS, GUARDED, "mu_")
    fn = find1(t, NS + "::TagLength")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        E.ob(s, eq(v, 16), "tag length", "post", fn, ("P08",))
    return E


def lemmas():
    """Nonce uniqueness over every history, from the per-operation contract."""
    E, t = engine("nonce lemma", ("P06",))
    iv, a, b = z3.BitVec("iv", 96), z3.BitVec("s1", 64), z3.BitVec("s2", 64)
    m = lambda s: iv ^ z3.ZeroExt(32, s)
    st = State()
    E.ob(st, z3.Implies(a != b, m(a) != m(b)), "distinct sequence numbers give distinct nonces", "lemma")
    # ghost history: (count of operations since the last key change, first sequence number)
    s0, k, q = z3.Int("s0"), z3.Int("k"), z3.Int("seq")
    M = 2 ** 64
    inv = lambda seq, ovf, k: and_(le(0, s0), lt(s0, M), le(0, k), ite(ovf, and_(eq(seq, 0), eq(add(s0, k), M)), and_(eq(seq, add(s0, k)), lt(seq, M))))
    E.ob(st, implies(and_(le(0, s0), lt(s0, M)), inv(s0, False, 0)), "history invariant holds initially", "lemma")
    nx, ov = ite(eq(q, M - 1), 0, add(q, 1)), eq(q, M - 1)
    E.ob(st, implies(inv(q, False, k), inv(nx, ov, add(k, 1))), "history invariant kept by an operation", "lemma")
    k2, q2 = z3.Int("k2"), z3.Int("seq2")
    E.ob(st, implies(and_(inv(q, False, k), inv(q2, False, k2), lt(k, k2)), ne(q, q2)), "operations under one key use distinct sequence numbers", "lemma")
    return E


def suite_hash():
    t = tu("src/record_protocol/s2a_crypter_util.cc", "openssl")
    E = Engine([t])
    E.func, E.props = "CiphersuiteToHashFunction", ("P05",)
    E.frames.append(Frame(t, None))
    st = State()
    cs = fresh_int("suite")
    st.add(le(0, cs), le(cs, 255))
    h0 = fresh_int("h0")
    hl = E.alloc(st, "h", h0, Ty("enum", name="s2a::hkdf::HashFunction"))
    nul = fresh_bool("nullout")
    fn = find1(t, "s2a::CiphersuiteToHashFunction")
    for v, s in E.call(fn, t, None, [cs, Ptr(nul, hl, None)], st):
        v, s = E.rv(v, s)
        h = s.load(hl)
        for b, s1 in E.branch(s, eq(v.code, 0)):
            if b:
                E.ob(s1, and_(not_(nul), le(cs, 2), eq(h, ite(eq(cs, 1), 1, 0))), "hash of the ciphersuite", "post", fn)
            else:
                E.ob(s1, or_(nul, lt(2, cs)), "every supported suite has a hash", "post", fn)
    return E
