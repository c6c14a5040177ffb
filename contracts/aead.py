"""Contracts of the AEAD crypters (P01, P02, P03)."""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE
from cppvc.terms import *
from cppvc.values import *
from cppvc.engine import Engine, Pieces, Frame
from cppvc.loops import ufapps
from . import evp

INTMAX = 2 ** 31 - 1
IMPLS = {
    "aes": ("src/crypto/aes_gcm_crypter.cc", "openssl", "s2a::aead_crypter::AesGcmS2AAeadCrypter", "CreateAesGcmAeadCrypter"),
    "chacha": ("src/crypto/chacha_poly_crypter_openssl.cc", "openssl", "s2a::aead_crypter::ChachaPolyS2AAeadCrypterOpenSSL", "CreateChachaPolyAeadCrypter"),
    "chacha-boringssl": ("src/crypto/chacha_poly_crypter_boringssl.cc", "boringssl", "s2a::aead_crypter::ChachaPolyS2AAeadCrypterBoringSSL", "CreateChachaPolyAeadCrypter"),
}


def engine(impl):
    path, variant, cls, create = IMPLS[impl]
    t = tu(path, variant)
    base = tu("src/crypto/s2a_aead_crypter.cc", variant)
    E = Engine([t, base])
    evp.install(E)
    return E, t, cls, create


def seq_is(E, st, seq, n, get, what, props, node=None):
    """seq equals the n bytes get(.)."""
    E.ob(st, eq(seq.n, n), what + ": length", "post", node, props)
    j = fresh_int("skj")
    E.ob(st, implies(and_(le(0, j), lt(j, n)), eq(seq.get(j), get(j))), what + ": bytes", "post", node, props)


def bad_piece(E, st, V):
    """Some piece of V is malformed (witness taken from the indices the path mentions)."""
    apps, seen = [], set()
    for f in st.pc:
        ufapps(z(f), {V.name + ".null", V.name + ".len", V.name + ".offs"}, apps, seen)
    idx = {}
    for a in apps:
        i = a.children()[-1]
        idx[i.get_id()] = i
    return or_(*[and_(le(0, i), lt(i, V.n), lt(0, V.len(i)), or_(V.null(i), gt(V.len(i), INTMAX))) for i in idx.values()])


def setup(E, t, cls, nm):
    st = State()
    E.frames.append(Frame(t, None))
    aad, txt = Pieces(E, "aad"), Pieces(E, "text")
    iov = parse("s2a::aead_crypter::Iovec", t)
    nonce = E.sym(Ty("vec", [U8]), "nonce")
    L = E.sym_int(SIZE, "bufLen")
    buf = Arr(U8, L, lambda j: E.sym_int(U8, "buf", (j,)), "arr")
    bl = E.alloc(st, "buf", buf, Ty("arr", [U8]))
    obj = Struct(cls, {"key_size_": E.sym_int(SIZE, "keysize")})
    fs = {}
    for f, ft in E.fields(cls, t):
        if ft.k == "uptr":
            fs[f] = UPtr(False, evp.sym_ctx(E, "ctx0"), ft.elem)
        elif "nonce" in f:
            fs[f] = 12
        elif "tag" in f:
            fs[f] = 16
        else:
            fs[f] = E.sym(ft, "this." + f)
    th = E.alloc(st, "this", Struct(cls, fs))
    ctxf = [f for f, ft in E.fields(cls, t) if ft.k == "uptr"][0]
    st.ghost["libfail"] = False
    isnull = fresh_bool("bufnull")
    st.add(lt(L, 2 ** 62))
    return st, aad, txt, iov, nonce, L, buf, bl, th, th.sub(("f", ctxf), ("d",)), isnull


def encrypt(impl):
    E, t, cls, _ = engine(impl)
    E.func = cls.split("::")[-1] + "::Encrypt"
    E.props = ("P01", "P03")
    st, aad, txt, iov, nonce, L, buf, bl, th, ctx, isnull = setup(E, t, cls, "enc")
    fn = find1(t, cls + "::Encrypt")
    na = E.alloc(st, "nonce", nonce, Ty("vec", [U8]))
    aa = E.alloc(st, "aad", aad.iovecs(iov), Ty("vec", [iov]))
    pa = E.alloc(st, "plaintext", txt.iovecs(iov), Ty("vec", [iov]))
    out = Struct(iov.name, {"iov_base": Ptr(False, bl, 0), "iov_len": L})
    rets = E.call(fn, t, th, [na, aa, pa, out], st)
    for v, s in rets:
        code, bw = status_of(v)
        b2 = s.load(bl)
        c = s.load(ctx)
        for b, s1 in E.branch(s, eq(code, 0)):
            if b:
                E.ob(s1, eq(bw, add(txt.total, 16)), "bytes written = plaintext + tag", "post", fn, ("P01",))
                E.ob(s1, and_(eq(c.f["dir"], evp.ENC), eq(c.f["phase"], 2), c.f["nonced"]), "encryption finalised", "post", fn, ("P01",))
                seq_is(E, s1, c.f["nonce"], 12, nonce.get, "nonce used is the nonce given", ("P01",), fn)
                E.ob(s1, eq(nonce.n, 12), "nonce length enforced", "post", fn, ("P03",))
                E.ob(s1, and_(eq(app(aad.BAD, aad.n), 0), eq(app(txt.BAD, txt.n), 0)), "pieces without memory are rejected", "post", fn, ("P03",))
                seq_is(E, s1, c.f["aad"], aad.total, aad.flat, "associated data authenticated completely and in order", ("P01",), fn)
                seq_is(E, s1, c.f["data"], txt.total, txt.flat, "plaintext encrypted completely and in order", ("P01",), fn)
                j = fresh_int("skj")
                nid = c.f["nid"]
                E.ob(s1, implies(and_(le(0, j), lt(j, txt.total)), eq(b2.get(j), app(evp.ENCB, nid, j, txt.flat(j)))), "ciphertext bytes", "post", fn, ("P01",))
                E.ob(s1, implies(and_(le(0, j), lt(j, 16)), eq(b2.get(add(txt.total, j)), app(evp.TAGB, nid, j))), "tag follows the ciphertext", "post", fn, ("P01",))
                E.ob(s1, implies(and_(le(add(txt.total, 16), j), lt(j, L)), eq(b2.get(j), buf.get(j))), "nothing written beyond the tag", "post", fn, ("P01",))
            else:
                E.ob(s1, eq(bw, 0), "no bytes reported on error", "post", fn, ("P03",))
                why = or_(s1.ghost["libfail"], ne(nonce.n, 12), lt(L, add(txt.total, 16)), bad_piece(E, s1, aad), bad_piece(E, s1, txt))
                E.ob(s1, why, "errors only for malformed arguments or library failure", "post", fn, ("P03",))
    return E


def status_of(v):
    """(code, bytes_written) of a CrypterStatus."""
    code = bw = None
    for k, x in v.f.items():
        if isinstance(x, Status):
            code = x.code
        elif is_term(x):
            bw = x
    return code, bw


def decrypt(impl):
    E, t, cls, _ = engine(impl)
    E.func = cls.split("::")[-1] + "::Decrypt"
    E.props = ("P02", "P03")
    st, aad, txt, iov, nonce, L, buf, bl, th, ctx, isnull = setup(E, t, cls, "dec")
    fn = find1(t, cls + "::Decrypt")
    na = E.alloc(st, "nonce", nonce, Ty("vec", [U8]))
    aa = E.alloc(st, "aad", aad.iovecs(iov), Ty("vec", [iov]))
    ca = E.alloc(st, "ciphertext", txt.iovecs(iov), Ty("vec", [iov]))
    # the output base may be null only when its length is zero
    st.add(implies(isnull, eq(L, 0)))
    out = Struct(iov.name, {"iov_base": Ptr(isnull, bl, 0), "iov_len": L})
    rets = E.call(fn, t, th, [na, aa, ca, out], st)
    T = txt.total
    for v, s in rets:
        code, bw = status_of(v)
        b2 = s.load(bl)
        c = s.load(ctx)
        for b, s1 in E.branch(s, eq(code, 0)):
            j = fresh_int("skj")
            if b:
                E.ob(s1, and_(le(16, T), eq(bw, sub(T, 16))), "bytes written = ciphertext without tag", "post", fn, ("P02",))
                E.ob(s1, and_(c.f["verified"], eq(c.f["dir"], evp.DEC)), "success only after the tag was verified", "post", fn, ("P02",))
                seq_is(E, s1, c.f["nonce"], 12, nonce.get, "nonce used is the nonce given", ("P02",), fn)
                E.ob(s1, eq(nonce.n, 12), "nonce length enforced", "post", fn, ("P03",))
                E.ob(s1, and_(eq(app(aad.BAD, aad.n), 0), eq(app(txt.BAD, txt.n), 0)), "pieces without memory are rejected", "post", fn, ("P03",))
                seq_is(E, s1, c.f["aad"], aad.total, aad.flat, "associated data authenticated completely and in order", ("P02",), fn)
                seq_is(E, s1, c.f["data"], sub(T, 16), txt.flat, "ciphertext decrypted completely and in order", ("P02",), fn)
                seq_is(E, s1, c.f["tag"], 16, lambda k: txt.flat(add(sub(T, 16), k)), "tag checked is the last 16 bytes", ("P02",), fn)
                nid = c.f["nid"]
                E.ob(s1, implies(and_(le(0, j), lt(j, sub(T, 16))), eq(b2.get(j), app(evp.DECB, nid, j, txt.flat(j)))), "plaintext bytes", "post", fn, ("P02",))
                E.ob(s1, implies(and_(le(sub(T, 16), j), lt(j, L)), eq(b2.get(j), buf.get(j))), "nothing written beyond the plaintext", "post", fn, ("P02",))
            else:
                E.ob(s1, eq(bw, 0), "no bytes reported on error", "post", fn, ("P03",))
                E.ob(s1, implies(and_(le(0, j), lt(j, L)), or_(eq(b2.get(j), 0), eq(b2.get(j), buf.get(j)))), "no unauthenticated plaintext left on error", "post", fn, ("P02",))
                why = or_(s1.ghost["libfail"], ne(nonce.n, 12), lt(T, 16), lt(L, sub(T, 16)), bad_piece(E, s1, aad), bad_piece(E, s1, txt))
                E.ob(s1, why, "errors only for malformed arguments or library failure", "post", fn, ("P03",))
    return E


def create(impl):
    """CreateAesGcmAeadCrypter / CreateChachaPolyAeadCrypter."""
    E, t, cls, cr = engine(impl)
    E.func = cr
    E.props = ("P03", "P01")
    st = State()
    E.frames.append(Frame(t, None))
    st.ghost["libfail"] = False
    key = E.sym(Ty("vec", [U8]), "key")
    ka = E.alloc(st, "key", key, Ty("vec", [U8]))
    fn = find1(t, "s2a::aead_crypter::" + cr)
    for v, s in E.call(fn, t, None, [ka], st):
        v, s = E.rv(v, s)
        okc = eq(v.idx, 1)
        for b, s1 in E.branch(s, okc):
            good = or_(eq(key.n, 16), eq(key.n, 32)) if impl == "aes" else eq(key.n, 32)
            if not b:
                code = v.alts[0].code
                E.ob(s1, ne(code, 0), "the error is an error", "post", fn, ("P03",))
                E.ob(s1, or_(not_(good), s1.ghost["libfail"]), "every supported key length yields a crypter", "post", fn, ("P03",))
                continue
            E.ob(s1, good, "only supported key lengths yield a crypter", "post", fn, ("P03",))
            u = v.alts[1]
            E.ob(s1, not_(u.null), "crypter non-null", "post", fn, ("P03",))
            o = u.val
            sizes = {}
            for f, x in o.f.items():
                if is_term(x):
                    sizes[f] = x
            for f, want in (("key_length_", key.n), ("nonce_length_", 12), ("tag_length_", 16)):
                E.ob(s1, eq(o.f[f], want) if f in o.f else False, "reported " + f.strip("_"), "post", fn, ("P03",))
            cx = [x for x in o.f.values() if isinstance(x, UPtr)][0]
            E.ob(s1, not_(cx.null), "cipher context present", "post", fn, ("P03",))
            c = cx.val
            want = ite(eq(key.n, 16), evp.AES128, evp.AES256) if impl == "aes" else evp.CHACHA
            E.ob(s1, and_(c.f["keyed"], eq(c.f["cipher"], want), eq(c.f["ivlen"], 12)), "cipher selected by key length", "post", fn, ("P01",))
            seq_is(E, s1, c.f["key"], key.n, key.get, "key installed", ("P01",), fn)
    return E


def lengths():
    """Accessors and length helpers of S2AAeadCrypter."""
    E, t, cls, cr = engine("aes")
    t = E.tus[1]
    base = "s2a::aead_crypter::S2AAeadCrypter"
    E.func = "S2AAeadCrypter"
    E.props = ("P03",)
    E.frames.append(Frame(t, None))
    st = State()
    k, n, g = (E.sym_int(SIZE, x) for x in ("klen", "nlen", "tlen"))
    th = E.alloc(st, "this", Struct(base, {"key_length_": k, "nonce_length_": n, "tag_length_": g}))
    x = E.sym_int(SIZE, "x")
    st.add(lt(x, 2 ** 62), lt(g, 2 ** 62))
    for m, args, want, pre in (("KeyLength", [], k, True), ("NonceLength", [], n, True), ("TagLength", [], g, True),
                               ("MaxPlaintextLength", [x], sub(x, g), le(g, x)), ("MaxCiphertextAndTagLength", [x], add(x, g), True)):
        fn = find1(t, base + "::" + m)
        s0 = st.assume(pre)
        for v, s in E.call(fn, t, th, args, s0):
            v, s = E.rv(v, s)
            E.ob(s, eq(v, want), m + " value", "post", fn, ("P03",))
    return E
