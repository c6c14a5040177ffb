"""Assumed contracts of the SSL library's symmetric primitives, with ghost state.

A cipher context is the ghost record EVPCTX: the key it was given, the nonce of the current
operation (nid names the operation), the associated data and the data streamed so far, and the
phase.  Output bytes of Update are enc_byte/dec_byte(nid, position, input byte): the library is
trusted to be a stream cipher with a tag, the code under verification to drive it correctly.
"""
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8
from cppvc.terms import *
from cppvc.values import *
from cppvc.models import read_range, write_range, store_int

ENCB, DECB, TAGB = uf("enc_byte", 3), uf("dec_byte", 3), uf("tag_byte", 2)
SEALB, OPENB = uf("seal_byte", 3), uf("open_byte", 3)
AES128, AES256, CHACHA = 1, 2, 3
NONE, ENC, DEC = 0, 1, 2
EMPTY = lambda: Arr(U8, 0, lambda j: 0, "seq")


def byte_axioms(E):
    for f, k in ((ENCB, 3), (DECB, 3), (TAGB, 2), (SEALB, 3), (OPENB, 3)):
        E.ax.on(f.name(), (lambda f: lambda *p: and_(le(0, app(f, *p)), le(app(f, *p), 255)))(f))


def sym_ctx(E, name, cipher=None, keyed=True):
    """A context in an arbitrary state between operations (key set, anything may have happened before)."""
    b = lambda x: Arr(U8, E.sym_int(Ty("int", n=(32, False)), name + "." + x + ".n"), (lambda nm: lambda j: E.sym_int(U8, nm, (j,)))(name + "." + x), "seq")
    return Struct("EVPCTX", {
        "keyed": keyed, "cipher": cipher if cipher is not None else fresh_int(name + ".cipher"), "ivlen": 12,
        "key": b("key"), "dir": E.sym_int(U8, name + ".dir"), "nid": fresh_int(name + ".nid"), "nonced": fresh_bool(name + ".nonced"),
        "nonce": b("nonce"), "aad": b("aad"), "data": b("data"), "phase": E.sym_int(U8, name + ".phase"),
        "tag": b("tag"), "tagset": fresh_bool(name + ".tagset"), "verified": fresh_bool(name + ".verified")})


def append(a, ln, src):
    return arr_write(a, a.n, ln, src, n=add(a.n, ln))


def libfail(st, v=True):
    st.ghost["libfail"] = True
    return st


def install(E):
    H = E.hooks
    byte_axioms(E)

    def ctxp(vals, st, n):
        """l-value of the context (obligation: non-null)."""
        p, st = E.rv(vals, st)
        if not isinstance(p, Ptr):
            raise Unsupported("cipher context %r" % (p,))
        st = E.ob(st, not_(p.null), "cipher-context-non-null", node=n)
        return p.lv, st

    def new(E, this, vals, st, n):
        v = sym_ctx(E, fresh_name("ctx"), None, False).set("ivlen", 12)
        return [(UPtr(False, v), st)]
    H["EVP_CIPHER_CTX_new"] = new

    def free(E, this, vals, st, n):
        return [(UNIT, st)]
    H["EVP_CIPHER_CTX_free"] = free

    for nm, c in (("EVP_aes_128_gcm", AES128), ("EVP_aes_256_gcm", AES256), ("EVP_chacha20_poly1305", CHACHA)):
        H[nm] = (lambda c: lambda E, this, vals, st, n: [(Op(c, False, "EVP_CIPHER"), st)])(c)

    def init(direction):
        def f(E, this, vals, st, n):
            lv, st = ctxp(vals[0], st, n)
            (ciph, impl, key, iv), st = E.rvs(vals[1:], st)
            out = []
            fail = st.copy()
            out.append((0, libfail(fail)))
            s = st.copy()
            c = s.load(lv)
            c = c.set("dir", direction)
            if not isinstance(ciph, NullPtr):
                for cc, s1 in E.force(ciph, s):
                    if not isinstance(cc, Op):
                        raise Unsupported("cipher %r" % (cc,))
                    c = c.set("cipher", cc.id)
            states = [(c, s)]
            if not isinstance(key, NullPtr):
                nxt = []
                for c, s in states:
                    klen = ite(eq(c.f["cipher"], AES128), 16, 32)
                    klen = conc(klen) if conc(klen) is not None else klen
                    for src, s2 in read_range(E, s, key, klen, n, "key-read"):
                        nxt.append((c.set("key", Arr(U8, klen, src, "seq")).set("keyed", True), s2))
                states = nxt
            if not isinstance(iv, NullPtr):
                nxt = []
                for c, s in states:
                    s = E.ob(s, c.f["keyed"], "nonce-needs-key", node=n)
                    for src, s2 in read_range(E, s, iv, c.f["ivlen"], n, "nonce-read"):
                        nxt.append((c.set("nonce", Arr(U8, c.f["ivlen"], src, "seq")).set("nid", fresh_int("nid")).set("nonced", True)
                                    .set("aad", EMPTY()).set("data", EMPTY()).set("phase", 0).set("tagset", False).set("verified", False), s2))
                states = nxt
            for c, s in states:
                s = s.copy()
                s.store(lv, c)
                out.append((1, s))
            return out
        return f
    H["EVP_EncryptInit_ex"] = init(ENC)
    H["EVP_DecryptInit_ex"] = init(DEC)

    def update(direction, F):
        def f(E, this, vals, st, n):
            lv, st = ctxp(vals[0], st, n)
            (out_, outl, in_, inl), st = E.rvs(vals[1:], st)
            res = []
            c = st.load(lv)
            st = E.ob(st, and_(eq(c.f["dir"], direction), c.f["nonced"]), "context-initialised-for-this-direction", node=n)
            st = E.ob(st, le(0, inl), "length-not-negative", node=n)
            for src, s in read_range(E, st, in_, inl, n, "cipher-input"):
                for o, s1 in E.force(out_, s):
                    if isinstance(o, NullPtr):
                        s1 = E.ob(s1, eq(c.f["phase"], 0), "aad-before-data", node=n)
                        res.append((0, libfail(s1.copy())))
                        s1 = s1.copy()
                        s1.store(lv, c.set("aad", append(c.f["aad"], inl, src)))
                        res += [(1, x) for x in store_int(E, s1, outl, inl, n)]
                    else:
                        s1 = E.ob(s1, le(c.f["phase"], 1), "no-data-after-final", node=n)
                        garb = fresh_name("garbage")
                        for s2 in write_range(E, s1, o, inl, lambda j: E.sym_int(U8, garb, (j,)), n, "cipher-output"):
                            res.append((0, libfail(s2.copy())))
                        nid, pos = c.f["nid"], c.f["data"].n
                        for s2 in write_range(E, s1, o, inl, lambda j: app(F, nid, add(pos, j), src(j)), n, "cipher-output"):
                            s2 = s2.copy()
                            s2.store(lv, c.set("data", append(c.f["data"], inl, src)).set("phase", 1))
                            res += [(1, x) for x in store_int(E, s2, outl, inl, n)]
            return res
        return f
    H["EVP_EncryptUpdate"] = update(ENC, ENCB)
    H["EVP_DecryptUpdate"] = update(DEC, DECB)

    def final(direction):
        def f(E, this, vals, st, n):
            lv, st = ctxp(vals[0], st, n)
            (out_, outl), st = E.rvs(vals[1:], st)
            c = st.load(lv)
            st = E.ob(st, and_(eq(c.f["dir"], direction), c.f["nonced"], lt(c.f["phase"], 2)), "final-once", node=n)
            res = [(0, libfail(st.copy()))]
            if direction == DEC:
                st = E.ob(st, c.f["tagset"], "tag-set-before-final", node=n)
            s = st.copy()
            s.store(lv, c.set("phase", 2).set("verified", direction == DEC))
            res += [(1, x) for x in store_int(E, s, outl, 0, n)]
            return res
        return f
    H["EVP_EncryptFinal_ex"] = final(ENC)
    H["EVP_DecryptFinal_ex"] = final(DEC)

    def ctrl(E, this, vals, st, n):
        lv, st = ctxp(vals[0], st, n)
        (typ, arg, p), st = E.rvs(vals[1:], st)
        c = st.load(lv)
        t = conc(typ)
        res = [(0, libfail(st.copy()))]
        if t == 0x9:       # SET_IVLEN
            st = E.ob(st, eq(arg, 12), "nonce-length-12", node=n)
            s = st.copy()
            s.store(lv, c.set("ivlen", arg))
            res.append((1, s))
        elif t == 0x10:    # GET_TAG
            st = E.ob(st, and_(eq(c.f["dir"], ENC), eq(c.f["phase"], 2), eq(arg, 16)), "tag-read-after-final", node=n)
            nid = c.f["nid"]
            for s in write_range(E, st, p, arg, lambda j: app(TAGB, nid, j), n, "tag-output"):
                res.append((1, s))
        elif t == 0x11:    # SET_TAG
            st = E.ob(st, and_(eq(c.f["dir"], DEC), eq(arg, 16)), "tag-length-16", node=n)
            for src, s in read_range(E, st, p, arg, n, "tag-input"):
                s = s.copy()
                s.store(lv, c.set("tag", Arr(U8, arg, src, "seq")).set("tagset", True))
                res.append((1, s))
        else:
            raise Unsupported("EVP ctrl %r" % (typ,))
        return res
    H["EVP_CIPHER_CTX_ctrl"] = ctrl
    H["s2a::aead_crypter::GetSSLErrors"] = lambda E, this, vals, st, n: [(fresh_str("sslerr"), st)]

    # BoringSSL one-shot AEAD ------------------------------------------------
    H["EVP_aead_chacha20_poly1305"] = lambda E, this, vals, st, n: [(Op(CHACHA, False, "EVP_AEAD"), st)]

    def aead_new(E, this, vals, st, n):
        (alg, key, klen, tlen), st = E.rvs(vals, st)
        res = [(UPtr(True, None), libfail(st.copy()))]
        for src, s in read_range(E, st, key, klen, n, "key-read"):
            c = sym_ctx(E, fresh_name("ctx"), alg.id, True).set("key", Arr(U8, klen, src, "seq"))
            s = E.ob(s, or_(eq(tlen, 0), eq(tlen, 16)), "tag-length-default", node=n)
            res.append((UPtr(False, c), s))
        return res
    H["EVP_AEAD_CTX_new"] = aead_new
    H["EVP_AEAD_CTX_free"] = free

    def oneshot(direction, F):
        def f(E, this, vals, st, n):
            lv, st = ctxp(vals[0], st, n)
            (out_, outl, maxout, nonce, nlen, in_, inl, ad, adl), st = E.rvs(vals[1:], st)
            c = st.load(lv)
            res = []
            for nsrc, s1 in read_range(E, st, nonce, nlen, n, "nonce-read"):
                for isrc, s2 in read_range(E, s1, in_, inl, n, "cipher-input"):
                    for asrc, s3 in read_range(E, s2, ad, adl, n, "aad-input"):
                        nid = fresh_int("nid")
                        olen = add(inl, 16) if direction == ENC else sub(inl, 16)
                        # failure: the library clears the output buffer (maxout bytes)
                        fails = write_range(E, s3, out_, maxout, lambda j: 0, n, "cipher-output")
                        for s4 in fails:
                            for s5 in store_int(E, s4, outl, 0, n):
                                res.append((0, libfail(s5.copy())))
                        ok = and_(eq(nlen, 12), le(0, olen), le(olen, maxout))
                        s4 = s3.assume(ok)
                        if not E.feasible(s4):
                            continue
                        if direction == ENC:
                            val = lambda j: ite_val(lt(j, inl), app(ENCB, nid, j, isrc(j)), app(TAGB, nid, sub(j, inl)))
                        else:
                            val = lambda j: app(DECB, nid, j, isrc(j))
                        for s5 in write_range(E, s4, out_, olen, val, n, "cipher-output"):
                            s5 = s5.copy()
                            dl = inl if direction == ENC else olen
                            s5.store(lv, c.set("nonce", Arr(U8, nlen, nsrc, "seq")).set("nid", nid).set("nonced", True).set("dir", direction)
                                     .set("aad", Arr(U8, adl, asrc, "seq")).set("data", Arr(U8, dl, isrc, "seq")).set("phase", 2)
                                     .set("tag", Arr(U8, 16, lambda j: isrc(add(olen, j)), "seq")).set("tagset", True)
                                     .set("verified", direction == DEC))
                            res += [(1, x) for x in store_int(E, s5, outl, olen, n)]
            return res
        return f
    H["EVP_AEAD_CTX_seal"] = oneshot(ENC, SEALB)
    H["EVP_AEAD_CTX_open"] = oneshot(DEC, OPENB)
