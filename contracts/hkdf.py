"""Contract of HkdfDeriveSecret (P04): RFC 5869 HKDF-Expand.

The HMAC library is a ghost stream: Init sets the key and empties the stream, Update appends,
Final returns the digest.  By the definition of HKDF-Expand, a digest over
T(c-1) | info | c under the key prk is named T(c); T(c)'s byte j is the term tblk(c, j).  Any other
digest is an unrelated unknown.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE
from cppvc.terms import *
from cppvc.values import *
from cppvc.engine import Engine, Frame
from cppvc.models import read_range, write_range, store_int
from .evp import append, EMPTY, libfail

TBLK = uf("tblk", 2)
PATH = "src/crypto/hkdf.cc"
MD = {"EVP_sha1": 20, "EVP_sha224": 28, "EVP_sha256": 32, "EVP_sha384": 48, "EVP_sha512": 64, "EVP_md5": 16}


def install(E, prk, info, want):
    """want: digest size the contract asks for (None: any)."""
    H = E.hooks
    E.gen_ufs = ("tblk",)
    E.ax.on("tblk", lambda *p: and_(le(0, app(TBLK, *p)), le(app(TBLK, *p), 255)))
    for nm, sz in MD.items():
        H[nm] = (lambda sz: lambda E, this, vals, st, n: [(Op(sz, False, "EVP_MD"), st)])(sz)

    def mdsize(E, this, vals, st, n):
        (md,), st = E.rvs(vals, st)
        out = []
        for o, s in E.force(md, st):
            if not isinstance(o, Op):
                raise Unsupported("digest %r" % (o,))
            out.append((o.id, s))
        return out
    for nm in ("EVP_MD_size", "EVP_MD_get_size"):
        H[nm] = mdsize

    def ctxp(v, st, n):
        p, st = E.rv(v, st)
        if not isinstance(p, Ptr):
            raise Unsupported("HMAC context %r" % (p,))
        st = E.ob(st, not_(p.null), "hmac-context-non-null", node=n)
        return p.lv, st

    def fresh_ctx():
        return Struct("HMACCTX", {"keyed": False, "md": 0, "key": EMPTY(), "stream": EMPTY(), "open": False})

    def new(E, this, vals, st, n):
        bad = libfail(st.copy())
        s = st.copy()
        lv = E.alloc(s, "hmac", fresh_ctx())
        return [(NullPtr(), bad), (Ptr(False, lv, None), s)]
    H["HMAC_CTX_new"] = new
    H["HMAC_CTX_free"] = lambda E, this, vals, st, n: [(UNIT, st)]
    H["HMAC_CTX_cleanup"] = H["HMAC_CTX_free"]

    def reset(E, this, vals, st, n):
        lv, st = ctxp(vals[0], st, n)
        s = st.copy()
        s.store(lv, fresh_ctx())
        return [(1, s)]
    H["HMAC_CTX_init"] = H["HMAC_CTX_reset"] = reset

    def init(E, this, vals, st, n):
        lv, st = ctxp(vals[0], st, n)
        (key, klen, md, impl), st = E.rvs(vals[1:], st)
        res = [(0, libfail(st.copy()))]
        c = st.load(lv)
        for m, s in E.force(md, st):
            if isinstance(m, Op):
                c1 = c.set("md", m.id)
            else:
                c1 = c
            if isinstance(key, NullPtr):
                s = E.ob(s, c1.f["keyed"], "hmac-key-set", node=n)
                lst = [(c1, s)]
            else:
                lst = [(c1.set("key", Arr(U8, klen, src, "seq")).set("keyed", True), s2) for src, s2 in read_range(E, s, key, klen, n, "hmac-key")]
            for c2, s2 in lst:
                s2 = s2.copy()
                s2.store(lv, c2.set("stream", EMPTY()).set("open", True))
                res.append((1, s2))
        return res
    H["HMAC_Init_ex"] = init

    def update(E, this, vals, st, n):
        lv, st = ctxp(vals[0], st, n)
        (p, ln), st = E.rvs(vals[1:], st)
        res = [(0, libfail(st.copy()))]
        c = st.load(lv)
        st = E.ob(st, c.f["open"], "hmac-initialised", node=n)
        for src, s in read_range(E, st, p, ln, n, "hmac-input"):
            s = s.copy()
            s.store(lv, c.set("stream", append(c.f["stream"], ln, src)))
            res.append((1, s))
        return res
    H["HMAC_Update"] = update

    def final(E, this, vals, st, n):
        lv, st = ctxp(vals[0], st, n)
        (out_, outl), st = E.rvs(vals[1:], st)
        res = [(0, libfail(st.copy()))]
        c = st.load(lv)
        st = E.ob(st, c.f["open"], "hmac-initialised", node=n)
        ds = conc(c.f["md"])
        if ds is None:
            raise Unsupported("digest not determined")
        blk = block(E, st, c, ds, prk, info)
        if blk is None:
            nm = fresh_name("hmac")
            val = lambda j: E.sym_int(U8, nm, (j,))
        else:
            val = lambda j: app(TBLK, blk, j)
        for s in write_range(E, st, out_, ds, val, n, "hmac-output"):
            s = s.copy()
            s.store(lv, c.set("open", False))
            if isinstance(outl, NullPtr):
                res.append((1, s))
            else:
                res += [(1, x) for x in store_int(E, s, outl, ds, n)]
        return res
    H["HMAC_Final"] = final


def block(E, st, c, ds, prk, info):
    """c such that the stream is T(c-1)|info|c under prk, else None (decided by the prover)."""
    k, s = c.f["key"], c.f["stream"]
    j = fresh_int("skj")
    ok = lambda g: E.pr.valid(st.pc, g, 4000)
    if not ok(and_(eq(k.n, prk.n), implies(and_(le(0, j), lt(j, k.n)), eq(k.get(j), prk.get(j))))):
        return None
    ctr = s.get(sub(s.n, 1))
    first = and_(eq(ctr, 1), eq(s.n, add(info.n, 1)))
    rest = and_(lt(1, ctr), eq(s.n, add(info.n, 1 + ds)))
    if ok(first):
        pre = 0
    elif ok(rest):
        pre = ds
    else:
        return None
    want = ite(lt(j, pre), app(TBLK, sub(ctr, 1), j), info.get(sub(j, pre)))
    if not ok(implies(and_(le(0, j), lt(j, sub(s.n, 1))), eq(s.get(j), want))):
        return None
    return ctr


def derive(alias="distinct"):
    t = tu(PATH, "openssl")
    E = Engine([t])
    E.func = "HkdfDeriveSecret (%s)" % alias
    E.props = ("P04",)
    E.frames.append(Frame(t, None))
    st = State()
    st.ghost["libfail"] = False
    V = Ty("vec", [U8])
    prk, info = E.sym(V, "prk"), E.sym(V, "info")
    st.add(lt(info.n, 2 ** 31), lt(prk.n, 2 ** 31))
    install(E, prk, info, None)
    pl = E.alloc(st, "prk", prk, V)
    il = E.alloc(st, "info", info, V)
    if alias == "in-place":
        out, ol = prk, pl
    else:
        out = E.sym(V, "out")
        ol = E.alloc(st, "out", out, V)
    h = E.sym_int(Ty("int", n=(32, True)), "hash")
    st.add(le(0, h), le(h, 255))
    fn = find1(t, "s2a::hkdf::HkdfDeriveSecret")
    ds = ite(eq(h, 0), 32, 48)
    good = and_(le(0, h), le(h, 1), le(ds, prk.n), le(out.n, ite(eq(h, 0), 32 * 255, 48 * 255)))
    for v, s in E.call(fn, t, None, [h, pl, il, ol], st):
        v, s = E.rv(v, s)
        o2 = s.load(ol)
        j = fresh_int("skj")
        for b, s1 in E.branch(s, eq(v.code, 0)):
            if b:
                E.ob(s1, good, "unsupported hash, short secret or overlong request rejected", "post", fn)
                E.ob(s1, eq(o2.n, out.n), "output length unchanged", "post", fn)
                for hv, d in ((0, 32), (1, 48)):
                    s2 = s1.assume(eq(h, hv))
                    if E.feasible(s2):
                        E.ob(s2, implies(and_(le(0, j), lt(j, out.n)), eq(o2.get(j), app(TBLK, add(div(j, d), 1), mod(j, d)))),
                             "output is HKDF-Expand", "post", fn)
            else:
                E.ob(s1, or_(not_(good), s1.ghost["libfail"]), "errors only for invalid requests or library failure", "post", fn)
                E.ob(s1, or_(s1.ghost["libfail"], and_(eq(o2.n, out.n), implies(and_(le(0, j), lt(j, out.n)), eq(o2.get(j), out.get(j))))),
                     "output untouched by a rejected request", "post", fn)
    return E
