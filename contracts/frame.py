"""Contracts of S2AFrameProtector (P14, P15, P16; locks for P24).

Callee contracts: S2ACrypter::Create/Protect/Unprotect/RecordOverhead (proved in crypter.py).  The caller's allocator
returns a fresh non-null buffer of the requested length; destroy and logger do not touch anything modelled here.
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported, params_of
from cppvc.types import Ty, U8, SIZE, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.loops import val_eq as deep_eq
from cppvc.engine import Engine, Pieces, Frame
from .half import same_arr

FP = "s2a::frame_protector::S2AFrameProtector"
FN = "s2a::frame_protector"
CR = "s2a::record_protocol::S2ACrypter"
ST = CR + "::S2ACrypterStatus"
IOV = "s2a::aead_crypter::Iovec"
MAXP, OVER = 16384, 22
OUTB = uf("outb", 1)          # bytes of the produced records, one after the other
PLEN = uf("plen", 1)          # content length of record k
PCODE = uf("pcode", 1)        # crypter result for record k


def engine(func, props):
    t = tu("src/frame_protector/s2a_frame_protector.cc", "openssl")
    E = Engine([t, tu("src/crypto/s2a_aead_crypter.cc", "openssl"), tu("src/record_protocol/s2a_crypter.cc", "openssl")])
    E.func, E.props = "S2AFrameProtector::" + func, props
    E.frames.append(Frame(t, None))
    E.ax.on("outb", lambda i: and_(le(0, app(OUTB, i)), le(app(OUTB, i), 255)))
    E.ax.on("pcode", lambda i: and_(le(0, app(PCODE, i)), le(app(PCODE, i), 12)))
    H = E.hooks
    H[CR + "::RecordOverhead"] = lambda E, this, vals, st, n: [(OVER, st)]
    H["fn*logger_"] = H["fn*logger"] = lambda E, this, vals, st, n: [(UNIT, st)]
    return E, t


def walk_inv(V):
    """Invariant candidates for a position (index leaf, offset leaf) walking over the pieces V."""
    def f(E, head, lp):
        out = []
        ints = [c for c in lp.cols[:lp.nleaf] if not isc(c) and z3.is_const(c) and z3.is_int(c)]
        idx = [c.arg(c.num_args() - 1) for c in lp.cols[:lp.nleaf] if not isc(c) and z3.is_app(c) and c.num_args() and c.decl().name() == V.name + ".offs"]
        for i in idx:
            out.append(le(i, V.n))
            for x in ints:
                if x.eq(i):
                    continue
                out += [le(x, V.len(i)), implies(eq(i, V.n), eq(x, 0)), implies(lt(0, x), lt(x, V.len(i)))]
        return out
    return f


def args(E, vals, st):
    out = []
    for v in vals:
        x, st = E.rv(v, st)
        out.append(x)
    return out, st


def cstatus(E, code, written):
    d = E.default(Ty("rec", name=ST))
    for k, x in d.f.items():
        if isinstance(x, Arr):
            d = d.set(k, fresh_str("msg"))
    if "code_" not in d.f or "bytes_written_" not in d.f:
        raise Unsupported("representation of a crypter status")
    return d.set("code_", code).set("bytes_written_", written)


def conv(code):
    """Crypter status code -> absl code."""
    return ite(eq(code, 0), 0, ite(eq(code, 9), 9, ite(eq(code, 2), 3, ite(eq(code, 12), 2, ite(eq(code, 11), 12, 13)))))


def sym_obj(E, st, t):
    f = {}
    for nm, ft in E.fields(FP, t):
        if ft.k == "func":
            f[nm] = Fn(False, nm)
        elif ft.k == "uptr":
            f[nm] = UPtr(False, Struct(CR, {}), ft.elem)
        elif nm == "max_record_size_":
            f[nm] = MAXP + OVER
        else:
            f[nm] = E.sym(ft, "this." + nm)
    o = Struct(FP, f)
    return E.alloc(st, "this", o), o


def records(total):
    """Number of records for total bytes."""
    return ite(eq(total, 0), 1, div(add(total, MAXP - 1), MAXP))


def announced(total):
    return add(total, mul(OVER, records(total)))


# -- announced sizes -----------------------------------------------------------------
def sizes():
    E, t = engine("NumberBytesToProtect/Unprotect, MaxRecordSize", ("P14",))
    st = State()
    th, o = sym_obj(E, st, t)
    L = E.sym_int(SIZE, "len")
    st.add(lt(L, 2 ** 62))
    txt = Pieces(E, "text")
    iov = parse(IOV, t)
    pl = E.alloc(st, "vec", txt.iovecs(iov), Ty("vec", [iov]))
    isint = lambda f: "vector" not in params_of(f)[0]["type"]["qualType"]
    for nm, want in (("NumberBytesToProtect", announced), ("NumberBytesToUnprotect", lambda x: ite(lt(x, OVER), 0, sub(x, 5)))):
        for byint in (True, False):
            fn = find1(t, FP + "::" + nm, pred=lambda f: isint(f) == byint)
            x = L if byint else txt.total
            for v, s in E.call(fn, t, th, [L if byint else pl], st):
                v, s = E.rv(v, s)
                E.ob(s, eq(v, want(x)), nm + (" (length)" if byint else " (pieces)"), "post", fn)
    fn = find1(t, FP + "::MaxRecordSize")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        E.ob(s, eq(v, MAXP + OVER), "maximum record size", "post", fn)
    return E


# -- Protect ---------------------------------------------------------------------------
def protect(kind):
    """kind: 'into' (caller's buffer) or 'alloc' (allocated result)."""
    E, t = engine("Protect", ("P14",))
    st = State()
    th, o = sym_obj(E, st, t)
    iov = parse(IOV, t)
    txt = Pieces(E, "text")
    T = txt.total
    st.add(eq(app(txt.BAD, txt.n), 0))
    wi = walk_inv(txt)

    def inv(E, head, lp):
        g = head.load(gh).f
        c, k = g["cons"], g["k"]
        return wi(E, head, lp) + [or_(eq(c, T), eq(c, mul(MAXP, k))), le(c, mul(MAXP, k)),
                                  or_(lt(mul(MAXP, sub(k, 1)), c), and_(eq(T, 0), eq(k, 1)), eq(k, 0))]
    E.inv_extra = inv
    pl = E.alloc(st, "unprotected", txt.iovecs(iov), Ty("vec", [iov]))
    # ghost: consumed bytes, written bytes, records, failure of the crypter
    gh = E.alloc(st, "ghost", Struct("ghost", {"cons": 0, "wr": 0, "k": 0, "fail": False, "code": 0}), None)
    L = E.sym_int(SIZE, "bufLen") if kind == "into" else announced(T)
    st.add(lt(L, 2 ** 63))
    buf = Arr(U8, L, lambda j: E.sym_int(U8, "buf", (j,)), "arr")
    bl = E.alloc(st, "buffer", buf, Ty("arr", [U8]))
    base = Struct(IOV, {"iov_base": Ptr(False, bl, 0), "iov_len": L})
    E.hooks[CR + "::Protect"] = protect_hook(gh, bl, txt, L, kind)
    isvoid = lambda f: len(params_of(f)) == 1
    j = fresh_int("skj")
    if kind == "into":
        fn = find1(t, FP + "::Protect", 2)
        out = E.alloc(st, "out", base, iov)
        res = []
        for v, s in E.call(fn, t, th, [pl, out], st):
            v, s = E.rv(v, s)
            o2 = s.load(out)
            E.ob(s, deep_eq(o2, base), "caller's buffer descriptor kept", "post", fn, ("P14", "P16"))
            res.append((v.code, s, fn))
        E.hooks["fn*destroy_"] = lambda E, this, vals, st, n: [(UNIT, E.ob(st, False, "caller's buffer destroyed", "post", n, ("P16",)))]
    else:
        fn = find1(t, FP + "::Protect", 1)
        al = E.alloc(st, "allocs", Struct("allocs", {"n": 0, "d": 0}), None)

        def alloc(E, this, vals, s, n):
            (x,), s = args(E, vals, s)
            g = s.load(al)
            s = E.ob(s, eq(g.f["n"], 0), "one allocation", "post", n, ("P14", "P16"))
            s = E.ob(s, eq(x, L), "allocates the announced size", "post", n, ("P14",))
            s = s.copy()
            s.store(al, g.set("n", add(g.f["n"], 1)))
            return [(base, s)]

        def destroy(E, this, vals, s, n):
            (x,), s = args(E, vals, s)
            g = s.load(al)
            s = E.ob(s, and_(deep_eq(x.f["iov_base"], base.f["iov_base"]), eq(g.f["n"], 1), eq(g.f["d"], 0)), "destroys the allocated buffer once", "post", n, ("P16",))
            s = s.copy()
            s.store(al, g.set("d", add(g.f["d"], 1)))
            return [(UNIT, s)]
        E.hooks["fn*allocator_"], E.hooks["fn*destroy_"] = alloc, destroy
        E.hooks[FP + "::Protect"] = protect_into_hook(gh, bl, txt, L)
        res = []
        for v, s in E.call(fn, t, th, [pl], st):
            v, s = E.rv(v, s)
            code, by, g = v.f["status"].code, v.f["bytes"], s.load(al)
            for ok, s1 in E.branch(s, eq(code, 0)):
                if ok:
                    E.ob(s1, and_(eq(g.f["n"], 1), eq(g.f["d"], 0), eq(by.n, 1)), "the allocated buffer is returned, not destroyed", "post", fn, ("P16",))
                    E.ob(s1, deep_eq(by.get(0), base), "the result is exactly the allocated buffer", "post", fn, ("P14", "P16"))
                else:
                    E.ob(s1, and_(eq(g.f["n"], g.f["d"]), eq(by.n, 0)), "on error the buffer is destroyed and nothing returned", "post", fn, ("P16",))
            res.append((code, s, fn))
    for code, s, fn in res:
        g = s.load(gh).f
        b2 = s.load(bl)
        E.ob(s, len(s.locks) == 0, "lock released", "lock", fn, ("P24",))
        for bad, s1 in E.branch(s, g["fail"]):
            if bad:
                E.ob(s1, eq(code, conv(g["code"])), "failure of a record is the result", "post", fn)
                continue
            E.ob(s1, eq(code, 0), "succeeds when every record is protected", "post", fn)
            E.ob(s1, and_(eq(g["cons"], T), eq(g["k"], records(T))), "all data protected, in as few records as possible", "post", fn)
            E.ob(s1, eq(g["wr"], announced(T)), "exactly the announced number of bytes", "post", fn)
            E.ob(s1, implies(and_(le(0, j), lt(j, g["wr"])), eq(b2.get(j), app(OUTB, j))), "the buffer holds the records one after the other", "post", fn)
    return E


def protect_into_hook(gh, bl, txt, L):
    """Contract of Protect into a given buffer (proved in protect('into'))."""
    def h(E, this, vals, st, n):
        from cppvc.models import write_range
        if len(vals) != 2:
            raise Unsupported("call of Protect")
        (pl, out), st = args(E, vals, st)
        P = ("P14",)
        g = st.load(gh).f
        T = txt.total
        st = E.ob(st, pl.pieces is txt, "protects the given data", "pre", n, P)
        b = out.f["iov_base"]
        if not isinstance(b, Ptr) or b.lv.cell != bl.cell:
            raise Unsupported("output buffer")
        st = E.ob(st, and_(eq(g["k"], 0), not_(g["fail"]), eq(b.off, 0), eq(out.f["iov_len"], L)), "protects once, into the whole buffer", "pre", n, P)
        code = fresh_int("pcode")
        nm = fresh_name("garb")
        res = []
        for s in write_range(E, st.assume(le(1, code), le(code, 12)), b, L, lambda j: E.sym_int(U8, nm, (j,)), n):
            s = s.copy()
            s.store(gh, s.load(gh).set("fail", True).set("code", code))
            res.append((Status(conv(code)), s))
        size = announced(T)
        good = st.assume(le(size, L))
        if E.feasible(good):
            for s in write_range(E, good, b, size, lambda j: app(OUTB, j), n):
                s = s.copy()
                s.store(gh, s.load(gh).set("cons", T).set("wr", size).set("k", records(T)))
                res.append((Status(0), s))
        return res
    return h


def protect_hook(gh, bl, txt, L, kind):
    def h(E, this, vals, st, n):
        from cppvc.models import write_range
        (ty, pl, out), st = args(E, vals, st)
        g = st.load(gh).f
        T = txt.total
        need = ite(lt(sub(T, g["cons"]), MAXP), sub(T, g["cons"]), MAXP)
        if pl.flatg is None:
            raise Unsupported("bytes to protect")
        fl = pl.flatg
        P = ("P14",)
        st = E.ob(st, "protect_mu_" in str(st.locks), "records protected under the lock", "lock", n, ("P24",))
        st = E.ob(st, not_(g["fail"]), "stops at the first failure", "pre", n, P)
        st = E.ob(st, eq(ty, 0), "application data records", "pre", n, P)
        st = E.ob(st, or_(lt(g["cons"], T), eq(g["k"], 0)), "no record without data (but for no data at all)", "pre", n, P)
        st = E.ob(st, eq(fl.n, need), "every record but the last is full", "pre", n, P)
        j = fresh_int("skj")
        st = E.ob(st, implies(and_(le(0, j), lt(j, fl.n)), eq(fl.get(j), txt.flat(add(g["cons"], j)))), "records carry consecutive chunks", "pre", n, P)
        b = out.f["iov_base"]
        if not isinstance(b, Ptr) or b.lv.cell != bl.cell:
            st = E.ob(st, False, "records are written to the buffer", "pre", n, P)
            return []
        st = E.ob(st, and_(eq(b.off, g["wr"]), le(add(b.off, out.f["iov_len"]), L)), "records are written one after the other", "pre", n, P)
        size = add(need, OVER)
        if kind == "alloc":
            st = E.ob(st, le(size, out.f["iov_len"]), "every record gets the room it needs", "pre", n, P)
        code = fresh_int("pcode")
        bad = st.assume(le(1, code), le(code, 12))
        nm = fresh_name("garb")
        res = []
        for s in write_range(E, bad, b, out.f["iov_len"], lambda j: E.sym_int(U8, nm, (j,)), n):
            s = s.copy()
            s.store(gh, s.load(gh).set("fail", True).set("code", code))
            res.append((cstatus(E, code, 0), s))
        good = st.assume(le(size, out.f["iov_len"]))
        if E.feasible(good):
            w0 = g["wr"]
            for s in write_range(E, good, b, size, lambda j: app(OUTB, add(w0, j)), n):
                s = s.copy()
                s.store(gh, s.load(gh).set("cons", add(g["cons"], need)).set("wr", add(w0, size)).set("k", add(g["k"], 1)))
                res.append((cstatus(E, 0, size), s))
        return res
    return h


# -- deframing: positions in the protected bytes ------------------------------------------
def pos_ok(V, i, x):
    """(i, x) denotes a position: piece i, offset x."""
    return and_(le(0, i), le(i, V.n), le(0, x), le(x, V.len(i)), implies(eq(i, V.n), eq(x, 0)))


def pos(V, i, x):
    return add(V.offs(i), x)


def well_formed(V, p):
    return and_(le(add(p, 5), V.total), eq(V.flat(p), 23), eq(V.flat(add(p, 1)), 3), eq(V.flat(add(p, 2)), 3))


def payload(V, p):
    return add(mul(256, V.flat(add(p, 3))), V.flat(add(p, 4)))


HDR, ISO = FN + "::(anonymous)::ComputeTlsRecordSize", FN + "::(anonymous)::IsolateTlsPayload"


def helper(t, name, nparams):
    for q in (FN + "::" + name, FN + "::(anonymous)::" + name, FN + "::(anonymous namespace)::" + name):
        c = [f for f in t.find(q) if len(params_of(f)) == nparams]
        if len(c) == 1:
            return c[0], q
    raise Unsupported("helper " + name)


def head_size():
    """ComputeTlsRecordSize: the 5 header bytes at a position, and the position behind them."""
    E, t = engine("ComputeTlsRecordSize", ("P15",))
    fn, q = helper(t, "ComputeTlsRecordSize", 4)
    st = State()
    iov = parse(IOV, t)
    V = Pieces(E, "prot")
    st.add(eq(app(V.BAD, V.n), 0))
    pl = E.alloc(st, "protected", V.iovecs(iov), Ty("vec", [iov]))
    i0, x0 = E.sym_int(SIZE, "vec_index"), E.sym_int(SIZE, "on_vec_index")
    st.add(pos_ok(V, i0, x0))
    p0 = fresh_int("p0")
    st.add(eq(p0, pos(V, i0, x0)))
    hdr = Arr(U8, 5, lambda j: E.sym_int(U8, "hdr", (j,)), "arr")
    hl = E.alloc(st, "header", hdr, Ty("arr", [U8]))
    wi = walk_inv(V)

    def inv(E, head, lp):
        out = wi(E, head, lp)
        ints = [c for c in lp.cols[:lp.nleaf] if not isc(c) and z3.is_const(c) and z3.is_int(c)]
        for x in ints:
            out += [le(x, 5)]
            for k, w in ((1, 23), (2, 3), (3, 3)):
                out.append(or_(lt(x, k), eq(V.flat(add(p0, k - 1)), w)))
            for y in ints:
                if x is not y:
                    for k, w in ((4, mul(256, V.flat(add(p0, 3)))), (5, V.flat(add(p0, 4))), (4, V.flat(add(p0, 3))), (5, payload(V, p0))):
                        out.append(or_(lt(x, k), eq(y, w)))
        return out
    E.inv_extra = inv

    def content(loop, p, ent, alt):
        if p[0] != hl.cell:
            return None
        return lambda j, x: ite(and_(le(0, j), lt(j, x)), V.flat(add(p0, j)), ent.get(j))
    E.loop_content = content
    j = fresh_int("skj")
    for v, s in E.call(fn, t, None, [pl, i0, x0, Ptr(False, hl, 0)], st):
        v, s = E.rv(v, s)
        h2 = s.load(hl)
        good = well_formed(V, p0)
        for ok, s1 in E.branch(s, eq(v.idx, 1)):
            if not ok:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is an error", "post", fn)
                E.ob(s1, not_(good), "fails only for an incomplete or malformed header", "post", fn)
                continue
            r = v.alts[1].f
            E.ob(s1, good, "an incomplete or malformed header is an error", "post", fn)
            E.ob(s1, eq(r["record_size"], add(5, payload(V, p0))), "record size from the header", "post", fn)
            E.ob(s1, and_(pos_ok(V, r["iovec_index"], r["on_vec_index"]), eq(pos(V, r["iovec_index"], r["on_vec_index"]), add(p0, 5))), "position behind the header", "post", fn)
            E.ob(s1, implies(and_(le(0, j), lt(j, 5)), eq(h2.get(j), V.flat(add(p0, j)))), "header bytes copied", "post", fn)
    return E


def isolate():
    """IsolateTlsPayload: the bytes at a position, and the position behind them."""
    E, t = engine("IsolateTlsPayload", ("P15",))
    fn, q = helper(t, "IsolateTlsPayload", 4)
    st = State()
    iov = parse(IOV, t)
    V = Pieces(E, "prot")
    st.add(eq(app(V.BAD, V.n), 0))
    pl = E.alloc(st, "protected", V.iovecs(iov), Ty("vec", [iov]))
    i0, x0, N = E.sym_int(SIZE, "vec_index"), E.sym_int(SIZE, "on_vec_index"), E.sym_int(SIZE, "payload_size")
    st.add(pos_ok(V, i0, x0), lt(N, 2 ** 32))
    p0 = pos(V, i0, x0)
    E.inv_extra = walk_inv(V)
    j = fresh_int("skj")
    for v, s in E.call(fn, t, None, [pl, i0, x0, N], st):
        v, s = E.rv(v, s)
        good = le(add(p0, N), V.total)
        for ok, s1 in E.branch(s, eq(v.idx, 1)):
            if not ok:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is an error", "post", fn)
                E.ob(s1, not_(good), "fails only when bytes are missing", "post", fn)
                continue
            r = v.alts[1].f
            E.ob(s1, good, "missing bytes are an error", "post", fn)
            fl = r["payload"].flatg
            if fl is None:
                raise Unsupported("contents of the payload")
            E.ob(s1, eq(fl.n, N), "payload has the requested length", "post", fn)
            E.ob(s1, implies(and_(le(0, j), lt(j, N)), eq(fl.get(j), V.flat(add(p0, j)))), "payload bytes in order", "post", fn)
            E.ob(s1, and_(pos_ok(V, r["vec_index"], r["on_vec_index"]), eq(pos(V, r["vec_index"], r["on_vec_index"]), add(p0, N))), "position behind the payload", "post", fn)
    return E


def install_helpers(E, t, V, hl=None):
    """Use the helpers' contracts (proved in head_size and isolate) where the code calls them on the protected bytes."""
    try:
        _, q1 = helper(t, "ComputeTlsRecordSize", 4)
        _, q2 = helper(t, "IsolateTlsPayload", 4)
    except Unsupported:
        return

    def hsize(E, this, vals, st, n):
        (pl, i, x, hp), st = args(E, vals, st)
        if pl.pieces is not V or not isinstance(hp, Ptr) or hp.off is None:
            raise Unsupported("arguments of ComputeTlsRecordSize")
        st = E.ob(st, pos_ok(V, i, x), "position in the protected bytes", "pre", n, ("P15",))
        st = E.ob(st, and_(not_(hp.null), le(add(hp.off, 5), st.load(hp.lv).n)), "room for the header", "pre", n, ("P15",))
        p = pos(V, i, x)
        out = []
        for ok, s in E.branch(st, well_formed(V, p)):
            s = s.copy()
            h = s.load(hp.lv)
            if not ok:
                nm = fresh_name("garb")
                s.store(hp.lv, arr_write(h, hp.off, 5, lambda j: E.sym_int(U8, nm, (j,))))
                c = fresh_int("hcode")
                s.add(le(1, c), le(c, 16))
                out.append((Variant(0, [Status(c, fresh_str("msg")), None]), s))
                continue
            s.store(hp.lv, arr_write(h, hp.off, 5, lambda j: V.flat(add(p, j))))
            i2, x2 = fresh_int("hi"), fresh_int("hx")
            s.add(pos_ok(V, i2, x2), eq(pos(V, i2, x2), add(p, 5)))
            d = E.default(Ty("rec", name=FN + "::ComputeTlsRecordSizeResult"))
            out.append((Variant(1, [None, d.set("record_size", add(5, payload(V, p))).set("iovec_index", i2).set("on_vec_index", x2)]), s))
        return out

    def iso(E, this, vals, st, n):
        (pl, i, x, N), st = args(E, vals, st)
        if pl.pieces is not V:
            raise Unsupported("arguments of IsolateTlsPayload")
        st = E.ob(st, and_(pos_ok(V, i, x), le(0, N), lt(N, 2 ** 32)), "position in the protected bytes", "pre", n, ("P15",))
        p = pos(V, i, x)
        out = []
        for ok, s in E.branch(st, le(add(p, N), V.total)):
            s = s.copy()
            if not ok:
                c = fresh_int("icode")
                s.add(le(1, c), le(c, 16))
                out.append((Variant(0, [Status(c, fresh_str("msg")), None]), s))
                continue
            i2, x2, m = fresh_int("ii"), fresh_int("ix"), fresh_int("in")
            s.add(pos_ok(V, i2, x2), eq(pos(V, i2, x2), add(p, N)), le(0, m), lt(m, 2 ** 60))
            nm = fresh_name("part")
            iov = parse(IOV, t)
            a = Arr(iov, m, lambda k: E.sym(iov, nm, (k,), t), "vec")
            a.flatg = Arr(U8, N, lambda j: V.flat(add(p, j)), "seq")
            d = E.default(Ty("rec", name=FN + "::IsolateTlsPayloadResult"))
            out.append((Variant(1, [None, d.set("payload", a).set("vec_index", i2).set("on_vec_index", x2)]), s))
        return out
    for q in (q1, FN + "::ComputeTlsRecordSize", "ComputeTlsRecordSize"):
        E.hooks[q] = hsize
    for q in (q2, FN + "::IsolateTlsPayload", "IsolateTlsPayload"):
        E.hooks[q] = iso


# -- Unprotect of one record -----------------------------------------------------------------
def unprotect_one():
    E, t = engine("Unprotect (one record)", ("P15",))
    st = State()
    th, o = sym_obj(E, st, t)
    iov = parse(IOV, t)
    V = Pieces(E, "prot")
    T = V.total
    st.add(eq(app(V.BAD, V.n), 0))
    pl = E.alloc(st, "protected", V.iovecs(iov), Ty("vec", [iov]))
    L = E.sym_int(SIZE, "outLen")
    st.add(lt(L, 2 ** 62))
    base = Struct(IOV, {"iov_base": Op(7, False, "buffer"), "iov_len": L})
    out = E.alloc(st, "out", base, iov)
    install_helpers(E, t, V)
    E.inv_extra = walk_inv(V)
    E.hooks["fn*destroy_"] = E.hooks["fn*allocator_"] = lambda E, this, vals, st, n: [(UNIT, E.ob(st, False, "neither allocates nor destroys", "post", n, ("P16",)))]
    gh = E.alloc(st, "ghost", Struct("ghost", {"n": 0, "code": 0, "len": 0}), None)

    def crypt(E, this, vals, s, n):
        (hd, pay, ob), s = args(E, vals, s)
        s = record_args(E, s, n, V, 0, hd, pay)
        s = E.ob(s, and_(eq(s.load(gh).f["n"], 0), eq(T, add(5, payload(V, 0)))), "exactly one record is decrypted, and it is the whole input", "pre", n, ("P15",))
        s = E.ob(s, deep_eq(ob, base), "decrypted into the caller's buffer", "pre", n, ("P15",))
        code, ln = fresh_int("ucode"), fresh_int("ulen")
        s = s.assume(le(0, code), le(code, 12), le(0, ln), le(ln, L), lt(ln, 2 ** 15), implies(ne(code, 0), eq(ln, 0)))
        s = s.copy()
        s.store(gh, Struct("ghost", {"n": 1, "code": code, "len": ln}))
        return [(cstatus(E, code, ln), s)]
    E.hooks[CR + "::Unprotect"] = crypt
    fn = find1(t, FP + "::Unprotect", 2)
    for v, s in E.call(fn, t, th, [pl, out], st):
        v, s = E.rv(v, s)
        g, o2 = s.load(gh).f, s.load(out)
        good = and_(ge(T, OVER), well_formed(V, 0), eq(T, add(5, payload(V, 0))))
        E.ob(s, deep_eq(o2.f["iov_base"], base.f["iov_base"]), "caller's buffer kept", "post", fn, ("P15", "P16"))
        E.ob(s, eq(eq(g["n"], 1), good), "decrypts exactly when the input is one complete record", "post", fn)
        E.ob(s, eq(eq(v.code, 0), and_(good, eq(g["code"], 0))), "succeeds exactly for one complete record the crypter accepts", "post", fn)
        E.ob(s, implies(and_(good, ne(g["code"], 0)), eq(v.code, conv(g["code"]))), "crypter failure is the result", "post", fn)
        E.ob(s, implies(eq(v.code, 0), eq(o2.f["iov_len"], g["len"])), "reports the content length", "post", fn)
        E.ob(s, len(s.locks) == 0, "lock released", "lock", fn, ("P24",))
    return E


def record_args(E, s, n, V, p, hd, pay):
    """Obligations on the arguments of S2ACrypter::Unprotect for the record at position p."""
    P = ("P15",)
    b = hd.f["iov_base"]
    if not isinstance(b, Ptr) or b.off is None:
        raise Unsupported("header argument")
    a = s.load(b.lv)
    j = fresh_int("skj")
    s = E.ob(s, and_(not_(b.null), eq(hd.f["iov_len"], 5), implies(and_(le(0, j), lt(j, 5)), eq(a.get(add(b.off, j)), V.flat(add(p, j))))), "the header of the record", "pre", n, P)
    fl = pay.flatg
    if fl is None:
        raise Unsupported("payload argument")
    s = E.ob(s, eq(fl.n, payload(V, p)), "the whole payload of the record (length)", "pre", n, P)
    s = E.ob(s, implies(and_(le(0, j), lt(j, fl.n)), eq(fl.get(j), V.flat(add(p, add(5, j))))), "the whole payload of the record", "pre", n, P)
    return s


# -- Unprotect of a sequence of records ---------------------------------------------------------
def unprotect_all():
    E, t = engine("Unprotect (all records)", ("P15",))
    st = State()
    th, o = sym_obj(E, st, t)
    iov = parse(IOV, t)
    V = Pieces(E, "prot")
    T = V.total
    st.add(eq(app(V.BAD, V.n), 0))
    pl = E.alloc(st, "protected", V.iovecs(iov), Ty("vec", [iov]))
    install_helpers(E, t, V)
    E.ax.on("plen", lambda i: and_(le(0, app(PLEN, i)), lt(app(PLEN, i), 2 ** 15)))
    # ghost: position of the next record, records decrypted, allocated buffers, failure of the crypter
    gh = E.alloc(st, "ghost", Struct("ghost", {"pos": 0, "k": 0, "n": 0, "fail": False, "code": 0}), None)
    INT = Ty("int", n=(64, True))
    des = E.alloc(st, "destroyed", Arr(INT, 2 ** 62, lambda j: 0, "map"), None)
    E.inv_extra = walk_inv(V)
    P16 = ("P16",)

    def alloc(E, this, vals, s, n):
        (x,), s = args(E, vals, s)
        g = s.load(gh)
        s = s.copy()
        s.store(gh, g.set("n", add(g.f["n"], 1)))
        return [(Struct(IOV, {"iov_base": Op(g.f["n"], False, "ptr"), "iov_len": x}), s)]

    def destroy(E, this, vals, s, n):
        (x,), s = args(E, vals, s)
        b = x.f["iov_base"]
        if not isinstance(b, Op) or b.kind != "ptr":
            raise Unsupported("argument of destroy")
        g, d = s.load(gh), s.load(des)
        s = E.ob(s, and_(le(0, b.id), lt(b.id, g.f["n"]), eq(d.get(b.id), 0)), "destroys only allocated buffers, each once", "pre", n, P16)
        s = s.copy()
        s.store(des.sub(("i", b.id)), 1)
        return [(UNIT, s)]

    def crypt(E, this, vals, s, n):
        (hd, pay, ob), s = args(E, vals, s)
        g = s.load(gh).f
        s = E.ob(s, "unprotect_mu_" in str(s.locks), "records unprotected under the lock", "lock", n, ("P24",))
        s = E.ob(s, not_(g["fail"]), "stops at the first failure", "pre", n, ("P15",))
        s = record_args(E, s, n, V, g["pos"], hd, pay)
        b = ob.f["iov_base"]
        if not isinstance(b, Op) or b.kind != "ptr":
            raise Unsupported("output of Unprotect")
        s = E.ob(s, and_(eq(b.id, g["k"]), eq(g["n"], add(g["k"], 1)), eq(s.load(des).get(b.id), 0)), "every record gets its own buffer", "pre", n, ("P15", "P16"))
        size = payload(V, g["pos"])
        s = E.ob(s, le(sub(size, 16), ob.f["iov_len"]), "the buffer is large enough for the record", "pre", n, ("P15",))
        code = fresh_int("ucode")
        bad = s.assume(le(1, code), le(code, 12))
        bad = bad.copy()
        bad.store(gh, bad.load(gh).set("fail", True).set("code", code))
        good = s.copy()
        ln = app(PLEN, g["k"])
        good.store(gh, good.load(gh).set("pos", add(g["pos"], add(5, size))).set("k", add(g["k"], 1)))
        return [(cstatus(E, code, 0), bad), (cstatus(E, 0, ln), good)]
    E.hooks["fn*allocator_"], E.hooks["fn*destroy_"], E.hooks[CR + "::Unprotect"] = alloc, destroy, crypt
    fn = find1(t, FP + "::Unprotect", 1)
    for v, s in E.call(fn, t, th, [pl], st):
        v, s = E.rv(v, s)
        g, d = s.load(gh).f, s.load(des)
        code, by = v.f["status"].code, v.f["bytes"]
        j = fresh_int("skj")
        rest = sub(T, g["pos"])
        E.ob(s, len(s.locks) == 0, "lock released", "lock", fn, ("P24",))
        for ok, s1 in E.branch(s, eq(code, 0)):
            inr = and_(le(0, j), lt(j, g["n"]))
            if ok:
                E.ob(s1, and_(not_(g["fail"]), eq(rest, 0), le(1, g["k"])), "success only when every record was decrypted, up to the end", "post", fn)
                E.ob(s1, and_(eq(by.n, g["k"]), eq(g["n"], g["k"])), "one buffer per record", "post", fn, ("P15", "P16"))
                x = by.get(j)
                b = x.f["iov_base"]
                while isinstance(b, PIte):
                    b = b.a if E.valid(s1.assume(inr), b.c) else b.b
                if not isinstance(b, Op):
                    raise Unsupported("result buffers")
                E.ob(s1, implies(inr, and_(eq(b.id, j), eq(x.f["iov_len"], app(PLEN, j)))), "every record's content, in order", "post", fn, ("P15", "P16"))
                E.ob(s1, implies(inr, eq(d.get(j), 0)), "no returned buffer is destroyed", "post", fn, P16)
            else:
                partial = or_(lt(rest, OVER), not_(well_formed(V, g["pos"])), lt(rest, add(5, payload(V, g["pos"]))))
                E.ob(s1, or_(g["fail"], and_(or_(lt(0, rest), eq(g["k"], 0)), partial)), "an error only for a rejected, malformed or partial record", "post", fn)
                E.ob(s1, implies(g["fail"], eq(code, conv(g["code"]))), "crypter failure is the result", "post", fn)
                E.ob(s1, eq(by.n, 0), "no data with an error", "post", fn)
                E.ob(s1, implies(inr, eq(d.get(j), 1)), "every allocated buffer is destroyed", "post", fn, P16)
    return E


# -- Create -------------------------------------------------------------------------------------
def create():
    """The crypter is created from exactly the options; missing callbacks are an error."""
    E, t = engine("Create", ("P19", "P14"))
    fn = find1(t, FP + "::Create")
    st = State()
    oty = parse(FP + "::S2AFrameProtectorOptions", t)
    V8 = Ty("vec", [U8])
    f = {}
    refs = {}
    for nm, ft in E.fields(oty.name, t):
        if ft.k == "func":
            f[nm] = Fn(fresh_bool("no" + nm), nm)
        elif nm in ("channel_factory", "channel_options"):
            f[nm] = UPtr(fresh_bool("no" + nm), Op(fresh_int(nm), False, nm), ft.elem)
        elif nm == "handshaker_service_url":
            refs[nm] = E.sym(Ty("str"), "url")
            f[nm] = E.alloc(st, "url", refs[nm])
        elif nm == "local_identity":
            refs[nm] = E.sym(parse("s2a::s2a_options::S2AOptions::Identity", t), "ident")
            f[nm] = E.alloc(st, "ident", refs[nm])
        else:
            f[nm] = E.sym(ft, "opt." + nm)
    old = Struct(oty.name, f)
    ol = E.alloc(st, "options", old)
    got = lambda nm: refs.get(nm, f[nm])
    names = ("tls_version", "tls_ciphersuite", "connection_id", "handshaker_service_url", "local_identity", "in_traffic_secret", "out_traffic_secret",
             "in_sequence", "out_sequence", None, "channel_factory", "channel_options", "logger")

    def crypter(E, this, vals, s, n):
        xs, s = args(E, vals, s)
        if len(xs) != len(names):
            raise Unsupported("arguments of S2ACrypter::Create")
        s = s.copy()
        s.ghost["made"] = s.ghost.get("made", ()) + (tuple(xs),)
        c = fresh_int("ccode")
        bad = s.assume(le(1, c), le(c, 16))
        bad.ghost["failed"] = c
        return [(Variant(0, [Status(c), None]), bad), (Variant(1, [None, UPtr(False, Struct(CR, {"$id": 77}), Ty("rec", name=CR))]), s)]
    E.hooks[CR + "::Create"] = crypter
    okargs = and_(*[not_(f[k].null) for k in ("allocator", "destroy", "logger")])
    for v, s in E.call(fn, t, None, [ol], st):
        v, s = E.rv(v, s)
        made, failed = s.ghost.get("made", ()), s.ghost.get("failed")
        E.ob(s, eq(len(made), ite(okargs, 1, 0)), "a crypter is created exactly when all callbacks are present", "post", fn)
        for xs in made:
            for nm, x in zip(names, xs):
                if nm is None:
                    E.ob(s, isinstance(x, Fn) and "SendTicketsToS2A" in str(x.tag) + str((x.node or {}).get("name", "")), "tickets go to the S2A", "post", fn, ("P13",))
                else:
                    E.ob(s, deep_eq(x, got(nm)), "crypter created with the given " + nm, "post", fn)
        for ok, s1 in E.branch(s, eq(v.idx, 1)):
            if not ok:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is an error", "post", fn)
                E.ob(s1, or_(not_(okargs), failed is not None), "fails only for missing callbacks or when the crypter fails", "post", fn)
                E.ob(s1, implies(okargs, eq(v.alts[0].code, failed if failed is not None else 0)), "crypter failure is the result", "post", fn)
                continue
            E.ob(s1, and_(okargs, failed is None), "succeeds only with a crypter", "post", fn)
            u = v.alts[1]
            E.ob(s1, not_(u.null), "frame protector non-null", "post", fn)
            g = u.val.f
            E.ob(s1, and_(deep_eq(g["allocator_"], f["allocator"]), deep_eq(g["destroy_"], f["destroy"]), deep_eq(g["logger_"], f["logger"])), "callbacks stored", "post", fn, ("P16", "P14"))
            E.ob(s1, and_(not_(g["crypter_"].null), eq(g["crypter_"].val.f.get("$id", 0), 77)), "the created crypter is used", "post", fn)
            E.ob(s1, eq(g["max_record_size_"], MAXP + OVER), "maximum record size", "post", fn, ("P14",))
    return E
