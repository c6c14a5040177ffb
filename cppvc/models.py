"""Models (assumed contracts) of the C++ standard library, Abseil and libc functions used by the code."""
import z3
from .cast import Unsupported
from . import types as T
from .types import Ty, parse, SIZE, U8, I32, BOOL, STR, VOID, STATUS
from .terms import *
from .values import *


def CODEOF(name):
    from .engine import CODE
    return CODE[name]


def concat_flat(E, a, b):
    return Arr(U8, add(a.n, b.n), lambda j: ite_val(lt(j, a.n), a.get(j), b.get(sub(j, a.n))), "seq",)


# -- byte ranges ------------------------------------------------------------
def typed(src, ety):
    src.ety = ety
    return src


def as_elem(src, ety):
    """The same memory seen with another element type (8-bit signed or unsigned)."""
    a = getattr(src, "ety", None)
    if a is None or ety is None or a.k != "int" or ety.k != "int" or a.n == ety.n:
        return src
    if a.n[0] != 8 or ety.n[0] != 8:
        return src
    if ety.n[1]:
        return typed(lambda j: flip(src(j), 127, -256), ety)
    return typed(lambda j: flip(src(j), -1, 256), ety)


def flip(v, lim, d):
    if isinstance(v, int):
        return v + d if (v > lim if lim > 0 else v < 0) else v
    return ite(gt(v, lim) if lim > 0 else lt(v, 0), add(v, d), v)


def read_range(E, st, p, ln, n, what="read"):
    """[(src, st)]: the ln elements at pointer p, with in-bounds obligations."""
    out = []
    for q, s in E.force(p, st):
        if isinstance(q, UPtr) and isinstance(q.val, Arr):
            a = q.val
            s = E.ob(s, implies(lt(0, ln), and_(not_(q.null), le(ln, a.n))), what + "-in-bounds", node=n)
            out.append((typed(lambda j, a=a: a.get(j), a.ety), s))
        elif isinstance(q, NullPtr):
            s = E.ob(s, eq(ln, 0), what + "-through-null", node=n)
            out.append(((lambda j: fresh_int("null")), s))
        elif isinstance(q, Ptr):
            if q.off is None:
                v = s.load(q.lv)
                if is_term(v):
                    s = E.ob(s, and_(not_(q.null), le(ln, 1)), what + "-in-bounds", node=n)
                    out.append(((lambda j, v=v: v), s))
                    continue
                raise Unsupported("range through %r" % (q,))
            a = s.load(q.lv)
            if not isinstance(a, Arr):
                raise Unsupported("range of %r" % (a,))
            s = E.ob(s, implies(lt(0, ln), and_(not_(q.null), le(0, q.off), le(add(q.off, ln), a.n))), what + "-in-bounds", node=n)
            out.append((typed(lambda j, a=a, o=q.off: a.get(add(o, j)), a.ety), s))
        elif isinstance(q, PV):
            s = E.ob(s, implies(lt(0, ln), and_(not_(q.null), le(q.lo, q.pos), le(add(q.pos, ln), q.hi))), what + "-within-piece", node=n)
            out.append((typed(lambda j, q=q: q.vec.flat(add(q.pos, j)), U8), s))
        else:
            raise Unsupported("range through %r (%s)" % (q, E.loc(n)))
    return out


def write_range(E, st, p, ln, src, n, what="write"):
    """[st]: write ln elements at pointer p."""
    out = []
    for q, s in E.force(p, st):
        if isinstance(q, NullPtr):
            s = E.ob(s, eq(ln, 0), what + "-through-null", node=n)
            out.append(s)
        elif isinstance(q, Ptr):
            if q.off is None:
                v = s.load(q.lv)
                if is_term(v):
                    s = E.ob(s, le(ln, 1), what + "-in-bounds", node=n).copy()
                    s.store(q.lv, src(0))
                    out.append(s)
                    continue
                raise Unsupported("write through %r" % (q,))
            a = s.load(q.lv)
            s = E.ob(s, implies(lt(0, ln), and_(not_(q.null), le(0, q.off), le(add(q.off, ln), a.n))), what + "-in-bounds", node=n)
            if isinstance(ln, int) and ln == 0:
                out.append(s)
                continue
            s = s.copy()
            o = q.off
            s.store(q.lv, keepfl(a, arr_write(a, o, ln, as_elem(src, a.ety))))
            out.append(s)
        else:
            raise Unsupported("write through %r (%s)" % (q, E.loc(n)))
    return out


def keepfl(a, r):
    return r


def store_int(E, st, p, v, n):
    """Store an int through a pointer that may view a wider integer (little endian)."""
    out = []
    for q, s in E.force(p, st):
        if isinstance(q, NullPtr):
            out.append(s)
            continue
        if not isinstance(q, Ptr):
            raise Unsupported("store through %r" % (q,))
        s = E.ob(s, not_(q.null), "store-through-null", node=n).copy()
        if q.off is not None:
            lv, s = E.deref(q, s, n)
            s = s.copy()
            s.store(lv, v)
        elif q.view is not None and q.view[0][0] > q.view[1][0]:
            w = 2 ** q.view[1][0]
            old = s.load(q.lv)
            new = add(sub(old, mod(old, w)), v) if not (isinstance(old, int) and old < w) else v
            s = E.ob(s, le(0, v), "value-fits-view", node=n).copy()
            s.store(q.lv, new)
        elif q.view is not None and q.view[0][0] < q.view[1][0]:
            raise Unsupported("store through a wider view")
        else:
            s.store(q.lv, v)
        out.append(s)
    return out


def str_of(E, v, st):
    """String value of a char pointer / literal / string."""
    if isinstance(v, LV):
        v = st.load(v)
    if isinstance(v, Arr):
        if isinstance(v.atom, tuple):
            return lit_str(v.atom[1].split(b"\0")[0])
        return v
    if isinstance(v, Ptr) and v.off is not None:
        a = st.load(v.lv)
        if isinstance(a, Arr):
            if isinstance(a.atom, tuple) and v.off == 0:
                return lit_str(a.atom[1].split(b"\0")[0])
            if a.kind == "cstr" and same(v.off, 0):
                return atom_str(a.atom)
            if a.kind == "str" and same(v.off, 0):
                b = lit_of(a.atom) if isinstance(a.atom, int) else None
                if b is not None:
                    return lit_str(b.split(b"\0")[0])
                # a char pointer loses everything from the first NUL on
                return atom_str(app(STRZ, a.atom)) if a.atom is not None and not isinstance(a.atom, tuple) else fresh_str("cstr")
    if isinstance(v, UPtr):
        return fresh_str("cstr")
    raise Unsupported("string of %r" % (v,))


# -- construction -----------------------------------------------------------
def construct(E, ty, vals, st, n, argnodes):
    k = ty.k
    if k in ("ptr", "int", "enum", "bool"):
        if vals:
            v, st = E.rv(vals[0], st)
            return [(v, st)]
        return [(E.default(ty, True), st)]
    if k == "status":
        if not vals:
            return [(Status(0), st)]
        vals, st = E.rvs(vals, st)
        if isinstance(vals[0], Status):
            return [(vals[0], st)]
        code = E.to_int(vals[0])
        return [(Status(code, vals[1] if len(vals) > 1 else None), st)]
    if k == "vec":
        if not vals:
            return [(E.default(ty), st)]
        vals, st = E.rvs(vals, st)
        v = vals[0]
        if isinstance(v, Arr):
            if v.kind != "vec":
                v2 = Arr(v.ety, v.n, v.get, "vec", items=v.items)
                v2.flatg = v.flatg
                v = v2
            return [(v, st)]
        if is_term(v):
            nn = v
            if len(vals) > 1 and is_term(vals[1]):
                fill = vals[1]
                return [(fillvec(ty.elem, nn, fill), st)]
            e = ty.elem
            if e.isint():
                return [(fillvec(e, nn, 0), st)]
            d = E.default(e, True)
            return [(Arr(e, nn, lambda i: d, "vec"), st)]
        if isinstance(v, (Ptr, PV, PIte, NullPtr)) and len(vals) >= 2:
            out = []
            for src, ln, s in range_between(E, st, vals[0], vals[1], n):
                out.append((Arr(ty.elem, ln, as_elem(src, ty.elem), "vec"), s))
            return out
        raise Unsupported("vector construction from %r" % (vals,))
    if k in ("str", "sv"):
        if not vals:
            return [(lit_str(b""), st)]
        vals, st = E.rvs(vals, st)
        v = vals[0]
        if isinstance(v, Arr) and v.kind == "str":
            return [(v, st)]
        if len(vals) == 2 and is_term(v) and is_term(vals[1]):
            c = vals[1]
            return [(Arr(CHARTY, v, lambda i: c, "str"), st)]
        if len(vals) >= 2 and is_term(vals[1]) and not is_term(v):
            return bytes_str(E, st, v, vals[1], n)
        if len(vals) >= 2 and isinstance(v, (Ptr, PV)) and isinstance(vals[1], (Ptr, PV)):
            out = []
            for src, ln, s in range_between(E, st, v, vals[1], n):
                out.append((Arr(T.CHAR, ln, as_elem(src, T.CHAR), "str"), s))
            return out
        if isinstance(v, UPtr) or isinstance(v, Op):
            return [(fresh_str("cstr"), st)]
        return [(str_of(E, v, st), st)]
    if k == "uptr":
        if not vals:
            return [(UPtr(True, None, ty.elem), st)]
        v, st = E.rv(vals[0], st)
        if isinstance(v, NullPtr):
            v = UPtr(True, None, ty.elem)
        if isinstance(v, UPtr):
            return [(v, st)]
        if isinstance(v, Op):
            return [(UPtr(v.null, v, ty.elem), st)]
        raise Unsupported("unique_ptr from %r (%s)" % (v, E.loc(n)))
    if k in ("variant", "statusor"):
        if not vals:
            return [(E.default(ty), st)]
        v, st = E.rv(vals[0], st)
        return [(to_variant(E, ty, v, argnodes[0] if argnodes else None), st)]
    if k == "func":
        if not vals:
            return [(Fn(True, "null"), st)]
        v, st = E.rv(vals[0], st)
        if isinstance(v, NullPtr):
            v = Fn(True, "null")
        return [(v, st)]
    if k in ("lambda", "initlist", "pair", "set", "map", "opaque", "arr", "mutex"):
        h = E.models.get("construct:" + k)
        if h is not None:
            return h(E, ty, vals, st, n)
        if len(vals) == 1:
            v, st = E.rv(vals[0], st)
            return [(v, st)]
        if not vals:
            return [(E.default(ty), st)]
        h = E.models.get("construct:" + (ty.name or k))
        if h is not None:
            return h(E, ty, vals, st, n)
    raise Unsupported("construction of %r from %r (%s)" % (ty, vals, E.loc(n)))


def variant_types(ty):
    if ty.k == "statusor":
        return [STATUS, ty.a[0]]
    return list(ty.a)


def to_variant(E, ty, v, argnode):
    ts = variant_types(ty)
    if isinstance(v, Variant):
        return v
    idx = None
    for i, t in enumerate(ts):
        if t.k == "status" and isinstance(v, Status) or t.k == "uptr" and isinstance(v, (UPtr, NullPtr)) or \
                t.k == "rec" and isinstance(v, Struct) and v.name == t.name or \
                t.k in ("str", "sv") and isinstance(v, Arr) and v.kind == "str" or t.k == "vec" and isinstance(v, Arr) and v.kind == "vec":
            idx = i
            break
        if t.isint() and is_term(v) or t.k == "func" and isinstance(v, Fn) or t.k == "opaque" and isinstance(v, Op):
            idx = i
            break
        if t.k == "ptr" and isinstance(v, (Ptr, Op, NullPtr)):
            idx = i
            break
    if idx is None:
        raise Unsupported("variant %r from %r" % (ty, v))
    alts = [None] * len(ts)
    alts[idx] = v
    return Variant(idx, alts)


def fillvec(ety, n, x):
    if isinstance(n, int) and 0 <= n <= 256:
        return arr_items(ety, [x] * n, "vec")
    return Arr(ety, n, lambda i: x, "vec")


def bytes_str(E, st, p, ln, n):
    out = []
    if isinstance(p, Ptr) and p.off is not None:
        a = st.load(p.lv)
        if isinstance(a, Arr) and isinstance(a.atom, tuple) and isinstance(conc(ln), int) and p.off == 0:
            return [(lit_str(a.atom[1][:conc(ln)]), st)]
        if isinstance(a, Arr) and a.kind == "str" and same(p.off, 0) and same(ln, a.n):
            return [(a, st)]
    if isinstance(p, (UPtr, Op)):
        return [(fresh_str("cstr"), st)]
    for src, s in read_range(E, st, p, ln, n):
        out.append((Arr(T.CHAR, ln, as_elem(src, T.CHAR), "str"), s))
    return out


def range_between(E, st, a, b, n):
    """[(src, len, st)] for the iterator range [a, b)."""
    out = []
    for p, s in E.force(a, st):
        for q, s2 in E.force(b, s):
            if isinstance(p, Ptr) and isinstance(q, Ptr) and same_lv(p.lv, q.lv):
                ln = sub(q.off, p.off)
            elif isinstance(p, PV) and isinstance(q, PV) and p.vec.samev(q.vec):
                ln = sub(q.pos, p.pos)
            elif isinstance(p, NullPtr) and isinstance(q, NullPtr):
                ln = 0
            else:
                raise Unsupported("iterator range %r .. %r (%s)" % (p, q, E.loc(n)))
            s3 = E.ob(s2, le(0, ln), "valid-range", node=n)
            for src, s4 in read_range(E, s3, p, ln, n):
                out.append((src, ln, s4))
    return out


# -- methods ----------------------------------------------------------------
def method(E, lv, name, vals, st, n):
    if isinstance(lv, Op):
        h = E.hooks.get("op:" + str(lv.kind) + "." + name) or E.hooks.get("op:" + name)
        if h is not None:
            return h(E, lv, vals, st, n)
        raise Unsupported("method %s of %r (%s)" % (name, lv, E.loc(n)))
    v = st.load(lv)
    out = []
    if isinstance(v, PIte):
        for x, s in E.force(v, st):
            s = s.copy()
            s.store(lv, x)
            out += method(E, lv, name, vals, s, n)
        return out
    if isinstance(v, Status):
        if name == "ok":
            return [(eq(v.code, 0), st)]
        if name == "code":
            return [(v.code, st)]
        if name in ("message", "ToString", "error_message"):
            return [(v.msg if isinstance(v.msg, Arr) else fresh_str("msg"), st)]
        if name == "IgnoreError":
            return [(UNIT, st)]
        if name == "operator=":
            x, st = E.rv(vals[0], st)
            st = st.copy()
            st.store(lv, x)
            return [(lv, st)]
    if isinstance(v, Arr):
        if v.kind in ("str", "cstr"):
            r = str_method(E, lv, v, name, vals, st, n)
        else:
            r = vec_method(E, lv, v, name, vals, st, n)
        if r is not None:
            return r
    if isinstance(v, UPtr):
        if name == "get":
            if isinstance(v.val, Op):
                return [(Op(v.val.id, v.null, v.val.kind), st)]
            return [(Ptr(v.null, lv.sub(("d",))), st)]
        if name == "reset":
            st = st.copy()
            if vals:
                x, st = E.rv(vals[0], st)
                if isinstance(x, NullPtr):
                    x = UPtr(True, None, v.ety)
                st = st.copy()
                st.store(lv, x)
            else:
                st.store(lv, UPtr(True, None, v.ety))
            return [(UNIT, st)]
        if name == "release":
            st = st.copy()
            st.store(lv, UPtr(True, None, v.ety))
            return [(v, st)]
        if name == "operator bool":
            return [(not_(v.null), st)]
        if name == "swap":
            o, st = E.as_lv(vals[0], st)
            w = st.load(o)
            st = st.copy()
            st.store(lv, w)
            st.store(o, v)
            return [(UNIT, st)]
        if name == "operator->":
            return [(Ptr(v.null, lv.sub(("d",))), st)]
    if isinstance(v, SetV):
        if name == "size":
            return [(v.n, st)]
        if name == "empty":
            return [(eq(v.n, 0), st)]
        if name in ("begin", "cbegin"):
            return [(Ptr(False, lv.sub(("s",)), 0), st)]
        if name in ("end", "cend"):
            return [(Ptr(False, lv.sub(("s",)), v.n), st)]
        if name in ("insert", "emplace") and len(vals) == 1:
            x, st = E.rv(vals[0], st)
            st = st.copy()
            m = v.mem(x)
            st.store(lv, SetV(v.ety, lambda y: or_(v.mem(y), val_eq(x, y)), add(v.n, ite(m, 0, 1))))
            return [(Op(fresh_int("ins"), False, "insert-result"), st)]
        if name in ("contains", "count"):
            x, st = E.rv(vals[0], st)
            m = v.mem(x)
            return [(m if name == "contains" else ite(m, 1, 0), st)]
        if name == "clear":
            st = st.copy()
            st.store(lv, SetV(v.ety, lambda y: False, 0, arr_items(v.ety, [])))
            return [(UNIT, st)]
        if name in ("reserve", "rehash"):
            return [(UNIT, st)]
    if isinstance(v, Fn):
        if name == "operator bool":
            return [(not_(v.null), st)]
    if isinstance(v, Variant):
        if name == "index":
            return [(v.idx, st)]
        if name == "ok":
            return [(eq(v.idx, 1), st)]
        if name == "status":
            if v.alts[0] is None:
                return [(Status(0), st)]
            return [(Status(ite(eq(v.idx, 0), v.alts[0].code, 0)), st)]
        if name in ("value", "ValueOrDie"):
            st = E.ob(st, eq(v.idx, 1), "statusor-has-value", node=n)
            return [(lv.sub(("v", 1)), st)]
    if isinstance(v, Struct) and v.name == "std::pair":
        pass
    h = E.models.get("method:" + name)
    if h is not None:
        return h(E, lv, v, vals, st, n)
    if name == "operator=" and len(vals) == 1 and isinstance(v, (UPtr, Arr, Fn, Variant)):
        x, st = E.rv(vals[0], st)
        return operator(E, name, [lv, x], st, n)
    raise Unsupported("method %s of %r (%s)" % (name, v, E.loc(n)))


def vec_method(E, lv, v, name, vals, st, n):
    if name in ("size", "length"):
        return [(v.n, st)]
    if name == "empty":
        return [(eq(v.n, 0), st)]
    if name in ("data", "begin", "cbegin"):
        return [(Ptr(False, lv, 0), st)]
    if name in ("end", "cend"):
        return [(Ptr(False, lv, v.n), st)]
    if name in ("operator[]", "at"):
        i, st = E.rv(vals[0], st)
        st = E.ob(st, and_(le(0, i), lt(i, v.n)), "index-in-bounds", node=n)
        return [(lv.sub(("i", i)), st)]
    if name == "front":
        st = E.ob(st, lt(0, v.n), "front-of-nonempty", node=n)
        return [(lv.sub(("i", 0)), st)]
    if name == "back":
        st = E.ob(st, lt(0, v.n), "back-of-nonempty", node=n)
        return [(lv.sub(("i", sub(v.n, 1))), st)]
    if name in ("push_back", "emplace_back"):
        x, st = E.rv(vals[0], st) if vals else (E.default(v.ety, True), st)
        if len(vals) > 1:
            raise Unsupported("emplace_back with several arguments")
        x = E.conv_val(x, v.ety)
        if v.ety.isint() and is_term(x):
            x, st = E.convert(x, Ty("int", n=(64, True)), v.ety, st, n)
        st = st.copy()
        st.store(lv, vec_push(E, v, x, st))
        return [(UNIT, st)]
    if name in ("clear",):
        st = st.copy()
        st.store(lv, E.default(Ty("vec", [v.ety])))
        return [(UNIT, st)]
    if name in ("reserve", "shrink_to_fit"):
        return [(UNIT, st)]
    if name == "pop_back":
        st = E.ob(st, lt(0, v.n), "pop-of-nonempty", node=n)
        st = st.copy()
        st.store(lv, Arr(v.ety, sub(v.n, 1), v.get, v.kind, base=v))
        return [(UNIT, st)]
    if name == "resize":
        m, st = E.rv(vals[0], st)
        fill = 0
        if len(vals) > 1:
            fill, st = E.rv(vals[1], st)
        elif not v.ety.isint():
            fill = E.default(v.ety, True)
        st = st.copy()
        g, old = v.get, v.n
        if isinstance(m, int) and v.items is not None and m <= 256:
            r = arr_items(v.ety, (list(v.items) + [fill] * max(0, m - len(v.items)))[:m], "vec")
        else:
            r = Arr(v.ety, m, lambda i: ite_val(lt(i, old), g(i), fill), "vec")
        st.store(lv, r)
        return [(UNIT, st)]
    if name == "insert":
        pos, st = E.rv(vals[0], st)
        if len(vals) == 3:
            a, st = E.rv(vals[1], st)
            b, st = E.rv(vals[2], st)
            if is_term(a):
                # insert(pos, count, value)
                at_end = E.valid(st, eq(pos.off, v.n))
                if not at_end:
                    raise Unsupported("insert not at the end")
                st = st.copy()
                st.store(lv, vec_append(v, a, lambda j: b))
                return [(UNIT, st)]
            out = []
            for src, ln, s in range_between(E, st, a, b, n):
                s = s.copy()
                cur = s.load(lv)
                if E.valid(s, eq(pos.off, cur.n)):
                    s.store(lv, vec_append(cur, ln, src, flat_range(E, s, a, b)))
                else:
                    o = pos.off
                    g = cur.get
                    r = Arr(cur.ety, add(cur.n, ln), lambda i, g=g, o=o, ln=ln, src=src: ite_val(lt(i, o), g(i), ite_val(lt(i, add(o, ln)), src(sub(i, o)), g(sub(i, ln)))), "vec")
                    s.store(lv, r)
                out.append((Ptr(False, lv, pos.off), s))
            return out
        raise Unsupported("insert with %d arguments" % len(vals))
    if name == "erase":
        a, st = E.rv(vals[0], st)
        if len(vals) == 2:
            b, st = E.rv(vals[1], st)
            lo, hi = a.off, b.off
        else:
            lo, hi = a.off, add(a.off, 1)
        st = E.ob(st, and_(le(0, lo), le(lo, hi), le(hi, v.n)), "erase-in-bounds", node=n)
        st = st.copy()
        g = v.get
        d = sub(hi, lo)
        st.store(lv, Arr(v.ety, sub(v.n, d), lambda i: ite_val(lt(i, lo), g(i), g(add(i, d))), "vec"))
        return [(Ptr(False, lv, lo), st)]
    if name in ("operator=", "assign"):
        if name == "assign" and len(vals) == 2:
            a, st = E.rv(vals[0], st)
            b, st = E.rv(vals[1], st)
            out = []
            for src, ln, s in range_between(E, st, a, b, n):
                s = s.copy()
                s.store(lv, Arr(v.ety, ln, src, "vec"))
                out.append((UNIT, s))
            return out
        x, st = E.rv(vals[0], st)
        st = st.copy()
        st.store(lv, x)
        return [(lv, st)]
    if name == "swap":
        o, st = E.as_lv(vals[0], st)
        w = st.load(o)
        st = st.copy()
        st.store(lv, w)
        st.store(o, v)
        return [(UNIT, st)]
    return None


def flat_range(E, s, a, b):
    """Flat bytes of a whole vector<Iovec>/fragments range, when it is the complete vector."""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        v = s.load(a.lv)
        if isinstance(v, Arr) and v.flatg is not None and same(a.off, 0) and same(b.off, v.n):
            return v.flatg
    return None


def elem_flat(x):
    """Flat bytes denoted by a vector element (Iovec or owned byte vector)."""
    if isinstance(x, Struct) and "iov_len" in x.f:
        p = x.f["iov_base"]
        l = x.f["iov_len"]
        if isinstance(p, PV):
            return Arr(U8, l, lambda j: p.vec.flat(add(p.pos, j)), "seq")
        return None
    if isinstance(x, UPtr) and isinstance(x.val, Arr) and x.val.ety.isint():
        return Arr(U8, x.val.n, x.val.get, "seq")
    return None


def flat_append(fl, ef):
    if fl is None or ef is None:
        return None
    return arr_write(fl, fl.n, ef.n, ef.get, n=add(fl.n, ef.n))


def vec_push(E, v, x, st):
    fl = None
    if v.flatg is not None:
        ef = elem_flat(x)
        if ef is None and isinstance(x, Struct) and "iov_len" in x.f and isinstance(x.f["iov_base"], Ptr) and x.f["iov_base"].off is not None:
            q = x.f["iov_base"]
            a = st.load(q.lv)
            if isinstance(a, Arr):
                ef = Arr(U8, x.f["iov_len"], lambda j: a.get(add(q.off, j)), "seq")
        fl = flat_append(v.flatg, ef)
    if v.items is not None and isinstance(v.n, int) and v.n < 64:
        r = arr_items(v.ety, list(v.items) + [x], v.kind)
        r.base, r.wr = v, (v.n, 1, lambda j: x)
    else:
        r = arr_write(v, v.n, 1, lambda j: x, n=add(v.n, 1))
    r.flatg = fl
    return r


def vec_append(v, ln, src, fl2=None):
    fl = flat_append(v.flatg, fl2) if v.flatg is not None and fl2 is not None else None
    if v.items is not None and isinstance(ln, int) and ln <= 256 and len(v.items) <= 256:
        r = arr_items(v.ety, list(v.items) + [src(k) for k in range(ln)], v.kind)
        r.base, r.wr = v, (v.n, ln, src)
    else:
        r = arr_write(v, v.n, ln, src, n=add(v.n, ln))
    r.flatg = fl
    return r


def str_method(E, lv, v, name, vals, st, n):
    if name in ("size", "length"):
        return [(v.n, st)]
    if name == "empty":
        return [(eq(v.n, 0), st)]
    if name in ("c_str", "data", "begin", "cbegin"):
        return [(Ptr(False, lv, 0), st)]
    if name in ("end", "cend"):
        return [(Ptr(False, lv, v.n), st)]
    if name in ("operator[]", "at"):
        i, st = E.rv(vals[0], st)
        st = E.ob(st, and_(le(0, i), lt(i, v.n)), "index-in-bounds", node=n)
        return [(lv.sub(("i", i)), st)]
    if name in ("operator=", "assign"):
        vs, st = E.rvs(vals, st)
        out = []
        for x, s in construct(E, STR, vs, st, n, None):
            s = s.copy()
            s.store(lv, x)
            out.append((lv, s))
        return out
    if name in ("append", "operator+=", "push_back"):
        st = st.copy()
        st.store(lv, fresh_str("cat"))
        return [(lv, st)]
    if name == "clear":
        st = st.copy()
        st.store(lv, lit_str(b""))
        return [(UNIT, st)]
    if name == "operator basic_string_view" or name.startswith("operator "):
        return [(v, st)]
    return None


# -- operators ---------------------------------------------------------------
def operator(E, name, vals, st, n):
    if name == "operator=":
        lv, x = vals
        if not isinstance(lv, LV):
            raise Unsupported("assignment to %r" % (lv,))
        cur = st.load(lv)
        x, st = E.rv(x, st)
        if isinstance(cur, UPtr) and isinstance(x, NullPtr):
            x = UPtr(True, None, cur.ety)
        elif isinstance(cur, Fn) and isinstance(x, NullPtr):
            x = Fn(True, "null")
        elif isinstance(cur, Variant) and not isinstance(x, Variant):
            ty = E.ty(n)
            if ty.k == "ref":
                ty = ty.elem
            x = to_variant(E, ty, x, None)
        elif isinstance(cur, Arr) and cur.kind == "str" and not isinstance(x, Arr):
            x = str_of(E, x, st)
        elif isinstance(cur, Arr) and isinstance(x, Arr) and cur.kind == "vec" and x.kind != "vec":
            r = Arr(x.ety, x.n, x.get, "vec", items=x.items)
            x = r
        st = st.copy()
        st.store(lv, x)
        return [(lv, st)]
    if name == "operator[]":
        lv, st = E.as_lv(vals[0], st)
        v = st.load(lv)
        if isinstance(v, Arr):
            i, st = E.rv(vals[1], st)
            st = E.ob(st, and_(le(0, i), lt(i, v.n)), "index-in-bounds", node=n)
            return [(lv.sub(("i", i)), st)]
        if isinstance(v, UPtr) and isinstance(v.val, Arr):
            i, st = E.rv(vals[1], st)
            st = E.ob(st, and_(not_(v.null), le(0, i), lt(i, v.val.n)), "index-in-bounds", node=n)
            return [(lv.sub(("d",), ("i", i)), st)]
        h = E.models.get("method:operator[]")
        if h is not None:
            return h(E, lv, v, vals[1:], st, n)
        raise Unsupported("subscript of %r" % (v,))
    if name in ("operator*", "operator->"):
        v0 = vals[0]
        if isinstance(v0, LV):
            v = st.load(v0)
            if isinstance(v, UPtr):
                st = E.ob(st, not_(v.null), "non-null-dereference", node=n)
                tgt = v0.sub(("d",))
                if isinstance(v.val, Op):
                    return [(Op(v.val.id, False, v.val.kind), st)]
                if name == "operator->":
                    return [(Ptr(False, tgt), st)]
                return [(tgt, st)]
            if isinstance(v, Variant):
                st = E.ob(st, eq(v.idx, 1), "statusor-has-value", node=n)
                tgt = v0.sub(("v", 1))
                if name == "operator->":
                    return [(Ptr(False, tgt), st)]
                return [(tgt, st)]
            if isinstance(v, (Ptr, PV, PIte)):
                out = []
                for q, s in E.force(v, st):
                    lv, s = E.deref(q, s, n)
                    out.append((lv if name == "operator*" else Ptr(False, lv), s))
                return out
        v, st = E.rv(v0, st)
        if isinstance(v, UPtr):
            lv, st = E.as_lv(v, st)
            st = E.ob(st, not_(v.null), "non-null-dereference", node=n)
            return [(lv.sub(("d",)) if name == "operator*" else Ptr(False, lv.sub(("d",))), st)]
        out = []
        for q, s in E.force(v, st):
            lv, s = E.deref(q, s, n)
            out.append((lv if name == "operator*" else Ptr(False, lv), s))
        return out
    if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
        a, st = E.rv(vals[0], st)
        b, st = E.rv(vals[1], st)
        op = name[8:]
        if isinstance(a, Arr) and a.kind == "str" or isinstance(b, Arr) and b.kind == "str":
            a, b = str_of(E, a, st), str_of(E, b, st)
        if isinstance(a, Status) and isinstance(b, Status):
            e = eq(a.code, b.code)
            return [(e if op == "==" else not_(e), st)]
        if isinstance(a, Arr) and isinstance(b, Arr):
            try:
                e = E.arr_eq(a, b, st)
            except Unsupported:
                e = fresh_bool("arreq")
                j = fresh_int("ne")
                st = st.assume(implies(e, eq(a.n, b.n)))
            return [(e if op == "==" else not_(e), st)]
        return [(E.compare(op, a, b, st, n), st)]
    if name in ("operator++", "operator--"):
        lv = vals[0]
        v, st = E.rv(lv, st)
        nv = E.padd(v, 1 if name == "operator++" else -1, st, n)
        st = st.copy()
        st.store(lv, nv)
        return [(v if len(vals) > 1 else lv, st)]
    if name in ("operator+", "operator-"):
        a, st = E.rv(vals[0], st)
        b, st = E.rv(vals[1], st)
        if isinstance(a, (Ptr, PV)) or isinstance(b, (Ptr, PV)) and not isinstance(a, Arr):
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                v, st = E.arith(name[8:], a, b, T.I64, st, n)
                return [(v, st)]
        if name == "operator+":
            return [(fresh_str("cat"), st)]
    if name in ("operator+=", "operator-="):
        lv = vals[0]
        v, st = E.rv(lv, st)
        d, st = E.rv(vals[1], st)
        st = st.copy()
        if isinstance(v, Arr):
            st.store(lv, fresh_str("cat"))
            return [(lv, st)]
        st.store(lv, E.padd(v, d if name == "operator+=" else sub(0, d), st, n))
        return [(lv, st)]
    if name == "operator bool":
        v, st = E.rv(vals[0], st)
        return [(E.to_bool(v, st), st)]
    if name == "operator!":
        v, st = E.rv(vals[0], st)
        return [(not_(E.to_bool(v, st)), st)]
    h = E.models.get(name)
    if h is not None:
        return h(E, vals, st, n)
    raise Unsupported("operator %s on %r (%s)" % (name, vals, E.loc(n)))


# -- free functions ------------------------------------------------------------
def install(E):
    M = E.models

    def m(*names):
        def d(f):
            for x in names:
                M[x] = f
            return f
        return d

    @m("memcpy", "memmove")
    def _memcpy(E, vals, st, n):
        (d, s_, ln), st = E.rvs(vals, st)
        out = []
        for src, s in read_range(E, st, s_, ln, n, "memcpy-read"):
            for s2 in write_range(E, s, d, ln, src, n, "memcpy-write"):
                out.append((d, s2))
        return out

    @m("memset")
    def _memset(E, vals, st, n):
        (d, c, ln), st = E.rvs(vals, st)
        b = mod(c, 256) if not isinstance(c, int) else c % 256
        return [(d, s) for s in write_range(E, st, d, ln, lambda j: b, n, "memset")]

    @m("copy")
    def _copy(E, vals, st, n):
        (a, b, d), st = E.rvs(vals, st)
        out = []
        for src, ln, s in range_between(E, st, a, b, n):
            for s2 in write_range(E, s, d, ln, src, n, "copy-write"):
                out.append((E.padd(d, ln, s2, n) if not isinstance(d, PIte) else UNIT, s2))
        return out

    @m("copy_n")
    def _copy_n(E, vals, st, n):
        (a, ln, d), st = E.rvs(vals, st)
        out = []
        for src, s in read_range(E, st, a, ln, n):
            for s2 in write_range(E, s, d, ln, src, n):
                out.append((UNIT, s2))
        return out

    @m("fill")
    def _fill(E, vals, st, n):
        (a, b, c), st = E.rvs(vals, st)
        return [(UNIT, s) for s in write_range(E, st, a, sub(b.off, a.off), lambda j: c, n)]

    @m("fill_n")
    def _filln(E, vals, st, n):
        (a, ln, c), st = E.rvs(vals, st)
        return [(UNIT, s) for s in write_range(E, st, a, ln, lambda j: c, n)]

    @m("min", "max")
    def _minmax(E, vals, st, n):
        if not vals:
            ty = E.ty(n)
            if ty.k == "ref":
                ty = ty.elem
            lo, hi = E.rng(ty)
            nm = E.callee_ref(n["inner"][0])["referencedDecl"]["name"]
            return [(hi if nm == "max" else lo, st)]
        (a, b), st = E.rvs(vals[:2], st)
        nm = E.callee_ref(n["inner"][0])["referencedDecl"]["name"]
        a, b = E.to_int(a), E.to_int(b)
        out = []
        for c, s in E.branch(st, le(a, b)):
            if not isc(le(a, b)):
                s = s.copy()
                s.trace = s.trace + ((id(n), c),)
            out.append((a if c == (nm == "min") else b, s))
        return out

    @m("move")
    def _move(E, vals, st, n):
        v = vals[0]
        return [(Moved(v) if isinstance(v, LV) else v, st)]

    @m("forward", "as_const", "implicit_cast")
    def _fwd(E, vals, st, n):
        return [(vals[0], st)]

    @m("swap")
    def _swap(E, vals, st, n):
        a, b = vals
        x, y = st.load(a), st.load(b)
        st = st.copy()
        st.store(a, y)
        st.store(b, x)
        return [(UNIT, st)]

    @m("make_unique")
    def _mk(E, vals, st, n):
        ty = E.ty(n)
        if ty.k != "uptr":
            raise Unsupported("make_unique of %r" % (ty,))
        ety = ty.elem
        return construct_obj(E, ety, vals, st, n)

    @m("WrapUnique")
    def _wrap(E, vals, st, n):
        v, st = E.rv(vals[0], st)
        return [(v, st)]

    @m("get")
    def _get(E, vals, st, n):
        lv = vals[0]
        moved = isinstance(lv, Moved)
        if moved:
            lv = lv.lv
        if not isinstance(lv, LV):
            lv, st = E.as_lv(lv, st)
        v = st.load(lv)
        if not isinstance(v, Variant):
            raise Unsupported("get of %r" % (v,))
        ty = E.ty(n)
        while ty.k == "ref":
            ty = ty.elem
        aty = E.ty(n["inner"][1])
        while aty.k == "ref":
            aty = aty.elem
        ts = variant_types(aty)
        idx = [i for i, t in enumerate(ts) if t == ty]
        if len(idx) != 1:
            idx = [i for i, t in enumerate(ts) if t.k == ty.k]
        if len(idx) != 1:
            raise Unsupported("get: alternative of %r in %r" % (ty, aty))
        st = E.ob(st, eq(v.idx, idx[0]), "variant-alternative", node=n)
        if v.alts[idx[0]] is None:
            raise Unsupported("get: absent alternative")
        r = lv.sub(("v", idx[0]))
        return [(Moved(r) if moved else r, st)]

    @m("StrCat", "Substitute", "StrFormat", "StrJoin", "GetSSLErrors", "to_string", "strcat")
    def _str(E, vals, st, n):
        for v in vals:
            _, st = E.rv(v, st) if not isinstance(v, tuple) else (None, st)
        return [(fresh_str("cat"), st)]

    for nm, code in (("OkStatus", 0), ("InvalidArgumentError", 3), ("FailedPreconditionError", 9), ("InternalError", 13), ("UnimplementedError", 12), ("NotFoundError", 5), ("UnavailableError", 14), ("OutOfRangeError", 11), ("AbortedError", 10), ("UnknownError", 2), ("CancelledError", 1), ("DataLossError", 15), ("ResourceExhaustedError", 8)):
        def mk(code):
            def f(E, vals, st, n):
                m0 = None
                if vals:
                    m0, st = E.rv(vals[0], st)
                return [(Status(code, m0 if isinstance(m0, Arr) else None), st)]
            return f
        M[nm] = mk(code)

    @m("__builtin_expect")
    def _be(E, vals, st, n):
        v, st = E.rv(vals[0], st)
        return [(v, st)]

    @m("ceil", "floor", "round")
    def _fl(E, vals, st, n):
        v, st = E.rv(vals[0], st)
        return [(v, st)]

    @m("strlen")
    def _strlen(E, vals, st, n):
        v, st = E.rv(vals[0], st)
        return [(str_of(E, v, st).n, st)]

    @m("malloc")
    def _malloc(E, vals, st, n):
        raise Unsupported("malloc")

    @m("holds_alternative")
    def _holds(E, vals, st, n):
        raise Unsupported("holds_alternative")


def construct_obj(E, ety, vals, st, n):
    """Heap object of type ety from argument values: UPtr."""
    out = []
    if ety.k == "rec":
        q = ety.name
        h = E.hooks.get(q + "::" + q.split("::")[-1])
        st = st.copy()
        obj = E.alloc(st, "heap", E.default(ety), ety)
        if h is not None:
            return [(UPtr(False, v, ety), s) for v, s in h(E, obj, vals, st, n)]
        from .cast import params_of
        fn = ftu = None
        for t in [E.tu] + E.tus:
            cs = [c for c in t.find(q + "::" + q.split("::")[-1]) if c.get("kind") == "CXXConstructorDecl"]
            cands = [c for c in cs if len(params_of(c)) == len(vals)]
            if len(cands) > 1 and len(vals) == 1:
                cands = [c for c in cands if q.split("::")[-1] not in c["type"]["qualType"].split("(")[1]]
            if len(cands) == 1:
                fn, ftu = cands[0], t
                break
        if fn is None:
            if len(vals) == 1:
                v, s = E.rv(vals[0], st)
                if isinstance(v, Struct):
                    return [(UPtr(False, v, ety), s)]
            if not vals:
                return [(UPtr(False, st.load(obj), ety), st)]
            raise Unsupported("constructor of " + q)
        for _, s in E.call(fn, ftu, obj, vals, st):
            s = s.copy()
            v = s.load(obj)
            del s.cells[obj.cell]
            out.append((UPtr(False, v, ety), s))
        return out
    for v, s in construct(E, ety, vals, st, n, None):
        out.append((UPtr(False, v, ety), s))
    return out
