"""Model of the generated protobuf accessors (assumed contract of upb and of the code it generates).

The message types come from /repo/src/proto/*.proto, re-read on every run.  A message is a record with one slot per
field; the string slots hold the bytes the view showed when the field was set; sub-messages and repeated messages are
owned by their parent.  serialize may fail; otherwise it yields bytes that determine the message (parse of exactly
these bytes gives the message back).
"""
import os, re, glob
import z3
from cppvc.cast import Unsupported, REPO
from cppvc.types import Ty, U8, SIZE, STR, CHAR, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.loops import val_eq as deep_eq

SCALAR = {"uint64": Ty("int", n=(64, False)), "uint32": Ty("int", n=(32, False)), "int32": Ty("int", n=(32, True)), "bool": Ty("bool")}
I32 = SCALAR["int32"]
VIEW = "upb_strview"


class Field:
    def __init__(self, name, kind, ty, num, rep, oneof):
        self.name, self.kind, self.ty, self.num, self.rep, self.oneof = name, kind, ty, num, rep, oneof
        # fields of one oneof with string members share one slot
        self.slot = name


def schema():
    msgs, enums = {}, {}
    for p in sorted(glob.glob(os.path.join(REPO, "src/proto/*.proto"))):
        t = re.sub(r"//[^\n]*", "", open(p).read())
        for m in re.finditer(r"\benum\s+(\w+)\s*\{([^}]*)\}", t):
            enums[m.group(1)] = {a: int(b) for a, b in re.findall(r"(\w+)\s*=\s*(\d+)", m.group(2))}
        for m in re.finditer(r"\bmessage\s+(\w+)\s*\{", t):
            i, d = m.end(), 1
            while d:
                d += {"{": 1, "}": -1}.get(t[i], 0)
                i += 1
            body = t[m.end():i - 1]
            fs, one = [], None
            for x in re.finditer(r"oneof\s+(\w+)\s*\{|\}|(repeated\s+)?(map\s*<[^>]*>|[\w.]+)\s+(\w+)\s*=\s*(\d+)\s*;", body):
                if x.group(1):
                    one = x.group(1)
                elif x.group(0) == "}":
                    one = None
                else:
                    fs.append(((x.group(3)), x.group(4), int(x.group(5)), bool(x.group(2)), one))
            msgs[m.group(1)] = fs
    out = {}
    for m, fs in msgs.items():
        r = {}
        for ty, name, num, rep, one in fs:
            if ty.startswith("map"):
                continue
            kind = "str" if ty in ("string", "bytes") else "msg" if ty in msgs else "enum" if ty in enums else "int"
            f = Field(name, kind, ty, num, rep, one)
            r[name] = f
        for one in {f.oneof for f in r.values() if f.oneof}:
            ms = [f for f in r.values() if f.oneof == one]
            if all(f.kind == "str" for f in ms):
                for f in ms:
                    f.slot = one
        out[m] = r
    return out, enums


def install(E, fail=True):
    E.schema, E.enums = schema()
    E.ser_fail = fail
    names = sorted(E.schema, key=len, reverse=True)

    def dyn(name):
        if not name.startswith("s2a_proto_"):
            return None
        rest = name[len("s2a_proto_"):]
        for m in names:
            if rest.startswith(m + "_"):
                return resolve(E, m, rest[len(m) + 1:])
        return None
    E.dyn = dyn
    H = E.hooks
    H["upb_strview_make"] = lambda E, this, vals, st, n: strview(E, vals, st, n)
    H["upb_strview_makez"] = makez
    H["upb_arena_malloc"] = arena_malloc
    E.models["method:ptr"] = lambda E, lv, v, vals, st, n: [(Op("arena", False, "arena"), st)]
    E.facts = []
    E.symhooks["upbmsg"] = lambda E, ty, name, idx: sym_msg(E, ty.name, name, idx)
    E.ax.on("serlen", lambda i: and_(le(0, app(uf("serlen", 1), i)), lt(app(uf("serlen", 1), i), 2 ** 60)))
    E.ax.on("serbyte", lambda i, j: and_(le(-128, app(uf("serbyte", 2), i, j)), le(app(uf("serbyte", 2), i, j), 127)))


def strview(E, vals, st, n):
    (p, ln), st = E.rvs(vals, st)
    return [(Struct(VIEW, {"data": p, "size": ln}), st)]


def makez(E, this, vals, st, n):
    from cppvc.models import str_of
    p, st = E.rv(vals[0], st)
    s = str_of(E, p, st)
    return [(Struct(VIEW, {"data": p, "size": s.n}), st)]


def arena_malloc(E, this, vals, st, n):
    (_, ln), st = E.rvs(vals, st)
    st = st.copy()
    nm = fresh_name("arenabuf")
    l = E.alloc(st, "arenabuf", Arr(CHAR, ln, lambda j: E.sym_int(CHAR, nm, (j,)), "arr"), Ty("arr", [CHAR]))
    return [(Ptr(False, l, 0), st)]


def default_msg(E, m):
    f = {}
    for x in E.schema[m].values():
        f[x.slot] = default_slot(E, x)
        if x.oneof:
            f["$" + x.oneof] = 0
    return Struct("upb:" + m, f)


def default_slot(E, x):
    if x.rep:
        if x.kind == "msg":
            return arr_items(Ty("upbmsg", name=x.ty), [])
        return arr_items(STR if x.kind == "str" else elty(x), [])
    if x.kind == "str":
        return lit_str(b"")
    if x.kind == "msg":
        return UPtr(True, None, Ty("upbmsg", name=x.ty))
    return False if x.ty == "bool" else 0


def elty(x):
    return I32 if x.kind == "enum" else SCALAR[x.ty]


def sym_msg(E, m, name, idx=()):
    """Arbitrary message (as the parser may produce it)."""
    f = {}
    for x in E.schema[m].values():
        nm = name + "." + x.slot
        if x.oneof:
            w = "%s.$%s" % (name, x.oneof)
            f["$" + x.oneof] = E.sym_int(I32, w, idx)
            nums = [0] + [y.num for y in E.schema[m].values() if y.oneof == x.oneof]
            if w + "#" not in E.symrange:
                E.symrange.add(w + "#")
                u = uf(w, len(idx))
                c = lambda *p, u=u, nums=nums: or_(*[eq(app(u, *p), k) for k in nums])
                if idx:
                    E.ax.on(w, c)
                else:
                    E.facts.append(c())
        if x.rep:
            raise Unsupported("repeated field in a parsed message")
        if x.kind == "str":
            f[x.slot] = E.sym(STR, nm, idx)
        elif x.kind == "msg":
            f[x.slot] = UPtr(app(uf(nm + ".null", len(idx), BSORT), *idx), sym_msg(E, x.ty, nm, idx), Ty("upbmsg", name=x.ty))
        else:
            f[x.slot] = E.sym(elty(x), nm, idx)
    return Struct("upb:" + m, f)


def msgptr(E, v, st, n):
    """[(lv, st)] of a message pointer, with the non-null obligation."""
    out = []
    for p, s in E.force(v, st):
        if isinstance(p, NullPtr):
            E.ob(s, False, "message-pointer-non-null", node=n)
            continue
        if not isinstance(p, Ptr) or p.off is not None:
            raise Unsupported("message pointer %r" % (p,))
        s = E.ob(s, not_(p.null), "message-pointer-non-null", node=n)
        s = s.assume(not_(p.null))
        out.append((p.lv, s))
    return out


def content(E, st, view, n):
    """[(string value, st)] of the bytes a view shows."""
    from cppvc.models import bytes_str
    if not isinstance(view, Struct):
        raise Unsupported("string view %r" % (view,))
    return bytes_str(E, st, view.f["data"], view.f["size"], n)


def owned(st, lv):
    if lv.cell in st.ghost.get("upbowned", ()):
        raise Unsupported("message changed after it became part of another message")


def resolve(E, m, op):
    fs = E.schema[m]
    if op == "new":
        def h(E, this, vals, st, n):
            st = st.copy()
            l = E.alloc(st, "msg" + m, default_msg(E, m), Ty("upbmsg", name=m))
            return [(Ptr(False, l), st)]
        return h
    if op == "serialize":
        return lambda E, this, vals, st, n: serialize(E, m, vals, st, n)
    if op == "parse":
        return lambda E, this, vals, st, n: parse_msg(E, m, vals, st, n)
    for pre in ("set_", "has_", "mutable_", "add_", "resize_"):
        if op.startswith(pre) and op[len(pre):] in fs:
            return globals()["do_" + pre[:-1]](E, m, fs[op[len(pre):]])
    if op in fs:
        return do_get(E, m, fs[op])
    return None


def each(E, vals, st, n):
    p, st = E.rv(vals[0], st)
    return msgptr(E, p, st, n)


def do_set(E, m, x):
    if x.rep:
        return None

    def h(E, this, vals, st, n):
        out = []
        v, st = E.rv(vals[1], st)
        for lv, s in each(E, vals, st, n):
            owned(s, lv)
            if x.kind == "str":
                todo = content(E, s, v, n)
            elif x.kind == "msg":
                todo = []
                for p, s1 in E.force(v, s):
                    if isinstance(p, NullPtr):
                        todo.append((UPtr(True, None, Ty("upbmsg", name=x.ty)), s1))
                        continue
                    for b, s2 in E.branch(s1, p.null):
                        s2 = s2.copy()
                        if b:
                            todo.append((UPtr(True, None, Ty("upbmsg", name=x.ty)), s2))
                        else:
                            s2.ghost["upbowned"] = s2.ghost.get("upbowned", ()) + (p.lv.cell,)
                            todo.append((UPtr(False, s2.load(p.lv), Ty("upbmsg", name=x.ty)), s2))
            else:
                todo = [(E.conv_val(v, elty(x)), s)]
            for val, s1 in todo:
                s1 = s1.copy()
                s1.store(lv.sub(("f", x.slot)), val)
                if x.oneof:
                    s1.store(lv.sub(("f", "$" + x.oneof)), x.num)
                out.append((UNIT, s1))
        return out
    return h


def do_has(E, m, x):
    def h(E, this, vals, st, n):
        out = []
        for lv, s in each(E, vals, st, n):
            v = s.load(lv)
            if x.oneof:
                out.append((eq(v.f["$" + x.oneof], x.num), s))
            elif x.rep:
                out.append((gt(v.f[x.slot].n, 0), s))
            elif x.kind == "msg":
                out.append((not_(v.f[x.slot].null), s))
            else:
                raise Unsupported("presence of " + x.name)
        return out
    return h


def do_get(E, m, x):
    if x.rep:
        return None

    def h(E, this, vals, st, n):
        out = []
        for lv, s in each(E, vals, st, n):
            v = s.load(lv)
            on = eq(v.f["$" + x.oneof], x.num) if x.oneof else True
            for b, s1 in E.branch(s, on):
                if x.kind == "str":
                    if b:
                        a = v.f[x.slot]
                        out.append((Struct(VIEW, {"data": Ptr(False, lv.sub(("f", x.slot)), 0), "size": a.n}), s1))
                    else:
                        out.append((Struct(VIEW, {"data": NULLP, "size": 0}), s1))
                elif x.kind == "msg":
                    out.append((Ptr(v.f[x.slot].null, lv.sub(("f", x.slot), ("d",))) if b else NULLP, s1))
                else:
                    out.append((v.f[x.slot] if b else default_slot(E, x), s1))
        return out
    return h


def do_mutable(E, m, x):
    if x.rep or x.kind != "msg":
        return None

    def h(E, this, vals, st, n):
        out = []
        for lv, s in each(E, vals, st, n):
            owned(s, lv)
            v = s.load(lv)
            have = not_(v.f[x.slot].null)
            if x.oneof:
                have = and_(have, eq(v.f["$" + x.oneof], x.num))
            for b, s1 in E.branch(s, have):
                s1 = s1.copy()
                if not b:
                    s1.store(lv.sub(("f", x.slot)), UPtr(False, default_msg(E, x.ty), Ty("upbmsg", name=x.ty)))
                    if x.oneof:
                        s1.store(lv.sub(("f", "$" + x.oneof)), x.num)
                out.append((Ptr(False, lv.sub(("f", x.slot), ("d",))), s1))
        return out
    return h


def do_add(E, m, x):
    if not x.rep:
        return None

    def h(E, this, vals, st, n):
        out = []
        for lv, s in each(E, vals, st, n):
            owned(s, lv)
            if x.kind == "msg":
                todo = [(default_msg(E, x.ty), s)]
            elif x.kind == "str":
                v, s = E.rv(vals[1], s)
                todo = content(E, s, v, n)
            else:
                v, s = E.rv(vals[1], s)
                todo = [(E.conv_val(v, elty(x)), s)]
            for val, s1 in todo:
                s1 = s1.copy()
                al = lv.sub(("f", x.slot))
                a = s1.load(al)
                k = a.n
                s1.store(al, arr_write(a, k, 1, lambda j, val=val: val, add(k, 1)))
                out.append((Ptr(False, al.sub(("i", k))) if x.kind == "msg" else True, s1))
        return out
    return h


def do_resize(E, m, x):
    if not x.rep or x.kind not in ("enum", "int"):
        return None

    def h(E, this, vals, st, n):
        out = []
        ln, st = E.rv(vals[1], st)
        for lv, s in each(E, vals, st, n):
            owned(s, lv)
            s = s.copy()
            al = lv.sub(("f", x.slot))
            a = s.load(al)
            nm = fresh_name("resized")
            ag, n0 = a.get, a.n
            s.store(al, Arr(elty(x), ln, lambda j: E.sym_int(elty(x), nm, (j,)) if conc(n0) == 0 else ite(lt(j, n0), ag(j), E.sym_int(elty(x), nm, (j,))), "vec"))
            out.append((Ptr(False, al, 0), s))
        return out
    return h


def serialize(E, m, vals, st, n):
    out = []
    for lv, s in each(E, vals, st, n):
        lp, s = E.rv(vals[2], s)
        if E.ser_fail:
            f = s.copy()
            f.ghost["serfail"] = True
            k = fresh_int("badlen")
            for f in set_len(E, f, lp, k, n):
                out.append((NULLP, f))
        g = s.copy()
        i = fresh_int("ser")
        L = app(uf("serlen", 1), i)
        c = E.alloc(g, "serialized", Arr(CHAR, L, lambda j: app(uf("serbyte", 2), i, j), "arr"), Ty("arr", [CHAR]))
        g.ghost["ser"] = g.ghost.get("ser", ()) + ((m, i, g.load(lv)),)
        for g in set_len(E, g, lp, L, n):
            out.append((Ptr(False, c, 0), g))
    return out


def set_len(E, st, lp, v, n):
    out = []
    for p, s in E.force(lp, st):
        lv, s = E.deref(p, s, n)
        s = s.copy()
        s.store(lv, v)
        out.append(s)
    return out


def parse_msg(E, m, vals, st, n):
    """E.parse_source(E, st, m, get, length, n) -> [(message or None, st)] decides what the bytes mean."""
    from cppvc.models import read_range
    (p, ln), st = E.rvs(vals[:2], st)
    out = []
    for get, s in read_range(E, st, p, ln, n):
        for msg, s1 in E.parse_source(E, s, m, get, ln, n):
            if msg is None:
                out.append((NULLP, s1))
            else:
                s1 = s1.copy()
                l = E.alloc(s1, "parsed", msg, Ty("upbmsg", name=m))
                out.append((Ptr(False, l), s1))
    return out


def is_serialized(E, st, fn, a, i, what, props=None):
    """Obligation: the bytes of array a are the serialisation i."""
    j = fresh_int("skj")
    L = app(uf("serlen", 1), i)
    E.ob(st, and_(eq(a.n, L), implies(and_(le(0, j), lt(j, L)), eq(a.get(j), app(uf("serbyte", 2), i, j)))), what, "post", fn, props)


def str_eq(a, b):
    """Goal: two strings have the same bytes."""
    j = fresh_int("skj")
    g = and_(eq(a.n, b.n), implies(and_(le(0, j), lt(j, b.n)), eq(a.get(j), b.get(j))))
    if a.atom is not None and b.atom is not None and not isinstance(a.atom, tuple) and not isinstance(b.atom, tuple):
        return or_(eq(a.atom, b.atom), g)
    return g
