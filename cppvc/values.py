"""Symbolic values, l-values, and states.

Integers and booleans are terms (see terms.py).  Aggregates are immutable
Python objects; arrays are (length, reader) pairs so that every solver query
stays quantifier free.
"""
import itertools
import z3
from .cast import Unsupported
from .types import Ty, U8, BOOL
from .terms import *

_ctr = itertools.count()
ISORT, BSORT = z3.IntSort(), z3.BoolSort()
_ufs = {}


def fresh_name(base):
    return "%s!%d" % (base, next(_ctr))


def fresh_int(base="i"):
    return z3.Int(fresh_name(base))


def fresh_bool(base="b"):
    return z3.Bool(fresh_name(base))


def uf(name, arity, rng=None):
    key = (name, arity)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *([ISORT] * arity + [ISORT if rng is None else rng]))
    return _ufs[key]


def app(f, *args):
    if not args:
        return z3.Const(f.name(), f.range())
    return f(*[z(a) for a in args])


class V:
    pass


class Struct(V):
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Struct(self.name, g)

    def __repr__(self):
        return "%s{%s}" % (self.name, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Arr(V):
    """Array / vector / string: n elements, element i is get(i).

    base/writes describe how the array was built from `base` by range writes
    (used to infer closed forms in loops)."""
    __slots__ = ("ety", "n", "get", "kind", "base", "wr", "items", "atom", "pieces", "flatg")

    def __init__(self, ety, n, get, kind="vec", base=None, wr=None, items=None, atom=None, pieces=None, flatg=None):
        self.ety, self.n, self.get, self.kind = ety, n, get, kind
        self.base, self.wr, self.items, self.atom, self.pieces, self.flatg = base, wr, items, atom, pieces, flatg

    def __repr__(self):
        return "Arr<%r>[%s]%s" % (self.ety, self.n, self.items if self.items is not None and len(self.items) < 20 else "")

    def with_n(self, n):
        return Arr(self.ety, n, self.get, self.kind, base=self, wr=None)


def arr_items(ety, items, kind="vec"):
    items = list(items)

    def get(i):
        if isinstance(i, int):
            if 0 <= i < len(items):
                return items[i]
            return junk(ety)
        r = None
        for k in range(len(items) - 1, -1, -1):
            r = items[k] if r is None else ite_val(eq(i, k), items[k], r)
        return r if r is not None else junk(ety)
    return Arr(ety, len(items), get, kind, items=items)


def arr_write(a, off, ln, src, n=None):
    """a with [off, off+ln) replaced by src(j - off)."""
    if n is None:
        n = a.n
    if isinstance(off, int) and isinstance(ln, int) and ln <= 4096 and a.items is not None and isinstance(n, int) and n <= 4096:
        it = list(a.items) + [None] * max(0, n - len(a.items))
        it = it[:n]
        for k in range(ln):
            it[off + k] = src(k)
        if all(x is not None for x in it):
            r = arr_items(a.ety, it, a.kind)
            r.base, r.wr = a, (off, ln, src)
            return r
    if a.wr is not None and a.base is not None and same(off, a.wr[0]) and same(ln, a.wr[1]):
        a = a.base   # the earlier write is overwritten
    hi = add(off, ln)
    aget = a.get

    def get(j):
        c1 = le(off, j)
        c2 = lt(j, hi)
        c = and_(c1, c2)
        if c is True:
            return src(sub(j, off))
        if c is False:
            return aget(j)
        return ite_val(c, src(sub(j, off)), aget(j))
    return Arr(a.ety, n, get, a.kind, base=a, wr=(off, ln, src))


class Ptr(V):
    """Pointer to lv (off None) or to element off of the array at lv."""
    __slots__ = ("null", "lv", "off", "view")

    def __init__(self, null, lv, off=None, view=None):
        self.null, self.lv, self.off, self.view = null, lv, off, view

    def __repr__(self):
        return "Ptr(null=%s,%r+%s)" % (self.null, self.lv, self.off)


class PV(V):
    """Pointer to byte `pos` of the flat contents of the piece vector V; valid range [lo, hi)."""
    __slots__ = ("vec", "pos", "lo", "hi", "null")

    def __init__(self, vec, pos, lo, hi, null):
        self.vec, self.pos, self.lo, self.hi, self.null = vec, pos, lo, hi, null

    def __repr__(self):
        return "PV(%s@%s in [%s,%s) null=%s)" % (self.vec.name, self.pos, self.lo, self.hi, self.null)


class NullPtr(V):
    null = True

    def __repr__(self):
        return "nullptr"


NULLP = NullPtr()


class PIte(V):
    """Conditional choice between values that do not merge; resolved by forking."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "PIte(%s,%r,%r)" % (self.c, self.a, self.b)


class UPtr(V):
    __slots__ = ("null", "val", "ety")

    def __init__(self, null, val, ety=None):
        self.null, self.val, self.ety = null, val, ety

    def __repr__(self):
        return "UPtr(null=%s,%r)" % (self.null, self.val)


class Variant(V):
    __slots__ = ("idx", "alts")

    def __init__(self, idx, alts):
        self.idx, self.alts = idx, alts

    def __repr__(self):
        return "Variant(%s,%r)" % (self.idx, self.alts)


class Status(V):
    """absl::Status: code term (0 is OK) and message."""
    __slots__ = ("code", "msg")

    def __init__(self, code, msg=None):
        self.code, self.msg = code, msg

    def __repr__(self):
        return "Status(%s)" % (self.code,)


class Fn(V):
    """std::function or function pointer value."""
    __slots__ = ("null", "tag", "node", "env")

    def __init__(self, null, tag, node=None, env=None):
        self.null, self.tag, self.node, self.env = null, tag, node, env

    def __repr__(self):
        return "Fn(%s)" % (self.tag,)


class SetV(V):
    """Set of values: membership predicate, size, and an enumeration (Arr) when one is known."""
    __slots__ = ("ety", "mem", "n", "seq")

    def __init__(self, ety, mem, n, seq=None):
        self.ety, self.mem, self.n, self.seq = ety, mem, n, seq

    def __repr__(self):
        return "SetV(%s)" % (self.n,)


def val_eq(a, b):
    """Equality of plain values (terms, strings by identity, structs field-wise)."""
    if is_term(a) and is_term(b):
        return eq(a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.kind in ("str", "cstr") and b.kind in ("str", "cstr"):
        if a.atom is None or b.atom is None or isinstance(a.atom, tuple) or isinstance(b.atom, tuple):
            raise Unsupported("string equality")
        return eq(a.atom, b.atom)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
        return and_(*[val_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Op) and isinstance(b, Op):
        return eq(a.id, b.id)
    raise Unsupported("equality of %r and %r" % (a, b))


class Op(V):
    """Opaque value identified by a term."""
    __slots__ = ("id", "null", "kind")

    def __init__(self, id, null=False, kind=None):
        self.id, self.null, self.kind = id, null, kind

    def __repr__(self):
        return "Op(%s,%s,null=%s)" % (self.kind, self.id, self.null)


class Junk(V):
    """Uninitialised storage of a type."""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "Junk(%r)" % (self.ty,)


class Unit(V):
    def __repr__(self):
        return "void"


UNIT = Unit()


class LV(V):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def sub(self, *steps):
        return LV(self.cell, self.path + steps)

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join("/%s" % (p[1] if len(p) > 1 else p[0],) for p in self.path))


def same_path(p, q):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if a[0] != b[0] or len(a) != len(b):
            return False
        if len(a) > 1:
            if isinstance(a[1], str) or isinstance(b[1], str):
                if a[1] != b[1]:
                    return False
            elif not same(a[1], b[1]):
                return False
    return True


def same_lv(a, b):
    return a is b or (a.cell == b.cell and same_path(a.path, b.path))


class Moved(V):
    """Result of std::move on an l-value."""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


def junk(ty):
    if ty.k in ("int", "enum"):
        return fresh_int("junk")
    if ty.k == "bool":
        return fresh_bool("junk")
    return Junk(ty)


def is_term(v):
    return isinstance(v, (int, bool, z3.ExprRef))


def ite_val(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_term(a) and is_term(b):
        return ite(c, a, b)
    if isinstance(a, Junk):
        return b
    if isinstance(b, Junk):
        return a
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and a.f.keys() == b.f.keys():
        return Struct(a.name, {k: ite_val(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Status) and isinstance(b, Status):
        return Status(ite(c, a.code, b.code), a.msg if a.msg is b.msg else None)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.atom is not None and b.atom is not None:
            return atom_str(ite(c, a.atom, b.atom))
        ag, bg = a.get, b.get
        r = Arr(a.ety, ite(c, a.n, b.n), lambda i: ite_val(c, ag(i), bg(i)), a.kind)
        if a.flatg is not None and b.flatg is not None:
            r.flatg = ite_val(c, a.flatg, b.flatg)
        return r
    if isinstance(a, NullPtr) and isinstance(b, (Ptr, PV)):
        return set_null(b, ite(c, True, b.null))
    if isinstance(b, NullPtr) and isinstance(a, (Ptr, PV)):
        return set_null(a, ite(c, a.null, True))
    if isinstance(a, NullPtr) and isinstance(b, NullPtr):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and same_lv(a.lv, b.lv) and (a.off is None) == (b.off is None) and a.view == b.view:
        return Ptr(ite(c, a.null, b.null), a.lv, None if a.off is None else ite(c, a.off, b.off), a.view)
    if isinstance(a, PV) and isinstance(b, PV) and a.vec is b.vec:
        return PV(a.vec, ite(c, a.pos, b.pos), ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), ite(c, a.null, b.null))
    if isinstance(a, UPtr) and isinstance(b, UPtr):
        if a.null is True:
            return UPtr(ite(c, True, b.null), b.val, b.ety)
        if b.null is True:
            return UPtr(ite(c, a.null, True), a.val, a.ety)
        return UPtr(ite(c, a.null, b.null), ite_val(c, a.val, b.val), a.ety)
    if isinstance(a, Variant) and isinstance(b, Variant):
        alts = []
        for x, y in zip(a.alts, b.alts):
            alts.append(y if x is None else x if y is None else ite_val(c, x, y))
        return Variant(ite(c, a.idx, b.idx), alts)
    if isinstance(a, Op) and isinstance(b, Op):
        return Op(ite(c, a.id, b.id), ite(c, a.null, b.null), a.kind if a.kind == b.kind else None)
    if isinstance(a, Op) and isinstance(b, NullPtr):
        return Op(a.id, ite(c, a.null, True), a.kind)
    if isinstance(a, NullPtr) and isinstance(b, Op):
        return Op(b.id, ite(c, True, b.null), b.kind)
    if isinstance(a, Fn) and isinstance(b, Fn) and a.tag == b.tag and a.node is b.node:
        return Fn(ite(c, a.null, b.null), a.tag, a.node, a.env)
    if isinstance(a, Fn) and isinstance(b, Fn) and a.null is True:
        return Fn(ite(c, True, b.null), b.tag, b.node, b.env)
    if isinstance(a, Fn) and isinstance(b, Fn) and b.null is True:
        return Fn(ite(c, a.null, True), a.tag, a.node, a.env)
    if isinstance(a, Unit):
        return b
    return PIte(c, a, b)


def set_null(p, nl):
    if isinstance(p, Ptr):
        return Ptr(nl, p.lv, p.off, p.view)
    if isinstance(p, PV):
        return PV(p.vec, p.pos, p.lo, p.hi, nl)
    raise Unsupported("set_null")


# -- strings -------------------------------------------------------------
CHARTY = Ty("int", n=(8, True))
_lits = {}
_litlist = []
STRLEN = uf("strlen", 1)
STRBYTE = uf("strbyte", 2)
STRZ = uf("strz", 1)          # prefix of a string before its first NUL


def lit_atom(bs):
    if bs not in _lits:
        _lits[bs] = -(len(_lits) + 1)      # distinct negative ids for literals
        _litlist.append(bs)
    return _lits[bs]


def lit_of(atom):
    if isinstance(atom, int) and atom < 0 and -atom <= len(_litlist):
        return _litlist[-atom - 1]
    return None


def lit_str(bs):
    a = arr_items(CHARTY, [b for b in bs], "str")
    a.atom = lit_atom(bytes(bs))
    return a


def atom_str(t):
    bs = lit_of(t) if isinstance(t, int) else None
    if bs is not None:
        return lit_str(bs)
    return Arr(CHARTY, app(STRLEN, t), lambda i: app(STRBYTE, t, i), "str", atom=t)


def fresh_str(base="str"):
    return atom_str(fresh_int(base))


class State:
    __slots__ = ("cells", "env", "pc", "locks", "depth", "ghost", "trace")

    def __init__(self):
        self.cells, self.env, self.pc, self.locks, self.ghost, self.trace = {}, {}, (), (), {}, ()

    def copy(self):
        s = State.__new__(State)
        s.cells, s.env, s.pc, s.locks, s.ghost, s.trace = dict(self.cells), dict(self.env), self.pc, self.locks, dict(self.ghost), self.trace
        return s

    def assume(self, *cs):
        s = self.copy()
        s.add(*cs)
        return s

    def add(self, *cs):
        """Add facts in place."""
        l = list(self.pc)
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.pc = tuple(l)
                self.add(*c)
                l = list(self.pc)
                continue
            if c is True or (not isc(c) and z3.is_true(c)):
                continue
            if c is False:
                l.append(z3.BoolVal(False))
                continue
            l.append(c)
        self.pc = tuple(l)

    def new(self, name, val):
        c = fresh_name(name)
        self.cells[c] = val
        return LV(c)

    # -- reading and writing ----------------------------------------------
    def load(self, lv):
        v = self.cells[lv.cell]
        for p in lv.path:
            v = get_step(v, p)
        return v

    def store(self, lv, val):
        self.cells[lv.cell] = set_path(self.cells.get(lv.cell), lv.path, val)


def get_step(v, p):
    k = p[0]
    if isinstance(v, PIte):
        return ite_val(v.c, get_step(v.a, p), get_step(v.b, p))
    if k == "f":
        if isinstance(v, Struct):
            if p[1] not in v.f:
                raise Unsupported("no field %s in %s" % (p[1], v.name))
            return v.f[p[1]]
        raise Unsupported("field %s of %r" % (p[1], v))
    if k == "i":
        if isinstance(v, Arr):
            return v.get(p[1])
        raise Unsupported("index of %r" % (v,))
    if k == "d":
        if isinstance(v, UPtr):
            return v.val
        raise Unsupported("deref of %r" % (v,))
    if k == "s":
        if isinstance(v, SetV) and v.seq is not None:
            return v.seq
        raise Unsupported("enumeration of %r" % (v,))
    if k == "v":
        if isinstance(v, Variant):
            return v.alts[p[1]]
        raise Unsupported("variant of %r" % (v,))
    raise Unsupported("step %r" % (p,))


def set_path(v, path, val):
    if not path:
        return val
    p, rest = path[0], path[1:]
    k = p[0]
    if k == "f":
        if not isinstance(v, Struct):
            raise Unsupported("store to field %s of %r" % (p[1], v))
        return v.set(p[1], set_path(v.f.get(p[1]), rest, val))
    if k == "i":
        if not isinstance(v, Arr):
            raise Unsupported("store to element of %r" % (v,))
        nv = set_path(v.get(p[1]), rest, val) if rest else val
        return arr_write(v, p[1], 1, lambda j: nv)
    if k == "d":
        return UPtr(v.null, set_path(v.val, rest, val), v.ety)
    if k == "v":
        alts = list(v.alts)
        alts[p[1]] = set_path(alts[p[1]], rest, val)
        return Variant(v.idx, alts)
    raise Unsupported("set step %r" % (p,))
