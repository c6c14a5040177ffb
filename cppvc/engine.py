"""Path-forking symbolic executor over clang's AST, producing obligations.

`ev(node, st)` returns a list of (value, state); `ex(stmt, st)` returns a list of
(outcome, value, state) with outcome in next/ret/break/cont.  Nothing is bounded:
loops are cut at inferred inductive invariants (loops.py).
"""
import re, time
import z3
from .cast import Unsupported, TU, body_of, params_of, has_body
from . import types as T
from .types import Ty, parse, SIZE, U8, I32, BOOL, STR, VOID, STATUS
from .terms import *
from .values import *
from .query import Axioms, Prover

STATUS_CODES = ["kOk", "kCancelled", "kUnknown", "kInvalidArgument", "kDeadlineExceeded", "kNotFound", "kAlreadyExists",
                "kPermissionDenied", "kResourceExhausted", "kFailedPrecondition", "kAborted", "kOutOfRange",
                "kUnimplemented", "kInternal", "kUnavailable", "kDataLoss", "kUnauthenticated"]
CODE = {n: i for i, n in enumerate(STATUS_CODES)}


def merge_states(ss):
    """Join states that differ only in their path conditions."""
    out = []
    for s in ss:
        for k, o in enumerate(out):
            m = merge_two(o, s)
            if m is not None:
                out[k] = m
                break
        else:
            out.append(s)
    return out


def merge_two(a, b):
    if a.trace != b.trace or a.locks != b.locks or a.ghost.keys() != b.ghost.keys():
        return None
    for k, v in a.ghost.items():
        w = b.ghost[k]
        if v is not w and not (is_term(v) and is_term(w) and same(v, w)):
            return None
    if a.env.keys() != b.env.keys():
        return None
    for k, v in a.env.items():
        if b.env[k] is not v:
            return None
    for k, v in a.cells.items():
        if k in b.cells and b.cells[k] is not v:
            w = b.cells[k]
            if not (is_term(v) and is_term(w) and same(v, w)):
                return None
    n = 0
    while n < len(a.pc) and n < len(b.pc) and z(a.pc[n]).eq(z(b.pc[n])):
        n += 1
    m = a.copy()
    for k, v in b.cells.items():
        m.cells.setdefault(k, v)
    m.pc = a.pc[:n]
    m.add(or_(and_(*a.pc[n:]), and_(*b.pc[n:])))
    return m


def isc_type(g):
    return "const" in (g.get("type", {}).get("qualType") or "")


class Pieces:
    """Symbolic vector of byte pieces: piece k is flat[offs(k) .. offs(k)+len(k))."""

    def __init__(self, E, name, pre=(), n=None, nullable=True):
        self.E, self.name, self.pre = E, name, tuple(pre)
        a = len(self.pre)
        self.OFFS, self.LEN = uf(name + ".offs", a + 1), uf(name + ".len", a + 1)
        self.FLAT, self.NULL = uf(name + ".flat", a + 1), uf(name + ".null", a + 1, BSORT)
        self.N = uf(name + ".n", a)
        self.BAD = uf(name + ".bad", a + 1)      # number of null non-empty pieces among the first k
        self.n = app(self.N, *self.pre) if n is None else n
        self.total = self.offs(self.n)
        self.nullable = nullable
        if name not in E._pieces:
            E._pieces[name] = self
            E.ax.on(name + ".n", lambda *p: and_(le(0, app(self.N, *p)), lt(app(self.N, *p), 2 ** 60)))
            E.ax.on(name + ".len", self._ax_len)
            E.ax.on(name + ".offs", self._ax_offs)
            E.ax.on(name + ".flat", lambda *p: and_(le(0, app(self.FLAT, *p)), le(app(self.FLAT, *p), 255)))
            E.ax.on_pair(name + ".offs", self._ax_mono)
            E.ax.on(name + ".bad", self._ax_bad)
            E.ax.on(name + ".null", self._ax_null)
            E.ax.on_pair(name + ".bad", self._ax_mono_bad)

    def _n(self, pre):
        return self.n if not self.pre else app(self.N, *pre)

    def _ax_len(self, *p):
        pre, i = p[:-1], p[-1]
        n = self._n(pre)
        L = app(self.LEN, *p)
        return [le(0, L), implies(and_(le(0, i), lt(i, n)),
                                  eq(app(self.OFFS, *pre, add(i, 1)), add(app(self.OFFS, *p), L)))]

    def _ax_offs(self, *p):
        pre, i = p[:-1], p[-1]
        n = self._n(pre)
        o = app(self.OFFS, *p)
        tot = app(self.OFFS, *pre, n)
        return [le(0, o), implies(and_(le(0, i), le(i, n)), le(o, tot)), implies(eq(i, 0), eq(o, 0)),
                lt(tot, 2 ** 62), le(0, n),
                implies(and_(le(0, i), lt(i, n)), eq(app(self.OFFS, *pre, add(i, 1)), add(o, app(self.LEN, *p))))
                if depth_ok(i) else True]

    def _ax_bad(self, *p):
        pre, i = p[:-1], p[-1]
        b = app(self.BAD, *p)
        r = [le(0, b), implies(eq(i, 0), eq(b, 0)), self._ax_null(*p) if depth_ok(i) else True]
        from .terms import _lin
        if isinstance(i, int) and 1 <= i <= 8 or not isinstance(i, int) and 1 <= _lin(i)[0] <= 2:
            r.append(self._ax_null(*pre, sub(i, 1)))
        return r

    def _ax_null(self, *p):
        pre, i = p[:-1], p[-1]
        return implies(and_(le(0, i), lt(i, self._n(pre))),
                       eq(app(self.BAD, *pre, add(i, 1)),
                          add(app(self.BAD, *p), ite(and_(app(self.NULL, *p), lt(0, app(self.LEN, *p))), 1, 0))))

    def _ax_mono_bad(self, a, b):
        g = and_(*[eq(x, y) for x, y in zip(a[:-1], b[:-1])])
        n = self._n(a[:-1])
        i, k = a[-1], b[-1]
        oi, ok = app(self.BAD, *a), app(self.BAD, *b)
        return [implies(and_(g, le(0, i), le(i, k), le(k, n)), le(oi, ok)),
                implies(and_(g, le(0, k), le(k, i), le(i, n)), le(ok, oi))]

    def _ax_mono(self, a, b):
        if not all(same(x, y) for x, y in zip(a[:-1], b[:-1])):
            g = and_(*[eq(x, y) for x, y in zip(a[:-1], b[:-1])])
        else:
            g = True
        n = self._n(a[:-1])
        i, k = a[-1], b[-1]
        oi, ok = app(self.OFFS, *a), app(self.OFFS, *b)
        return [implies(and_(g, le(0, i), le(i, k), le(k, n)), le(oi, ok)),
                implies(and_(g, le(0, k), le(k, i), le(i, n)), le(ok, oi))]

    def offs(self, i):
        if isinstance(i, int) and i == 0:
            return 0
        return app(self.OFFS, *self.pre, i)

    def len(self, i):
        return app(self.LEN, *self.pre, i)

    def flat(self, j):
        return app(self.FLAT, *self.pre, j)

    def null(self, i):
        return app(self.NULL, *self.pre, i) if self.nullable else False

    def samev(self, o):
        return self is o or (self.name == o.name and len(self.pre) == len(o.pre) and all(same(a, b) for a, b in zip(self.pre, o.pre)))

    def iovecs(self, ety):
        """As std::vector<Iovec>."""
        def get(i):
            o, l = self.offs(i), self.len(i)
            return Struct("s2a::aead_crypter::Iovec", {"iov_base": PV(self, o, o, add(o, l), self.null(i)), "iov_len": l})
        a = Arr(ety, self.n, get, "vec", pieces=self)
        a.flatg = Arr(U8, self.total, self.flat, "seq")
        return a

    def fragments(self, ety):
        """As std::vector<std::unique_ptr<std::vector<uint8_t>>>."""
        def get(i):
            o, l = self.offs(i), self.len(i)
            return UPtr(False, Arr(U8, l, lambda j: self.flat(add(o, j)), "vec"), ety.elem if ety.k == "uptr" else None)
        a = Arr(ety, self.n, get, "vec", pieces=self)
        a.flatg = Arr(U8, self.total, self.flat, "seq")
        return a


def flatv(v):
    """Scalars of a plain value."""
    if is_term(v):
        return [v]
    if isinstance(v, Arr) and v.atom is not None and not isinstance(v.atom, tuple):
        return [v.atom]
    if isinstance(v, Struct):
        return [x for k in v.f for x in flatv(v.f[k])]
    if isinstance(v, Op):
        return [v.id]
    raise Unsupported("scalars of %r" % (v,))


_depth = {}


def depth_ok(i):
    """Do not chain offs(i+1) instances forever: only for terms without a trailing +c."""
    if isinstance(i, int):
        return i < 8
    from .terms import _lin
    c, m = _lin(i)
    return abs(c) <= 1


class Obl:
    __slots__ = ("name", "kind", "pc", "goal", "loc", "func", "props", "result", "model", "time", "backend", "trace")

    def __init__(self, name, kind, pc, goal, loc, func, props):
        self.name, self.kind, self.pc, self.goal, self.loc, self.func, self.props = name, kind, pc, goal, loc, func, props
        self.result, self.model, self.time, self.backend, self.trace = None, None, 0.0, None, None


class Frame:
    def __init__(self, tu, fn, this=None):
        self.tu, self.fn, self.this = tu, fn, this


class Engine:
    def __init__(self, tus):
        self.tus = tus                     # list of TU
        self.gen_ufs = ()                  # ghost functions whose constant arguments loops may generalise
        self.ax = Axioms()
        self.pr = Prover(self.ax)
        self._pieces = {}
        self.hooks = {}
        self.models = {}
        self.dyn = None                    # contract lookup by callee name (generated accessors)
        self.obls = []
        self.quiet = 0
        self.decide = 0            # inner loops: first iterations whose condition the solver decides are unrolled
        self.loop_rule = None      # contract-supplied loop rule, tried before inference
        self.frames = []
        self.cellty = {}
        self.func = "?"
        self.props = ()
        self.guarded = None                # callback(E, st, lv, node) on member access
        self.phase_loops = False
        self.stats = {"paths": 0, "inlined": set(), "modelled": set(), "contracts": set(), "loops": 0, "invariants": 0}
        self.deadline = None
        self.symrange = set()
        self.loopdepth = 0
        self.inv_extra = None              # contract-supplied invariant candidates at loop heads
        self.loop_content = None           # contract-supplied content invariants of loops
        self.loop_alts = 1
        self.symhooks = {}                 # arbitrary values of contract-defined types
        self.lits = set()
        self.ax.on("strlen", lambda a: and_(le(0, app(STRLEN, a)), lt(app(STRLEN, a), 2 ** 60)))
        self.ax.on("strbyte", lambda a, i: and_(le(-128, app(STRBYTE, a, i)), le(app(STRBYTE, a, i), 127)))
        from . import models
        models.install(self)

    # ------------------------------------------------------------------
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("symbolic execution budget exhausted in " + self.func)

    @property
    def tu(self):
        return self.frames[-1].tu

    def ty(self, node):
        t = node.get("type", {})
        s = t.get("desugaredQualType") or t.get("qualType")
        return parse(s, self.tu)

    def rawty(self, node):
        t = node.get("type", {})
        return t.get("desugaredQualType") or t.get("qualType")

    # -- obligations -----------------------------------------------------
    def loc(self, node):
        if node is None:
            return ""
        r = node.get("range", {}).get("begin", {})
        for k in ("line",):
            if k in r:
                return "line %s" % r[k]
        r = r.get("expansionLoc") or r.get("spellingLoc") or {}
        return "line %s" % r.get("line", "?")

    def ob(self, st, goal, name, kind="safety", node=None, props=None):
        """Record an obligation and assume it afterwards."""
        g = goal if isinstance(goal, bool) else goal
        if g is True:
            if not self.quiet and kind != "safety":
                o = Obl(name, kind, (), True, self.loc(node), self.func, props or self.props)
                o.result, o.backend = "proved", "syntactic"
                self.obls.append(o)
            return st
        if not self.quiet:
            o = Obl(name, kind, st.pc, goal, self.loc(node), self.func, props or self.props)
            o.trace = st.trace
            self.obls.append(o)
        return st.assume(goal)

    # -- symbolic values ---------------------------------------------------
    def rng(self, ty):
        if ty.k == "bool":
            return None
        if ty.k == "int":
            b, s = ty.n
            return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if s else (0, 2 ** b - 1)
        if ty.k == "enum":
            return (-(2 ** 31), 2 ** 31 - 1)
        return None

    def sym_int(self, ty, name, idx=()):
        if ty.k == "bool":
            return app(uf(name, len(idx), BSORT), *idx)
        f = uf(name, len(idx))
        lo, hi = self.rng(ty)
        if name not in self.symrange:
            self.symrange.add(name)
            self.ax.on(name, lambda *p: and_(le(lo, app(f, *p)), le(app(f, *p), hi)))
        return app(f, *idx)

    def sym(self, ty, name, idx=(), tu=None):
        """Arbitrary value of type ty, as uninterpreted functions of idx."""
        k = ty.k
        if k in ("int", "enum", "bool"):
            return self.sym_int(ty, name, idx)
        if k == "status":
            f = uf(name + ".code", len(idx))
            if name not in self.symrange:
                self.symrange.add(name)
                self.ax.on(name + ".code", lambda *p: and_(le(0, app(f, *p)), le(app(f, *p), 16)))
            return Status(app(f, *idx))
        if k == "str" or k == "sv":
            return atom_str(app(uf(name + ".str", len(idx)), *idx))
        if k == "vec":
            n = app(uf(name + ".n", len(idx)), *idx)
            if name + ".n" not in self.symrange:
                self.symrange.add(name + ".n")
                N = uf(name + ".n", len(idx))
                self.ax.on(name + ".n", lambda *p: and_(le(0, app(N, *p)), lt(app(N, *p), 2 ** 60)))
            e = ty.elem
            return Arr(e, n, lambda i: self.sym(e, name + "[]", idx + (i,), tu), "vec")
        if k == "arr":
            e = ty.elem
            return Arr(e, ty.n, lambda i: self.sym(e, name + "[]", idx + (i,), tu), "arr")
        if k == "uptr":
            e = ty.elem
            return UPtr(app(uf(name + ".null", len(idx), BSORT), *idx), self.sym(e, name + "*", idx, tu), e)
        if k == "rec":
            fs = {}
            for fn, ft in self.fields(ty.name, tu):
                fs[fn] = self.sym(ft, name + "." + fn, idx, tu)
            return Struct(ty.name, fs)
        if k == "variant":
            f = uf(name + ".idx", len(idx))
            if name not in self.symrange:
                self.symrange.add(name)
                na = len(ty.a)
                self.ax.on(name + ".idx", lambda *p: and_(le(0, app(f, *p)), lt(app(f, *p), na)))
            return Variant(app(f, *idx), [self.sym(t, name + ".alt%d" % q, idx, tu) for q, t in enumerate(ty.a)])
        if k == "statusor":
            f, g = uf(name + ".ok", len(idx), BSORT), uf(name + ".err", len(idx))
            if name not in self.symrange:
                self.symrange.add(name)
                self.ax.on(name + ".err", lambda *p: and_(le(1, app(g, *p)), le(app(g, *p), 16)))
            return Variant(ite(app(f, *idx), 1, 0), [Status(app(g, *idx)), self.sym(ty.a[0], name + ".val", idx, tu)])
        if k == "set":
            e = ty.a[0]
            if name + ".n" not in self.symrange:
                self.symrange.add(name + ".n")
                N = uf(name + ".n", len(idx))
                self.ax.on(name + ".n", lambda *p: and_(le(0, app(N, *p)), lt(app(N, *p), 2 ** 60)))
            n = app(uf(name + ".n", len(idx)), *idx)
            return SetV(e, lambda y: app(uf(name + ".mem", len(idx) + len(flatv(y)), BSORT), *idx, *flatv(y)), n,
                        Arr(e, n, lambda i: self.sym(e, name + "[]", idx + (i,), tu), "vec"))
        if k == "func":
            return Fn(app(uf(name + ".null", len(idx), BSORT), *idx), name)
        if k in ("mutex",):
            return Op(name, False, "mutex")
        if k in ("opaque", "ptr", "map"):
            return Op(app(uf(name + ".id", len(idx)), *idx), app(uf(name + ".null", len(idx), BSORT), *idx), "ptr" if k == "ptr" else ty.name)
        if k in self.symhooks:
            return self.symhooks[k](self, ty, name, idx)
        raise Unsupported("symbolic value of type %r" % (ty,))

    def fields(self, recname, tu=None):
        tu = tu or self.tu
        r = tu.record(recname)
        if r is None:
            for t in self.tus:
                r = t.record(recname)
                if r is not None:
                    tu = t
                    break
        if r is None:
            raise Unsupported("unknown record " + recname)
        out = []
        for b in r[1].get("bases", []) or []:
            bt = b.get("type", {})
            s = bt.get("desugaredQualType") or bt.get("qualType")
            p = parse(s, tu)
            if p.k == "rec":
                out += self.fields(p.name, tu)
        for c in r[1].get("inner", []) or []:
            if c.get("kind") == "FieldDecl":
                t = c["type"]
                out.append((c["name"], parse(t.get("desugaredQualType") or t["qualType"], tu)))
        return out

    def field_init(self, recname, fname):
        for tu in [self.tu] + self.tus:
            r = tu.record(recname)
            if r is None:
                continue
            for c in r[1].get("inner", []) or []:
                if c.get("kind") == "FieldDecl" and c.get("name") == fname:
                    inner = [x for x in c.get("inner", []) or [] if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                    return inner[0] if inner else None
        return None

    def default(self, ty, zero=False, tu=None):
        """Value of a default-initialised (zero: value-initialised) object."""
        k = ty.k
        if k in ("int", "enum"):
            return 0 if zero else fresh_int("uninit")
        if k == "bool":
            return False if zero else fresh_bool("uninit")
        if k == "status":
            return Status(0)
        if k == "str" or k == "sv":
            return lit_str(b"")
        if k == "vec":
            a = arr_items(ty.elem, [])
            if not ty.elem.isint():
                a.flatg = Arr(U8, 0, lambda j: fresh_int("oob"), "seq")
            return a
        if k == "arr":
            e = ty.elem
            if zero and e.isint() and isinstance(ty.n, int):
                return arr_items(e, [0] * ty.n, "arr")
            nm = fresh_name("uninit")
            return Arr(e, ty.n, lambda i: self.sym(e, nm, (i,), tu), "arr")
        if k == "uptr":
            return UPtr(True, None, ty.elem)
        if k == "ptr":
            return NULLP if zero else Junk(ty)
        if k == "func":
            return Fn(True, "null")
        if k == "variant":
            return Variant(0, [self.default(ty.a[0], True, tu)] + [None] * (len(ty.a) - 1))
        if k == "rec":
            fs = {}
            tu = tu or self.tu
            for fn, ft in self.fields(ty.name, tu):
                ini = self.field_init(ty.name, fn)
                if ini is not None:
                    r = self.ev(ini, State())
                    fs[fn] = self.conv_val(self.rv(r[0][0], r[0][1])[0], ft)
                else:
                    fs[fn] = self.default(ft, zero, tu)
            return Struct(ty.name, fs)
        if k == "mutex":
            return Op(fresh_name("mutex"), False, "mutex")
        if k == "set":
            return SetV(ty.a[0], lambda y: False, 0, arr_items(ty.a[0], []))
        if k == "map":
            h = self.models.get("default:map")
            return h() if h else Op(fresh_int("map"), False, "map")
        if k == "statusor":
            return Variant(0, [Status(2), None])
        return Op(fresh_int("obj"), False, ty.name or k)

    def conv_val(self, v, ty):
        if ty.k == "uptr" and isinstance(v, (NullPtr,)):
            return UPtr(True, None, ty.elem)
        if ty.k == "func" and isinstance(v, NullPtr):
            return Fn(True, "null")
        return v

    # -- loads ------------------------------------------------------------
    def rv(self, v, st):
        """Value of an expression result (loads l-values, performs moves)."""
        if isinstance(v, LV):
            return self.load(v, st), st
        if isinstance(v, Moved):
            x = self.load(v.lv, st)
            st = st.copy()
            try:
                st.store(v.lv, self.moved_from(x))
            except Unsupported:
                pass
            return x, st
        return v, st

    def load(self, lv, st):
        return st.load(lv)

    def moved_from(self, x):
        if isinstance(x, UPtr):
            return UPtr(True, None, x.ety)
        if isinstance(x, Arr) and x.kind == "vec":
            a = arr_items(x.ety, [])
            if not x.ety.isint():
                a.flatg = Arr(U8, 0, lambda j: fresh_int("oob"), "seq")
            return a
        if isinstance(x, Arr) and x.kind == "str":
            return fresh_str("moved")
        if isinstance(x, Struct):
            return Struct(x.name, {k: self.moved_from(v) for k, v in x.f.items()})
        return x

    def alloc(self, st, name, val, ty=None):
        lv = st.new(name, val)
        if ty is not None:
            self.cellty[lv.cell] = ty
        return lv

    def as_lv(self, v, st, name="tmp", ty=None):
        if isinstance(v, LV):
            return v, st
        if isinstance(v, Moved):
            return v.lv, st
        st = st.copy()
        return self.alloc(st, name, v, ty), st

    def feasible(self, st):
        return self.pr.feasible(st.pc)

    def valid(self, st, g, timeout=4000):
        return self.pr.valid(st.pc, g, timeout)

    def branch(self, st, c):
        """[(True, st1), (False, st2)] restricted to feasible sides."""
        cc = conc(c)
        if cc is not None:
            return [(bool(cc), st)]
        self.tick()
        out = []
        s1 = st.assume(c)
        if self.feasible(s1):
            out.append((True, s1))
        s2 = st.assume(not_(c))
        if self.feasible(s2):
            out.append((False, s2))
        return out

    def force(self, v, st):
        """Resolve PIte by forking."""
        if isinstance(v, PIte):
            out = []
            for b, s in self.branch(st, v.c):
                out += self.force(v.a if b else v.b, s)
            return out
        return [(v, st)]

    # -- integer arithmetic -------------------------------------------------
    def fit(self, r, ty, st, node, op="arith"):
        """Bring the mathematical result r into type ty."""
        c = conc(r)
        lo, hi = self.rng(ty)
        if c is not None:
            if lo <= c <= hi:
                return c, st
            if ty.signed() and op != "cast":
                st = self.ob(st, False, "signed-overflow", node=node)
                return c, st
            w = hi - lo + 1
            return (c - lo) % w + lo, st
        if self.valid(st, and_(le(lo, r), le(r, hi)), 1500):
            return r, st
        if ty.signed() and op != "cast":
            st = self.ob(st, and_(le(lo, r), le(r, hi)), "no-signed-overflow", node=node)
            return r, st
        w = hi - lo + 1
        if op == "add":
            return ite(gt(r, hi), sub(r, w), r), st
        if op == "sub":
            return ite(lt(r, lo), add(r, w), r), st
        if not ty.signed():
            b = self.mask(r, w)
            return b, st
        t = mod(r, w)
        return ite(gt(t, hi), sub(t, w), t), st

    def mask(self, r, w):
        """r mod w for unsigned narrowing, pushing through xor."""
        if w == 256 and not isc(r) and z3.is_app(r) and r.decl().name() == "bxor":
            a, b = r.children()
            return self.xor8(mod(simp(a), 256), mod(simp(b), 256))
        return mod(r, w)

    def xor8(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        f = uf("xor8", 2)
        if "xor8" not in self.symrange:
            self.symrange.add("xor8")
            self.ax.on("xor8", lambda x, y: and_(le(0, app(f, x, y)), le(app(f, x, y), 255)))
        return app(f, a, b)

    def to_bool(self, v, st):
        """Truth value term of a scalar."""
        if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
            return v
        if is_term(v):
            return ne(v, 0)
        if isinstance(v, (Ptr, PV, NullPtr, UPtr, Op, Fn)):
            return not_(v.null)
        if isinstance(v, PIte):
            return ite(v.c, self.to_bool(v.a, st), self.to_bool(v.b, st))
        if isinstance(v, Junk):
            return fresh_bool("junk")
        raise Unsupported("truth value of %r" % (v,))

    def to_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.ExprRef) and z3.is_bool(v):
            return ite(v, 1, 0)
        return v

    def convert(self, v, sty, dty, st, node):
        """Integral conversion."""
        if not is_term(v):
            return v, st
        if dty.k == "bool":
            return self.to_bool(v, st), st
        v = self.to_int(v)
        if dty.k not in ("int", "enum"):
            return v, st
        if sty.k in ("int", "enum", "bool"):
            if sty.k == "bool":
                return v, st
            sl, sh = self.rng(sty)
            dl, dh = self.rng(dty)
            if dl <= sl and sh <= dh:
                return v, st
        return self.fit(v, dty, st, node, "cast")

    # -- statements -----------------------------------------------------
    def ex(self, n, st):
        self.tick()
        k = n.get("kind")
        f = getattr(self, "ex_" + k, None)
        if f is not None:
            return f(n, st)
        return [("next", None, s) for v, s in self.ev(n, st)]

    def ex_CompoundStmt(self, n, st):
        depth = len(st.locks)
        outs, cur = [], [st]
        for c in n.get("inner", []) or []:
            nxt = []
            for s in cur:
                for o, v, s2 in self.ex(c, s):
                    if o == "next":
                        nxt.append(s2)
                    else:
                        outs.append((o, v, s2))
            cur = merge_states(nxt) if len(nxt) > 1 else nxt
            if not cur:
                break
        outs += [("next", None, s) for s in cur]
        r = []
        for o, v, s in outs:
            if len(s.locks) > depth:
                s = s.copy()
                s.locks = s.locks[:depth]
            r.append((o, v, s))
        return r

    def ex_NullStmt(self, n, st):
        return [("next", None, st)]

    def ex_AttributedStmt(self, n, st):
        inner = [c for c in n.get("inner", []) if not c.get("kind", "").endswith("Attr")]
        return self.ex(inner[0], st) if inner else [("next", None, st)]

    def ex_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get("inner", []):
            if d.get("kind") != "VarDecl":
                continue
            nxt = []
            for s in cur:
                nxt += self.vardecl(d, s)
            cur = nxt
        return [("next", None, s) for s in cur]

    def vardecl(self, d, st):
        ty = self.ty(d)
        init = [c for c in d.get("inner", []) or [] if not c.get("kind", "").endswith("Attr") and "Comment" not in c.get("kind", "")]
        if d.get("storageClass") == "static" and init:
            pass
        if ty.k == "ref":
            out = []
            for v, s in self.ev(init[0], st):
                lv, s = self.as_lv(v, s, d.get("name", "r"), ty.elem)
                s = s.copy()
                s.env[d["id"]] = lv
                out.append(s)
            return out
        if not init:
            s = st.copy()
            s.env[d["id"]] = self.alloc(s, d.get("name", "v"), self.default(ty), ty)
            return [s]
        out = []
        if ty.k == "lock":
            return self.lock_decl(d, ty, init[0], st)
        for v, s in self.ev(init[0], st):
            v, s = self.rv(v, s)
            v = self.conv_val(v, ty)
            s = s.copy()
            s.env[d["id"]] = self.alloc(s, d.get("name", "v"), v, ty)
            out.append(s)
        return out

    def lock_decl(self, d, ty, init, st):
        n = init
        while n.get("kind") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            n = n["inner"][0]
        args = [c for c in n.get("inner", [])]
        out = []
        for v, s in self.ev(args[0], st):
            v, s = self.rv(v, s)
            if not isinstance(v, Ptr):
                raise Unsupported("lock of %r" % (v,))
            s = s.copy()
            held = [l for l in s.locks if same_lv(l, v.lv)]
            if held:
                s = self.ob(s, False, "mutex-not-already-held", kind="lock", node=d)
                s = s.copy()
            s.locks = s.locks + (v.lv,)
            s.env[d["id"]] = LV("lock")
            out.append(s)
        return out

    def ex_ReturnStmt(self, n, st):
        inner = n.get("inner", []) or []
        if not inner:
            return [("ret", UNIT, st)]
        out = []
        rref = getattr(self.frames[-1], "retref", False)
        for v, s in self.ev(inner[0], st):
            if not (rref and isinstance(v, LV)):
                v, s = self.rv(v, s)
            out.append(("ret", v, s))
        return out

    def ex_BreakStmt(self, n, st):
        return [("break", None, st)]

    def ex_ContinueStmt(self, n, st):
        return [("cont", None, st)]

    def cond(self, n, st):
        """Evaluate a condition, forking: [(bool, st)]."""
        out = []
        for v, s in self.ev(n, st):
            v, s = self.rv(v, s)
            for b, s2 in self.branch(s, self.to_bool(v, s)):
                if self.loopdepth:
                    s2 = s2.copy()
                    s2.trace = s2.trace + ((id(n), b),)
                out.append((b, s2))
        return out

    def ex_IfStmt(self, n, st):
        inner = [c for c in n.get("inner", []) if c]
        pre = []
        if n.get("hasInit") or n.get("hasVar"):
            k = int(bool(n.get("hasInit"))) + int(bool(n.get("hasVar")))
            pre, inner = inner[:k], inner[k:]
        cur = [st]
        for p in pre:
            cur = [s for c in cur for (_, _, s) in self.ex(p, c)]
        out = []
        for c in cur:
            for b, s in self.cond(inner[0], c):
                if b:
                    out += self.ex(inner[1], s)
                elif len(inner) > 2:
                    out += self.ex(inner[2], s)
                else:
                    out.append(("next", None, s))
        return out

    def ex_SwitchStmt(self, n, st):
        inner = [c for c in n.get("inner", []) if c]
        body = inner[-1]
        condn = inner[-2]
        # flatten the body into a list of (labels, stmt)
        items = []

        def flat(s, labels):
            k = s.get("kind")
            if k == "CaseStmt":
                ch = s["inner"]
                flat(ch[-1], labels + [("case", ch[0], ch[1] if len(ch) == 3 else None)])
            elif k == "DefaultStmt":
                flat(s["inner"][-1], labels + [("default", None, None)])
            else:
                items.append((labels, s))
        for s in body.get("inner", []) or []:
            flat(s, [])
        out = []
        depth = len(st.locks)
        for v, s in self.ev(condn, st):
            v, s = self.rv(v, s)
            v = self.to_int(v)
            rest = s
            entries = []
            dflt = None
            dead = False
            for i, (labels, _) in enumerate(items):
                for (lk, e, e2) in labels:
                    if lk == "default":
                        dflt = i
                        continue
                    if dead:
                        continue
                    r = self.ev(e, rest)
                    cv = self.to_int(self.rv(r[0][0], r[0][1])[0])
                    if e2 is not None:
                        raise Unsupported("case range")
                    br = self.branch(rest, eq(v, cv))
                    nr = None
                    for b, s2 in br:
                        if b:
                            entries.append((i, s2))
                        else:
                            nr = s2
                    if nr is None:
                        dead = True
                    else:
                        rest = nr
            if not dead:
                entries.append((dflt if dflt is not None else len(items), rest))
            for i, s2 in entries:
                cur = [s2]
                for j in range(i, len(items)):
                    nxt = []
                    for c in cur:
                        for o, rvv, s3 in self.ex(items[j][1], c):
                            if o == "next":
                                nxt.append(s3)
                            elif o == "break":
                                out.append(("next", None, s3))
                            else:
                                out.append((o, rvv, s3))
                    cur = nxt
                    if not cur:
                        break
                out += [("next", None, c) for c in cur]
        return out

    def ex_ForStmt(self, n, st):
        init, _, cnd, inc, body = (n["inner"] + [None] * 5)[:5]
        cur = [st]
        if init:
            cur = [s for (_, _, s) in self.ex(init, st)]
        out = []
        for s in cur:
            out += self.loop(n, s, cnd if cnd else None, inc if inc else None, body)
        return out

    def ex_WhileStmt(self, n, st):
        inner = [c for c in n["inner"] if c]
        return self.loop(n, st, inner[0], None, inner[-1])

    def ex_DoStmt(self, n, st):
        raise Unsupported("do statement")

    def ex_CXXForRangeStmt(self, n, st):
        inner = n["inner"]
        if inner[0]:
            raise Unsupported("range-for init")
        rng, beg, end, cnd, inc, var, body = [c for c in inner[1:]]
        cur = [st]
        for d in (rng, beg, end):
            cur = [s for c in cur for (_, _, s) in self.ex(d, c)]
        out = []
        for s in cur:
            out += self.loop(n, s, cnd, inc, {"kind": "CompoundStmt", "inner": [var, body], "range": body.get("range", {})})
        return out

    def loop(self, n, st, cnd, inc, body):
        from .loops import run_loop
        return run_loop(self, n, st, cnd, inc, body)

    # -- calls ------------------------------------------------------------
    def lookup(self, fid, node=None):
        """(definition, tu) of a function by declaration id in the current TU, searching other TUs by name."""
        d = self.tu.definition(fid)
        if d is not None:
            return d, self.tu
        q = self.tu.norm(self.tu.qual.get(fid, ""))
        decl = self.tu.byid.get(fid)
        if not q:
            return None, None
        for t in self.tus:
            if t is self.tu:
                continue
            c = t.find(q)
            if len(c) == 1:
                return c[0], t
            for x in c:
                if decl is not None and x.get("mangledName") == decl.get("mangledName"):
                    return x, t
        return None, None

    def call(self, fn, tu, this, args, st):
        """Inline a function definition."""
        q = tu.norm(tu.qual.get(fn["id"], fn.get("name", "?")))
        if len(self.frames) > 30:
            raise Unsupported("call depth in " + q)
        if any(f.fn is fn for f in self.frames):
            raise Unsupported("recursion in " + q)
        self.stats["inlined"].add(q)
        ps = params_of(fn)
        saved = st.env
        st = st.copy()
        st.env = {}
        fr = Frame(tu, fn, this)
        self.frames.append(fr)
        try:
            rt = fn.get("type", {}).get("qualType", "")
            fr.retref = rt.split("(")[0].strip().endswith("&")
            for i, p in enumerate(ps):
                pt = self.ty(p)
                if i < len(args):
                    a = args[i]
                else:
                    dv = [c for c in p.get("inner", []) if c]
                    if not dv:
                        raise Unsupported("missing argument")
                    r = self.ev(dv[-1], st)
                    a, st = r[0]
                if pt.k == "ref":
                    lv, st = self.as_lv(a, st, p.get("name", "p"), pt.elem)
                    st = st.copy()
                    st.env[p["id"]] = lv
                else:
                    a, st = self.rv(a, st)
                    a = self.conv_val(a, pt)
                    st = st.copy()
                    st.env[p["id"]] = self.alloc(st, p.get("name", "p"), a, pt)
            depth = len(st.locks)
            out = []
            states = [st]
            if fn["kind"] == "CXXConstructorDecl":
                for c in fn.get("inner", []):
                    if c.get("kind") == "CXXCtorInitializer":
                        states = [s2 for s in states for s2 in self.ctor_init(c, this, s)]
            b = body_of(fn)
            for s in states:
                for o, v, s2 in (self.ex(b, s) if b is not None else [("next", None, s)]):
                    if o in ("next", "ret"):
                        s2 = s2.copy()
                        s2.env = saved
                        s2.locks = s2.locks[:depth]
                        out.append((v if v is not None else UNIT, s2))
                    else:
                        raise Unsupported("outcome " + o)
            return out
        finally:
            self.frames.pop()

    def ctor_init(self, c, this, st):
        inner = [x for x in c.get("inner", []) if x]
        if "anyInit" in c:
            f = c["anyInit"].get("name")
            flv = this.sub(("f", f))
            ft = dict(self.fields(self.cur_record(this, st))).get(f)
            n = inner[0] if inner else None
            if n is not None and n.get("kind") == "CXXDefaultInitExpr":
                n = self.field_init(self.cur_record(this, st), f)
            if n is None:
                return [st]
            if ft is not None and ft.k == "ref":
                r = []
                for v, s in self.ev(n, st):
                    v, s = self.rv(v, s)
                    s = s.copy()
                    s.store(flv, v)
                    r.append(s)
                return r
            if ft is not None and ft.k == "mutex":
                return [st]
            out = []
            for v, s in self.ev(n, st):
                v, s = self.rv(v, s)
                s = s.copy()
                s.store(flv, self.conv_val(v, ft) if ft is not None else v)
                out.append(s)
            return out
        if "baseInit" in c or "baseInit" in str(c.keys()):
            n = inner[0]
            while n.get("kind") in ("ExprWithCleanups",):
                n = n["inner"][0]
            return [s for s in self.construct_into(n, this, st)]
        return [st]

    def cur_record(self, this, st):
        v = st.load(this)
        return v.name

    def construct_into(self, n, this, st):
        """Run the constructor of CXXConstructExpr n on the object at `this`."""
        ty = self.ty(n)
        if ty.k != "rec":
            return [st]
        q = ty.name
        cname = q + "::" + q.split("::")[-1]
        ct = n.get("ctorType", {}).get("qualType")
        args = self.ev_list([a for a in n.get("inner", [])], st)
        fn, ftu = None, None
        for t in [self.tu] + [x for x in self.tus if x is not self.tu]:
            cs = t.find(cname)
            for c in cs:
                if c.get("kind") == "CXXConstructorDecl" and (c["type"]["qualType"] == ct or len(params_of(c)) == len(n.get("inner", []))) and \
                        (c["type"]["qualType"] == ct or len([x for x in cs if len(params_of(x)) == len(n.get("inner", []))]) == 1):
                    fn, ftu = c, t
                    break
            if fn is not None:
                break
        out = []
        for vals, s in args:
            if fn is None:
                if not vals:
                    out.append(s)
                    continue
                raise Unsupported("constructor of " + q)
            for _, s2 in self.call(fn, ftu, this, vals, s):
                out.append(s2)
        return out

    def ev_list(self, nodes, st):
        cur = [([], st)]
        for a in nodes:
            nxt = []
            for vals, s in cur:
                for v, s2 in self.ev(a, s):
                    nxt.append((vals + [v], s2))
            cur = nxt
        return cur

    def rvs(self, vals, st):
        out = []
        for v in vals:
            v, st = self.rv(v, st)
            out.append(v)
        return out, st

    # -- expressions --------------------------------------------------------
    def ev(self, n, st):
        k = n.get("kind")
        f = getattr(self, "ev_" + k, None)
        if f is None:
            raise Unsupported("expression %s (%s)" % (k, self.loc(n)))
        return f(n, st)

    def _pass(self, n, st):
        return self.ev([c for c in n["inner"] if c][0], st)

    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_ConstantExpr0 = _pass
    ev_MaterializeTemporaryExpr = ev_SubstNonTypeTemplateParmExpr = _pass

    def ev_ConstantExpr(self, n, st):
        v = n.get("value")
        if v is not None and re.fullmatch(r"-?\d+", str(v)):
            return [(int(v), st)]
        return self._pass(n, st)

    def ev_IntegerLiteral(self, n, st):
        v = int(n["value"])
        self.lits.add(v)
        return [(v, st)]

    def ev_CharacterLiteral(self, n, st):
        return [(int(n["value"]), st)]

    def ev_CXXBoolLiteralExpr(self, n, st):
        return [(bool(n["value"]), st)]

    def ev_CXXNullPtrLiteralExpr(self, n, st):
        return [(NULLP, st)]

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_FloatingLiteral(self, n, st):
        raise Unsupported("floating literal")

    def ev_SourceLocExpr(self, n, st):
        return [(0, st)]

    def ev_StringLiteral(self, n, st):
        s = n["value"]
        bs = cstr(s)
        ty = self.ty(n)
        N = ty.n
        bs = (bs + b"\0" * (N - len(bs))) if N is not None else bs + b"\0"
        st = st.copy()
        a = arr_items(T.CHAR, [b if b < 128 else b - 256 for b in bs], "arr")
        a.atom = ("lit", bs)
        lv = LV("lit:" + repr(bs))
        st.cells[lv.cell] = a
        return [(lv, st)]

    def ev_PredefinedExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def ev_CXXThisExpr(self, n, st):
        return [(Ptr(False, self.frames[-1].this), st)]

    def ev_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        did = d["id"]
        if did in st.env:
            return [(st.env[did], st)]
        k = d.get("kind")
        if k == "EnumConstantDecl":
            return [(self.enum_const(n, d), st)]
        if k in ("VarDecl",):
            g = self.tu.globals.get(did) or self.tu.byid.get(did)
            if g is None:
                g = self.tu.extern_var(d.get("name"))
                if g is not None and not isc_type(g):
                    g = None
            if g is not None:
                cell = "g:%d:%s" % (id(self.tu), did)
                if cell in st.cells:
                    return [(LV(cell), st)]
                init = [c for c in g.get("inner", []) or [] if not c.get("kind", "").endswith("Attr")]
                if init:
                    r = self.ev(init[0], st)
                    v, s = self.rv(r[0][0], r[0][1])
                    s = s.copy()
                    s.cells[cell] = v
                    self.cellty[cell] = self.ty(g)
                    return [(LV(cell), s)]
            raise Unsupported("global variable " + d.get("name", ""))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return [(Fn(False, d.get("name"), d), st)]
        raise Unsupported("reference to " + str(k) + " " + str(d.get("name")))

    def enum_const(self, n, d):
        name = d.get("name")
        tyn = self.rawty(n) or ""
        if "StatusCode" in tyn and "S2ACrypter" not in tyn and name in CODE:
            return CODE[name]
        for tu in [self.tu] + self.tus:
            for q, e in tu.enums.items():
                val = 0
                for c in e.get("inner", []) or []:
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    ini = [x for x in c.get("inner", []) or [] if x.get("kind") == "ConstantExpr"]
                    if ini:
                        val = int(ini[0]["value"])
                    if c["id"] == d["id"]:
                        return val
                    val += 1
            # fall through to the next TU only if not found
            break
        # other TUs or upb enums: match by name
        for tu in [self.tu] + self.tus:
            for q, e in tu.enums.items():
                val = 0
                for c in e.get("inner", []) or []:
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    ini = [x for x in c.get("inner", []) or [] if x.get("kind") == "ConstantExpr"]
                    if ini:
                        val = int(ini[0]["value"])
                    if c.get("name") == name and tyn.split("::")[-1] == q.split("::")[-1]:
                        return val
                    val += 1
        raise Unsupported("enumerator " + str(name))

    def ev_MemberExpr(self, n, st):
        out = []
        name = n.get("name")
        for v, s in self.ev(n["inner"][0], st):
            if n.get("isArrow"):
                v, s = self.rv(v, s)
                for p, s2 in self.force(v, s):
                    lv, s2 = self.deref(p, s2, n)
                    out.append((self.member(lv, name, s2, n), s2))
            else:
                if isinstance(v, (LV,)):
                    out.append((self.member(v, name, s, n), s))
                elif isinstance(v, Moved):
                    out.append((Moved(self.member(v.lv, name, s, n)), s))
                elif isinstance(v, Struct):
                    out.append((v.f[name], s))
                else:
                    raise Unsupported("member %s of %r" % (name, v))
        return out

    def member(self, lv, name, st, n):
        r = lv.sub(("f", name))
        if self.guarded is not None:
            self.guarded(self, st, lv, name, n)
        # reference members hold an LV
        try:
            v = st.load(r)
        except Unsupported:
            raise
        if isinstance(v, LV):
            return v
        return r

    def deref(self, p, st, n):
        """l-value designated by pointer p (obligation: non-null, in bounds)."""
        if isinstance(p, Junk):
            st = self.ob(st, False, "dereference-of-uninitialised-pointer", node=n)
            raise Infeasible()
        if isinstance(p, NullPtr):
            self.ob(st, False, "null-dereference", node=n)
            raise Unsupported("null dereference (%s)" % self.loc(n))
        if isinstance(p, Ptr):
            st = self.ob(st, not_(p.null), "non-null-dereference", node=n)
            if p.off is None:
                return p.lv, st
            a = st.load(p.lv)
            st = self.ob(st, and_(le(0, p.off), lt(p.off, a.n)), "pointer-in-bounds", node=n)
            return p.lv.sub(("i", p.off)), st
        if isinstance(p, UPtr):
            raise Unsupported("deref uptr value")
        if isinstance(p, PV):
            st = self.ob(st, not_(p.null), "non-null-dereference", node=n)
            st = self.ob(st, and_(le(p.lo, p.pos), lt(p.pos, p.hi)), "read-within-piece", node=n)
            st = st.copy()
            c = st.new("piecebyte", p.vec.flat(p.pos))
            return c, st
        raise Unsupported("dereference of %r (%s)" % (p, self.loc(n)))

    # casts ---------------------------------------------------------------
    def ev_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        sub_ = n["inner"][0]
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "BuiltinFnToFnPtr", "UserDefinedConversion",
                  "UncheckedDerivedToBase", "DerivedToBase", "AtomicToNonAtomic", "DerivedToBasePointer"):
            return self.ev(sub_, st)
        if ck == "LValueToRValue":
            out = []
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                out.append((v, s))
            return out
        if ck == "NullToPointer":
            return [(NULLP, s) for v, s in self.ev(sub_, st)]
        if ck == "ToVoid":
            return [(UNIT, s) for v, s in self.ev(sub_, st)]
        if ck == "ArrayToPointerDecay":
            out = []
            for v, s in self.ev(sub_, st):
                if isinstance(v, LV):
                    out.append((Ptr(False, v, 0), s))
                else:
                    lv, s = self.as_lv(v, s)
                    out.append((Ptr(False, lv, 0), s))
            return out
        if ck in ("PointerToBoolean", "IntegralToBoolean"):
            out = []
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                out.append((self.to_bool(v, s), s))
            return out
        if ck == "IntegralCast":
            out = []
            sty, dty = self.ty(sub_), self.ty(n)
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                r, s = self.convert(v, sty, dty, s, n)
                out.append((r, s))
            return out
        if ck == "BitCast":
            out = []
            dty = self.ty(n)
            sty = self.ty(sub_)
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                if isinstance(v, Ptr) and dty.k == "ptr" and v.off is None and dty.elem.k == "int" and sty.k == "ptr" and \
                        sty.elem.k == "int" and sty.elem.n != dty.elem.n:
                    v = Ptr(v.null, v.lv, None, (sty.elem.n, dty.elem.n))
                out.append((v, s))
            return out
        if ck == "IntegralToFloating" or ck == "FloatingToIntegral":
            return self.fcast(n, sub_, ck, st)
        raise Unsupported("cast %s (%s)" % (ck, self.loc(n)))

    def fcast(self, n, sub_, ck, st):
        """Integers converted to double and back: exact below 2^53, otherwise rounding; see models.floor."""
        out = []
        for v, s in self.ev(sub_, st):
            v, s = self.rv(v, s)
            if ck == "IntegralToFloating":
                v = self.to_int(v)
                if conc(v) is not None and abs(conc(v)) <= 2 ** 53 or self.valid(s, and_(le(-2 ** 53, v), le(v, 2 ** 53))):
                    out.append((v, s))
                else:
                    r = fresh_int("fp")
                    s = s.assume(implies(and_(le(-2 ** 53, v), le(v, 2 ** 53)), eq(r, v)))
                    out.append((r, s))
            else:
                lo, hi = self.rng(self.ty(n))
                s = self.ob(s, and_(le(lo, v), le(v, hi)), "float-to-int-in-range", node=n)
                out.append((v, s))
        return out

    ev_CXXStaticCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_CStyleCastExpr = ev_ImplicitCastExpr
    ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr

    # operators -----------------------------------------------------------
    def ev_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub_ = n["inner"][0]
        out = []
        if op == "__extension__":
            return self.ev(sub_, st)
        if op == "&":
            for v, s in self.ev(sub_, st):
                if isinstance(v, LV):
                    # address of an array element is an element pointer
                    if v.path and v.path[-1][0] == "i":
                        out.append((Ptr(False, LV(v.cell, v.path[:-1]), v.path[-1][1]), s))
                    else:
                        out.append((Ptr(False, v), s))
                elif isinstance(v, Fn):
                    out.append((v, s))
                else:
                    raise Unsupported("address of %r" % (v,))
            return out
        if op == "*":
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                for p, s2 in self.force(v, s):
                    if isinstance(p, Fn):
                        out.append((p, s2))
                        continue
                    lv, s2 = self.deref(p, s2, n)
                    out.append((lv, s2))
            return out
        if op == "!":
            for v, s in self.ev(sub_, st):
                v, s = self.rv(v, s)
                out.append((not_(self.to_bool(v, s)), s))
            return out
        if op in ("++", "--"):
            ty = self.ty(sub_)
            for v, s in self.ev(sub_, st):
                old, s = self.rv(v, s)
                new, s = self.arith("+" if op == "++" else "-", old, 1, ty, s, n)
                s = s.copy()
                s.store(v, new)
                out.append((old if n.get("isPostfix") else v, s))
            return out
        ty = self.ty(n)
        for v, s in self.ev(sub_, st):
            v, s = self.rv(v, s)
            v = self.to_int(v)
            if op == "-":
                r, s = self.fit(sub(0, v), ty, s, n, "sub")
            elif op == "+":
                r = v
            elif op == "~":
                r, s = self.fit(sub(-1, v), ty, s, n, "cast")
            else:
                raise Unsupported("unary " + op)
            out.append((r, s))
        return out

    def padd(self, p, d, st, n):
        if isinstance(p, Ptr):
            if p.off is None:
                raise Unsupported("pointer arithmetic on object pointer")
            return Ptr(p.null, p.lv, add(p.off, d), p.view)
        if isinstance(p, PV):
            return PV(p.vec, add(p.pos, d), p.lo, p.hi, p.null)
        if isinstance(p, NullPtr):
            if isinstance(d, int) and d == 0:
                return p
            if self.valid(st, eq(d, 0)):
                return p
        if isinstance(p, PIte):
            return ite_val(p.c, self.padd(p.a, d, st, n), self.padd(p.b, d, st, n))
        raise Unsupported("pointer arithmetic on %r (%s)" % (p, self.loc(n)))

    def arith(self, op, a, b, ty, st, n):
        if isinstance(a, (Ptr, PV, NullPtr, PIte)) and op in ("+", "-") and is_term(b):
            return self.padd(a, b if op == "+" else sub(0, b), st, n), st
        if isinstance(b, (Ptr, PV, NullPtr)) and op == "+" and is_term(a):
            return self.padd(b, a, st, n), st
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and same_lv(a.lv, b.lv):
            return sub(a.off, b.off), st
        if isinstance(a, PV) and isinstance(b, PV) and op == "-" and a.vec.samev(b.vec):
            return sub(a.pos, b.pos), st
        if not (is_term(a) and is_term(b)):
            if isinstance(a, Junk) or isinstance(b, Junk):
                return fresh_int("junk"), st
            raise Unsupported("arithmetic %s on %r, %r (%s)" % (op, a, b, self.loc(n)))
        a, b = self.to_int(a), self.to_int(b)
        if op == "+":
            return self.fit(add(a, b), ty, st, n, "add")
        if op == "-":
            return self.fit(sub(a, b), ty, st, n, "sub")
        if op == "*":
            return self.fit(mul(a, b), ty, st, n, "mul")
        if op in ("/", "%"):
            st = self.ob(st, ne(b, 0), "division-by-nonzero", node=n)
            if not (conc(a) is not None and conc(a) >= 0 or self.valid(st, le(0, a))) or not (conc(b) is not None and conc(b) > 0 or self.valid(st, lt(0, b))):
                raise Unsupported("signed division")
            return (div(a, b) if op == "/" else mod(a, b)), st
        if op in ("<<", ">>"):
            w = ty.bits()
            st = self.ob(st, and_(le(0, b), lt(b, w)), "shift-in-range", node=n)
            cb = conc(b)
            if cb is None:
                out = None
                r = fresh_int("shift")
                if op == ">>":
                    # r = a >> b with symbolic b: exact by cases
                    st = st.assume(and_(*[implies(eq(b, k), eq(r, div(a, 2 ** k))) for k in range(0, w)]))
                    return r, st
                cases = and_(*[implies(eq(b, k), eq(r, mod(mul(a, 2 ** k), 2 ** w) if not ty.signed() else mul(a, 2 ** k))) for k in range(0, w)])
                st = st.assume(cases)
                return r, st
            if op == ">>":
                if ty.signed() and not (conc(a) is not None and conc(a) >= 0) and not self.valid(st, le(0, a)):
                    raise Unsupported("right shift of negative")
                return div(a, 2 ** cb), st
            return self.fit(mul(a, 2 ** cb), ty, st, n, "mul")
        if op == "&":
            ca, cb = conc(a), conc(b)
            if ca is not None and cb is not None:
                return ca & cb, st
            if ca is not None:
                a, b, cb = b, a, ca
            if cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                return mod(a, cb + 1), st
            return self.bitop("band", a, b, st)
        if op == "|":
            ca, cb = conc(a), conc(b)
            if ca is not None and cb is not None:
                return ca | cb, st
            if ca == 0:
                return b, st
            if cb == 0:
                return a, st
            for k in (8, 16, 24, 32, 40, 48, 56):
                if self.valid(st, and_(le(0, b), lt(b, 2 ** k), eq(mod(a, 2 ** k), 0), le(0, a))):
                    return add(a, b), st
                if self.valid(st, and_(le(0, a), lt(a, 2 ** k), eq(mod(b, 2 ** k), 0), le(0, b))):
                    return add(a, b), st
            return self.bitop("bor", a, b, st)
        if op == "^":
            ca, cb = conc(a), conc(b)
            if ca is not None and cb is not None:
                return ca ^ cb, st
            return self.bitop("bxor", a, b, st)
        raise Unsupported("operator " + op)

    def bitop(self, name, a, b, st):
        r = app(uf(name, 2), a, b)
        cond_ = and_(le(0, a), le(0, b))
        if name == "band":
            st = st.assume(implies(cond_, and_(le(0, r), le(r, a), le(r, b))))
        else:
            st = st.assume(implies(cond_, le(0, r)))
            if name == "bor":
                st = st.assume(implies(cond_, and_(le(a, r), le(b, r), le(r, add(a, b)))))
            else:
                st = st.assume(implies(cond_, le(r, add(a, b))))
        return r, st

    def compare(self, op, a, b, st, n):
        if is_term(a) and is_term(b):
            ba = isinstance(a, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a))
            bb = isinstance(b, bool) or (isinstance(b, z3.ExprRef) and z3.is_bool(b))
            if ba != bb or (ba and op not in ("==", "!=")):
                a, b = self.to_int(a), self.to_int(b)
            return {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}[op](a, b)
        if isinstance(a, PIte):
            return ite(a.c, self.compare(op, a.a, b, st, n), self.compare(op, a.b, b, st, n))
        if isinstance(b, PIte):
            return ite(b.c, self.compare(op, a, b.a, st, n), self.compare(op, a, b.b, st, n))
        if isinstance(a, Junk) or isinstance(b, Junk):
            return fresh_bool("junkcmp")
        ptrs = (Ptr, PV, NullPtr, UPtr, Op, Fn)
        if isinstance(a, ptrs) and isinstance(b, ptrs):
            if isinstance(b, NullPtr):
                e = a.null
            elif isinstance(a, NullPtr):
                e = b.null
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and same_lv(a.lv, b.lv):
                if op in ("<", "<=", ">", ">="):
                    return {"<": lt, "<=": le, ">": gt, ">=": ge}[op](a.off, b.off)
                e = True if a.off is None and b.off is None else eq(0 if a.off is None else a.off, 0 if b.off is None else b.off)
            elif isinstance(a, PV) and isinstance(b, PV) and a.vec.samev(b.vec):
                if op in ("<", "<=", ">", ">="):
                    return {"<": lt, "<=": le, ">": gt, ">=": ge}[op](a.pos, b.pos)
                e = eq(a.pos, b.pos)
            elif isinstance(a, Op) and isinstance(b, Op):
                e = or_(and_(a.null, b.null), and_(not_(a.null), not_(b.null), eq(a.id, b.id)))
            else:
                e = fresh_bool("ptrcmp")
            return e if op == "==" else not_(e)
        if isinstance(a, Arr) and isinstance(b, Arr) and op in ("==", "!="):
            e = self.arr_eq(a, b, st)
            return e if op == "==" else not_(e)
        raise Unsupported("compare %r %s %r (%s)" % (a, op, b, self.loc(n)))

    def arr_eq(self, a, b, st):
        if a.atom is not None and b.atom is not None and not isinstance(a.atom, tuple) and not isinstance(b.atom, tuple):
            return eq(a.atom, b.atom)
        if isinstance(conc(a.n), int) and isinstance(conc(b.n), int):
            if conc(a.n) != conc(b.n):
                return False
            return and_(*[eq(a.get(i), b.get(i)) for i in range(conc(a.n))])
        raise Unsupported("array equality")

    def ev_BinaryOperator(self, n, st):
        op = n["opcode"]
        l, r = n["inner"]
        if op in ("&&", "||"):
            out = []
            for v, s in self.ev(l, st):
                v, s = self.rv(v, s)
                for b, s2 in self.branch(s, self.to_bool(v, s)):
                    if (op == "&&") != b:
                        out.append((b, s2))
                    else:
                        for w, s3 in self.ev(r, s2):
                            w, s3 = self.rv(w, s3)
                            out.append((self.to_bool(w, s3), s3))
            return out
        if op == ",":
            return [x for v, s in self.ev(l, st) for x in self.ev(r, s)]
        out = []
        if op == "=":
            for rv_, s in self.ev(r, st):
                rv_, s = self.rv(rv_, s)
                for lv, s2 in self.ev(l, s):
                    if not isinstance(lv, LV):
                        raise Unsupported("assignment to %r" % (lv,))
                    s2 = s2.copy()
                    s2.store(lv, rv_)
                    out.append((lv, s2))
            return out
        for a, s in self.ev(l, st):
            a, s = self.rv(a, s)
            for b, s2 in self.ev(r, s):
                b, s2 = self.rv(b, s2)
                if op in ("==", "!=", "<", "<=", ">", ">="):
                    out.append((self.compare(op, a, b, s2, n), s2))
                else:
                    v, s3 = self.arith(op, a, b, self.ty(n), s2, n)
                    out.append((v, s3))
        return out

    def ev_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        lty = self.ty(l)
        ct = n.get("computeResultType", n.get("type", {}))
        cty = parse(ct.get("desugaredQualType") or ct.get("qualType"), self.tu)
        out = []
        for b, s in self.ev(r, st):
            b, s = self.rv(b, s)
            for lv, s2 in self.ev(l, s):
                a, s2 = self.rv(lv, s2)
                if lty.k == "ptr":
                    v, s3 = self.arith(op, a, b, lty, s2, n)
                else:
                    v, s3 = self.arith(op, a, b, cty, s2, n)
                    if lty != cty:
                        v, s3 = self.convert(v, cty, lty, s3, n)
                s3 = s3.copy()
                s3.store(lv, v)
                out.append((lv, s3))
        return out

    def ev_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        out = []
        isassert = is_assert(b)
        if isassert is not None:
            # ABSL_ASSERT(cond): obligation
            for v, s in self.ev(c, st):
                v, s = self.rv(v, s)
                t = self.to_bool(v, s)
                if t is False or (not isc(t) and z3.is_false(t)):
                    self.ob(s, False, "assert(%s)" % isassert, kind="assert", node=n)
                    continue
                s = self.ob(s, t, "assert(%s)" % isassert, kind="assert", node=n)
                out.append((UNIT, s))
            return out
        for t, s in self.cond(c, st):
            for v, s2 in self.ev(a if t else b, s):
                out.append((v, s2))
        return out

    def ev_ArraySubscriptExpr(self, n, st):
        out = []
        for vals, s in self.ev_list(n["inner"], st):
            (p, i), s = self.rvs(vals, s)
            if is_term(p):
                p, i = i, p
            for q, s2 in self.force(p, s):
                q = self.padd(q, i, s2, n)
                lv, s2 = self.deref(q, s2, n)
                out.append((lv, s2))
        return out

    def ev_InitListExpr(self, n, st):
        ty = self.ty(n)
        inner = n.get("inner", []) or []
        out = []
        if ty.k == "rec":
            if len(inner) == 1 and self.ty(inner[0]) == ty:
                return self.ev(inner[0], st)          # {x} of the same type: x
            fl = self.fields(ty.name)
            for vals, s in self.ev_list(inner, st):
                fs = {}
                for i, (fn, ft) in enumerate(fl):
                    if i < len(vals):
                        if ft.k == "ref":
                            lv, s = self.as_lv(vals[i], s)
                            fs[fn] = lv
                            continue
                        v, s = self.rv(vals[i], s)
                        fs[fn] = self.conv_val(v, ft)
                    else:
                        fs[fn] = self.default(ft, True)
                out.append((Struct(ty.name, fs), s))
            return out
        if ty.k == "arr":
            for vals, s in self.ev_list(inner, st):
                vals, s = self.rvs(vals, s)
                vals = list(vals)
                if isinstance(ty.n, int):
                    while len(vals) < ty.n:
                        vals.append(self.default(ty.elem, True))
                out.append((arr_items(ty.elem, vals, "arr"), s))
            return out
        if ty.isint() or ty.k == "bool" or ty.k == "ptr":
            if inner:
                return self.ev(inner[0], st)
            return [(self.default(ty, True), st)]
        if ty.k in ("vec", "initlist"):
            for vals, s in self.ev_list(inner, st):
                vals, s = self.rvs(vals, s)
                out.append((arr_items(ty.elem, vals), s))
            return out
        if len(inner) == 1:
            return self.ev(inner[0], st)
        raise Unsupported("init list of %r" % (ty,))

    def ev_ImplicitValueInitExpr(self, n, st):
        return [(self.default(self.ty(n), True), st)]

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_CXXStdInitializerListExpr(self, n, st):
        return self._pass(n, st)

    def ev_CXXDefaultArgExpr(self, n, st):
        inner = n.get("inner", []) or []
        if inner:
            return self.ev(inner[0], st)
        ty = self.ty(n)
        return [(("default", ty), st)]

    def ev_CXXDefaultInitExpr(self, n, st):
        inner = n.get("inner", []) or []
        if inner:
            return self.ev(inner[0], st)
        raise Unsupported("default init expr")

    def ev_LambdaExpr(self, n, st):
        return [(Fn(False, "lambda", n, dict(st.env)), st)]

    def ev_CXXNewExpr(self, n, st):
        # new T(args): inner construct expression
        ce = [c for c in n["inner"] if c.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr")]
        out = []
        if not ce:
            raise Unsupported("new expression")
        for v, s in self.ev(ce[0], st):
            v, s = self.rv(v, s)
            ety = self.ty(n).elem
            out.append((UPtr(False, v, ety), s))
        return out

    def ev_CXXDeleteExpr(self, n, st):
        return [(UNIT, st)]

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") == "sizeof":
            t = None
            if "argType" in n:
                t = parse(n["argType"].get("desugaredQualType") or n["argType"]["qualType"], self.tu)
            elif n.get("inner"):
                t = self.ty(n["inner"][0])
            sz = self.sizeof(t)
            return [(sz, st)]
        raise Unsupported("sizeof/alignof")

    def sizeof(self, t):
        if t.k == "int":
            return t.bits() // 8
        if t.k == "bool":
            return 1
        if t.k == "arr" and isinstance(t.n, int):
            return t.n * self.sizeof(t.elem)
        if t.k == "ptr":
            return 8
        raise Unsupported("sizeof %r" % (t,))

    # construction ----------------------------------------------------------
    def ev_CXXConstructExpr(self, n, st):
        from . import models
        ty = self.ty(n)
        args = [a for a in n.get("inner", []) or []]
        args = [a for a in args if not (a.get("kind") == "CXXDefaultArgExpr" and not a.get("inner"))]
        out = []
        if ty.k == "rec":
            h = self.hooks.get(ty.name + "::" + ty.name.split("::")[-1])
            if len(args) == 1:
                aty = self.ty(args[0])
                if aty.k == "rec" and (aty.name == ty.name):
                    for v, s in self.ev(args[0], st):
                        v, s = self.rv(v, s)
                        out.append((v, s))
                    return out
            s0 = st.copy()
            obj = self.alloc(s0, "obj", self.default(ty), ty)
            if h is not None:
                for vals, s in self.ev_list(args, s0):
                    out += h(self, obj, vals, s, n)
                return out
            for s in self.construct_into(n, obj, s0):
                s = s.copy()
                v = s.load(obj)
                out.append((v, s))
            return out
        for vals, s in self.ev_list(args, st):
            out += models.construct(self, ty, vals, s, n, args)
        return out

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    # calls -----------------------------------------------------------------
    def callee_ref(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def ev_CallExpr(self, n, st):
        c = self.callee_ref(n["inner"][0])
        args = n["inner"][1:]
        if c.get("kind") == "DeclRefExpr" and c["referencedDecl"]["id"] not in st.env and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            d = c["referencedDecl"]
            return self.call_named(d, args, None, st, n)
        out = []
        for f, s in self.ev(n["inner"][0], st):
            f, s = self.rv(f, s)
            for vals, s2 in self.ev_list(args, s):
                out += self.call_value(f, vals, s2, n)
        return out

    def call_value(self, f, vals, st, n):
        """Call of a std::function / function pointer value."""
        if not isinstance(f, Fn):
            raise Unsupported("call of %r (%s)" % (f, self.loc(n)))
        st = self.ob(st, not_(f.null), "call-of-non-null-function", node=n)
        h = self.hooks.get("fn:" + str(f.tag))
        if h is None:
            for k in self.hooks:
                if k.startswith("fn*") and str(f.tag).endswith(k[3:]):
                    h = self.hooks[k]
        if h is not None:
            return h(self, None, vals, st, n)
        if f.node is not None and f.tag == "lambda":
            m = lambda_method(f.node)
            saved = st.env
            s = st.copy()
            fr = Frame(self.tu, m, self.frames[-1].this)
            fr.retref = False
            self.frames.append(fr)
            try:
                s.env = dict(f.env)
                for p, a in zip(params_of(m), vals):
                    pt = self.ty(p)
                    if pt.k == "ref":
                        lv, s = self.as_lv(a, s)
                        s = s.copy()
                        s.env[p["id"]] = lv
                    else:
                        a, s = self.rv(a, s)
                        s = s.copy()
                        s.env[p["id"]] = self.alloc(s, p.get("name", "p"), a, pt)
                out = []
                for o, v, s2 in self.ex(body_of(m), s):
                    s2 = s2.copy()
                    s2.env = saved
                    out.append((v if v is not None else UNIT, s2))
                return out
            finally:
                self.frames.pop()
        if f.node is not None:
            d, tu = self.lookup(f.node["id"])
            if d is not None:
                return self.call(d, tu, None, vals, st)
        rty = self.ty(n)
        if rty.k == "void":
            return [(UNIT, st)]
        return [(self.sym(rty, fresh_name("call." + str(f.tag))), st)]

    def call_named(self, d, argnodes, this, st, n):
        name = d.get("name")
        q = self.tu.norm(self.tu.qual.get(d["id"], ""))
        key = q if (q and q.startswith("s2a")) else name
        h = self.hooks.get(key) or self.hooks.get(name)
        if h is None and self.dyn is not None:
            h = self.dyn(name)
        if h is not None:
            out = []
            for vals, s in self.ev_list(argnodes, st):
                self.stats["contracts"].add(key)
                out += h(self, this, vals, s, n)
            return out
        m = self.models.get(name) if not (q and q.startswith("s2a") and name not in ("GetSSLErrors",)) else None
        if m is not None:
            out = []
            for vals, s in self.ev_list(argnodes, st):
                self.stats["modelled"].add(name)
                out += m(self, vals, s, n)
            return out
        fn, tu = self.lookup(d["id"])
        if fn is None:
            raise Unsupported("call of %s (%s)" % (key or name, self.loc(n)))
        out = []
        for vals, s in self.ev_list(argnodes, st):
            out += self.call(fn, tu, this, vals, s)
        return out

    def ev_CXXMemberCallExpr(self, n, st):
        from . import models
        me = self.callee_ref(n["inner"][0])
        args = n["inner"][1:]
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + str(me.get("kind")))
        name = me["name"]
        mid = me.get("referencedMemberDecl")
        out = []
        for ov, s in self.ev(me["inner"][0], st):
            if me.get("isArrow"):
                p, s = self.rv(ov, s)
                for p1, s1 in self.force(p, s):
                    if isinstance(p1, Op):
                        s1 = self.ob(s1, not_(p1.null), "non-null-object", node=n)
                        out += self.member_call(p1, name, mid, args, s1, n)
                        continue
                    lv, s1 = self.deref(p1, s1, n)
                    out += self.member_call(lv, name, mid, args, s1, n)
            else:
                if isinstance(ov, Moved):
                    ov = ov.lv
                if not isinstance(ov, (LV, Op)):
                    ov, s = self.as_lv(ov, s)
                out += self.member_call(ov, name, mid, args, s, n)
        return out

    def member_call(self, lv, name, mid, args, st, n):
        from . import models
        q = self.tu.norm(self.tu.qual.get(mid, ""))
        if q and q.startswith("s2a"):
            h = self.hooks.get(q)
            if h is None and isinstance(lv, LV):
                v = st.load(lv)
                if isinstance(v, Struct):
                    h = self.hooks.get(v.name + "::" + name)
            if h is not None:
                out = []
                for vals, s in self.ev_list(args, st):
                    self.stats["contracts"].add(q)
                    out += h(self, lv, vals, s, n)
                return out
            fn, tu = self.lookup(mid)
            if fn is None:
                raise Unsupported("no body or contract for " + q)
            out = []
            for vals, s in self.ev_list(args, st):
                out += self.call(fn, tu, lv, vals, s)
            return out
        out = []
        for vals, s in self.ev_list(args, st):
            out += models.method(self, lv, name, vals, s, n)
        return out

    def ev_CXXOperatorCallExpr(self, n, st):
        from . import models
        c = self.callee_ref(n["inner"][0])
        d = c.get("referencedDecl", {})
        name = d.get("name")
        args = n["inner"][1:]
        q = self.tu.norm(self.tu.qual.get(d.get("id"), ""))
        if q and q.startswith("s2a") and name != "operator()" or (q and name == "operator()" and self.tu.definition(d.get("id")) is not None and "lambda" not in q and q.startswith("s2a")):
            fn, tu = self.lookup(d["id"])
            if fn is not None:
                out = []
                ism = fn["kind"] == "CXXMethodDecl"
                for vals, s in self.ev_list(args, st):
                    if ism:
                        lv, s = self.as_lv(vals[0], s)
                        out += self.call(fn, tu, lv, vals[1:], s)
                    else:
                        out += self.call(fn, tu, None, vals, s)
                return out
        if name == "operator()":
            out = []
            for f, s in self.ev(args[0], st):
                f, s = self.rv(f, s)
                for vals, s2 in self.ev_list(args[1:], s):
                    out += self.call_value(f, vals, s2, n)
            return out
        out = []
        order = list(args)
        if name == "operator=":
            # right operand first
            for rv_, s in self.ev(args[1], st):
                rv_, s = self.rv(rv_, s)
                for lv, s2 in self.ev(args[0], s):
                    out += models.operator(self, name, [lv, rv_], s2, n)
            return out
        for vals, s in self.ev_list(order, st):
            out += models.operator(self, name, vals, s, n)
        return out


class Infeasible(Exception):
    pass


def simp(x):
    c = conc(x)
    return c if c is not None else x


def is_assert(n):
    """If n is the lambda call of a failing ABSL_ASSERT, its text."""
    x = n
    while x.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
        x = x["inner"][0]
    if x.get("kind") == "CXXOperatorCallExpr":
        t = find_assert(x)
        return t
    if x.get("kind") == "CallExpr":
        return find_assert(x)
    return None


def find_assert(n):
    stack = [n]
    found = False
    text = None
    while stack:
        x = stack.pop()
        if not isinstance(x, dict):
            continue
        if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == "__assert_fail":
            found = True
        if x.get("kind") == "StringLiteral" and text is None:
            text = x.get("value")
        stack.extend(x.get("inner", []) or [])
    if not found:
        return None
    return find_text(n)


def find_text(n):
    best = None
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get("kind") == "StringLiteral":
                v = x.get("value", "").strip('"')
                if not v.startswith("false &&") and "operator()" not in v:
                    best = v
            stack.extend(x.get("inner", []) or [])
    return best or "?"


def lambda_method(n):
    for c in n.get("inner", []):
        if c.get("kind") == "CXXRecordDecl":
            for m in c.get("inner", []):
                if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                    return m
    raise Unsupported("lambda")


def cstr(lit):
    """Bytes of a clang-printed string literal."""
    s = lit
    for p in ("u8", "L", "u", "U"):
        if s.startswith(p + '"'):
            s = s[len(p):]
    s = s[1:-1]
    out = bytearray()
    i = 0
    simple = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
    while i < len(s):
        ch = s[i]
        if ch != "\\":
            out += ch.encode("utf-8")
            i += 1
            continue
        i += 1
        ch = s[i]
        if ch == "x":
            j = i + 1
            while j < len(s) and s[j] in "0123456789abcdefABCDEF":
                j += 1
            out.append(int(s[i + 1:j], 16) & 255)
            i = j
        elif ch in "01234567":
            j = i
            while j < len(s) and j < i + 3 and s[j] in "01234567":
                j += 1
            out.append(int(s[i:j], 8) & 255)
            i = j
        else:
            out.append(simple[ch])
            i += 1
    return bytes(out)
