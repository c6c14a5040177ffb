"""Loops: exact unrolling while the condition is concrete, otherwise inferred inductive invariants.

Head states are partitioned by the path the previous iteration took.  Each class gets the affine
hull of its integer leaves (least fixpoint, model guided), Houdini-checked inequalities and
closed forms for arrays written in the loop.  Inference is untrusted: what is finally assumed at a
head is proved for the entry state and for every back edge as recorded obligations.
"""
from fractions import Fraction
import z3
from .cast import Unsupported
from .types import Ty, U8
from .terms import *
from .terms import _lin, _build
from .values import *
from .query import Session

MAXU = 64
DEBUG = False


def dbg(*a):
    if DEBUG:
        print("   [loop]", *a)


# -- leaves ---------------------------------------------------------------
def leaves(v, path, out):
    """Collect leaf paths -> term / content object."""
    if is_term(v):
        out[path] = v
    elif isinstance(v, Struct):
        for k in v.f:
            leaves(v.f[k], path + (("f", k),), out)
    elif isinstance(v, Status):
        out[path + ("code",)] = v.code
    elif isinstance(v, Ptr):
        if not isinstance(v.null, bool):
            out[path + ("null",)] = v.null
        else:
            out[path + ("null",)] = v.null
        if v.off is not None:
            out[path + ("off",)] = v.off
    elif isinstance(v, PV):
        for k in ("pos", "lo", "hi", "null"):
            out[path + (k,)] = getattr(v, k)
    elif isinstance(v, UPtr):
        out[path + ("null",)] = v.null
        if v.val is not None:
            leaves(v.val, path + ("d",), out)
    elif isinstance(v, Variant):
        out[path + ("idx",)] = v.idx
        for i, a in enumerate(v.alts):
            if a is not None:
                leaves(a, path + (("v", i),), out)
    elif isinstance(v, Fn):
        out[path + ("null",)] = v.null
    elif isinstance(v, Op):
        if is_term(v.id):
            out[path + ("id",)] = v.id
        out[path + ("null",)] = v.null
    elif isinstance(v, Arr):
        if v.atom is not None and not isinstance(v.atom, tuple):
            out[path + ("atom",)] = v.atom
        else:
            out[path + ("n",)] = v.n
            if v.items is not None and len(v.items) <= 64 and v.kind == "arr":
                for i, x in enumerate(v.items):
                    leaves(x, path + (("it", i),), out)
            else:
                out[path + ("c",)] = v
            if v.flatg is not None:
                leaves(v.flatg, path + ("flat",), out)
    return out


def shape(v):
    """Structure of a value without its leaves; equal shapes have the same leaf paths."""
    if is_term(v):
        return "t"
    if isinstance(v, Struct):
        return (v.name,) + tuple((k, shape(x)) for k, x in v.f.items())
    if isinstance(v, Ptr):
        return ("ptr", v.lv.cell, str(v.lv.path), v.off is None, str(v.view))
    if isinstance(v, PV):
        return ("pv", v.vec.name, str(v.vec.pre))
    if isinstance(v, UPtr):
        return ("uptr", shape(v.val) if v.val is not None else None)
    if isinstance(v, Variant):
        return ("var",) + tuple(None if a is None else shape(a) for a in v.alts)
    if isinstance(v, Arr):
        if v.atom is not None and not isinstance(v.atom, tuple):
            return "atom"
        it = v.items is not None and len(v.items) <= 64 and v.kind == "arr"
        return ("arr", repr(v.ety), tuple(shape(x) for x in v.items) if it else None, v.flatg is not None)
    if isinstance(v, Fn):
        return ("fn", str(v.tag))
    if isinstance(v, Op):
        return ("op", v.kind, is_term(v.id) or v.id)
    if isinstance(v, Status):
        return "status"
    return type(v).__name__


def same_content(a, b):
    if a is b or a.get is b.get:
        return True
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        return all(same_val(x, y) for x, y in zip(a.items, b.items))
    return False


def same_val(x, y):
    if x is y:
        return True
    if is_term(x) and is_term(y):
        return same(x, y)
    return False


def leaf_same(a, b):
    if isinstance(a, Arr):
        return same_content(a, b)
    return same(a, b)


def rebuild(v, path, sub):
    """Value with every leaf whose path is in sub replaced."""
    if is_term(v):
        return sub.get(path, v)
    if isinstance(v, Struct):
        return Struct(v.name, {k: rebuild(x, path + (("f", k),), sub) for k, x in v.f.items()})
    if isinstance(v, Status):
        p = path + ("code",)
        return Status(sub[p], None) if p in sub else v
    if isinstance(v, Ptr):
        return Ptr(sub.get(path + ("null",), v.null), v.lv, None if v.off is None else sub.get(path + ("off",), v.off), v.view)
    if isinstance(v, PV):
        return PV(v.vec, *[sub.get(path + (k,), getattr(v, k)) for k in ("pos", "lo", "hi", "null")])
    if isinstance(v, UPtr):
        return UPtr(sub.get(path + ("null",), v.null), None if v.val is None else rebuild(v.val, path + ("d",), sub), v.ety)
    if isinstance(v, Variant):
        return Variant(sub.get(path + ("idx",), v.idx), [None if a is None else rebuild(a, path + (("v", i),), sub) for i, a in enumerate(v.alts)])
    if isinstance(v, Fn):
        return Fn(sub.get(path + ("null",), v.null), v.tag, v.node, v.env)
    if isinstance(v, Op):
        return Op(sub.get(path + ("id",), v.id), sub.get(path + ("null",), v.null), v.kind)
    if isinstance(v, Arr):
        if v.atom is not None and not isinstance(v.atom, tuple):
            p = path + ("atom",)
            return atom_str(sub[p]) if p in sub else v
        pn, pc = path + ("n",), path + ("c",)
        if v.items is not None and len(v.items) <= 64 and v.kind == "arr":
            r = arr_items(v.ety, [rebuild(x, path + (("it", i),), sub) for i, x in enumerate(v.items)], v.kind)
            return r
        fl = None
        if v.flatg is not None:
            fl = rebuild(v.flatg, path + ("flat",), sub)
        if pn not in sub and pc not in sub and fl is v.flatg:
            return v
        r = Arr(v.ety, sub.get(pn, v.n), sub.get(pc, v.get), v.kind)
        r.flatg = fl
        if pc not in sub and pn not in sub:
            r.items, r.pieces, r.atom = v.items, v.pieces, v.atom
        return r
    return v


def mapterm(v, f):
    """Apply f to every term in a value."""
    if is_term(v):
        return f(v)
    if isinstance(v, Struct):
        return Struct(v.name, {k: mapterm(x, f) for k, x in v.f.items()})
    if isinstance(v, Status):
        return Status(f(v.code), v.msg)
    if isinstance(v, Ptr):
        lv = LV(v.lv.cell, tuple((p[0], f(p[1])) if p[0] == "i" else p for p in v.lv.path))
        return Ptr(f(v.null), lv, None if v.off is None else f(v.off), v.view)
    if isinstance(v, PV):
        vec = v.vec
        if vec.pre:
            from .engine import Pieces
            vec = Pieces(vec.E, vec.name, tuple(f(p) for p in vec.pre), nullable=vec.nullable)
        return PV(vec, f(v.pos), f(v.lo), f(v.hi), f(v.null))
    if isinstance(v, UPtr):
        return UPtr(f(v.null), None if v.val is None else mapterm(v.val, f), v.ety)
    if isinstance(v, Op):
        return Op(f(v.id) if is_term(v.id) else v.id, f(v.null), v.kind)
    if isinstance(v, Variant):
        return Variant(f(v.idx), [None if a is None else mapterm(a, f) for a in v.alts])
    if isinstance(v, Arr):
        if v.atom is not None and not isinstance(v.atom, tuple):
            return atom_str(f(v.atom))
        g = v.get
        return Arr(v.ety, f(v.n), lambda i: mapterm(g(i), f), v.kind)
    if isinstance(v, PIte):
        return ite_val(f(v.c), mapterm(v.a, f), mapterm(v.b, f))
    return v


def terms_of(v, out):
    mapterm_noarr(v, out)
    return out


def mapterm_noarr(v, out):
    if is_term(v):
        out.append(v)
    elif isinstance(v, Struct):
        for x in v.f.values():
            mapterm_noarr(x, out)
    elif isinstance(v, PV):
        out += [v.pos, v.lo, v.hi, v.null]
    elif isinstance(v, Ptr):
        out += [v.null] + ([v.off] if v.off is not None else [])
    elif isinstance(v, UPtr):
        out.append(v.null)
        if v.val is not None:
            mapterm_noarr(v.val, out)
    elif isinstance(v, Arr):
        if v.atom is not None and not isinstance(v.atom, tuple):
            out.append(v.atom)
        else:
            out.append(v.n)
            x = v.get(z3.Int("terms_of!idx"))
            mapterm_noarr(x, out)
    elif isinstance(v, Op):
        if is_term(v.id):
            out.append(v.id)
        out.append(v.null)
    elif isinstance(v, Status):
        out.append(v.code)
    elif isinstance(v, Variant):
        out.append(v.idx)
        for a in v.alts:
            if a is not None:
                mapterm_noarr(a, out)


def val_eq(a, b):
    """Term stating a == b (only for use as a proof goal: skolemises array indices)."""
    if a is b:
        return True
    if is_term(a) and is_term(b):
        return eq(a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        return and_(*[val_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, PV) and isinstance(b, PV) and a.vec.name == b.vec.name:
        e = and_(*([eq(x, y) for x, y in zip(a.vec.pre, b.vec.pre)] + [eq(getattr(a, k), getattr(b, k)) for k in ("pos", "lo", "hi", "null")]))
        return or_(and_(a.null, b.null), e)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv.cell != b.lv.cell or len(a.lv.path) != len(b.lv.path):
            return and_(a.null, b.null)
        c = [eq(a.null, b.null)]
        for p, q in zip(a.lv.path, b.lv.path):
            if p[0] != q[0]:
                return False
            if len(p) > 1:
                if isinstance(p[1], str):
                    if p[1] != q[1]:
                        return False
                else:
                    c.append(eq(p[1], q[1]))
        if (a.off is None) != (b.off is None):
            return False
        if a.off is not None:
            c.append(eq(a.off, b.off))
        return or_(and_(a.null, b.null), and_(*c))
    if isinstance(a, UPtr) and isinstance(b, UPtr):
        if a.val is None or b.val is None:
            return and_(a.null, b.null)
        return and_(eq(a.null, b.null), or_(a.null, val_eq(a.val, b.val)))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.atom is not None and b.atom is not None and not isinstance(a.atom, tuple) and not isinstance(b.atom, tuple):
            return eq(a.atom, b.atom)
        j = fresh_int("sk")
        return and_(eq(a.n, b.n), implies(and_(le(0, j), lt(j, a.n)), val_eq(a.get(j), b.get(j))))
    if isinstance(a, Op) and isinstance(b, Op):
        return and_(eq(a.id, b.id) if is_term(a.id) and is_term(b.id) else a.id == b.id, eq(a.null, b.null))
    if isinstance(a, Status) and isinstance(b, Status):
        return eq(a.code, b.code)
    if isinstance(a, Variant) and isinstance(b, Variant):
        return and_(eq(a.idx, b.idx), *[implies(eq(a.idx, i), val_eq(x, y)) for i, (x, y) in enumerate(zip(a.alts, b.alts)) if x is not None and y is not None])
    if isinstance(a, NullPtr) and isinstance(b, NullPtr):
        return True
    if isinstance(a, NullPtr) and isinstance(b, (Ptr, PV)):
        return b.null
    if isinstance(b, NullPtr) and isinstance(a, (Ptr, PV)):
        return a.null
    if isinstance(a, Junk) or isinstance(b, Junk):
        return False
    if isinstance(a, Fn) and isinstance(b, Fn):
        return and_(a.tag == b.tag, eq(a.null, b.null))
    if isinstance(a, PIte):
        return ite(a.c, val_eq(a.a, b), val_eq(a.b, b))
    if isinstance(b, PIte):
        return ite(b.c, val_eq(a, b.a), val_eq(a, b.b))
    return False


def isbool(t):
    return isinstance(t, bool) or (isinstance(t, z3.ExprRef) and z3.is_bool(t))


def leaf_type(E, path):
    """Declared type of a leaf, if known."""
    ty = E.cellty.get(path[0])
    for p in path[1:]:
        if ty is None:
            return None
        if p == "n":
            return "len"
        if p in ("off", "pos", "lo", "hi", "null", "code", "idx", "id", "atom", "c", "flat"):
            return p
        if p == "d":
            ty = ty.elem if ty.k == "uptr" else None
        elif p[0] == "f":
            if ty.k == "rec":
                try:
                    ty = dict(E.fields(ty.name)).get(p[1])
                except Unsupported:
                    return None
            else:
                return None
        elif p[0] == "it":
            ty = ty.elem if ty.a else None
        elif p[0] == "v":
            ty = ty.a[p[1]] if ty.k == "variant" else None
    return ty


# -- linear algebra ----------------------------------------------------------
def nullspace(rows, ncol):
    """Integer basis of {x : row . x = 0 for all rows}."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(ncol):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        q = m[r][c]
        m[r] = [x / q for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    free = [c for c in range(ncol) if c not in piv]
    out = []
    for f in free:
        x = [Fraction(0)] * ncol
        x[f] = Fraction(1)
        for i, c in enumerate(piv):
            x[c] = -m[i][f]
        out.append(intvec(x))
    return out


def intvec(x):
    from math import gcd
    l = 1
    for q in x:
        l = l * q.denominator // gcd(l, q.denominator)
    v = [int(q * l) for q in x]
    g = 0
    for q in v:
        g = gcd(g, q)
    if g > 1:
        v = [q // g for q in v]
    return v


def rref(eqs, order):
    """Reduced row echelon of equations over the given column order; returns {pivot col: row}."""
    m = [[Fraction(x) for x in r] for r in eqs]
    r = 0
    piv = {}
    for c in order:
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        q = m[r][c]
        m[r] = [x / q for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv[c] = r
        r += 1
        if r == len(m):
            break
    return {c: m[i] for c, i in piv.items()}


def lincomb(coefs, terms):
    t = 0
    for q, x in zip(coefs, terms):
        if q:
            t = add(t, mul(q, x))
    return t


_rn = {}


def renorm(t):
    """Rebuild a term with normalised linear arithmetic."""
    if isc(t):
        return t
    k = t.get_id()
    if k in _rn:
        return _rn[k][1]
    if not z3.is_app(t) or t.num_args() == 0:
        r = t
    elif z3.is_int_value(t):
        r = t
    else:
        ch = [renorm(c) for c in t.children()]
        if z3.is_add(t):
            r = 0
            for c in ch:
                r = add(r, simp(c))
        elif z3.is_sub(t):
            r = simp(ch[0])
            for c in ch[1:]:
                r = sub(r, simp(c))
        elif z3.is_mul(t) and len(ch) == 2:
            r = mul(simp(ch[0]), simp(ch[1]))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            r = sub(0, simp(ch[0]))
        else:
            r = t.decl()(*[z(c) for c in ch])
        r = z(r)
    _rn[k] = (t, r)
    return r


def simp(x):
    c = conc(x)
    return c if c is not None else x


def subst(t, pairs):
    if isc(t) or not pairs:
        return t
    return simp(renorm(z3.substitute(t, *[(z(a), z(b)) for a, b in pairs])))


def occurs(t, ids, cache=None):
    """Does term t contain a constant whose id is in ids?"""
    if isc(t):
        return False
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


def ufapps(t, names, out, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm in names:
                out.append(x)
        st.extend(x.children())


# -- the loop ---------------------------------------------------------------
def body_run(E, st, cnd, inc, body):
    """One iteration from head state st: (exits, backs)."""
    exits, backs = [], []
    conds = E.cond(cnd, st) if cnd is not None else [(True, st)]
    for b, s in conds:
        if not b:
            exits.append(("next", None, s))
            continue
        for o, v, s2 in E.ex(body, s):
            if o in ("next", "cont"):
                if inc is not None:
                    backs += [s3 for (_, _, s3) in E.ex(inc, s2)]
                else:
                    backs.append(s2)
            elif o == "break":
                exits.append(("next", None, s2))
            else:
                exits.append((o, v, s2))
    return exits, backs


def is_concrete_cond(E, st, cnd, decide=False):
    """None, or the concrete value of the condition at st (without side effects kept)."""
    if cnd is None:
        return None
    E.quiet += 1
    try:
        r = E.ev(cnd, st)
    finally:
        E.quiet -= 1
    if len(r) != 1:
        return None
    v, s = E.rv(*r[0])
    try:
        b = E.to_bool(v, s)
    except Unsupported:
        return None
    c = conc(b)
    if c is None and decide:
        if E.valid(s, b):
            return True
        if E.valid(s, not_(b)):
            return False
    return c


def run_loop(E, n, st, cnd, inc, body):
    E.loopdepth += 1
    try:
        return _run(E, n, st, cnd, inc, body)
    finally:
        E.loopdepth -= 1


def cond_vars(n, out):
    if isinstance(n, dict):
        if n.get("kind") == "DeclRefExpr":
            out.add(n.get("referencedDecl", {}).get("id"))
        for c in n.get("inner", []) or []:
            cond_vars(c, out)
    return out


def stalled(E, cv, a, b):
    """No variable of the loop condition changed from state a to state b."""
    found = False
    for v in cv:
        x, y = a.env.get(v), b.env.get(v)
        if isinstance(x, LV) and isinstance(y, LV):
            found = True
            p, q = a.cells.get(x.cell), b.cells.get(y.cell)
            if p is not q and not (is_term(p) and is_term(q) and same(p, q)):
                return False
    return found


def _run(E, n, st, cnd, inc, body):
    out = []
    cv = cond_vars(cnd, set())
    states = [(st, 0)]
    literal = cnd is None or cnd.get("kind") in ("CXXBoolLiteralExpr", "IntegerLiteral")
    while states:
        s, k = states.pop()
        E.tick()
        c = None if literal else is_concrete_cond(E, s, cnd, E.loopdepth > 1 and k < E.decide)
        if c is False:
            out += [("next", None, s2) for b, s2 in E.cond(cnd, s)]
            continue
        if c is True and k < MAXU:
            ex, ba = body_run(E, s, cnd, inc, body)
            if any(stalled(E, cv, s, b) for b in ba):
                # an iteration that does not change the condition: unrolling does not terminate
                out += Loop(E, n, s, cnd, inc, body).run()
                continue
            out += ex
            states += [(b, k + 1) for b in ba]
            continue
        if c is True:
            raise Unsupported("concrete loop exceeds unrolling limit")
        r = E.loop_rule(E, n, s, cnd, inc, body) if E.loop_rule is not None else None
        if r is not None:
            out += r
            continue
        out += Loop(E, n, s, cnd, inc, body).run()
    return out


class Cls:
    def __init__(self, key):
        self.key = key
        self.shape = None
        self.sample = None       # a back state giving the shape
        self.points = []
        self.eqs = None          # list of coefficient vectors over loop columns (+1)
        self.ineq = []
        self.cols = None
        self.trans = []          # (sig, back state)
        self.exits = []
        self.head = None
        self.sigs = set()


class Loop:
    def __init__(self, E, n, st, cnd, inc, body):
        self.E, self.n, self.cnd, self.inc, self.body = E, n, cnd, inc, body
        self.prefix = st.trace
        self.entry = st.copy()
        self.entry.trace = ()
        self.cells = list(st.cells)
        self.syms = {}           # path -> symbol
        self.M = set()
        self.shapeM = set()
        self.closed = {}         # content path -> closed form
        self.failed = set()
        self.name = "loop at " + E.loc(n)

    # .. states and leaves
    def state_leaves(self, s):
        out = {}
        for c in self.cells:
            v = s.cells.get(c)
            e = self.entry.cells[c]
            if v is e:
                continue
            leaves(v, (c,), out)
        return out

    def leaf(self, s, path):
        """Value of a leaf at a state (walks the path)."""
        v = s.cells[path[0]]
        d = self._lc.get((path[0], id(v)))
        if d is None or d[0] is not v:
            d = (v, leaves(v, (path[0],), {}))
            self._lc[(path[0], id(v))] = d
        return d[1].get(path)

    def note_mods(self, s):
        """Record which leaves of the entry cells differ in back state s."""
        ch = False
        for c in self.cells:
            v, e = s.cells.get(c), self.entry.cells[c]
            if v is e:
                continue
            if c.startswith("lit:") or c.startswith("g:"):
                continue
            ch |= self.note_val(e, v, (c,))
        return ch

    def note_val(self, e, v, path):
        if v is e:
            return False
        ch = False
        le_, lv_ = leaves(e, path, {}), leaves(v, path, {})
        if shape(e) != shape(v):
            if path not in self.shapeM:
                # descend as far as shapes agree
                if isinstance(e, Struct) and isinstance(v, Struct) and e.f.keys() == v.f.keys():
                    for k in e.f:
                        ch |= self.note_val(e.f[k], v.f[k], path + (("f", k),))
                    return ch
                if isinstance(e, UPtr) and isinstance(v, UPtr) and e.val is not None and v.val is not None:
                    if not same(e.null, v.null):
                        ch |= self.addM(path + ("null",))
                    return ch | self.note_val(e.val, v.val, path + ("d",))
                self.shapeM.add(path)
                ch = True
            for p in lv_:
                ch |= self.addM(p)
            return ch
        for p, t in lv_.items():
            if not leaf_same(le_[p], t):
                ch |= self.addM(p)
        return ch

    def addM(self, p):
        if p in self.M:
            return False
        self.M.add(p)
        return True

    def sym_for(self, path, sample):
        if path not in self.syms:
            base = "%s.%s" % (path[0].split("!")[0], ".".join(str(p[1]) if isinstance(p, tuple) else p for p in path[1:]))
            if isinstance(sample, Arr):
                nm = fresh_name("H." + base)
                a = sample
                E = self.E
                if a.ety.k in ("int", "bool", "enum"):
                    g = (lambda ety, nm: lambda i: E.sym_int(ety, nm, (i,)))(a.ety, nm)
                else:
                    g = (lambda ety, nm: lambda i: E.sym(ety, nm, (i,)))(a.ety, nm)
                self.syms[path] = g
            elif isbool(sample):
                self.syms[path] = fresh_bool("h." + base)
            else:
                self.syms[path] = fresh_int("h." + base)
        return self.syms[path]

    def tsyms(self):
        return {p: s for p, s in self.syms.items() if isinstance(s, z3.ExprRef)}

    def build_head(self, c):
        """Head state of class c: entry with the modified leaves havocked."""
        E = self.E
        s = self.entry.copy()
        src = c.sample
        facts = []
        mcells = {p[0] for p in self.M} | {p[0] for p in self.shapeM}
        for cell in self.cells:
            v = src.cells.get(cell)
            if v is self.entry.cells[cell] and cell not in mcells:
                continue
            lv = leaves(v, (cell,), {})
            sub_ = {}
            for p, t in lv.items():
                inM = p in self.M or any(p[:len(q)] == q for q in self.shapeM)
                if inM:
                    if isinstance(t, Arr):
                        sub_[p] = self.content_sym(p, t)
                    else:
                        sub_[p] = self.sym_for(p, t)
                        facts += self.range_facts(p, sub_[p])
            # leaves not in M keep the entry value
            ev = self.entry.cells[cell]
            base = v if any(q[0] == cell for q in self.shapeM) else ev
            if shape(base) != shape(v):
                base = v
            s.cells[cell] = rebuild(base, (cell,), sub_)
        s.add(*facts)
        return s

    def content_sym(self, p, sample):
        if p in self.closed and p not in self.failed:
            cf = self.closed[p]
            return cf.head_get
        return self.sym_for(p, sample)

    def range_facts(self, p, sym):
        E = self.E
        if isbool(sym):
            return []
        t = leaf_type(E, p)
        if t == "len" or p[-1] == "n":
            return [le(0, sym), lt(sym, 2 ** 62)]
        if isinstance(t, Ty) and t.k in ("int", "enum"):
            lo, hi = E.rng(t)
            return [le(lo, sym), le(sym, hi)]
        if p[-1] == "code":
            return [le(0, sym), le(sym, 16)]
        return []

    # .. class bookkeeping
    def sigof(self, s):
        return (s.trace, tuple(shape(s.cells[q[0]]) for q in sorted(self.shapeM, key=str)))

    def at(self, t, s):
        """Term over head symbols evaluated at state s."""
        if isc(t):
            return t
        pairs = []
        for p, sym in self.tsyms().items():
            v = self.leaf(s, p)
            if v is None:
                if occurs(t, {sym.get_id()}):
                    return None
                continue
            if isinstance(sym, z3.ExprRef) and isbool(sym) != isbool(v):
                return None
            if not same(sym, v):
                pairs.append((sym, v))
        return subst(t, pairs)

    def run(self):
        E = self.E
        E.stats["loops"] += 1
        self._lc = {}
        E.quiet += 1
        try:
            self.discover()
            self.infer()
        finally:
            E.quiet -= 1
        return self.final()

    def discover(self):
        """Fix the set of modified leaves and the classes (unconstrained heads)."""
        E = self.E
        self.map = {}
        self.classes = []
        # peel: first iteration from the exact entry
        for rnd in range(12):
            self.map, self.classes = {}, []
            exits, backs = body_run(E, self.entry, self.cnd, self.inc, self.body)
            ch = False
            for b in backs:
                ch |= self.note_mods(b)
            self.entry_exits, self.entry_backs = exits, backs
            for b in backs:
                self.class_of(b)
            work = list(self.classes)
            while work:
                c = work.pop()
                c.head = self.build_head(c)
                c.exits, bs = body_run(E, c.head, self.cnd, self.inc, self.body)
                c.trans = bs
                for b in bs:
                    ch |= self.note_mods(b)
                    n0 = len(self.classes)
                    self.class_of(b)
                    if len(self.classes) > n0:
                        work.append(self.classes[-1])
                if len(self.classes) > 24:
                    raise Unsupported("too many loop paths (%s)" % self.name)
                if ch:
                    break
            if not ch:
                dbg(self.name, "modified:", [pstr(p) for p in self.M], "classes", len(self.classes))
                return
        raise Unsupported("loop leaf discovery does not converge (%s)" % self.name)

    def class_of(self, b):
        k = self.sigof(b)
        c = self.map.get(k)
        if c is None:
            c = Cls(k)
            c.sample = b
            c.sigs = {k}
            self.map[k] = c
            self.classes.append(c)
        return c

    # .. inference
    def columns(self):
        """Column terms over head symbols, plus entry constants."""
        E = self.E
        cols = []
        ts = self.tsyms()
        ids = {s.get_id(): (p, s) for p, s in ts.items()}
        for p, s in ts.items():
            cols.append(ite(s, 1, 0) if isbool(s) else s)
        # offs columns: symbols used as piece indices
        terms = []
        for c in self.classes:
            k0 = len(self.entry.pc)
            for b in c.trans:
                terms += [f for f in b.pc[k0:]]
                for v in self.state_leaves(b).values():
                    if is_term(v) and not isc(v):
                        terms.append(v)
                    elif isinstance(v, Arr):
                        x = v
                        g = 0
                        while x is not None and g < 6:
                            if x.wr is not None:
                                o, l, _ = x.wr
                                terms += [t for t in (o, l) if not isc(t)]
                            x = x.base
                            g += 1
        names = {}
        for nm, V in E._pieces.items():
            names[nm + ".offs"] = V
            names[nm + ".len"] = V
            if V.nullable:
                names[nm + ".null"] = V
        apps, seen = [], set()
        for t in terms:
            ufapps(z(t), names, apps, seen)
        extra, have = [], set()
        consts = {}

        def const(t):
            if isc(t) or conc(t) is not None:
                return
            if occurs(t, ids):
                return
            consts.setdefault(t.get_id(), t)
        for a in apps:
            V = names[a.decl().name()]
            args = a.children()
            idx = args[-1]
            pre = args[:-1]
            c0, m = _lin(idx)
            for q, e in m.values():
                if e.get_id() in ids:
                    if a.decl().name().endswith(".null"):
                        t = app(V.BAD, *pre, e)
                        if t.get_id() not in have and not any(occurs(x, ids) for x in pre):
                            have.add(t.get_id())
                            extra.append(t)
                        continue
                    t = app(V.OFFS, *pre, e)
                    if t.get_id() not in have and not any(occurs(x, ids) for x in pre):
                        have.add(t.get_id())
                        extra.append(t)
                        tot = app(V.OFFS, *pre, V._n(pre))
                        const(tot)
                        ev = self.leaf(self.entry, ids[e.get_id()][0])
                        if ev is not None and not isc(ev):
                            const(app(V.OFFS, *pre, ev))
                        nn = V._n(pre)
                        if not isc(nn):
                            const(nn)
        cols += extra
        for f in getattr(E, "extra_cols", ()) or ():
            for t in f(E, self):
                cols.append(t)
        # entry values of modified leaves, and non-leaf atoms compared in the body
        for p in ts:
            v = self.leaf(self.entry, p)
            if v is not None and not isbool(v) and not isc(v):
                c_, m = _lin(v)
                for q, e in m.values():
                    const(e)
        for t in terms:
            if z3.is_bool(t):
                self.atoms(t, const)
        for t in terms:
            if not z3.is_bool(t):
                c_, m = _lin(t)
                for q, e in m.values():
                    const(e)
        cl = list(consts.values())[:24]
        self.nleaf = len(cols)
        self.consts = cl
        return cols + cl

    def atoms(self, t, const):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_bool(x):
                if z3.is_eq(x) or z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x):
                    for a in x.children():
                        if a.sort() == ISORT:
                            c_, m = _lin(a)
                            for q, e in m.values():
                                if z3.is_app(e) and (e.num_args() == 0 or e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                                    const(e)
                else:
                    st.extend(x.children())

    def col_at(self, s):
        r = []
        for t in self.cols:
            r.append(self.at(t, s))
        return r

    def class_cols(self, c):
        """Indices of the columns that exist in class c."""
        ts = self.tsyms()
        missing = set()
        for p, s in ts.items():
            if self.leaf(c.sample, p) is None:
                missing.add(s.get_id())
        return [i for i, t in enumerate(self.cols) if not missing or not occurs(t, missing)]

    def eq_terms(self, c, vals):
        """Equations of class c over the column values vals."""
        if c.eqs is None:
            return [False]
        out = []
        for e in c.eqs:
            t = e[-1]
            ok = True
            for i, q in zip(c.ci, e):
                if q:
                    if vals[i] is None:
                        ok = False
                        break
                    t = add(t, mul(q, vals[i]))
            out.append(eq(t, 0) if ok else False)
        return out

    def join(self, c, pc, b):
        """Extend the hull of c with the columns of back state b reachable under pc."""
        E = self.E
        vals = self.col_at(b)
        if any(vals[i] is None for i in c.ci):
            raise Unsupported("loop leaf shape (%s)" % self.name)
        ch = False
        for _ in range(len(self.cols) + 3):
            if c.eqs is None:
                goal = None
            else:
                es = self.eq_terms(c, vals)
                goal = and_(*es)
                if goal is True:
                    return ch
            fs = list(pc) + ([not_(goal)] if goal is not None else [])
            # force definitions of all columns into the query so that the model covers them
            ks = []
            for i in c.ci:
                if not isc(vals[i]):
                    k = z3.Int("col!%d" % i)
                    ks.append(k == vals[i])
            r, m = E.pr.solve(fs + ks, 3000)
            if r == "unsat":
                return ch
            if r == "unknown":
                raise Unsupported("solver gave up in loop inference (%s)" % self.name)
            pt = []
            for i in c.ci:
                v = vals[i]
                if not isc(v):
                    v = m.eval(z3.Int("col!%d" % i), model_completion=True).as_long()
                pt.append(v)
            c.points.append(pt + [1])
            # an equation with huge coefficients only interpolates the sampled points
            c.eqs = [e for e in nullspace(c.points, len(c.ci) + 1) if all(abs(q) < 2 ** 80 for q in e)]
            ch = True
        raise Unsupported("affine join does not converge (%s)" % self.name)

    def hulls(self):
        self.cols = self.columns()
        for c in self.classes:
            c.points, c.eqs = [], None
            c.ci = self.class_cols(c)
        dirty = []
        for b in self.entry_backs:
            c = self.target(b)
            if self.join(c, b.pc, b) and c not in dirty:
                dirty.append(c)
        if self.absorbed is not None:
            c = self.absorbed
            if self.join(c, self.entry.pc, self.entry) and c not in dirty:
                dirty.append(c)
        g = 0
        while dirty:
            g += 1
            if g > 200:
                raise Unsupported("hull fixpoint (%s)" % self.name)
            c = dirty.pop(0)
            hv = self.cols
            es = self.eq_terms(c, hv)
            for b in c.trans:
                t = self.target(b)
                if self.join(t, list(b.pc) + es, b) and t not in dirty:
                    dirty.append(t)

    def target(self, b):
        c = self.map.get(self.sigof(b))
        if c is None:
            raise Unsupported("loop path without class (%s)" % self.name)
        return c

    def prune(self):
        dead = [c for c in self.classes if c.eqs is None]
        for c in dead:
            self.classes.remove(c)
        for k in [k for k, c in self.map.items() if c in dead]:
            pass

    def subspace(self, c, d):
        """Is every point of c in the hull of d (same columns)?"""
        if c.ci != d.ci:
            return False
        for p in c.points:
            for e in d.eqs:
                if sum(a * b for a, b in zip(p, e)) != 0:
                    return False
        return True

    def merge(self):
        ch = True
        while ch:
            ch = False
            for c in list(self.classes):
                for d in list(self.classes):
                    if c is d or c.key[1] != d.key[1]:
                        continue
                    if self.subspace(c, d):
                        d.sigs |= c.sigs
                        for k, x in list(self.map.items()):
                            if x is c:
                                self.map[k] = d
                        self.classes.remove(c)
                        ch = True
                        break
                if ch:
                    break

    def try_absorb_entry(self):
        """Let a class cover the zero-iteration entry as well, if its hull contains it."""
        E = self.E
        self.absorbed = None
        if self.no_absorb:
            return
        for c in self.classes:
            if self.sigof_shape(self.entry) != c.key[1]:
                continue
            vals = self.col_at(self.entry)
            if any(vals[i] is None for i in c.ci):
                continue
            if all(E.pr.valid(self.entry.pc, e) for e in self.eq_terms(c, vals)):
                self.absorbed = c
                return

    def sigof_shape(self, s):
        return tuple(shape(s.cells[q[0]]) for q in sorted(self.shapeM, key=str))

    def candidates(self):
        E = self.E
        ints = [i for i in range(len(self.cols))]
        ent = []
        for i, (p, s) in enumerate(self.tsyms().items()):
            v = self.leaf(self.entry, p)
            if v is None or isbool(s) or isbool(v):
                continue
            c_, m = _lin(v)
            if (m and c_ != 0) or len(m) > 1:
                ent += [(i, le(s, v)), (i, le(v, s))]
        lits = {0, 1}
        for l in E.lits:
            if 0 <= l <= 70000:
                lits.add(l)
        lits = sorted(lits)[:24]
        for c in self.classes:
            old = c.ineq
            c.ineq = []
            ci = {i: k for k, i in enumerate(c.ci)}
            for i in c.ci:
                if i < self.nleaf:
                    for q in lits:
                        if all(p[ci[i]] >= q for p in c.points):
                            c.ineq.append(le(q, self.cols[i]))
                        if all(p[ci[i]] <= q for p in c.points):
                            c.ineq.append(le(self.cols[i], q))
                for j in c.ci:
                    if i == j or (i >= self.nleaf and j >= self.nleaf):
                        continue
                    if all(p[ci[i]] <= p[ci[j]] for p in c.points):
                        c.ineq.append(le(self.cols[i], self.cols[j]))
                    if i >= self.nleaf or j >= self.nleaf:
                        continue
            c.ineq += [t for i, t in ent if i in ci]
            if E.inv_extra is not None:
                for t in E.inv_extra(E, c.head, self) or ():
                    c.ineq.append(t)
            seen, l = set(), []
            for t in old + c.ineq:
                if t is True or z(t).get_id() in seen:
                    continue
                seen.add(z(t).get_id())
                l.append(t)
            c.ineq = l

    def houdini(self):
        """Drop candidates that are not established or not preserved."""
        E = self.E
        edges = [(None, b, self.target(b)) for b in self.entry_backs if self.target(b) in self.classes]
        if self.absorbed is not None:
            edges.append((None, self.entry, self.absorbed))
        for c in self.classes:
            edges += [(c, b, self.target(b)) for b in c.trans if self.target(b) in self.classes]
        ch = True
        guard = 0
        clean = {}
        ver = {id(c): 0 for c in self.classes}
        while ch:
            ch = False
            guard += 1
            if guard > 400:
                raise Unsupported("houdini (%s)" % self.name)
            for ei, (c, b, d) in enumerate(edges):
                if not d.ineq:
                    continue
                if clean.get(ei) == ((ver[id(c)] if c else 0), ver[id(d)]):
                    continue
                pc = list(b.pc)
                vc = ver[id(c)] if c else 0
                if c is not None:
                    pc += self.eq_terms(c, self.cols) + c.ineq
                while d.ineq:
                    at = [self.at(t, b) for t in d.ineq]
                    bad = [k for k, t in enumerate(at) if t is None or t is False]
                    if bad:
                        d.ineq = [t for k, t in enumerate(d.ineq) if k not in bad]
                        ver[id(d)] += 1
                        ch = True
                        continue
                    todo = [(k, t) for k, t in enumerate(at) if t is not True]
                    if not todo:
                        break
                    ks = [z3.Bool("hc!%d" % k) for k, t in todo]
                    r, m = E.pr.solve(pc + [kb == t for kb, (k, t) in zip(ks, todo)] + [z3.Not(z3.And(ks)) if len(ks) > 1 else z3.Not(ks[0])], 4000)
                    if r == "unsat":
                        break
                    if r == "unknown":
                        # test one at a time
                        drop = [k for k, t in todo if not E.pr.valid(pc, t, 1000)]
                    else:
                        drop = [k for kb, (k, t) in zip(ks, todo) if not z3.is_true(m.eval(kb, model_completion=True))]
                    if not drop:
                        break
                    d.ineq = [t for k, t in enumerate(d.ineq) if k not in drop]
                    ver[id(d)] += 1
                    ch = True
                clean[ei] = (vc, ver[id(d)])

    def slim(self):
        """Drop inequalities implied by the equations and the other inequalities."""
        E = self.E
        for c in self.classes:
            base = list(self.build_head(c).pc) + self.eq_terms(c, self.cols)
            keep = list(c.ineq)
            ses = Session(E.pr, base, keep, 500)
            # cheap filter: implied by equations and ranges alone
            keep = [t for t in keep if not ses.entails(t)]
            i = 0
            while i < len(keep) and len(keep) > 6:
                rest = keep[:i] + keep[i + 1:]
                if ses.entails(keep[i], rest):
                    keep = rest
                else:
                    i += 1
            c.ineq = keep

    def with_inv(self, c):
        s = self.build_head(c)
        s.add(*self.eq_terms(c, self.cols))
        s.add(*c.ineq)
        return s

    def rerun(self):
        """Execute the body from the constrained heads."""
        E = self.E
        for c in self.classes:
            c.head = self.with_inv(c)
            c.exits, c.trans = body_run(E, c.head, self.cnd, self.inc, self.body)
            for b in c.trans:
                self.note_new(b)

    def note_new(self, b):
        if self.sigof(b) not in self.map:
            raise Unsupported("new loop path (%s)" % self.name)

    def infer(self):
        E = self.E
        self.no_absorb = False
        self.absorbed = None
        if not self.classes:
            return
        self.hulls()
        self.prune()
        self.merge()
        self.try_absorb_entry()
        self.candidates()
        self.houdini()
        self.slim()
        for rnd in range(3):
            self.show("round %d" % rnd)
            self.rerun()
            old = [sorted(map(tuple, c.eqs)) for c in self.classes]
            self.hulls()
            dead = [c for c in self.classes if c.eqs is None]
            for c in dead:
                self.classes.remove(c)
            self.candidates()
            self.houdini()
            self.slim()
            if [sorted(map(tuple, c.eqs)) for c in self.classes] == old:
                break
        self.rerun()
        self.contents()

    def invkey(self):
        return [(sorted(map(tuple, c.eqs)), sorted(str(t) for t in c.ineq)) for c in self.classes]

    def show(self, what):
        if not DEBUG:
            return
        dbg(self.name, what, "absorbed" if self.absorbed else "")
        for c in self.classes:
            dbg("  class", [("T" if b else "F") for _, b in c.key[0]], "sigs", len(c.sigs))
            for e in c.eqs:
                dbg("     ", lincomb(e[:-1], [self.cols[i] for i in c.ci]), "+", e[-1], "= 0")
            for t in c.ineq:
                dbg("      ", t)

    # .. array contents
    def content_paths(self):
        ps = set()
        for c in self.classes:
            for p, t in self.state_leaves(c.head).items():
                if isinstance(t, Arr) and p in self.M:
                    ps.add(p)
        return sorted(ps, key=str)

    def contents(self):
        E = self.E
        ps = self.content_paths()
        if not ps:
            return
        fixed = self.generalise(ps) if E.gen_ufs else {}
        if E.loop_content is not None:
            fixed.update(self.given(ps))
        for attempt in range(4):
            self.closed = dict(fixed)
            for p in ps:
                if p in self.failed or p in fixed:
                    continue
                cf = self.guess(p)
                if cf is None:
                    dbg("no closed form for", pstr(p))
                    self.failed.add(p)
                else:
                    self.closed[p] = cf
            self.rerun()
            bad = self.check_contents()
            if not bad:
                break
            dbg("closed forms rejected:", [pstr(p) for p in bad])
            if self.absorbed is not None and not self.no_absorb:
                # maybe only the entry disagrees: keep the entry separate
                self.no_absorb = True
                self.absorbed = None
                self.closed = dict(fixed)
                self.rerun()
                continue
            self.failed |= set(bad)
            for p in bad:
                fixed.pop(p, None)
        for p in self.failed:
            self.closed.pop(p, None)
        if self.failed:
            self.rerun()
            E.stats.setdefault("content_fallback", []).append("%s: %s %s" % (E.func, self.name, [pstr(p) for p in self.failed]))

    def given(self, ps):
        """Content invariants supplied by the contract: content(j) = G(j, pos) for some integer leaf pos."""
        E = self.E
        best = {}
        # iterator positions first
        order = sorted(self.tsyms().items(), key=lambda x: x[0][-1] not in ("off", "pos"))
        for alt, (q, sym) in [(a, x) for a in range(E.loop_alts) for x in order]:
            if isbool(sym):
                continue
            cand = {}
            for p in ps:
                ent = self.leafarr(self.entry, p)
                G = E.loop_content(self, p, ent, alt) if ent is not None else None
                if G is not None:
                    cand[p] = Given(self, p, G, sym)
            if not cand:
                return {}
            while cand:
                self.closed = dict(cand)
                self.rerun()
                bad = self.check_contents()
                if not bad:
                    break
                for p in bad:
                    cand.pop(p, None)
            if len(cand) > len(best):
                best = cand
            if len(best) == len(ps):
                break
        self.closed = dict(best)
        self.rerun()
        return best

    def generalise(self, ps):
        """Snapshots whose first-iteration content is a ghost function of a constant: the constant
        becomes a leaf that has this value there."""
        E = self.E
        fixed = {}
        for p in ps:
            for b in self.entry_backs:
                d = self.target(b)
                bv, ev = self.leafarr(b, p), self.leafarr(self.entry, p)
                if d not in self.classes or bv is None or ev is None or bv.wr is None:
                    continue
                off, ln, src = bv.wr
                ts = self.tsyms()
                if not isc(off) or not isc(ln):
                    continue
                J = z3.Int("J!")
                try:
                    val = src(sub(J, off))
                except Unsupported:
                    continue
                if not is_term(val) or isc(val):
                    continue
                apps = []
                ufapps(val, E.gen_ufs, apps, set())
                cs = {conc(x) for a in apps for x in a.children() if conc(x) is not None}
                for k in cs:
                    for q, sym in ts.items():
                        if isbool(sym):
                            continue
                        v = self.leaf(b, q)
                        if v is None or not isc(v):
                            continue
                        G = z3.substitute(val, (z3.IntVal(k), z(add(sym, k - v))))
                        cf = Snap(self, p, off, ln, G, J, ev)
                        self.closed = dict(fixed)
                        self.closed[p] = cf
                        self.rerun()
                        if p not in self.check_contents():
                            fixed[p] = cf
                            break
                    if p in fixed:
                        break
                if p in fixed:
                    break
        self.closed = dict(fixed)
        self.rerun()
        return fixed

    def guess(self, p):
        for c in self.classes:
            for b in c.trans:
                hv, bv = self.leafarr(c.head, p), self.leafarr(b, p)
                if hv is None or bv is None or same_content(hv, bv):
                    continue
                ws = []
                x = bv
                while x is not None and not (x is hv or x.get is hv.get):
                    if x.wr is not None:
                        ws.append(x.wr)
                    x = x.base
                if x is None or len(ws) != 1:
                    dbg("writes in", pstr(p), len(ws), x is None)
                    continue
                cf = self.closed_form(p, c, b, ws[0])
                if cf is not None:
                    return cf
        return None

    def leafarr(self, s, p):
        v = self.leaf(s, p)
        return v if isinstance(v, Arr) else None

    def closed_form(self, p, c, b, w):
        E = self.E
        off, ln, src = w
        ts = self.tsyms()
        ids = {s.get_id() for s in ts.values()}
        J = z3.Int("J!")
        ent = self.leafarr(self.entry, p)
        if ent is None:
            return None
        # order columns: those not occurring in off first (to be eliminated)
        offids = set()
        for i in c.ci:
            if not isc(self.cols[i]) and not isc(off) and occurs(off, {self.cols[i].get_id()}):
                offids.add(i)
        cols = c.ci
        o1 = [k for k, i in enumerate(cols) if i < self.nleaf and i not in offids]
        o2 = [k for k, i in enumerate(cols) if i in offids]
        o3 = [k for k, i in enumerate(cols) if i >= self.nleaf and i not in offids]
        moving = not isc(off) and occurs(off, ids)
        for order in ((o1 + o2 + o3, o2 + o1 + o3) if moving else (o1 + o2 + o3,)):
            piv = rref(c.eqs, order) if c.eqs else {}
            pairs = []
            for k, row in piv.items():
                if any(x.denominator != 1 for x in row):
                    continue
                t = -int(row[-1])
                for k2, i2 in enumerate(cols):
                    if k2 != k and row[k2] != 0:
                        t = add(t, mul(-int(row[k2]), self.cols[i2]))
                if not isc(self.cols[cols[k]]):
                    pairs.append((self.cols[cols[k]], t))
            red = (lambda pairs: lambda t: subst(subst(t, pairs), pairs))(pairs)
            if moving:
                g = self.growth(p, c, b, w, red, ts, ids, J, ent)
                if g is not None:
                    return g
        if moving:
            return None
        # snapshot: fixed region rewritten every iteration
        inv = []
        for q, s in ts.items():
            v = self.leaf(b, q)
            if v is None or isbool(s):
                continue
            d = sub(v, s)
            if isc(d):
                if d != 0:
                    inv.append((s, sub(s, d)))
            else:
                d = red(d)
                if isc(d) and d != 0:
                    inv.append((s, sub(s, d)))
        try:
            val = src(sub(J, off))
        except Unsupported:
            return None
        # only if the content depends on head symbols through the shifted ones
        G = mapterm(val, lambda t: subst(t, inv))
        shifted = {s.get_id() for s, _ in inv}
        return Snap(self, p, off, ln, G, J, ent)

    def growth(self, p, c, b, w, red, ts, ids, J, ent):
        E = self.E
        off, ln, src = w
        try:
            val = src(sub(J, off))
        except Unsupported:
            return None
        inner = body_symbols(c.head, b)
        if inner:
            val = mapterm(val, lambda t: subst(t, inner))
        F = mapterm(val, red)
        roff = red(off)
        left = [s for s in ts.values() if any(occurs(t, {s.get_id()}) for t in terms_of(F, []))]
        if left:
            c0, m = _lin(roff) if not isc(roff) else (roff, {})
            lead = [(q, e) for q, e in m.values() if e.get_id() in ids]
            rest = add(c0, lincomb([q for q, e in m.values() if e.get_id() not in ids], [e for q, e in m.values() if e.get_id() not in ids]))
            if len(lead) == 1 and lead[0][0] > 0 and len(left) == 1 and left[0].eq(lead[0][1]):
                q, e = lead[0]
                if not E.pr.valid(list(c.head.pc) + list(b.pc), le(ln, q)):
                    return None
                k = div(sub(J, rest), q) if q != 1 else sub(J, rest)
                F = mapterm(F, lambda t: subst(t, [(e, k)]))
            else:
                dbg("cannot eliminate", left, "from", F, "off", roff)
                return None
        lo = self.at(off, self.entry)
        if lo is None:
            return None
        return Growth(self, p, off, lo, F, J, ent)

    def check_contents(self):
        E = self.E
        bad = []
        for p, cf in self.closed.items():
            ok = True
            for src, b, d in self.edges():
                g = cf.goal(b, d)
                if g is None or not E.pr.valid(b.pc, g, 4000):
                    dbg("content", pstr(p), "not preserved", "from entry" if src is None else "")
                    ok = False
                    break
            if not ok:
                bad.append(p)
        return bad

    def edges(self):
        for b in self.entry_backs:
            d = self.target(b)
            if d in self.classes:
                yield None, b, d
        if self.absorbed is not None:
            yield None, self.entry, self.absorbed
        for c in self.classes:
            for b in c.trans:
                d = self.target(b)
                if d in self.classes:
                    yield c, b, d

    # .. final, recorded pass
    def final(self):
        E = self.E
        out = []
        absorbed = self.absorbed if self.classes else None
        # entry
        if absorbed is None:
            ex, backs = body_run(E, self.entry, self.cnd, self.inc, self.body)
            out += ex
        else:
            backs = []
            self.check_edge(self.entry, absorbed)
        pend = [(None, b) for b in backs]
        done = set()
        for c in self.classes:
            c.head = self.with_inv(c)
            ex, bs = body_run(E, c.head, self.cnd, self.inc, self.body)
            out += ex
            pend += [(c, b) for b in bs]
        for c, b in pend:
            d = self.target(b)
            if d not in self.classes:
                # the class was found unreachable during inference
                E.ob(b, False, "loop-path-unreachable (%s)" % self.name, kind="invariant", node=self.n)
                continue
            self.check_edge(b, d)
        E.stats["invariants"] += sum(len(c.eqs) + len(c.ineq) for c in self.classes) + len(self.closed)
        res = []
        for o, v, s in out:
            s = s.copy()
            s.trace = self.prefix
            res.append((o, v, s))
        return res

    def check_edge(self, b, d):
        E = self.E
        vals = self.col_at(b)
        inv = and_(*(self.eq_terms(d, vals) + [x if x is not None else False for x in (self.at(t, b) for t in d.ineq)]))
        E.ob(b, inv, "loop-invariant (%s)" % self.name, kind="invariant", node=self.n)
        for p, cf in self.closed.items():
            if p in self.failed:
                continue
            g = cf.goal(b, d)
            E.ob(b, g if g is not None else False, "loop-content %s (%s)" % (pstr(p), self.name), kind="invariant", node=self.n)
        # leaves outside M must be unchanged
        for c in self.cells:
            v, e = b.cells.get(c), self.entry.cells[c]
            if v is not e and not c.startswith(("lit:", "g:")):
                for p, t in leaves(v, (c,), {}).items():
                    if p in self.M or any(p[:len(q)] == q for q in self.shapeM):
                        continue
                    o = leaves(e, (c,), {}).get(p)
                    if o is None or not leaf_same(o, t):
                        raise Unsupported("leaf %s modified in final pass (%s)" % (pstr(p), self.name))


def consts_in(t, out, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
        elif z3.is_app(x):
            todo.extend(x.children())


def body_symbols(head, b):
    """Symbols created in the body (heads of inner loops, ...) that the path condition determines: [(symbol, term)]."""
    keep, seen = {}, set()
    for f in head.pc:
        if is_term(f):
            consts_in(f, keep, seen)
    pairs = []
    old = {f.get_id() for f in head.pc if is_term(f)}
    todo = [f for f in b.pc if is_term(f) and f.get_id() not in old]
    flat = []
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(f.children())
        elif z3.is_eq(f) and z3.is_int(f.arg(0)):
            flat.append(f)
    progress = True
    while progress and flat:
        progress = False
        for f in list(flat):
            lhs, rhs = subst(f.arg(0), pairs), subst(f.arg(1), pairs)
            d = sub(lhs, rhs)
            if isc(d):
                flat.remove(f)
                continue
            c0, m = _lin(d)
            for q, e in m.values():
                if abs(q) != 1 or not z3.is_const(e) or e.decl().kind() != z3.Z3_OP_UNINTERPRETED or e.get_id() in keep:
                    continue
                others = [(q2, e2) for q2, e2 in m.values() if e2.get_id() != e.get_id()]
                if any(occurs(e2, {e.get_id()}) for _, e2 in others):
                    continue
                t = mul(-q, add(c0, lincomb([q2 for q2, _ in others], [e2 for _, e2 in others])))
                pairs = [(x, subst(y, [(e, t)])) for x, y in pairs] + [(e, t)]
                flat.remove(f)
                progress = True
                break
    return pairs


class Growth:
    """content(j) = F(j) for lo <= j < off, entry content elsewhere."""

    def __init__(self, L, p, off, lo, F, J, ent):
        self.L, self.p, self.off, self.lo, self.F, self.J, self.ent = L, p, off, lo, F, J, ent

    def F_at(self, j):
        return mapterm(self.F, lambda t: subst(t, [(self.J, j)]))

    def get_at(self, hi):
        lo, eg = self.lo, self.ent.get

        def get(j):
            return ite_val(and_(le(lo, j), lt(j, hi)), self.F_at(j), eg(j))
        return get

    @property
    def head_get(self):
        if not hasattr(self, "_hg"):
            self._hg = self.get_at(self.off)
        return self._hg

    def goal(self, b, d):
        a = self.L.leafarr(b, self.p)
        hi = self.L.at(self.off, b)
        if a is None or hi is None:
            return None
        j = fresh_int("skj")
        g = self.get_at(hi)
        return and_(le(self.lo, hi), implies(and_(le(0, j), lt(j, a.n)), val_eq(a.get(j), g(j))))


class Given:
    """content(j) = G(j, pos), from the contract."""

    def __init__(self, L, p, G, pos):
        self.L, self.p, self.G, self.pos = L, p, G, pos

    @property
    def head_get(self):
        if not hasattr(self, "_hg"):
            self._hg = lambda j: self.G(j, self.pos)
        return self._hg

    def goal(self, b, d):
        a = self.L.leafarr(b, self.p)
        pos = self.L.at(self.pos, b)
        if a is None or pos is None:
            return None
        j = fresh_int("skj")
        g = val_eq(a.get(j), self.G(j, pos))
        return g if a.kind == "map" else implies(and_(le(0, j), lt(j, a.n)), g)


class Snap:
    """content(j) = G(j, leaves) for off <= j < off+ln, entry content elsewhere."""

    def __init__(self, L, p, off, ln, G, J, ent):
        self.L, self.p, self.off, self.ln, self.G, self.J, self.ent = L, p, off, ln, G, J, ent

    def get_at(self, s):
        lo, hi, eg = self.off, add(self.off, self.ln), self.ent.get
        L = self.L

        def get(j):
            v = mapterm(self.G, lambda t: subst(t, [(self.J, j)]))
            if s is not None:
                v = mapterm(v, lambda t: L.at(t, s))
            return ite_val(and_(le(lo, j), lt(j, hi)), v, eg(j))
        return get

    @property
    def head_get(self):
        if not hasattr(self, "_hg"):
            self._hg = self.get_at(None)
        return self._hg

    def goal(self, b, d):
        a = self.L.leafarr(b, self.p)
        if a is None:
            return None
        j = fresh_int("skj")
        g = self.get_at(b)
        return implies(and_(le(0, j), lt(j, a.n)), val_eq(a.get(j), g(j)))


def pstr(p):
    return p[0].split("!")[0] + "".join("." + (str(x[1]) if isinstance(x, tuple) else str(x)) for x in p[1:])
