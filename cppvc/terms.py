"""Terms: python ints/bools where concrete, z3 expressions otherwise."""
import z3

TWO = [2 ** i for i in range(130)]


def isc(x):
    return isinstance(x, (int, bool))


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def conc(x):
    """Concrete python value of a term, or None."""
    if isinstance(x, (int, bool)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


_linc = {}


def _lin(x):
    """Linear decomposition: (const, {ast_id: (coef, expr)}); the result is shared, do not modify"""
    if isinstance(x, int):
        return x, {}
    k = x.get_id()
    r = _linc.get(k)
    if r is None:
        r = _linc[k] = (x, _lin0(x))
    return r[1]


def _lin0(x):
    if z3.is_int_value(x):
        return x.as_long(), {}
    if z3.is_add(x):
        c, m = 0, {}
        for a in x.children():
            c2, m2 = _lin(a)
            c += c2
            for k, (q, e) in m2.items():
                m[k] = (m.get(k, (0, e))[0] + q, e)
        return c, m
    if z3.is_sub(x):
        ch = x.children()
        c, m = _lin(ch[0])
        m = dict(m)
        for a in ch[1:]:
            c2, m2 = _lin(a)
            c -= c2
            for k, (q, e) in m2.items():
                m[k] = (m.get(k, (0, e))[0] - q, e)
        return c, m
    if z3.is_mul(x) and x.num_args() == 2:
        a, b = x.children()
        if z3.is_int_value(a):
            c, m = _lin(b)
            k = a.as_long()
            return c * k, {i: (q * k, e) for i, (q, e) in m.items()}
        if z3.is_int_value(b):
            c, m = _lin(a)
            k = b.as_long()
            return c * k, {i: (q * k, e) for i, (q, e) in m.items()}
    if z3.is_app_of(x, z3.Z3_OP_UMINUS):
        c, m = _lin(x.children()[0])
        return -c, {i: (-q, e) for i, (q, e) in m.items()}
    return 0, {x.get_id(): (1, x)}


def _build(c, m):
    parts = []
    for k in sorted(m):
        q, e = m[k]
        if q == 0:
            continue
        parts.append(e if q == 1 else z3.IntVal(q) * e)
    if not parts:
        return c
    if c != 0:
        parts.append(z3.IntVal(c))
    if len(parts) == 1:
        return parts[0]
    return z3.Sum(parts)


def norm(x):
    if isinstance(x, int):
        return x
    return _build(*_lin(x))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return norm(z(a) + z(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return norm(z(a) - z(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return norm(z(a) * z(b))


def div(a, b):
    """C truncating division of non-negatives only (callers check sign)."""
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return int(a / b) if abs(a) < 2 ** 50 else (a // b if (a >= 0) == (b >= 0) else -((-a) // b))
    return z(a) / z(b)


def mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    return z(a) % z(b)


def _cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return op(a, b)
    d = sub(a, b)
    if isinstance(d, int):
        return op(d, 0)
    return op(z(a), z(b))


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return b if a else not_(b)
        if isinstance(b, bool):
            return a if b else not_(a)
        return a == b
    return _cmp(lambda x, y: x == y, a, b)


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    return _cmp(lambda x, y: x < y, a, b)


def le(a, b):
    return _cmp(lambda x, y: x <= y, a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def not_(a):
    if isinstance(a, (bool, int)):
        return not a
    if z3.is_not(a):
        return a.children()[0]
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = and_(*x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = or_(*x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isc(a) and isc(b) and type(a) == type(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
        return z3.If(c, z(bool(a)) if isc(a) else a, z(bool(b)) if isc(b) else b)
    return z3.If(c, z(a), z(b))


def same(a, b):
    """Structurally identical terms."""
    if a is b:
        return True
    if isc(a) and isc(b):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    if isc(a) or isc(b):
        x, y = (a, b) if isc(a) else (b, a)
        return conc(y) is not None and conc(y) == x
    return a.eq(b)


def min_(a, b):
    return ite(le(a, b), a, b)
