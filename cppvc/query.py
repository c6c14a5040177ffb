"""Quantifier-free queries with trigger-instantiated axioms."""
import os, time
import z3
from .terms import *
from .values import uf, app, fresh_name, ISORT, BSORT

STATS = {"queries": 0, "time": 0.0, "unknown": 0}


class Axioms:
    def __init__(self):
        self.ax = {}      # symbol name -> [fn(args) -> term]
        self.pair = {}    # symbol name -> [fn(args1, args2) -> term]
        self.cache = {}   # (fn id, expr id) -> (expr, term)
        self.appc = {}
        self.clos = {}

    def on(self, name, fn):
        self.ax.setdefault(name, []).append(fn)

    def on_pair(self, name, fn):
        self.pair.setdefault(name, []).append(fn)

    def apps(self, e):
        """All uninterpreted applications/constants with axioms in e (cached DAG walk)."""
        k = e.get_id()
        if k in self.appc:
            return self.appc[k][1]
        out, seen, stack = {}, set(), [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self.appc.get(i)
            if c is not None:
                for y in c[1]:
                    out[y.get_id()] = y
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = d.name()
                    if nm in self.ax or nm in self.pair:
                        out[i] = x
                stack.extend(x.children())
        r = list(out.values())
        self.appc[k] = (e, r)
        return r

    def reset_cache(self):
        self.appc = {}

    def closure(self, fs, rounds=4):
        """Instances of the axioms for the applications in fs."""
        key = set()
        for f in fs:
            for a in self.apps(f):
                key.add(a.get_id())
        key = frozenset(key)
        if key in self.clos:
            return self.clos[key][1]
        out = self.closure0(fs, rounds)
        self.clos[key] = ([a for f in fs for a in self.apps(f)], out)
        return out

    def closure0(self, fs, rounds=4):
        seen = {}
        byname = {}
        out = []
        outids = set()
        work = list(fs)
        for _ in range(rounds):
            new = []
            for f in work:
                for a in self.apps(f):
                    if a.get_id() not in seen:
                        seen[a.get_id()] = a
                        new.append(a)
            if not new:
                break
            work = []

            def emit(t):
                if t is True or t is None:
                    return
                t = z(t)
                if t.get_id() in outids:
                    return
                outids.add(t.get_id())
                out.append(t)
                work.append(t)
            for a in new:
                nm = a.decl().name()
                args = tuple(simp_arg(c) for c in a.children())
                for fn in self.ax.get(nm, ()):
                    key = (id(fn), a.get_id())
                    if key not in self.cache:
                        self.cache[key] = (a, fn, fn(*args))
                    t = self.cache[key][2]
                    if isinstance(t, (list, tuple)):
                        for q in t:
                            emit(q)
                    else:
                        emit(t)
                if nm in self.pair:
                    for b in byname.get(nm, ()):
                        bargs = tuple(simp_arg(c) for c in b.children())
                        for fn in self.pair[nm]:
                            key = (id(fn), a.get_id(), b.get_id())
                            if key not in self.cache:
                                self.cache[key] = (a, b, fn, fn(args, bargs))
                            t = self.cache[key][3]
                            if isinstance(t, (list, tuple)):
                                for q in t:
                                    emit(q)
                            else:
                                emit(t)
                    byname.setdefault(nm, []).append(a)
        return out


def simp_arg(c):
    v = conc(c)
    return v if v is not None else c


def assert_all(s, fs):
    c, so = s.ctx.ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, so, f.ast)


class Session:
    """A solver loaded with facts; goals are tried by push/pop."""

    def __init__(self, pr, fs, goals=(), timeout=1000):
        fs = [z(f) for f in fs]
        self.dead = any(z3.is_false(f) for f in fs)
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        inst = pr.ax.closure(fs + [z(g) for g in goals])
        assert_all(self.s, fs)
        assert_all(self.s, inst)

    def entails(self, g, extra=()):
        if self.dead or g is True:
            return True
        self.s.push()
        assert_all(self.s, [z(not_(g))] + [z(x) for x in extra])
        t0 = time.time()
        r = self.s.check()
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0
        self.s.pop()
        return r == z3.unsat


class Prover:
    def __init__(self, axioms):
        self.ax = axioms
        self.cache = {}

    def solve(self, fs, timeout=5000):
        """'sat' (with model), 'unsat' or 'unknown' for the conjunction of fs."""
        fs = [z(f) for f in fs]
        for f in fs:
            if z3.is_false(f):
                return "unsat", None
        inst = self.ax.closure(fs)
        s = z3.Solver()
        s.set("timeout", timeout)
        assert_all(s, fs)
        assert_all(s, inst)
        t0 = time.time()
        r = s.check()
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        # another solver configuration
        for mk in (z3.SimpleSolver, lambda: z3.SolverFor("QF_UFLIA")):
            s = mk()
            s.set("timeout", timeout)
            assert_all(s, fs)
            assert_all(s, inst)
            t0 = time.time()
            r = s.check()
            STATS["queries"] += 1
            STATS["time"] += time.time() - t0
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                return "sat", s.model()
        STATS["unknown"] += 1
        return "unknown", None

    def feasible(self, pc, timeout=2000):
        key = ("f", tuple(f.get_id() for f in pc))
        if key in self.cache:
            return self.cache[key][1]
        r, _ = self.solve(pc, timeout)
        self.cache[key] = (pc, r != "unsat")
        return r != "unsat"

    def valid(self, pc, goal, timeout=4000):
        """True if pc entails goal (False when refuted or unknown)."""
        g = conc(goal) if not isinstance(goal, bool) else goal
        if g is True:
            return True
        if g is False:
            return not self.feasible(pc, timeout)
        key = ("v", tuple(f.get_id() for f in pc), z(goal).get_id())
        if key in self.cache:
            return self.cache[key][1]
        r, _ = self.solve(list(pc) + [not_(goal)], timeout)
        self.cache[key] = ((pc, goal), r == "unsat")
        return r == "unsat"
