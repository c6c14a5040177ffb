"""Discharging obligations, results, statistics."""
import os, pickle, time, traceback, hashlib
import z3
from .terms import *
from .values import *
from .cast import Unsupported, TU, REPO, params_of
from .engine import Engine, Pieces, Frame, CODE
from .query import STATS, Prover
from .types import parse

_tus = {}


def tu(path, variant="openssl"):
    k = (path, variant)
    if k not in _tus:
        _tus[k] = TU(path, variant)
    return _tus[k]


def find1(t, q, nparams=None, pred=None):
    c = t.find(q)
    if nparams is not None:
        c = [x for x in c if len(params_of(x)) == nparams]
    if pred is not None:
        c = [x for x in c if pred(x)]
    if len(c) != 1:
        raise Unsupported("function %s: %d definitions" % (q, len(c)))
    return c[0]


def cvc5_check(fs, inst, timeout):
    """Second back end: cvc5 on the SMT-LIB dump of the same query."""
    import subprocess, tempfile
    s = z3.Solver()
    for f in fs + inst:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fh.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
        r = p.stdout.decode().split("\n")[0].strip()
    except Exception:
        r = "unknown"
    finally:
        os.unlink(fh.name)
    return r


def discharge_one(E, o, timeout=10000, confirm=False):
    t0 = time.time()
    fs = [z(f) for f in o.pc] + [z(not_(o.goal))]
    r, m = E.pr.solve(fs, timeout)
    o.backend = "z3"
    if r == "unknown":
        inst = E.ax.closure(fs)
        r2 = cvc5_check(fs, inst, timeout)
        if r2 in ("sat", "unsat"):
            r, o.backend = r2, "cvc5"
    elif r == "unsat" and confirm:
        inst = E.ax.closure(fs)
        if cvc5_check(fs, inst, timeout) == "unsat":
            o.backend = "z3+cvc5"
    o.time = time.time() - t0
    if r == "unsat":
        o.result = "proved"
    elif r == "sat":
        o.result = "refuted"
        try:
            o.model = sorted("%s = %s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:60] if m is not None else None
        except Exception:
            o.model = None
    else:
        o.result = "unknown"
    return o


def discharge(E, timeout=10000, workers=1, confirm=False):
    todo = [o for o in E.obls if o.result is None]
    if workers <= 1 or len(todo) < 40:
        for o in todo:
            discharge_one(E, o, timeout, confirm)
        return
    chunks = [todo[i::workers] for i in range(workers)]
    procs = []
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = []
            try:
                for o in ch:
                    discharge_one(E, o, timeout, confirm)
                    res.append((o.result, o.backend, o.time, o.model))
            except BaseException:
                pass
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
            os._exit(0)
        os.close(w)
        procs.append((pid, r, ch))
    for pid, r, ch in procs:
        with os.fdopen(r, "rb") as fh:
            try:
                res = pickle.load(fh)
            except Exception:
                res = []
        os.waitpid(pid, 0)
        for o, (a, b, c, d) in zip(ch, res):
            o.result, o.backend, o.time, o.model = a, b, c, d
        for o in ch[len(res):]:
            o.result, o.backend = "unknown", "none"
