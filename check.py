#!/usr/bin/env python3
"""Decides one property:  check.py <ID> quick|thorough

1. Deductive part: every contract unit of the property is re-extracted from /repo's current
   source (clang AST), its obligations generated and discharged (cppvc, z3, cvc5).
2. Replay part: the native oracle of the property is built from /repo's current source and run;
   it supplies failing inputs (and is the bounded stand-in for what the prover could not decide).

Outcome: failing input found -> VIOLATION with it; obligation refuted without one -> VIOLATION
... no-failing-input-found; otherwise exit 0 (undecided units are reported as bounded in the evidence).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPPVC_REPO", "/repo")
sys.path.insert(0, HERE)
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
ABSL = "absl_status absl_statusor absl_synchronization absl_strings absl_flat_hash_set absl_flat_hash_map absl_variant absl_cord absl_str_format"


def unit_main(prop_out, mod, func, args, timeout, confirm, deadline):
    """Runs in a python3-vt subprocess: one contract unit -> JSON."""
    import importlib, signal, traceback
    from cppvc import engine as EN, verify as V
    from cppvc.cast import Unsupported
    engines = []
    init = EN.Engine.__init__

    def reg(self, *a, **k):
        init(self, *a, **k)
        engines.append(self)
    EN.Engine.__init__ = reg
    r = dict(unit=" ".join([mod, func] + list(args)), error=None, obls=[])
    t0 = time.time()

    class Late(Exception):
        pass

    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(deadline))
    try:
        m = importlib.import_module("contracts." + mod)
        getattr(m, func)(*args)
    except Unsupported as e:
        r["error"] = "outside the verifier's subset: %s" % str(e)[:1500]
    except Late:
        r["error"] = "time limit of %d s reached while generating obligations" % deadline
    except Exception:
        r["error"] = "internal error: " + traceback.format_exc()[-1500:]
    signal.alarm(0)
    r["gen_s"] = time.time() - t0
    t1 = time.time()
    left = max(20, deadline - r["gen_s"])
    for E in engines:
        todo = [o for o in E.obls if o.result is None]
        for o in todo:
            if time.time() - t1 > left:
                o.result, o.backend = "unknown", "none"
                continue
            V.discharge_one(E, o, timeout, confirm)
        for o in E.obls:
            r["obls"].append(dict(func=o.func, name=o.name, kind=o.kind, loc=o.loc, props=list(o.props or ()), result=o.result,
                                  backend=o.backend, time=round(o.time or 0, 3), model=o.model if o.result == "refuted" else None,
                                  trace=str(getattr(o, "trace", ""))[:2000] if o.result != "proved" else None))
    r["inlined"] = sorted({f for E in engines for f in E.stats.get("inlined", ())})
    r["discharge_s"] = time.time() - t1
    with open(prop_out, "w") as fh:
        json.dump(r, fh, default=str)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


class Native:
    """Builds the oracles from /repo's current sources."""

    def __init__(self, work):
        self.work = work
        self.libs = sh(["pkg-config", "--libs"] + ABSL.split()).stdout.decode().split()
        self.san = ["-fsanitize=address"]

    def sources(self, variant):
        fs = sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True))
        fs = [f for f in fs if not re.search(r"_test\.cc$|/fake_|test_util|/test_util/|fuzz|benchmark|example", f)]
        if variant == "boringssl":
            fs = [f for f in fs if "/src/crypto/" in f and not f.endswith("_openssl.cc")]
        else:
            fs = [f for f in fs if not f.endswith("_boringssl.cc")]
        return fs

    def flags(self, variant, san):
        return (["-std=c++14", "-O1", "-g", "-w"] + san + (["-I/usr/include/android", "-DORACLE_BORINGSSL"] if variant == "boringssl" else []) +
                ["-I" + REPO, "-I" + HERE + "/miniupb", "-I" + HERE + "/native"])

    def lib(self, variant, pool, san):
        tag = variant + ("t" if "thread" in "".join(san) else "")
        d = os.path.join(self.work, tag)
        os.makedirs(d, exist_ok=True)
        jobs, objs = [], []
        for f in self.sources(variant):
            o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".o")
            jobs.append(["g++"] + self.flags(variant, san) + ["-c", f, "-o", o])
            objs.append(o)
        if variant != "boringssl":
            for f in sorted(glob.glob(REPO + "/src/proto/upb-generated/proto/*.upb.c")):
                o = os.path.join(d, os.path.basename(f) + ".o")
                jobs.append(["gcc", "-w"] + ["-I" + REPO, "-I" + HERE + "/miniupb", "-c", f, "-o", o])
                objs.append(o)
        return jobs, objs, os.path.join(d, "lib.a")

    def build(self, oracles, pool):
        """-> {oracle: binary or error text}"""
        out, plan, jobs = {}, {}, []
        for (src, variant, wraps) in oracles:
            san = ["-fsanitize=thread"] if src.endswith("tsan") else self.san
            if (variant, san[0]) not in plan:
                j, objs, lib = self.lib(variant, pool, san)
                plan[variant, san[0]] = (objs, lib)
                jobs += j
            for s in ("common", src):
                o = os.path.join(self.work, "o_%s_%s_%s.o" % (s, variant, san[0][-3:]))
                j = ["g++"] + self.flags(variant, san) + ["-c", HERE + "/native/%s.cc" % s, "-o", o]
                if j not in jobs:
                    jobs.append(j)
        res = list(pool.map(lambda j: (j, sh(j)), jobs))
        bad = {j[-1]: r.stdout.decode()[-1500:] for j, r in res if r.returncode}
        for objs, lib in plan.values():
            sh(["ar", "rcs", lib] + [o for o in objs if o not in bad])
        for key in oracles:
            (src, variant, wraps) = key
            san = ["-fsanitize=thread"] if src.endswith("tsan") else self.san
            os_ = [os.path.join(self.work, "o_%s_%s_%s.o" % (s, variant, san[0][-3:])) for s in ("common", src)]
            if any(o in bad for o in os_):
                out[key] = (None, "the oracle does not compile against the current tree: " + bad.get(os_[1], bad.get(os_[0], "")))
                continue
            binp = os.path.join(self.work, "oracle_%s_%s" % (src, variant))
            ssl = ["/usr/lib/x86_64-linux-gnu/android/libcrypto.so", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android"] if variant == "boringssl" else ["-lcrypto"]
            w = ["-Wl," + ",".join("--wrap=" + x for x in wraps)] if wraps else []
            r = sh(["g++"] + san + os_ + w + [plan[variant, san[0]][1]] + self.libs + ssl + ["-lpthread", "-o", binp])
            out[key] = (binp, None) if r.returncode == 0 else (None, "the oracle does not link: " + (r.stdout.decode()[-800:] + " ".join(bad.values()))[:2500])
        return out


def literals(files):
    s = set()
    for f in files:
        try:
            t = open(os.path.join(REPO, f)).read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", t):
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1))
            if 2 < v < 10 ** 6:
                s.add(v)
    return [str(x) for x in sorted(s)[:80]]


def run_oracle(binp, prop, seed, secs, replay, lits):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1", TSAN_OPTIONS="exitcode=66:halt_on_error=1")
    try:
        p = subprocess.run([binp, prop, str(seed), str(secs), replay] + lits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=secs + 240, cwd=os.path.dirname(binp))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "oracle timed out"


def known():
    """Open findings: 'open: property=<id> match=<regex> <what fails>'."""
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from units import PROPS, ASSUME
    P = PROPS[prop]
    thorough = tier == "thorough"
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    rdir = os.path.join(ev, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".txt")
    for f in glob.glob(os.path.join(rdir, prop + ".*")):
        os.unlink(f)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    secs = P.get("secs", 15) * (8 if thorough else 1)
    deadline = 1500 if thorough else 560
    timeout = 60000 if thorough else 10000
    try:
        with ThreadPoolExecutor(8) as pool:
            units = []
            for i, u in enumerate(P["units"] + P.get("callees", [])):
                out = os.path.join(work, "unit%d.json" % i)
                cmd = [PY, os.path.abspath(__file__), "--unit", out, str(timeout), "1" if thorough else "0", str(deadline)] + list(u)
                units.append((u, out, cmd))
            # native build first (short), then proof units and oracle runs share the cores
            nat = Native(work)
            built = nat.build(P["oracle"], pool)

            def one(x):
                u, out, cmd = x
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=deadline + 120, cwd=HERE, env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
                    if os.path.exists(out):
                        return json.load(open(out))
                    return dict(unit=" ".join(u), error="internal error: " + r.stdout.decode()[-1500:], obls=[], gen_s=0, discharge_s=0, inlined=[])
                except subprocess.TimeoutExpired:
                    return dict(unit=" ".join(u), error="time limit", obls=[], gen_s=deadline, discharge_s=0, inlined=[])
            lits = literals(P["files"])
            runs = []
            k = max(1, 3 // max(1, len(P["oracle"]))) if not thorough else 3
            for key in P["oracle"]:
                binp, err = built[key]
                if binp:
                    for i in range(k):
                        rp = "%s.%s.%s.%d" % (replay, key[0], key[1], i)
                        runs.append((key, rp, pool.submit(run_oracle, binp, prop, seed * 1000 + i, secs, rp, lits)))
            futs = [pool.submit(one, x) for x in units]
            results = [f.result() for f in futs]
            natres = [(key, rp, f.result()) for key, rp, f in runs]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # -- deductive part
    ncal = len(P["units"])
    rel = [(r, o) for i, r in enumerate(results) for o in r["obls"] if prop in o["props"] or i >= ncal or o["kind"] not in ("post", "lock", "lemma")]
    if prop != "P24":
        rel = [(r, o) for r, o in rel if o["kind"] != "lock"]
    # a refuted obligation of a callee's contract is a violation of the callee's own property; here it leaves the proof open
    own = {id(r) for r in results[:ncal]}
    # an inferred loop invariant that is not inductive is a failure of the inference, not of the code
    infer = lambda o: o["result"] == "refuted" and o["kind"] == "invariant"
    refuted = [o for r, o in rel if o["result"] == "refuted" and id(r) in own and not infer(o)]
    unknown = [o for r, o in rel if o["result"] not in ("refuted", "proved") or infer(o)]
    undec = ["%s: %s" % (r["unit"], r["error"]) for r in results if r["error"]]
    undec += ["%s: obligation '%s' (%s) at %s not decided" % (r["unit"], o["name"], o["kind"], o["loc"]) for r, o in rel if o["result"] not in ("refuted", "proved") or infer(o)]
    undec += ["%s: callee contract not met: '%s' (%s) at %s" % (r["unit"], o["name"], o["kind"], o["loc"]) for r, o in rel if o["result"] == "refuted" and id(r) not in own and not infer(o)]
    for r in results:
        if not r["error"] and not [o for o in r["obls"]]:
            undec.append(r["unit"] + ": generated no obligations")
    # -- native part
    fails = [(key, rp, rc, txt) for key, rp, (rc, txt) in natres if rc == 1 or (rc not in (0, 1, 3, 124) and "FAIL" in txt) or rc == 66]
    naterr = ["%s/%s: %s" % (k[0], k[1], e) for k, (b, e) in built.items() if e]
    naterr += ["%s/%s: oracle ended with %d: %s" % (k[0], k[1], rc, t[-800:]) for k, rp, (rc, t) in natres if rc != 0 and not any(rp == f[1] for f in fails)]
    cases = sum(int(m.group(1)) for _, _, (rc, t) in natres for m in [re.search(r"OK cases=(\d+)", t)] if m)
    distinct = sum(int(m.group(1)) for _, _, (rc, t) in natres for m in [re.search(r"distinct=(\d+)", t)] if m)
    samples = [l[7:] for _, _, (rc, t) in natres for l in t.split("\n") if l.startswith("SAMPLE ")][:4]

    kn = [k for k in known() if k[0] == prop]
    viol, knownhit = None, []
    if fails:
        key, rp, rc, txt = fails[0]
        body = open(rp).read() if os.path.exists(rp) else ""
        hit = [k for k in kn if re.search(k[1], body + txt)]
        if hit and all(any(re.search(k[1], t) for k in kn) for _, _, _, t in fails):
            knownhit += hit
        else:
            with open(replay, "w") as fh:
                fh.write("Failing input found by replay on the real code (oracle %s, %s build, seed %d; rerun: VERIF_SEED=%d python3 check.py %s %s)\n\n%s\n%s\n" % (key[0], key[1], seed, seed, prop, tier, body, txt[-6000:]))
                for o in refuted[:10]:
                    fh.write("\nfailed obligation: %s: %s (%s) at %s [%s]\n" % (o["func"], o["name"], o["kind"], o["loc"], o["backend"]))
            viol = "VIOLATION property=%s replay=%s" % (prop, replay)
    if not viol and refuted:
        with open(replay, "w") as fh:
            fh.write("property=%s\nThe verifier refutes %d obligation(s) generated from /repo's current source; no failing input was found in %d native cases.\n" % (prop, len(refuted), cases))
            for o in refuted[:20]:
                fh.write("\nfailed obligation: %s: %s (%s) at %s [%s]\npath: %s\nverifier's counterexample (symbolic values):\n  %s\n" % (
                    o["func"], o["name"], o["kind"], o["loc"], o["backend"], o.get("trace"), "\n  ".join(o["model"] or ["(none printed)"])))
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)

    funcs = sorted({o["func"] for r, o in rel if o["func"]})
    proved = [o for r, o in rel if o["result"] == "proved"]
    back = {}
    for o in proved:
        back[o["backend"]] = back.get(o["backend"], 0) + 1
    complete = not undec and not refuted and bool(proved)
    cov = dict(obligations=len(rel), discharged=len(proved),
               checker_cmd="%s check.py %s %s" % ("python3", prop, tier),
               trusted_base=["clang 18 front end (AST)", "cppvc VC generator (/verif/cppvc) and its library models", "z3", "cvc5"] + P.get("trusted", []),
               functions_under_contract=funcs, functions_executed=sorted({f for r in results for f in r.get("inlined", [])}), units=[dict(unit=r["unit"], obligations=len(r["obls"]), gen_s=round(r["gen_s"], 1), solver_s=round(sum(o["time"] for o in r["obls"]), 1), error=r["error"]) for r in results],
               backends=back, obligations_refuted=len(refuted), obligations_undecided=len(unknown), complete=complete,
               undecided=undec[:30], replay_native=dict(cases=cases, distinct_nontrivial=distinct, samples=samples, problems=naterr,
                                                         role="searches failing inputs for refuted obligations; bounded stand-in where undecided is non-empty" if undec else "searches failing inputs; adds nothing to the proof"))
    e = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof", coverage=cov,
             assumptions=ASSUME + P.get("assume", []) + (["BOUNDED ONLY for the units listed in coverage.undecided"] if undec else []),
             wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    if not proved:
        e["level"] = "exploration"
        cov.update(evaluations=cases, distinct_nontrivial=distinct, rule="random structured cases around boundaries and the literals of the code; non-trivial as defined by each oracle in /verif/native", samples=samples)
    with open(os.path.join(ev, prop + ".json"), "w") as fh:
        json.dump(e, fh, indent=1)
    print("%s: %d/%d obligations discharged over %d units (%s), %d undecided; native cases %d; %.0f s" % (prop, len(proved), len(rel), len(results), back, len(undec), cases, time.time() - t0))
    for u in undec[:12]:
        print("  undecided: " + u[:600])
    for u in naterr[:6]:
        print("  native: " + u[:600])
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if viol:
        print(viol)
        return 1
    if (undec or not rel) and not cases:
        print("neither proof nor replay could be run on the current tree")
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--unit":
        unit_main(sys.argv[2], sys.argv[6], sys.argv[7], sys.argv[8:], int(sys.argv[3]), sys.argv[4] == "1", float(sys.argv[5]))
    else:
        sys.exit(main())
