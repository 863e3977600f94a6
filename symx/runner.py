"""Case execution (worker), replay, and the per-property check driver."""
import sys, os, json, time, subprocess, tempfile, importlib, traceback, signal, shutil, resource
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = "/repo"


def base_env(extra=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", PYTHONPATH=REPO + os.pathsep + ROOT,
             MALLOC_PERTURB_="173", PYTHONWARNINGS="ignore", MPLCONFIGDIR=os.environ.get("SYMX_SCRATCH", "/tmp"))
    e.pop("VERIF_REPO", None)
    if extra:
        e.update(extra)
    return e


def load(pid):
    return importlib.import_module("harness." + pid.lower())


def cases(pid, tier):
    h = load(pid)
    cs = h.cases(tier)
    for c in cs:
        c.setdefault("params", {})
    return h, cs


# ------------------------------------------------------------------------------------------------ worker
def _watch_functions():
    """names of the mlmc functions executed while a symbolic run is active"""
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return seen

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/"):
            seen.add("%s:%s" % (fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return seen


def worker(pid, tier, idx, out):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    h, cs = cases(pid, tier)
    case = cs[idx]
    from . import core, npx, symi, patch
    for m in getattr(h, "MODULES", []):
        importlib.import_module(m)
    stubs = {}
    import warnings
    warnings.simplefilter("ignore")
    npx.CONST_FN_SYMBOLIC = case.get("const_fn", True)
    patch.install(stubs)
    reset = caches()
    seen = _watch_functions()

    def make(c):
        reset()
        patch.TOK.reset()
        return symi.SymI(c, stubs)

    run = case["run"]
    params = case["params"]
    x = core.Explorer(lambda I: run(I, **params), max_paths=case.get("max_paths", 20000),
                      time_s=case.get("time_s", 60.0), query_timeout_ms=case.get("query_ms", 20000),
                      branch_timeout_ms=case.get("branch_ms", 4000), max_violations=case.get("max_violations", 4))
    err = None
    try:
        x.explore(make, want_samples=case.get("samples", 5))
    except BaseException as e:
        err = traceback.format_exc()
    res = dict(case=case["name"], stats=x.stats.as_dict(), violations=x.violations, unsupported=x.unsupported[:12],
               n_unsupported=len(x.unsupported), samples=x.path_samples, reached=x.reached, exhausted=x.exhausted,
               unknown=x.unknown_labels, error=err, wall_s=time.time() - t0, functions=sorted(seen),
               partial=x.partial_inputs[:8])
    with open(out, "w") as f:
        json.dump(res, f)


def caches():
    """memoisation caches of the code under test are cleared at the start of each path (a path = one process history)"""
    def reset():
        q = sys.modules.get("mlmc.quantity.quantity")
        if q is None:
            return
        for v in list(q.__dict__.values()):
            if isinstance(v, type):
                for a in list(v.__dict__.values()):
                    f = getattr(a, "cache_clear", None)
                    if callable(f):
                        f()
    return reset


# ------------------------------------------------------------------------------------------------ replay
def replay(pid, tier, inp, out):
    """runs harness cases with concrete inputs on the unpatched code"""
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter("ignore")
    from .inputs import run_concrete
    h, cs = cases(pid, tier)
    by = {c["name"]: c for c in cs}
    reset = caches()
    items = json.load(open(inp))
    res = []

    class TO(BaseException):
        pass

    def on_alarm(*a):
        raise TO("replay time limit")
    signal.signal(signal.SIGALRM, on_alarm)
    for it in items:
        c = by.get(it["case"])
        if c is None:
            res.append(dict(failed=[], error=("missing", "no such case"), reached={}, observed=[]))
            continue
        reset()
        signal.alarm(60)
        try:
            r = run_concrete(c["run"], c["params"], it["inputs"])
        finally:
            signal.alarm(0)
        r["functions"] = []
        res.append(r)
        with open(out, "w") as f:
            json.dump(res, f)
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------------------------------------ driver
def run_workers(pid, tier, n, scratch, limit_s, jobs=8):
    procs = {}
    results = [None] * n
    todo = list(range(n))
    t0 = time.time()
    while todo or procs:
        while todo and len(procs) < jobs:
            i = todo.pop(0)
            out = os.path.join(scratch, "w%d.json" % i)
            log = open(os.path.join(scratch, "w%d.log" % i), "w")
            sd = os.path.join(scratch, "s%d" % i)
            os.makedirs(sd)
            p = subprocess.Popen([PY, "-m", "symx.runner", "worker", pid, tier, str(i), out], cwd=ROOT, stdout=log,
                                 stderr=subprocess.STDOUT, env=base_env({"SYMX_SCRATCH": sd}), start_new_session=True)
            procs[i] = (p, out, log, time.time())
        time.sleep(0.05)
        for i, (p, out, log, ts) in list(procs.items()):
            if p.poll() is not None:
                log.close()
                del procs[i]
                try:
                    results[i] = json.load(open(out))
                except Exception:
                    tail = open(os.path.join(scratch, "w%d.log" % i)).read()[-2000:]
                    results[i] = dict(error="worker ended with %s\n%s" % (p.returncode, tail))
        if time.time() - t0 > limit_s:
            for i, (p, out, log, ts) in procs.items():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                log.close()
                results[i] = dict(error="time limit of the check reached")
            for i in todo:
                results[i] = dict(error="not started: time limit of the check reached")
            break
    return results


def run_replay(pid, tier, items, scratch, name):
    if not items:
        return []
    inp = os.path.join(scratch, name + "_in.json")
    json.dump(items, open(inp, "w"))
    # split over processes
    k = min(8, max(1, len(items) // 4))
    parts = [list(range(i, len(items), k)) for i in range(k)]
    ps = []
    for j, part in enumerate(parts):
        pin = os.path.join(scratch, "%s_in%d.json" % (name, j))
        pout = os.path.join(scratch, "%s_out%d.json" % (name, j))
        json.dump([items[i] for i in part], open(pin, "w"))
        sd = os.path.join(scratch, "%s_s%d" % (name, j))
        os.makedirs(sd, exist_ok=True)
        log = open(os.path.join(scratch, "%s%d.log" % (name, j)), "w")
        p = subprocess.Popen([PY, "-m", "symx.runner", "replay", pid, tier, pin, pout], cwd=ROOT, stdout=log,
                             stderr=subprocess.STDOUT, env=base_env({"SYMX_SCRATCH": sd}), start_new_session=True)
        ps.append((p, part, pout, log))
    res = [None] * len(items)
    t0 = time.time()
    for p, part, pout, log in ps:
        try:
            p.wait(timeout=max(1.0, 240 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        log.close()
        try:
            r = json.load(open(pout))
        except Exception:
            r = []
        for i, rr in zip(part, r):
            res[i] = rr
    return res


def is_violation(r):
    """does a replay result show a violation on the real code?"""
    if r is None:
        return None
    if r["error"] and r["error"][0] == "assumption":
        return None
    if r["error"] and r["error"][0] == "exception":
        return "exception " + r["error"][1]
    hard = [f for f in r["failed"] if f[2]]
    if hard:
        return "%s: %s" % (hard[0][0], hard[0][1])
    return None


def main(pid, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="symx_%s_" % pid)
    try:
        return _main(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def _main(pid, tier, seed, scratch, t0):
    os.environ["SYMX_SCRATCH"] = scratch
    # the case list is computed in a separate process so that this driver never imports code under test
    lst = subprocess.run([PY, "-m", "symx.runner", "list", pid, tier], cwd=ROOT, env=base_env(), capture_output=True, text=True)
    try:
        info = json.loads(lst.stdout.strip().splitlines()[-1])
    except Exception:
        info = None
    viol = []          # (label, message, case, inputs)
    notes = []
    results = []
    if info is None:
        # the modules cannot even be imported: confirm and report
        sys.stdout.write("check %s: cannot load harness/code under test:\n%s\n" % (pid, (lst.stdout + lst.stderr)[-3000:]))
        msg = (lst.stdout + lst.stderr)[-1500:]
        if "/repo/mlmc" in msg or "mlmc" in msg:
            viol.append(("import", "code under test cannot be imported: " + msg[-300:], None, {}))
        info = dict(cases=[], meta={})
    cs = info["cases"]
    meta = info["meta"]
    limit = meta.get("limit_s", {}).get(tier, 600 if tier == "quick" else 3400)
    results = run_workers(pid, tier, len(cs), scratch, limit)
    # ---- collect replay items
    items, origin = [], []
    for c, r in zip(cs, results):
        for v in r.get("violations") or []:
            for inp in v["inputs"]:
                items.append(dict(case=c["name"], inputs=inp)); origin.append(("cex", c, v))
        for inp in r.get("partial") or []:
            items.append(dict(case=c["name"], inputs=inp)); origin.append(("partial", c, None))
        for s in (r.get("samples") or []):
            items.append(dict(case=c["name"], inputs=s["inputs"])); origin.append(("sample", c, s))
        if c.get("probe", True) and not r.get("samples") and not r.get("violations"):
            items.append(dict(case=c["name"], inputs={})); origin.append(("partial", c, None))
    rr = run_replay(pid, tier, items, scratch, "rp")
    known = known_findings(pid)
    known_hit = {}
    n_rep = n_val = n_mis = n_cex = n_unrep = 0
    seen_unrep = {}
    for (kind, c, v), it, r in zip(origin, items, rr):
        bad = is_violation(r)
        k = match_known(known, c["name"], it["inputs"], bad) if bad else None
        if kind == "cex":
            n_cex += 1
            if k is not None:
                known_hit.setdefault(k["id"], bad)
            elif bad:
                n_rep += 1
                viol.append((v["label"], bad, c["name"], it["inputs"]))
            else:
                seen_unrep.setdefault((c["name"], v["label"]), (v["msg"], r and r.get("error")))
                if os.environ.get("SYMX_DEBUG"):
                    print("unreproduced", c["name"], v["label"], it["inputs"], r)
                n_unrep += 1
        else:
            if r is None:
                notes.append("replay of a path witness of %s gave no result" % c["name"])
                continue
            n_val += 1
            if k is not None:
                known_hit.setdefault(k["id"], bad)
            elif bad:
                n_mis += 1
                viol.append(("witness", bad, c["name"], it["inputs"]))
            elif r["failed"] and kind == "sample":
                notes.append("non-robust check differs in floating point on a witness of %s" % c["name"])
            if kind == "sample" and not bad:
                m = compare_obs(v["observed"], r["observed"])
                if m:
                    notes.append("observable differs between encoding and real code in %s: %s" % (c["name"], m))
    # ---- known findings that must still be printed: replay their recorded inputs
    if known:
        kit = [dict(case=k["case"], inputs=k["inputs"]) for k in known if k["case"] in {c["name"] for c in cs}]
        kk = [k for k in known if k["case"] in {c["name"] for c in cs}]
        for k, r in zip(kk, run_replay(pid, tier, kit, scratch, "kf")):
            if is_violation(r):
                known_hit.setdefault(k["id"], is_violation(r))
    # ---- inconclusive parts
    inconc = []
    tot = {}
    funcs = set()
    vac = []
    for c, r in zip(cs, results):
        if r.get("error"):
            inconc.append("%s: %s" % (c["name"], str(r["error"]).strip().splitlines()[-1][:300]))
        for k_, v_ in (r.get("stats") or {}).items():
            tot[k_] = tot.get(k_, 0) + v_
        funcs.update(r.get("functions") or [])
        if r.get("n_unsupported"):
            inconc.append("%s: %d path(s) not encodable, e.g. %s" % (c["name"], r["n_unsupported"], r["unsupported"][0]))
        if r.get("unknown"):
            inconc.append("%s: solver gave no answer for %s" % (c["name"], r["unknown"]))
        if "exhausted" in r and not r["exhausted"] and not r.get("violations"):
            inconc.append("%s: budget ended before all paths were explored (%d explored)" % (c["name"], r["stats"]["paths"]))
        if not r.get("reached") and not r.get("violations") and not r.get("error"):
            vac.append(c["name"])
    for (cn, lab), (msg, er) in seen_unrep.items():
        if not any(v[2] == cn for v in viol):
            inconc.append("%s: counterexample for '%s' did not reproduce on the real code (%s; %s)" % (cn, lab, msg, (er or [""])[-1] if er else ""))
    if vac:
        inconc.append("vacuous cases: " + ", ".join(vac))
    # ---- evidence
    wall = time.time() - t0
    cov = dict(
        explanation=("Symbolic execution of the real functions (CPython runs /repo's current source with z3 terms as "
                     "values; every feasible branch is explored by re-execution) and z3 decides each assertion for all "
                     "values on each path within the bounds. Counterexamples are replayed on the unpatched code."),
        functions_encoded=sorted(funcs), bounds=meta.get("bounds", ""), outside=meta.get("outside", ""),
        stubs=meta.get("stubs", []),
        cases=[dict(case=c["name"], paths=(r.get("stats") or {}).get("paths"), queries=(r.get("stats") or {}).get("queries"),
                    exhausted=r.get("exhausted"), wall_s=round(r.get("wall_s") or 0, 2), reached=r.get("reached")) for c, r in zip(cs, results)],
        totals=dict(paths=tot.get("paths", 0), property_queries=tot.get("queries", 0), discharged_unsat=tot.get("unsat", 0),
                    closed_by_normalisation=tot.get("trivial", 0), refuted_sat=tot.get("sat", 0), unknown=tot.get("unknown", 0),
                    branch_queries=tot.get("branch_queries", 0), assertions_without_symbolic_part=tot.get("checks_concrete", 0),
                    solver_seconds=round(tot.get("solver_s", 0.0), 2)),
        engine_validation=dict(path_witnesses_replayed=n_val, witness_failures=n_mis, counterexamples=n_cex,
                               counterexamples_reproduced=n_rep, not_reproduced=n_unrep, notes=notes[:20]),
        inconclusive=inconc)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 2),
              assumptions=meta.get("assumptions", []) + GLOBAL_ASSUMPTIONS,
              violations=[dict(label=v[0], what=v[1], case=v[2], inputs=v[3]) for v in viol[:10]])
    evp = os.path.join(ROOT, "evidence", pid + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    # ---- output
    print("check %s tier=%s: %d cases, %d paths, %d property queries (%d unsat, %d sat, %d unknown), %d branch queries, "
          "solver %.1fs, wall %.1fs" % (pid, tier, len(cs), tot.get("paths", 0), tot.get("queries", 0), tot.get("unsat", 0),
                                        tot.get("sat", 0), tot.get("unknown", 0), tot.get("branch_queries", 0),
                                        tot.get("solver_s", 0.0), wall))
    for s in inconc:
        print("INCONCLUSIVE:", s)
    for s in notes[:10]:
        print("NOTE:", s)
    for k in known:
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rp = os.path.join(ROOT, "evidence", "replay_%s.json" % pid)
        json.dump([dict(property=pid, tier=tier, label=v[0], what=v[1], case=v[2], inputs=v[3]) for v in viol[:20]],
                  open(rp, "w"), indent=1)
        for v in viol[:4]:
            print("  violated: case %s: %s [%s] inputs %s" % (v[2], v[1][:400], v[0], json.dumps(v[3])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def match_known(known, case, inputs, what):
    for k in known:
        if k["case"] != case and not (k.get("case_prefix") and case.startswith(k["case_prefix"])):
            continue
        if k.get("match_what") and k["match_what"] not in what:
            continue
        if all(inputs.get(n) == v for n, v in k.get("match_inputs", k["inputs"]).items()):
            return k
    return None


def compare_obs(a, b):
    import math
    if len(a) != len(b):
        return "different number of observations"
    for (l1, x), (l2, y) in zip(a, b):
        fx, fy = _fl(x), _fl(y)
        if len(fx) != len(fy):
            return l1
        for u, w in zip(fx, fy):
            if u is None or w is None:
                continue
            if isinstance(u, str) or isinstance(w, str):
                if u != w:
                    return l1
                continue
            if u != u and w != w:
                continue
            if abs(u - w) > 1e-5 * max(1, abs(u), abs(w)):
                return "%s: %r vs %r" % (l1, u, w)
    return None


def _fl(x):
    if isinstance(x, (list, tuple)):
        r = []
        for i in x:
            r.extend(_fl(i))
        return r
    return [x]


GLOBAL_ASSUMPTIONS = [
    "reals are exact in the encoding (IEEE rounding, overflow and signed zero are outside the claim); NaN is modelled explicitly",
    "python integers are mathematical; numpy int64 overflow is outside the claim",
    "numpy/scipy/h5py primitives listed under stubs behave by their documented contract; path witnesses and counterexamples are replayed on the real libraries",
]


def cmd_list(pid, tier):
    h, cs = cases(pid, tier)
    keep = ("name", "probe")
    print(json.dumps(dict(cases=[{k: c[k] for k in keep if k in c} for c in cs], meta=getattr(h, "META", {}))))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "worker":
        worker(a[1], a[2], int(a[3]), a[4])
    elif a[0] == "replay":
        replay(a[1], a[2], a[3], a[4])
    elif a[0] == "list":
        cmd_list(a[1], a[2])
