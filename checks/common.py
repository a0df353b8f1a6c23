"""Shared runner: obligations in parallel, evidence, replay search, VIOLATION lines."""
import sys, os, json, time, subprocess, traceback, multiprocessing as mp, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for p in (VERIF,):
    if p not in sys.path: sys.path.insert(0, p)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path: sys.path.append(VT)
NATIVE_PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
PY_TRUST = ["pyvc: AST instrumentation, symbolic semantics of Python built-ins, loop-cut rule (/verif/pyvc)",
            "z3 5.3 / cvc5 1.1", "CPython 3.12 executes the instrumented source as it would the original"]

class Result:
    def __init__(self):
        self.obligations = self.discharged = self.paths = self.queries = 0
        self.solver_s = 0.0
        self.by = {}
        self.reach = 0
        self.failures = []       # dicts name, kind, detail, inputs, task
        self.functions = set()
        self.names = {}
        self.bounded = []        # descriptions of bounded stand-ins that ran
        self.bounded_cases = 0
        self.tasks = 0

def _run_task(args):
    mod, fn, params = args
    t0 = time.time()
    try:
        from pyvc import engine as E
        for k in ("obligations", "discharged", "paths", "queries", "drivers", "reach"): E.STATS[k] = 0
        E.STATS["solver_s"] = 0.0
        E.STATS["by"] = {"z3": 0, "cvc5": 0, "eval": 0}
        m = importlib.import_module(mod)
        engs = getattr(m, fn)(*params)
        if not isinstance(engs, (list, tuple)): engs = [engs]
        fails, names = [], {}
        for e in engs:
            for f in e.failures:
                fails.append(dict(name=f.name, kind=f.kind, detail=f.detail, inputs=f.inputs or {}, task=[fn, list(map(str, params))]))
            for k, v in e.proved_names.items(): names[k] = names.get(k, 0) + v
            if not e.failures and not e.proved_names:
                fails.append(dict(name=e.name, kind="vacuous", detail="no obligation generated", inputs={}, task=[fn, list(map(str, params))]))
            if not e.failures and not e.reached:
                fails.append(dict(name=e.name, kind="vacuous", detail="contract precondition unreachable", inputs={}, task=[fn, list(map(str, params))]))
        return dict(ok=True, stats={k: (dict(v) if isinstance(v, dict) else v) for k, v in E.STATS.items()}, fails=fails, names=names, wall=time.time() - t0, task=(fn, params))
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt): raise
        return dict(ok=False, err=f"{type(ex).__name__}: {ex}", tb=traceback.format_exc()[-3000:], task=(fn, params), wall=time.time() - t0)

def run_tasks(tasks, res, budget_s=600, procs=None):
    """tasks: list of (module, function, params)."""
    procs = procs or min(8, os.cpu_count() or 2)
    ctx = mp.get_context("fork")
    t0 = time.time()
    outs = []
    with ctx.Pool(procs, maxtasksperchild=200) as pool:
        its = [(t, pool.apply_async(_run_task, (t,))) for t in tasks]
        for t, a in its:
            left = budget_s - (time.time() - t0)
            try:
                outs.append(a.get(timeout=max(left, 0.01)))
            except mp.TimeoutError:
                outs.append(dict(ok=False, err="time budget of the check exhausted", tb="", task=(t[1], t[2]), wall=0))
        pool.terminate()
    slow = sorted(((o["wall"], str(o["task"])) for o in outs), reverse=True)[:3]
    for o in outs:
        res.tasks += 1
        if not o["ok"]:
            res.failures.append(dict(name=str(o["task"]), kind="error", detail=o["err"], inputs={}, task=[o["task"][0], list(map(str, o["task"][1]))], tb=o["tb"]))
            continue
        s = o["stats"]
        for k in ("obligations", "discharged", "paths", "queries", "reach"): setattr(res, k, getattr(res, k) + s[k])
        res.solver_s += s["solver_s"]
        for k, v in s["by"].items(): res.by[k] = res.by.get(k, 0) + v
        res.failures += o["fails"]
        for k, v in o["names"].items(): res.names[k] = res.names.get(k, 0) + v
    if os.environ.get("VERIF_DEBUG"): print("slowest", slow, file=sys.stderr)

def native(script, payload, timeout=300):
    """Run a search/replay script on the real, uninstrumented code.  Returns its JSON result."""
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.join(REPO, "flatdata-py"), os.path.join(REPO, "flatdata-generator")]),
               PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(SEED), VERIF_REPO=REPO)
    try:
        p = subprocess.run([NATIVE_PY, os.path.join(VERIF, "checks", script)], input=json.dumps(payload), capture_output=True,
                           text=True, timeout=timeout, env=env, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return dict(found=False, error="search timed out", cases=0)
    for line in reversed(p.stdout.strip().splitlines()):
        try: return json.loads(line)
        except ValueError: continue
    return dict(found=False, error=(p.stderr or p.stdout)[-3000:], cases=0, crashed=True)

def standin(res, script, payload, what, timeout=400):
    """Bounded stand-in on the real code for what no contract covers; a failing case counts as a failed obligation."""
    r = native(script, payload, timeout)
    res.bounded.append(what)
    res.bounded_cases += r.get("cases", 0)
    if r.get("found"):
        res.failures.append(dict(name="bounded stand-in", kind="counterexample", detail="failing case on the real code", inputs={}, task=[script], found=r))
    elif r.get("crashed") or r.get("error"):
        res.failures.append(dict(name="bounded stand-in", kind="error", detail=str(r.get("error"))[-600:], inputs={}, task=[script], tb=str(r.get("error"))))
    return r

def finish(pid, res, t0, functions, assumptions, search=None, level="proof", technique="pyvc", extra=None, checker=None, trusted=None,
           known=None):
    """Write evidence, print the outcome, return the exit code."""
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    violation = None
    if res.obligations == 0 and not res.failures:
        res.failures.append(dict(name=pid, kind="vacuous", detail="no obligation was generated", inputs={}, task=[]))
    if res.failures:
        found = next((f["found"] for f in res.failures if f.get("found")), None)
        if found is None and search is not None:
            try: found = search(res.failures)
            except Exception as ex: found = dict(found=False, error=repr(ex))
        violation = dict(property=pid, failed_obligations=[{k: f[k] for k in ("name", "kind", "detail", "inputs", "task")} for f in res.failures[:20]],
                         verifier_output=[f.get("tb", "") for f in res.failures[:3]], replay=found)
    cov = dict(obligations=res.obligations, discharged=res.discharged, checker_cmd=checker or f"/verif/bin/check {pid}",
               trusted_base=trusted or PY_TRUST, functions_under_contract=functions, obligation_names=dict(sorted(res.names.items())[:60]),
               distinct_obligation_names=len(res.names), discharged_by=res.by, solver_s=round(res.solver_s, 2), paths=res.paths,
               solver_queries=res.queries, reachability_checks=res.reach, tasks=res.tasks,
               bounded_standins=res.bounded, bounded_cases=res.bounded_cases)
    if extra: cov.update(extra)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for line in known or []: print(line)
    if violation:
        path = os.path.join(VERIF, "evidence", "replays", pid + ".json")
        with open(path, "w") as f: json.dump(violation, f, indent=1, default=str)
        for fl in res.failures[:5]: print(f"failed obligation: {fl['name']} [{fl['kind']}] {str(fl['detail'])[:300]} inputs={str(fl['inputs'])[:300]}")
        ok = violation["replay"] and violation["replay"].get("found")
        if ok: print("failing input:", json.dumps(violation["replay"])[:600])
        print(f"VIOLATION property={pid} replay={path}" + ("" if ok else " no-failing-input-found"))
        return 1
    print(f"OK property={pid} obligations={res.obligations} discharged={res.discharged} solver_s={res.solver_s:.1f} wall_s={time.time()-t0:.1f}")
    return 0
