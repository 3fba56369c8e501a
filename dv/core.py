"""Runner shared by all checks: tasks in worker processes, monitors, verdicts, evidence.

A check module (checks/cNN.py) defines

    PROPERTY, RULE, ASSUMPTIONS
    def tasks(tier, seed) -> list[(name, params)]     # params: JSON-able dict
    def run(name, params, mon)                        # drives the real code; mon observes

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 (VIOLATION),
exit 2 (inconclusive: a worker died, timed out, or the monitors observed too little).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")


def _jsonable(x, depth=0):
    import numpy as np

    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(x)[:64]]
    try:
        a = np.asarray(x)
        if a.dtype != object:
            if a.ndim == 0:
                return a.item() if a.dtype.kind in "biuf" else str(a)
            if a.size > 64:
                return {"shape": list(a.shape), "head": [float(v) for v in a.ravel()[:32]]}
            return a.tolist() if a.dtype.kind in "biuf" else str(a)
    except Exception:
        pass
    return repr(x)[:300]


class Mon:
    """Observes executions of one task."""

    def __init__(self, prop, task, params, seed, tier):
        self.prop, self.task, self.params = prop, task, params
        self.seed, self.tier = seed, tier
        self.cases = 0
        self.checks = 0
        self.events = {}
        self.classes = set()
        self.samples = []
        self.viol = []
        self.ctx = {}
        self.notes = {}
        self.force = bool(os.environ.get("DV_CALIBRATE"))
        self.worst = {}

    # -- workload bookkeeping
    def case(self, key, sample=None, nontrivial=True, **ctx):
        """Declare one driven case. key: what makes it distinct."""
        self.cases += 1
        if nontrivial:
            self.classes.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if len(self.samples) < 2:
            self.samples.append(_jsonable({"task": self.task, "case": key, **(sample or {}), **ctx}))
        self.ctx = {"case": key, **ctx}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    # -- oracles
    def ok(self, cond, what, **detail):
        self.checks += 1
        cond = bool(cond)
        if not cond:
            self.fail(what, **detail)
        return cond

    def fail(self, what, **detail):
        self.viol.append({"what": what, "ctx": _jsonable(self.ctx), "detail": _jsonable(detail)})

    def close(self, got, want, what, rtol=0.0, atol=0.0, equal_nan=True, **detail):
        """Elementwise |got - want| <= atol + rtol * |want| (inf/nan must coincide)."""
        import numpy as np

        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + " (shape)", got=got.shape, want=want.shape, **detail)
            return False
        if got.dtype.kind == "b" or want.dtype.kind == "b":
            good = got == want
        else:
            with np.errstate(all="ignore"):
                fin = np.isfinite(got) & np.isfinite(want)
                err = np.where(fin, np.abs(got - want), 0)
                tol = atol + rtol * np.where(fin, np.abs(want), 0)
                same = (got == want) | (np.isnan(got) & np.isnan(want) & equal_nan)
                good = np.where(fin, err <= tol, same)
                if self.force and fin.any():
                    r = float(np.max(np.where(fin, err / np.maximum(tol, 1e-300), 0)))
                    self.worst[what] = max(self.worst.get(what, 0.0), r)
        if not np.all(good):
            bad = np.argwhere(~np.atleast_1d(good))
            i = tuple(bad[0]) if got.ndim else ()
            self.fail(what, got=got[i], want=want[i], index=list(map(int, i)),
                      n_bad=len(bad), rtol=rtol, atol=atol, **detail)
            return False
        return True

    def equal(self, got, want, what, **detail):
        return self.close(got, want, what, 0.0, 0.0, **detail)

    def le(self, a, b, what, **detail):
        self.checks += 1
        if self.force:
            try:
                self.worst[what] = max(self.worst.get(what, 0.0), float(a) / max(float(b), 1e-300))
            except Exception:
                pass
        if not (a <= b):
            self.fail(what, value=a, bound=b, **detail)
            return False
        return True

    def result(self):
        return dict(task=self.task, cases=self.cases, checks=self.checks, events=self.events,
                    classes=sorted(self.classes), samples=self.samples, viol=self.viol[:20],
                    n_viol=len(self.viol), worst=self.worst)


def _setup_env():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ.setdefault(
        "XLA_FLAGS",
        "--xla_cpu_multi_thread_eigen=false",
    )
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.dont_write_bytecode = True


def _init_worker():
    _setup_env()
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    jax.config.update("jax_enable_x64", True)
    sys.path.insert(0, ROOT)
    import diffrax

    p = os.path.realpath(diffrax.__file__)
    if not p.startswith(os.environ.get("DV_REPO", "/repo") + "/"):
        raise RuntimeError(f"diffrax imported from {p}, not from the repository")


def run_task(modname, name, params, seed, tier):
    mod = importlib.import_module(modname)
    mon = Mon(mod.PROPERTY, name, params, seed, tier)
    t = time.time()
    try:
        mod.run(name, dict(params), mon)
    except BaseException as e:  # the code under test raised where it must not
        if isinstance(e, KeyboardInterrupt):
            raise
        mon.fail("unexpected exception: " + type(e).__name__,
                 message=str(e)[:1500], tb=traceback.format_exc()[-3000:])
    r = mon.result()
    r["wall"] = time.time() - t
    return r


def _worker(modname, seed, tier, inq, outq, wid):
    try:
        _init_worker()
    except BaseException:
        outq.put(("initfail", wid, traceback.format_exc()))
        return
    import jax

    n = 0
    while True:
        try:
            item = inq.get()
        except (EOFError, OSError):
            return
        if item is None:
            return
        idx, name, params = item
        outq.put(("start", wid, idx))
        r = run_task(modname, name, params, seed, tier)
        outq.put(("done", wid, idx, r))
        n += 1
        if n % 12 == 0:
            jax.clear_caches()


def _load_known(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f.get("property") == prop and f.get("status") == "known"]


def _match(finding, task, v):
    m = finding["match"]
    if "task" in m and not task.startswith(m["task"]):
        return False
    if "what" in m and m["what"] not in v["what"]:
        return False
    if "case" in m and m["case"] not in json.dumps(v.get("ctx", {})):
        return False
    return True


def main(modname, argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of task names")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DV_JOBS", "8")))
    ap.add_argument("--inline", action="store_true")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    _setup_env()
    os.environ["VERIF_TIER"] = tier
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, tier = rp["seed"], rp["tier"]
        todo = [(rp["task"], rp["params"])]
        a.inline = True
    else:
        todo = mod.tasks(tier, a.seed)
        if a.only:
            todo = [t for t in todo if a.only in t[0]]
    todo = [(n, json.loads(json.dumps(p))) for n, p in todo]
    names = [n for n, _ in todo]
    assert len(set(names)) == len(names), "duplicate task names"
    results, problems = {}, []
    limit = getattr(mod, "TASK_LIMIT", {"quick": 420, "thorough": 1500})[tier]
    total = {"quick": 800, "thorough": 4 * 3600}[tier]
    if a.inline:
        _init_worker()
        for i, (n, p) in enumerate(todo):
            results[i] = run_task(modname, n, p, a.seed, tier)
    else:
        ctx = mp.get_context("spawn")
        inq, outq = ctx.Queue(), ctx.Queue()
        # heavy tasks first
        order = sorted(range(len(todo)), key=lambda i: -todo[i][1].get("_cost", 1))
        for i in order:
            inq.put((i, todo[i][0], todo[i][1]))
        nw = max(1, min(a.jobs, len(todo)))
        for _ in range(nw * 3):
            inq.put(None)
        procs = {}
        for w in range(nw):
            p = ctx.Process(target=_worker, args=(modname, a.seed, tier, inq, outq, w), daemon=True)
            p.start()
            procs[w] = p
        running = {}
        retried = set()
        while len(results) + len(problems) < len(todo):
            try:
                msg = outq.get(timeout=2)
            except queue_mod.Empty:
                msg = None
            now = time.time()
            if msg is not None:
                if msg[0] == "start":
                    running[msg[1]] = (msg[2], now)
                elif msg[0] == "done":
                    running.pop(msg[1], None)
                    results[msg[2]] = msg[3]
                elif msg[0] == "initfail":
                    print(msg[2], file=sys.stderr)
                    print("INCONCLUSIVE: worker could not start", file=sys.stderr)
                    for p in procs.values():
                        p.kill()
                    return 2
                continue
            for w, p in list(procs.items()):
                dead = not p.is_alive()
                slow = w in running and now - running[w][1] > limit
                if dead or slow:
                    if slow:
                        p.kill()
                        p.join()
                    if w in running:
                        idx = running.pop(w)[0]
                        if dead and idx not in retried:
                            retried.add(idx)
                            inq.put((idx, todo[idx][0], todo[idx][1]))
                        elif idx not in results:
                            problems.append((todo[idx][0], "timeout" if slow else "worker died"))
                    del procs[w]
                    if len(results) + len(problems) < len(todo):
                        nid = max(list(procs) + [100]) + 1
                        np_ = ctx.Process(target=_worker, args=(modname, a.seed, tier, inq, outq, nid), daemon=True)
                        np_.start()
                        procs[nid] = np_
            if now - t0 > total:
                problems.append(("*", "total time exceeded"))
                break
        for p in procs.values():
            if p.is_alive():
                p.kill()

    # ---- verdict
    res = [results[i] for i in sorted(results)]
    known = _load_known(prop)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    nviol, printed, seen_known = 0, 0, set()
    out_lines = []
    for i in sorted(results):
        r = results[i]
        for k, v in enumerate(r["viol"]):
            hit = next((f for f in known if _match(f, r["task"], v)), None)
            if hit is not None:
                seen_known.add(hit["id"])
                continue
            nviol += 1
            if printed < int(os.environ.get("DV_PRINT", "12")):
                path = os.path.join(EVID, "replays", f"{prop}-{printed}.json")
                json.dump({"property": prop, "module": modname, "task": r["task"], "params": todo[i][1],
                           "seed": a.seed, "tier": tier, "violation": v}, open(path, "w"), indent=1)
                print(f"  {r['task']}: {v['what']} :: {json.dumps(v['ctx'])[:400]} {json.dumps(v['detail'])[:700]}")
                out_lines.append(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
                printed += 1
    for f in known:
        if f["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    cases = sum(r["cases"] for r in res)
    classes = set(c for r in res for c in r["classes"])
    checks = sum(r["checks"] for r in res)
    events = {}
    for r in res:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
    samples = [s for r in res for s in r["samples"][:1]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(classes), "rule": mod.RULE,
            "samples": samples, "oracle_evaluations": checks, "observed_events": events,
            "tasks": len(res), "inconclusive_tasks": [list(p) for p in problems],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    if not a.replay and not a.only:
        tmp = os.path.join(EVID, f".{prop}.{os.getpid()}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    if a.times:
        for r in sorted(res, key=lambda r: -r["wall"]):
            print(f"   {r['wall']:7.2f}s {r['task']} cases={r['cases']} checks={r['checks']}")
    worst = {}
    for r in res:
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
    for k, v in sorted(worst.items(), key=lambda kv: -kv[1]):
        print(f"   worst {v:10.4g} of bound: {k}")
    print(f"{prop} tier={tier} seed={a.seed} tasks={len(res)} cases={cases} distinct={len(classes)} "
          f"oracle_checks={checks} events={json.dumps(events)} violations={nviol} wall={time.time()-t0:.1f}s")
    for l in out_lines:
        print(l)
    sys.stdout.flush()
    if nviol:
        return 1
    if problems:
        print(f"INCONCLUSIVE: {problems}", file=sys.stderr)
        return 2
    if not a.replay and not a.only:
        floor = getattr(mod, "MIN_EVENTS", {})
        lack = {k: (events.get(k, 0), v) for k, v in floor.items() if events.get(k, 0) < v}
        if checks == 0 or lack:
            print(f"INCONCLUSIVE: monitors observed too little: {lack}", file=sys.stderr)
            return 2
    return 0
